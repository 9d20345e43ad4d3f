"""Generation of the entry translation unit: one extern "C" function per operation and variant, each of
which does nothing but call the library."""
import ops

CT = {'f': 'float', 'd': 'double', 'l': 'long double'}
SZ = {'f': 4, 'd': 8, 'l': 16}

PRE = r'''
#include "p1788/p1788.hpp"
#include "p1788/reduction/reduction.hpp"
#include <initializer_list>
#include <cstdint>
#include <new>
#include <sstream>
#include <string>
#include <cstring>
template<class T> using F = p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor<T>;
template<class T> using R = typename F<T>::representation;
template<class T> using D = typename F<T>::representation_dec;
template<class T> using BI = p1788::infsup::interval<T, p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor>;
template<class T> using DI = p1788::infsup::decorated_interval<T, p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor>;
typedef p1788::decoration::decoration DEC;
template<class T> struct HR { T v; int t; };
template<class T> struct VEC { T const* p; size_t n; };
extern "C" p1788::exception::exception_bits* g_state() { return &p1788::exception::state(); }
extern "C" p1788::exception::exception_bits* g_cwd() { return &p1788::exception::cwd(); }
'''


MEM = r'''
#include <cfenv>
#include <cstdlib>
static long live_ = 0;
static void* m_alloc(size_t n) { ++live_; return malloc(n); }
static void* m_realloc(void* p, size_t, size_t n) { return realloc(p, n); }
static void m_free(void* p, size_t) { --live_; free(p); }
extern "C" void g_mem_init() { mp_set_memory_functions(m_alloc, m_realloc, m_free); }
extern "C" long g_mem_live() { mpfr_free_cache(); mpfr_mp_memory_cleanup(); return live_; }
'''


NEW = r'''
#ifdef VP_REPLAY
void* operator new(size_t n) { ++live_; return malloc(n ? n : 1); }
void* operator new[](size_t n) { ++live_; return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { if (p) --live_; free(p); }
void operator delete[](void* p) noexcept { if (p) --live_; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) --live_; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) --live_; free(p); }
#endif
'''


class Entry:
    """op, dec (decorated), T (result type letter), A (operand type letters, '' = not mixed)"""
    def __init__(self, op, dec, T, A='', kind='flavor'):
        self.op, self.dec, self.T, self.A, self.kind = op, dec, T, A, kind
        self.args, self.ret = ops.SIG[op]

    @property
    def name(self):
        return ('e' if self.kind == 'flavor' else self.kind) + '_%s_%s_%s%s' % (self.op, 'd' if self.dec else 'b', self.T, '_' + self.A if self.A else '')

    def argtypes(self):
        r = []
        j = 0
        for c in self.args:
            if c in 'inxv':
                r.append(self.A[j] if self.A else self.T)
                j += 1
            else:
                r.append(None)
        return r

    def ptypes(self):
        self.code()
        return self._ts

    def code(self):
        ps, cs, ts = [], [], []
        self._ts = ts
        if self.kind != 'flavor':
            import api
            ps, o, st = api.code(self)
            ts.extend([p.rsplit(' ', 1)[0] for p in ps] + [o + '*'])
            return 'extern "C" void %s(%s%s* o) { %s }\n' % (self.name, ''.join(p + ', ' for p in ps), o, st)
        if self.op in ops.RED:
            import red
            ps, o, st = red.code(self)
            ts.extend([p.rsplit(' ', 1)[0] for p in ps] + [o + '*'])
            return 'extern "C" void %s(%s%s* o) { %s }\n' % (self.name, ''.join(p + ', ' for p in ps), o, st)
        rep = 'D' if self.dec else 'R'
        for i, (c, t) in enumerate(zip(self.args, self.argtypes())):
            if c == 'i':
                ps.append('%s<%s> const* a%d' % (rep, CT[t], i))
                cs.append('*a%d' % i)
            elif c == 'x':      # always bare
                ps.append('R<%s> const* a%d' % (CT[t], i))
                cs.append('*a%d' % i)
            elif c == 'n':
                ps.append('%s const* a%d' % (CT[t], i))
                cs.append('*a%d' % i)
            elif c == 'k':
                ps.append('int const* a%d' % i)
                cs.append('*a%d' % i)
            elif c == 'e':
                ps.append('DEC const* a%d' % i)
                cs.append('*a%d' % i)
        T = CT[self.T]
        if self.op in ops.HELPER:
            ts.extend([p.rsplit(' ', 1)[0] for p in ps] + ['HR<%s>*' % T])
            return 'extern "C" void %s(%s, HR<%s>* o) { %s }\n' % (self.name, ', '.join(ps), T, ops.HELPER[self.op].format(T=T))
        o = {'i': '%s<%s>' % (rep, T), 'x': 'R<%s>' % T, 'y': 'D<%s>' % T, 'n': T, 'b': 'uint8_t', 'o': 'uint32_t', 'p': 'std::pair<%s,%s>' % (T, T),
             'q': 'std::pair<%s<%s>,%s<%s>>' % (rep, T, rep, T), 'e': 'DEC'}[self.ret]
        call = 'F<%s>::%s(%s)' % (T, ops.CNAME.get(self.op, self.op), ', '.join(cs))
        if self.op == 'two_sum':
            call = 'p1788::util::two_sum<%s>(%s)' % (T, ', '.join(cs))
        if self.ret in 'bo':
            call = 'static_cast<%s>(%s)' % (o, call)
        for p in ps:
            ts.append(p.rsplit(' ', 1)[0])
        ts.append(o + '*')
        return 'extern "C" void %s(%s%s* o) { *o = %s; }\n' % (self.name, ''.join(p + ', ' for p in ps), o, call)


def unit(entries, replay=False):
    import api
    names = {e.name for e in entries}
    for e in list(entries):
        if e.kind not in ('flavor', 'ref') and api.ref(e).name not in names:
            entries = list(entries) + [api.ref(e)]
            names.add(api.ref(e).name)
    s = ('// no-access-control\n' if any(e.op in ops.HELPER for e in entries) else '') + PRE + ''.join(e.code() for e in entries)
    if replay:
        s += MEM
        if any(e.op in ops.RED for e in entries):
            s += NEW
        for e in entries:
            n = len(e.args) + 1
            ps = ', '.join('void* p%d' % i for i in range(n))
            ts = e.ptypes()
            cs = ', '.join('static_cast<%s>(p%d)' % (t, i) for i, t in enumerate(ts))
            if 's' in e.args or e.ret == 'S':       # opaque text objects are made from character buffers
                s += 'static void t_%s(%s) {\n' % (e.name, ps)
                for i, c in enumerate(e.args):
                    if c == 's':
                        s += '  %s s%d(static_cast<char const*>(p%d));\n' % ('std::istringstream' if e.op == 'get' else 'std::string', i, i)
                if e.ret == 'S':
                    s += '  std::ostringstream so;\n'
                s += '  %s(%s);\n' % (e.name, ', '.join('&s%d' % i if i < n - 1 and e.args[i] == 's' else '&so' if i == n - 1 and e.ret == 'S' else 'static_cast<%s>(p%d)' % (t, i) for i, t in enumerate(ts)))
                if e.ret == 'S':
                    s += '  std::strncpy(static_cast<char*>(p%d), so.str().c_str(), 100);\n' % (n - 1)
                s += '}\n'
                s += """extern "C" int r_%s(%s) { try { t_%s(%s); return 0; } catch (p1788::exception::undefined_operation_exception const&) { return 1; }
 catch (p1788::exception::invalid_operand_exception const&) { return 8; } catch (...) { return 64; } }
""" % (e.name, ps, e.name, ', '.join('p%d' % i for i in range(n)))
                continue
            s += """extern "C" int r_%s(%s) { try { %s(%s); return 0; }
 catch (p1788::exception::undefined_operation_exception const&) { return 1; }
 catch (p1788::exception::possibly_undefined_operation_exception const&) { return 2; }
 catch (p1788::exception::interval_part_of_nai_exception const&) { return 4; }
 catch (p1788::exception::invalid_operand_exception const&) { return 8; }
 catch (...) { return 64; } }
""" % (e.name, ps, e.name, cs)
    return s
