"""Path-based VC generation over LLVM IR: every path of a function is executed symbolically for all
inputs; library functions under contract and MPFR/GMP/libm functions are replaced by their contracts.
"""
import z3, sys
from fractions import Fraction
import ir
from fp import *

sys.setrecursionlimit(20000)


class Undecided(Exception):
    """the generator met code outside its reach"""


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return '&%s+%d' % (self.obj, self.off)


class RPtr:
    """pointer into a region of symbolic length: element index"""
    __slots__ = ('reg', 'idx')

    def __init__(self, reg, idx):
        self.reg = reg
        self.idx = idx

    def __repr__(self):
        return '&%s[%s]' % (self.reg, self.idx)


class RInt:
    """address of a region element as an integer"""
    __slots__ = ('reg', 'idx')

    def __init__(self, reg, idx):
        self.reg = reg
        self.idx = idx


def lindiv(x, k):
    """x / k for an integer combination whose coefficients are all multiples of k, else None"""
    if isinstance(x, int):
        return x // k if x % k == 0 else None
    x = z3.simplify(x)
    tot = []
    for y in (x.children() if z3.is_add(x) else [x]):
        if z3.is_int_value(y):
            c, v = y.as_long(), None
        elif z3.is_mul(y) and y.num_args() == 2 and z3.is_int_value(y.arg(0)):
            c, v = y.arg(0).as_long(), y.arg(1)
        else:
            c, v = 1, y
        if c % k:
            return None
        c //= k
        tot.append(z3.IntVal(c) if v is None else v if c == 1 else c * v)
    r = z3.simplify(z3.Sum(*tot)) if len(tot) > 1 else z3.simplify(tot[0])
    return r.as_long() if z3.is_int_value(r) else r


class BInt:
    """machine integer given by its low bits (booleans); higher bits are zero"""
    __slots__ = ('bits',)

    def __init__(self, bits):
        self.bits = list(bits)

    @staticmethod
    def of(v, n=32):
        if isinstance(v, BInt):
            return v
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int) and v >= 0:
            return BInt([bool(v >> i & 1) for i in range(v.bit_length())])
        if isinstance(v, int):
            return BInt([bool(v >> i & 1) for i in range(n)])
        raise Undecided('bit operation on symbolic integer')

    def get(self, i):
        return self.bits[i] if i < len(self.bits) else False

    def op(self, k, o):
        o = BInt.of(o)
        n = max(len(self.bits), len(o.bits))
        r = []
        for i in range(n):
            a, b = self.get(i), o.get(i)
            r.append(And(a, b) if k == 'and' else Or(a, b) if k == 'or' else And(Or(a, b), Not(And(a, b))))
        while r and r[-1] is False:
            r.pop()
        if all(isinstance(x, bool) for x in r):
            return wrap(sum(1 << i for i, x in enumerate(r) if x), 32)
        return BInt(r)

    def eq(self, o):
        o = BInt.of(o)
        n = max(len(self.bits), len(o.bits))
        return And(*[Or(And(self.get(i), o.get(i)), And(Not(self.get(i)), Not(o.get(i)))) for i in range(n)])


class Fill:
    """one byte written by memset"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()
NULL = Ptr('null', 0)


class MV:
    """content of an mpfr_t"""
    __slots__ = ('prec', 'fv', 'tern', 'exact')

    def __init__(self, prec, fv, tern=None, exact=None):
        self.prec = prec
        self.fv = fv
        self.tern = tern    # ternary value (python int / z3 Int) returned with the value
        self.exact = exact  # (mode, exact real) of the operation that produced it


class State:
    __slots__ = ('mem', 'mp', 'ghost', 'pc', 'kinds', 'notes')

    def __init__(self):
        self.mem = {}
        self.mp = {}
        self.ghost = {}
        self.pc = ()
        self.kinds = {}
        self.notes = ()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.mp = dict(self.mp)
        s.ghost = dict(self.ghost)
        s.pc = self.pc
        s.kinds = dict(self.kinds)
        s.notes = self.notes
        return s

    def touch(self, obj, how):
        """record an access to an object with static storage duration ('w' write, 'r' read)"""
        g = self.ghost.get('static', frozenset())
        if how == 'w' and obj in self.ghost.get('initialised', frozenset()):
            how = 'late'
        if (how, obj) not in g:
            self.ghost['static'] = g | {(how, obj)}

    def write(self, p, size, v):
        if p.obj[:2] == 'g:':
            self.touch(p.obj, 'w')
        cells = self.mem.get(p.obj)
        cells = dict(cells) if cells is not None else {}
        old = cells.get(p.off)
        if old is None or old[0] != size:
            for o in [o for o, (sz, _) in cells.items() if o < p.off + size and p.off < o + sz]:
                del cells[o]
        cells[p.off] = (size, v)
        self.mem[p.obj] = cells


class Executor:
    def __init__(self, mod, th, models, hooks=None, max_paths=20000, max_visits=80):
        self.m = mod
        self.th = th
        self.models = models
        self.regions = {}               # region name -> element size
        self.rload = self.rstore = None
        self.hooks = hooks or {}        # function name -> contract model
        self.loopinv = {}               # (function name, header label) -> handler
        self.nobj = 0
        self.light = z3.Solver()
        self.light.set('timeout', 400)
        self.lits = {}
        self.cache = {}
        self.stats = {'feas': 0, 'instr': 0, 'paths': 0}
        self.max_visits = max_visits
        self.max_paths = max_paths
        self.obl = []                   # in-flight obligations (name, pc, goal)
        self.called = set()
        self.scratch = set()            # function-local statics that are also modified after their initialisation
        self.modelled = set()
        th.listeners.append(self._facts)
        for f in th.base:
            self._facts([f])

    # ---- solver ---------------------------------------------------------
    def _facts(self, fs):
        for f in fs:
            if linear(f):
                self.light.add(f)

    def lit(self, c):
        i = c.get_id()
        r = self.lits.get(i)
        if r is None:
            b = z3.Bool('pc!%d' % len(self.lits))
            self.light.add(z3.Implies(b, c))
            r = self.lits[i] = (b, c)
        return r[0]

    def feasible(self, st, cond=None):
        conds = [c for c in st.pc]
        if cond is not None:
            conds.append(cond)
        key = tuple(sorted(c.get_id() for c in conds))
        r = self.cache.get(key)
        if r is None:
            self.stats['feas'] += 1
            r = self.light.check(*[self.lit(c) for c in conds if linear(c)]) != z3.unsat
            self.cache[key] = r
        return r

    def assume(self, st, cond):
        """state with cond added, or None if infeasible"""
        if cond is True:
            return st
        if cond is False:
            return None
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return st
        if z3.is_false(cond):
            return None
        if not self.feasible(st, cond):
            return None
        s = st.copy()
        s.pc = st.pc + (cond,)
        return s

    def split(self, st, cond):
        """[(state, bool)]"""
        if isinstance(cond, bool):
            return [(st, cond)]
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return [(st, True)]
        if z3.is_false(cond):
            return [(st, False)]
        nc = Not(cond)
        t = self.feasible(st, cond)
        f = self.feasible(st, nc)
        if t and not f:
            return [(st, True)]
        if f and not t:
            return [(st, False)]
        if not t and not f:
            return []
        a = st.copy()
        a.pc = st.pc + (cond,)
        b = st.copy()
        b.pc = st.pc + (nc,)
        return [(a, True), (b, False)]

    def kinds(self, st, v):
        """fork on NaN / -inf / finite / +inf: [(state, concrete-kind FV)]"""
        if v is UNDEF:
            raise Undecided('undefined floating-point value used')
        if v.nan is True:
            return [(st, v)]
        if v.nan is False and v.inf is False:
            return [(st, v)]
        if v.nan is False and v.inf is True and isinstance(v.neg, bool):
            return [(st, v)]
        k = st.kinds.get(id(v))
        if k is not None and k[0] is v:
            return [(st, k[1])]
        out = []
        for s, isn in self.split(st, v.nan):
            if isn:
                out.append((s, NAN()))
                continue
            for s2, isi in self.split(s, v.inf):
                if isi:
                    for s3, ng in self.split(s2, v.neg):
                        out.append((s3, INF(ng)))
                else:
                    out.append((s2, FV(False, False, v.neg, v.val, v.fmt, v.orig)))
        res = []
        for s, fv in out:
            if s is st:
                s = st.copy()
            s.kinds[id(v)] = (v, fv)
            res.append((s, fv))
        return res

    def many_kinds(self, st, vs):
        res = [(st, [])]
        for v in vs:
            res = [(s2, l + [k]) for s, l in res for s2, k in self.kinds(s, v)]
        return res

    # ---- memory ---------------------------------------------------------
    def new_obj(self, pre='o'):
        self.nobj += 1
        return '%s%d' % (pre, self.nobj)

    def gptr(self, st, name):
        """address of an object with static storage duration.  A constant holds its initialiser; so does an object no
        function of the unit can modify.  Any other object holds what earlier calls left in it: an arbitrary value of its type.
        The guard of a function-local static is found unset: the initialisation then runs, and what it depends on the operands
        for is forgotten when it ends (release)."""
        obj = 'g:' + name
        if obj not in st.mem and name in self.m.gtype:
            t, v, const = self.m.global_init(name)
            st.mem[obj] = {}
            seen = st.ghost.get('static')
            if v is not None:
                if const or name.startswith('@_ZGV') or self.m.readonly(name) or self.m.guarded(name):
                    self.init_global(st, Ptr(obj, 0), t, v)
                else:
                    self.store(st, Ptr(obj, 0), t, self.arbitrary(t, name))
            if seen is None:
                st.ghost.pop('static', None)
            else:
                st.ghost['static'] = seen
        return Ptr(obj, 0)

    def arbitrary(self, t, name):
        t = self.m.types.resolve(t)
        if t[0] == 'struct':
            return [self.arbitrary(x, name) for x in t[1]]
        if t[0] in ('arr', 'vec'):
            return [self.arbitrary(t[2], name) for _ in range(t[1])]
        if t[0] == 'f':
            return self.th.havoc('static' + name, {32: F32, 64: F64, 80: F80}[t[1]])
        if t[0] == 'i':
            self.nobj += 1
            if t[1] == 1:
                return z3.Bool('static%s!%d' % (name, self.nobj))
            v = z3.Int('static%s!%d' % (name, self.nobj))
            h = 1 << (t[1] - 1)
            r = z3.And(v >= -h, v < h) if t[1] > 8 else z3.And(v >= 0, v < 256)
            self.th._emit([r])
            self.th.input_facts[str(v)] = (str(v), [r])
            return v
        return UNDEF

    def forget(self, st, name):
        """an initialised function-local static: parts that came from operands are those of an earlier call"""
        obj = 'g:' + name
        st.ghost['initialised'] = st.ghost.get('initialised', frozenset()) | {obj}

        def ground(x):
            if x is None or isinstance(x, (bool, int, Fraction, str, tuple, Ptr)):
                return True
            if isinstance(x, FV):
                return all(ground(y) for y in (x.nan, x.inf, x.neg, x.val))
            if isinstance(x, z3.ExprRef):
                from z3.z3util import get_vars
                return not any(str(w) in self.th.input_facts or '!' in str(w) for w in get_vars(x))
            return False
        for off, (sz, v) in list(st.mem.get(obj, {}).items()):
            if v is UNDEF or (ground(v) and name not in self.scratch):
                continue
            if isinstance(v, FV):
                v = self.th.havoc('static' + name, {4: F32, 8: F64, 16: F80}[sz])
            elif isinstance(v, (bool, z3.BoolRef)):
                v = self.arbitrary(('i', 1), name)
            elif isinstance(v, (int, z3.ArithRef)):
                v = self.arbitrary(('i', 8 * sz), name)
            else:
                v = UNDEF
            st.mem[obj] = dict(st.mem[obj])
            st.mem[obj][off] = (sz, v)
        for (o, off), mv in list(st.mp.items()):
            if o == obj:
                st.ghost['kept'] = st.ghost.get('kept', frozenset()) | {(o, off)}
                if name in self.scratch or not ground(mv.fv):
                    st.mp[(o, off)] = MV(mv.prec, self.th.havoc('static' + name, Format(mv.prec, -(1 << 62), 1 << 62, False)), 0, None)

    def init_global(self, st, p, t, v):
        if v[0] == 'cstr':
            s = v[1]
            st.mem[p.obj] = {0: (1, ('cstr', s))}
            return
        val = self.const(st, t, v)
        self.store(st, p, t, val)

    def const(self, st, t, v):
        k = v[0]
        if k == 'c':
            rt = self.m.types.resolve(v[1])
            if rt[0] == 'f':
                return self.fconst(v[2])
            if rt == ('i', 1):
                return bool(v[2])
            return wrap(v[2], rt[1])
        if k == 'zero':
            return self.zero(v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.undef(v[1])
        if k == 'g':
            if self.m.has(v[1]) or v[1] in self.m.decls:
                return Ptr('f:' + v[1], 0)
            return self.gptr(st, v[1])
        if k == 'agg':
            return [self.const(st, tt, vv) for tt, vv in v[2]]
        if k == 'cgep':
            return self.gep(st, v[1], [(tt, self.const(st, tt, vv)) for tt, vv in v[2]])
        if k == 'opaque':
            return UNDEF
        if k == 'cstr':
            return ('cstr', v[1])
        raise Undecided('constant %r' % (v,))

    def fconst(self, c):
        if c == 'nan':
            return NAN()
        if c == 'inf':
            return INF(False)
        if c == '-inf':
            return INF(True)
        if c == '-0':
            return CONST(0, True)
        # extreme finite constants are kept symbolic
        a = abs(c)
        for f in (F32, F64, F80):
            mx = (1 - Fraction(1, 2 ** f.p)) * Fraction(2) ** f.emax
            if a == mx:
                M = self.th.MAX(f)
                return FV(False, False, c < 0, M if c > 0 else -M, f)
            if a == Fraction(2) ** (f.emin - 1):
                M = self.th.MIN(f)
                return FV(False, False, c < 0, M if c > 0 else -M, f)
        return CONST(c)

    def zero(self, t):
        t = self.m.types.resolve(t)
        if t[0] == 'f':
            return CONST(0, False)
        if t[0] == 'i':
            return False if t[1] == 1 else 0
        if t[0] == 'ptr':
            return NULL
        if t[0] == 'struct':
            return [self.zero(x) for x in t[1]]
        if t[0] in ('arr', 'vec'):
            return [self.zero(t[2]) for _ in range(t[1])]
        raise Undecided('zero %r' % (t,))

    def undef(self, t):
        t = self.m.types.resolve(t)
        if t[0] == 'struct':
            return [self.undef(x) for x in t[1]]
        if t[0] in ('arr', 'vec'):
            return [self.undef(t[2]) for _ in range(t[1])]
        return UNDEF

    def store(self, st, p, t, v):
        t = self.m.types.resolve(t)
        if t[0] == 'struct':
            offs, _ = self.m.types.layout(t)
            for o, x, vv in zip(offs, t[1], v):
                self.store(st, Ptr(p.obj, p.off + o), x, vv)
            return
        if t[0] in ('arr', 'vec'):
            sz = self.m.types.size(t[2])
            if isinstance(v, tuple):
                st.mem[p.obj] = {0: (1, v)}
                return
            for i, vv in enumerate(v):
                self.store(st, Ptr(p.obj, p.off + i * sz), t[2], vv)
            return
        if isinstance(p, RPtr):
            return self.rstore(self, st, p, t, v)
        if not isinstance(p, Ptr) or p.obj == 'null':
            raise Undecided('store through null/unknown pointer')
        st.write(p, self.m.types.size(t), v)
        if p.obj.startswith('g:@_ZGV') and self.m.tls(p.obj[2:]):
            self.forget(st, '@_Z' + p.obj[7:])

    def load(self, st, p, t):
        t = self.m.types.resolve(t)
        if t[0] == 'struct':
            offs, _ = self.m.types.layout(t)
            return [self.load(st, Ptr(p.obj, p.off + o), x) for o, x in zip(offs, t[1])]
        if t[0] in ('arr', 'vec'):
            sz = self.m.types.size(t[2])
            return [self.load(st, Ptr(p.obj, p.off + i * sz), t[2]) for i in range(t[1])]
        if isinstance(p, RPtr):
            return self.rload(self, st, p, t)
        if not isinstance(p, Ptr) or p.obj == 'null':
            raise Undecided('load through null/unknown pointer')
        cells = st.mem.get(p.obj)
        if cells is None:
            raise Undecided('load from unknown object %r' % (p,))
        if p.obj[:2] == 'g:':
            st.touch(p.obj, 'r')
        c = cells.get(p.off)
        if c is None:
            # wide integer copy of smaller cells is not interpreted
            return UNDEF
        sz = self.m.types.size(t)
        if isinstance(c[1], Fill):
            bs = [cells.get(p.off + i, (0, None)) for i in range(10 if t[0] == 'f' and sz == 16 else sz)]
            if any(not isinstance(b[1], Fill) or b[1].b != c[1].b for b in bs) or (c[1].b and t[0] != 'i'):
                raise Undecided('partial load at %r' % (p,))
            if not c[1].b:
                return self.zero(t)
            return bool(c[1].b & 1) if t == ('i', 1) else wrap(int.from_bytes(bytes([c[1].b]) * sz, 'little'), 8 * sz)
        if c[0] != sz:
            if t[0] == 'i' and t[1] > 1 and sz < c[0] and isinstance(c[1], int) and not isinstance(c[1], bool):
                return wrap(c[1], t[1])         # low bytes of a known integer
            raise Undecided('partial load at %r' % (p,))
        v = c[1]
        if t[0] == 'f' and v is not UNDEF and not isinstance(v, FV):
            raise Undecided('type-punned load')
        if t[0] == 'i' and isinstance(v, FV):
            raise Undecided('type-punned load')
        if t == ('i', 1) and isinstance(v, int) and not isinstance(v, bool):
            v = bool(v)
        return v

    def memcpy(self, st, d, s, n):
        cells = st.mem.get(s.obj)
        if cells is None:
            raise Undecided('memcpy from unknown object')
        if s.obj[:2] == 'g:':
            st.touch(s.obj, 'r')
        for o, (sz, v) in list(cells.items()):
            if s.off <= o and o + sz <= s.off + n:
                st.write(Ptr(d.obj, d.off + o - s.off), sz, v)
            elif o < s.off + n and s.off < o + sz:
                raise Undecided('memcpy splits a value')
        for (obj, off), mv in list(st.mp.items()):
            if obj == s.obj and s.off <= off < s.off + n:
                st.mp[(d.obj, d.off + off - s.off)] = mv

    def gep(self, st, bt, ops):
        base = ops[0][1]
        if isinstance(base, RPtr):
            if len(ops) != 2 or any(isinstance(v, (Undef, BInt, RInt)) for t, v in ops[1:]):
                raise Undecided('address inside a vector element')
            d = lindiv(ops[1][1] * self.m.types.size(bt), self.regions[base.reg])
            if d is None:
                raise Undecided('address inside a vector element')
            i = base.idx + d
            return RPtr(base.reg, i if isinstance(i, int) else z3.simplify(i))
        if not isinstance(base, Ptr):
            raise Undecided('gep on non-pointer %r' % (base,))
        off = base.off
        t = bt
        for i, (it, iv) in enumerate(ops[1:]):
            if not isinstance(iv, int):
                if z3.is_expr(iv):
                    s = z3.simplify(iv)
                    if z3.is_int_value(s):
                        iv = s.as_long()
            if not isinstance(iv, int):
                raise Undecided('symbolic address')
            if i == 0:
                off += iv * self.m.types.size(t)
                continue
            t = self.m.types.resolve(t)
            if t[0] == 'struct':
                offs, _ = self.m.types.layout(t)
                off += offs[iv]
                t = t[1][iv]
            else:
                t = t[2]
                off += iv * self.m.types.size(t)
        return Ptr(base.obj, off)

    # ---- functions ---------------------------------------------------------
    def call(self, st, name, args, rty=None):
        """-> list of (state, kind, value); kind 'ret' or 'throw'"""
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, st, args)
            if r is not None:
                self.modelled.add(name)
                return r
        base = name[1:]
        mdl = self.models.get(base)
        if mdl is not None and (not self.m.has(name) or getattr(mdl, 'override', False)):
            self.modelled.add(name)
            return [(s, 'ret', v) if len(x) == 2 else x for x in mdl(self, st, args) for s, v in [x[:2]]] if not getattr(mdl, 'raw', False) else mdl(self, st, args)
        if base.startswith('llvm.'):
            return self.intrinsic(st, base, args)
        if self.m.has(name):
            return self.exec_func(st, name, args)
        raise Undecided('call to function without body or contract: ' + name)

    def intrinsic(self, st, n, args):
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            s = st.copy()
            if not isinstance(args[2], int):
                raise Undecided('symbolic memcpy')
            self.memcpy(s, args[0], args[1], args[2])
            return [(s, 'ret', None)]
        if n.startswith('llvm.memset'):
            s = st.copy()
            if not isinstance(args[2], int) or not isinstance(args[1], int) or args[2] > 4096:
                raise Undecided('symbolic memset')
            if args[2]:
                if not isinstance(args[0], Ptr) or args[0].obj == 'null':
                    raise Undecided('memset through null/unknown pointer')
                for i in range(args[2]):
                    s.write(Ptr(args[0].obj, args[0].off + i), 1, Fill(args[1] & 255))
            return [(s, 'ret', None)]
        if n.startswith('llvm.threadlocal.address'):
            return [(st, 'ret', args[0])]
        if n.startswith('llvm.is.fpclass'):
            v, m = args
            if v is UNDEF:
                raise Undecided('fpclass of undef')
            r = []
            fin = v.fin()
            z = And(fin, eq(v.val, 0))
            if m & 3:
                r.append(v.nan)
            if m & 0x4:
                r.append(v.ninf())
            if m & 0x200:
                r.append(v.pinf())
            if m & 0x20:
                r.append(And(z, v.neg))
            if m & 0x40:
                r.append(And(z, Not(v.neg)))
            sub = m & 0x90
            nrm = m & 0x108
            if nrm or sub:
                if (m & 0x90) == 0x90 and (m & 0x108) == 0x108:
                    r.append(And(fin, Not(eq(v.val, 0))))
                elif (m & 0x18) == 0x18 and not m & 0x180:
                    r.append(And(fin, lt(v.val, 0)))
                elif (m & 0x180) == 0x180 and not m & 0x18:
                    r.append(And(fin, lt(0, v.val)))
                else:
                    raise Undecided('fpclass %x' % m)
            return [(st, 'ret', Or(*r))]
        if n.startswith('llvm.fabs'):
            v = args[0]
            return [(st, 'ret', FV(v.nan, v.inf, False, If(lt(v.val, 0), rneg(v.val), v.val) if not num(v.val) else abs(v.val), v.fmt))]
        if n.startswith('llvm.copysign'):
            a, b = args
            ab = If(lt(a.val, 0), rneg(a.val), a.val) if not num(a.val) else abs(a.val)
            return [(st, 'ret', FV(a.nan, a.inf, b.neg, If(b.neg, rneg(ab), ab), a.fmt))]
        if n.startswith('llvm.lifetime') or n.startswith('llvm.experimental.noalias') or n.startswith('llvm.assume') or n.startswith('llvm.dbg'):
            return [(st, 'ret', None)]
        if n.startswith('llvm.eh.typeid.for'):
            return [(st, 'ret', ('typeid', args[0]))]
        if n.startswith('llvm.trap'):
            return []
        if n.startswith('llvm.abs.'):
            a = args[0]
            return [(st, 'ret', abs(a) if isinstance(a, int) else z3.If(a < 0, -a, a))]
        for nm, f in (('llvm.smax', lambda a, b: If(le(b, a), a, b)), ('llvm.smin', lambda a, b: If(le(a, b), a, b))):
            if n.startswith(nm):
                return [(st, 'ret', f(*args))]
        for nm in ('llvm.floor', 'llvm.ceil', 'llvm.trunc', 'llvm.round', 'llvm.nearbyint', 'llvm.rint', 'llvm.roundeven', 'llvm.maxnum', 'llvm.minnum', 'llvm.sqrt'):
            if n.startswith(nm + '.'):
                suf = {'f32': 'f', 'f64': '', 'f80': 'l'}[n.rsplit('.', 1)[1]]
                base = {'llvm.maxnum': 'fmax', 'llvm.minnum': 'fmin'}.get(nm, nm[5:]) + suf
                return [(s, 'ret', v) for s, v in self.models[base](self, st, args)]
        if n.startswith('llvm.umul.with.overflow'):
            a, b = args
            if not isinstance(a, (int, z3.ArithRef)) or not isinstance(b, int):
                raise Undecided(n)
            w = int(n.rsplit('.i', 1)[1])
            r = a * b
            if isinstance(r, int):
                return [(st, 'ret', [wrap(r, w), uns(a, w) * uns(b, w) >= 1 << w])]
            r = z3.simplify(r)
            if self.feasible(st, z3.Or(r < 0, r >= 1 << (w - 1))):
                raise Undecided('size overflow')
            return [(st, 'ret', [r, False])]
        if n.startswith('llvm.fshl') or n.startswith('llvm.fshr'):
            a, b, k = args
            w = int(n.rsplit('.i', 1)[1])
            if not isinstance(k, int) or isinstance(a, BInt) or isinstance(b, BInt):
                raise Undecided(n)
            k %= w
            if n.startswith('llvm.fshr'):
                k = (w - k) % w
                if k == 0:
                    return [(st, 'ret', b)]
            if k == 0:
                return [(st, 'ret', a)]
            lo, hi = 1 << (w - k), 1 << k
            a = uns(a, w)
            b = uns(b, w)
            if isinstance(a, int) and isinstance(b, int):
                return [(st, 'ret', a % lo * hi + b // lo)]
            return [(st, 'ret', (a % lo) * hi + (b / lo if not isinstance(b, int) else b // lo))]
        raise Undecided('intrinsic ' + n)

    def exec_func(self, st0, name, args, start=None):
        f = self.m.func(name)
        self.called.add(name)
        L = {}
        st = st0
        for (t, nm, byval), a in zip(f.params, args or ()):
            L[nm] = a
        own = set()
        outs = []
        work = [(st, L, f.entry, None, 0, {})]
        if start is not None:       # from a loop header (loops.py)
            work = [start + (0, {})]
        first = True
        while work:
            st, L, blk, prev, idx, visits = work.pop()
            if first:
                st = st.copy()
                first = False
            while True:
                if idx == 0:
                    visits = dict(visits)
                    visits[blk] = visits.get(blk, 0) + 1
                    inv = self.loopinv.get((name, blk))
                    if inv is not None:
                        r = inv(self, st, L, prev, visits, f)
                        if r is not None:
                            # handler returns list of (state, locals, next block, prev)
                            for s2, L2, b2, p2, i2 in r:
                                work.append((s2, L2, b2, p2, i2, {}))
                            break
                    if visits[blk] > self.max_visits:
                        raise Undecided('loop in %s not bounded by the path conditions' % name)
                    ins = f.blocks[blk]
                    # phis evaluated in parallel
                    k = 0
                    newv = {}
                    while ins[k][0] == 'phi':
                        _, dst, t, inc = ins[k]
                        if ('hv', dst) in L:
                            L = dict(L)
                            newv[dst] = L.pop(('hv', dst))
                            k += 1
                            continue
                        for v, b in inc:
                            if b == prev:
                                newv[dst] = self.ev(st, L, t, v)
                                break
                        else:
                            raise Undecided('phi without incoming edge')
                        k += 1
                    if newv:
                        L = dict(L)
                        L.update(newv)
                    idx = k
                    L = dict(L) if not newv else L
                i = f.blocks[blk][idx]
                self.stats['instr'] += 1
                op = i[0]
                if op == 'call':
                    _, dst, rt, callee, cargs, norm, unw = i
                    av = []
                    st_c = st
                    for t, v, byval in cargs:
                        x = self.ev(st, L, t, v)
                        if byval is not None:
                            o = Ptr(self.new_obj('bv'), 0)
                            st.mem[o.obj] = {}
                            self.memcpy(st, o, x, self.m.types.size(byval))
                            own.add(o.obj)
                            x = o
                        av.append(x)
                    if callee[0] == 'g':
                        res = self.call(st, callee[1], av, rt)
                    else:
                        fp_ = self.ev(st, L, ('ptr',), callee)
                        if isinstance(fp_, Ptr) and fp_.obj.startswith('f:'):
                            res = self.call(st, fp_.obj[2:], av, rt)
                        else:
                            raise Undecided('indirect call')
                    nxt = []
                    for r in res:
                        s, kind, v = r
                        if s is st and len(res) > 1:
                            s = st.copy()
                        L2 = dict(L) if len(res) > 1 else L
                        if kind == 'ret':
                            if dst:
                                L2[dst] = v
                            if norm is not None:
                                nxt.append((s, L2, norm, blk, 0))
                            else:
                                nxt.append((s, L2, blk, prev, idx + 1))
                        else:
                            if unw is not None:
                                L2['%exc'] = v
                                nxt.append((s, L2, unw, blk, 0))
                            else:
                                outs.append((s, 'throw', v))
                    if not nxt:
                        break
                    if len(outs) + len(work) > self.max_paths:
                        raise Undecided('path budget exceeded in ' + name)
                    for s, L2, b2, p2, i2 in nxt[1:]:
                        work.append((s, L2, b2, p2, i2, visits))
                    st, L, blk, prev, idx = nxt[0]
                    continue
                if op == 'ret':
                    v = self.ev(st, L, i[2], i[3]) if i[2] is not None else None
                    outs.append((st, 'ret', v))
                    break
                if op == 'br':
                    prev, blk, idx = blk, i[2], 0
                    continue
                if op == 'cbr':
                    c = self.ev(st, L, ('i', 1), i[2])
                    if c is UNDEF:
                        raise Undecided('branch on undefined value')
                    r = self.split(st, c)
                    if not r:
                        break
                    for s, b in r[1:]:
                        work.append((s, dict(L), i[3] if b else i[4], blk, 0, visits))
                    st, b = r[0]
                    prev, blk, idx = blk, (i[3] if b else i[4]), 0
                    continue
                if op == 'switch':
                    _, _, t, v, d, cases = i
                    x = self.ev(st, L, t, v)
                    if isinstance(x, bool):
                        x = int(x)
                    if isinstance(x, int):
                        w = t[1]
                        tgt = d
                        for cv, lb in cases:
                            if wrap(cv, w) == wrap(x, w):
                                tgt = lb
                        prev, blk, idx = blk, tgt, 0
                        continue
                    rest = st
                    alts = []
                    for cv, lb in cases:
                        if rest is None:
                            break
                        a = self.assume(rest, x == wrap(cv, t[1]))
                        if a is not None:
                            if a is rest:
                                a = rest.copy()
                            alts.append((a, lb))
                        rest = self.assume(rest, x != wrap(cv, t[1]))
                    if rest is not None:
                        alts.append((rest, d))
                    if not alts:
                        break
                    for a, lb in alts[1:]:
                        work.append((a, dict(L), lb, blk, 0, visits))
                    st, lb = alts[0]
                    prev, blk, idx = blk, lb, 0
                    continue
                if op == 'unreachable':
                    break
                if op == 'resume':
                    v = self.ev(st, L, None, i[2])
                    outs.append((st, 'throw', L.get('%exc')))
                    break
                if op == 'landingpad':
                    exc = L.get('%exc')
                    cl = i[3]
                    sel = 0
                    if any(c[0] != 'cleanup' for c in cl):
                        raise Undecided('exception handler')
                    L[i[1]] = [('exc', exc), sel]
                    idx += 1
                    continue
                if op == 'alloca':
                    o = self.new_obj('a')
                    own.add(o)
                    st.mem[o] = {}
                    L[i[1]] = Ptr(o, 0)
                    idx += 1
                    continue
                if op == 'store':
                    v = self.ev(st, L, i[2], i[3])
                    p = self.ev(st, L, ('ptr',), i[4])
                    self.store(st, p, i[2], v)
                    idx += 1
                    continue
                if op == 'select' and i[3] == ('ptr',):
                    c = self.ev(st, L, ('i', 1), i[2])
                    if c is UNDEF:
                        raise Undecided('select on undefined value')
                    r = self.split(st, c)
                    if not r:
                        break
                    for s2, b in r[1:]:
                        L2 = dict(L)
                        L2[i[1]] = self.ev(s2, L2, i[3], i[4] if b else i[5])
                        work.append((s2, L2, blk, prev, idx + 1, visits))
                    st, b = r[0]
                    L[i[1]] = self.ev(st, L, i[3], i[4] if b else i[5])
                    idx += 1
                    continue
                L[i[1]] = self.simple(st, L, i)
                idx += 1
        # drop the callee's stack objects
        res = []
        for s, k, v in outs:
            if own:
                for o in own:
                    s.mem.pop(o, None)
                for key in [key for key in s.mp if key[0] in own]:
                    del s.mp[key]
                    s.ghost = dict(s.ghost)
                    s.ghost['leak'] = s.ghost.get('leak', 0) + 1
            res.append((s, k, v))
        return self.merge(st0, f, res)

    def merge(self, st0, f, outs):
        rt = f.ret
        if len(outs) < 2 or rt[0] != 'i':
            return outs
        groups = []
        for s, k, v in outs:
            if k != 'ret' or v is UNDEF:
                groups.append([(s, k, v)])
                continue
            for g in groups:
                g0 = g[0]
                if g0[1] == 'ret' and samestate(g0[0], s) and g0[0].notes == s.notes:
                    g.append((s, k, v))
                    break
            else:
                groups.append([(s, k, v)])
        res = []
        n0 = len(st0.pc)
        for g in groups:
            if len(g) == 1:
                res.append(g[0])
                continue
            s = g[0][0].copy()
            s.kinds = dict(st0.kinds)
            conds = [And(*x[0].pc[n0:]) for x in g]
            v = g[-1][2]
            for (ss, k, vv), c in list(zip(g, conds))[-2::-1]:
                v = If(c, vv, v)
            if not isinstance(v, (bool, int)):
                v = z3.simplify(v)
                if z3.is_true(v):
                    v = True
                elif z3.is_false(v):
                    v = False
                elif z3.is_int_value(v):
                    v = v.as_long()
            s.pc = st0.pc
            if len(groups) > 1:
                c = z3.simplify(tob(Or(*conds)))
                if not z3.is_true(c):
                    s.pc = st0.pc + (c,)
            res.append((s, 'ret', v))
        return res

    def ev(self, st, L, t, v):
        if v[0] == 'l':
            try:
                return L[v[1]]
            except KeyError:
                raise Undecided('undefined local ' + v[1])
        return self.const(st, t, v)

    def simple(self, st, L, i):
        op = i[0]
        if op == 'load':
            return self.load(st, self.ev(st, L, ('ptr',), i[3]), i[2])
        if op == 'gep':
            return self.gep(st, i[2], [(t, self.ev(st, L, t, v)) for t, v in i[3]])
        if op == 'fcmp':
            return self.fcmp(i[2], self.ev(st, L, i[3], i[4]), self.ev(st, L, i[3], i[5]))
        if op == 'icmp':
            return self.icmp(i[2], i[3], self.ev(st, L, i[3], i[4]), self.ev(st, L, i[3], i[5]))
        if op == 'bin':
            return self.binop(st, i[2], i[3], self.ev(st, L, i[3], i[4]), self.ev(st, L, i[3], i[5]), i[6])
        if op == 'fneg':
            v = self.ev(st, L, i[2], i[3])
            if isinstance(v, list):
                return [f_neg(x) for x in v]
            return f_neg(v)
        if op == 'cast':
            return self.cast(st, i[2], i[3], self.ev(st, L, i[3], i[4]), i[5])
        if op == 'copy':
            return self.ev(st, L, i[2], i[3])
        if op == 'select':
            c = self.ev(st, L, ('i', 1), i[2])
            a = self.ev(st, L, i[3], i[4])
            b = self.ev(st, L, i[3], i[5])
            return self.ite(c, a, b)
        if op == 'extractvalue':
            v = self.ev(st, L, i[2], i[3])
            for k in i[4]:
                v = v[k] if v is not UNDEF else UNDEF
            return v
        if op == 'insertvalue':
            v = self.ev(st, L, i[2], i[3])
            x = self.ev(st, L, i[4], i[5])
            return insval(v, x, i[6])
        if op == 'extractelement':
            v = self.ev(st, L, i[2], i[3])
            return v[self.ev(st, L, ('i', 64), i[4])]
        if op == 'insertelement':
            v = self.ev(st, L, i[2], i[3])
            v = list(v)
            v[self.ev(st, L, ('i', 64), i[5])] = self.ev(st, L, None, i[4])
            return v
        raise Undecided('instruction %s' % (i,))

    def ite(self, c, a, b):
        if c is UNDEF:
            raise Undecided('select on undef')
        if isinstance(c, bool):
            return a if c else b
        if isinstance(a, FV) and isinstance(b, FV):
            return ite_fv(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a == b:
                return a
            raise Undecided('select of pointers')
        if isinstance(a, (RPtr, RInt)) and type(a) is type(b) and a.reg == b.reg:
            return type(a)(a.reg, If(c, a.idx, b.idx))
        if isinstance(a, list):
            return [self.ite(c, x, y) for x, y in zip(a, b)]
        if a is UNDEF or b is UNDEF:
            raise Undecided('select of undef')
        return If(c, a, b)

    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF:
            raise Undecided('compare undef')
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        uno = Or(a.nan, b.nan)
        if pred == 'uno':
            return uno
        if pred == 'ord':
            return Not(uno)
        k = pred[1:]
        base = {'lt': lambda: f_lt(a, b), 'gt': lambda: f_lt(b, a), 'le': lambda: f_le(a, b), 'ge': lambda: f_le(b, a),
                'eq': lambda: f_eq(a, b), 'ne': lambda: And(Not(uno), Not(f_eq(a, b)))}[k]()
        return Or(uno, base) if pred[0] == 'u' else base

    def icmp(self, pred, t, a, b):
        if a is UNDEF or b is UNDEF:
            raise Undecided('compare undef')
        if isinstance(a, (RPtr, RInt)) or isinstance(b, (RPtr, RInt)):
            if type(a) is type(b) and a.reg == b.reg:
                a, b, t = a.idx, b.idx, ('i', 64)
                a, b = (z3.IntVal(x) if isinstance(x, int) else x for x in (a, b))
                return self.icmp(pred if pred in ('eq', 'ne') else 's' + pred[1:], t, a, b)
            if (a == NULL or b == NULL) and pred in ('eq', 'ne'):
                return pred == 'ne'
            raise Undecided('comparison of unrelated pointers')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            e = a == b
            return e if pred == 'eq' else not e if pred == 'ne' else self._und('pointer compare')
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Undecided('compare opaque')
        t = self.m.types.resolve(t)
        if t == ('i', 1):
            if isinstance(a, bool) and isinstance(b, bool):
                return (a == b) if pred == 'eq' else (a != b)
            e = Or(And(a, b), And(Not(a), Not(b)))
            return e if pred == 'eq' else Not(e)
        w = t[1]
        if isinstance(a, BInt) or isinstance(b, BInt):
            if pred not in ('eq', 'ne'):
                raise Undecided('ordering of bit set')
            e = a.eq(b) if isinstance(a, BInt) else b.eq(a)
            return e if pred == 'eq' else Not(e)
        if pred in ('eq', 'ne'):
            e = eq(a, b) if isinstance(a, int) and isinstance(b, int) else (a == b)
            return e if pred == 'eq' else Not(e)
        if pred[0] == 'u':
            a, b = uns(a, w), uns(b, w)
        k = pred[1:]
        r = {'lt': lambda: a < b, 'gt': lambda: a > b, 'le': lambda: a <= b, 'ge': lambda: a >= b}[k]()
        return r

    def _und(self, m):
        raise Undecided(m)

    def binop(self, st, op, t, a, b, flags):
        if a is UNDEF or b is UNDEF:
            raise Undecided('arith on undef')
        t = self.m.types.resolve(t)
        if t[0] == 'f':
            return self.models['native'](self, st, op, FMT_OF_BITS[t[1]], a, b)
        if t == ('i', 1):
            if op == 'xor':
                if b is True:
                    return Not(a)
                if b is False:
                    return a
                return And(Or(a, b), Not(And(a, b)))
            if op == 'and':
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            raise Undecided('i1 ' + op)
        w = t[1]
        if isinstance(a, RInt) or isinstance(b, RInt):
            if op == 'sub' and isinstance(a, RInt) and isinstance(b, RInt) and a.reg == b.reg:
                r = z3.simplify((z3.IntVal(0) + a.idx - b.idx) * self.regions[a.reg])
                return r.as_long() if z3.is_int_value(r) else r
            raise Undecided('pointer arithmetic')
        if isinstance(a, BInt) or isinstance(b, BInt):
            if op not in ('and', 'or', 'xor'):
                raise Undecided('arithmetic on bit set')
            return a.op(op, b) if isinstance(a, BInt) else b.op(op, a)
        if isinstance(a, (Ptr, tuple)) or isinstance(b, (Ptr, tuple)):
            raise Undecided('pointer arithmetic')
        if op in ('add', 'sub', 'mul'):
            r = a + b if op == 'add' else a - b if op == 'sub' else a * b
            if isinstance(r, int):
                if 'nsw' in flags and r != wrap(r, w):
                    self.obl.append(('no-signed-overflow', st.pc, z3.BoolVal(False)))
                return wrap(r, w)
            r = z3.simplify(r)
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            ok = z3.And(r >= lo, r <= hi)
            if not self.feasible(st, z3.Not(ok)):
                return r
            if 'nsw' in flags:
                self.obl.append(('no-signed-overflow', st.pc, ok))
            m = z3.simplify((r - lo) % (1 << w) + lo)
            return m
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            if isinstance(a, int) and isinstance(b, int) and b != 0:
                if op[0] == 'u':
                    a, b = uns(a, w), uns(b, w)
                qd = abs(a) // abs(b)
                qd = qd if (a < 0) == (b < 0) else -qd
                return wrap(qd if op.endswith('div') else a - qd * b, w)
            if isinstance(b, int) and b > 0 and 'exact' in flags and lindiv(a, b) is not None:
                return lindiv(a, b)
            if isinstance(b, int) and b > 0:
                if op[0] == 'u':
                    a = uns(a, w)
                    return a / b if op == 'udiv' else a % b
                qd = z3.If(a >= 0, a / b, -((-a) / b))
                return z3.simplify(qd if op == 'sdiv' else a - qd * b)
            raise Undecided('symbolic division')
        if op in ('and', 'or', 'xor'):
            if isinstance(a, int) and isinstance(b, int):
                return wrap({'and': a & b, 'or': a | b, 'xor': a ^ b}[op], w)
            return bitop(op, a, b, w)
        if op in ('shl', 'lshr', 'ashr'):
            if isinstance(b, int):
                if isinstance(a, int):
                    if op == 'shl':
                        return wrap(a << b, w)
                    if op == 'lshr':
                        return wrap(uns(a, w) >> b, w)
                    return a >> b
                if op == 'lshr':
                    return uns(a, w) / (1 << b)
                if op == 'ashr':
                    return a / (1 << b)
            raise Undecided('shift')
        raise Undecided(op)

    def cast(self, st, op, t, v, t2):
        if v is UNDEF:
            return UNDEF
        t2 = self.m.types.resolve(t2)
        t = self.m.types.resolve(t)
        if op in ('fpext', 'fptrunc'):
            return self.models['fpconv'](self, st, v, FMT_OF_BITS[t2[1]])
        if isinstance(v, BInt):
            if op in ('zext',) or (op == 'trunc' and t2[1] >= len(v.bits) + 1):
                return v
            raise Undecided('cast of bit set')
        if op in ('zext', 'sext'):
            if t == ('i', 1):
                one = 1 if op == 'zext' else -1
                return If(v, one, 0) if not isinstance(v, bool) else (one if v else 0)
            if op == 'zext':
                return uns(v, t[1])
            return v
        if op == 'trunc':
            if t2 == ('i', 1):
                if isinstance(v, int):
                    return bool(v & 1)
                return v % 2 == 1
            w = t2[1]
            if isinstance(v, int):
                return wrap(v, w)
            lo = -(1 << (w - 1))
            ok = z3.And(v >= lo, v < -lo)
            if not self.feasible(st, z3.Not(ok)):
                return v
            return z3.simplify((v - lo) % (1 << w) + lo)
        if op in ('sitofp', 'uitofp'):
            if op == 'uitofp':
                v = uns(v, t[1])
            f = FMT_OF_BITS[t2[1]]
            if isinstance(v, int):
                return self.th.round(RN, f, Fraction(v))
            r = z3.ToReal(v)
            if t[1] <= f.p:
                return FV(False, False, r < 0, r, f)
            return self.th.round(RN, f, r)
        if op == 'ptrtoint' and isinstance(v, RPtr):
            return RInt(v.reg, v.idx)
        if op == 'bitcast':
            if t == t2:
                return v
            raise Undecided('bitcast')
        raise Undecided('cast ' + op)


def insval(v, x, idx):
    v = list(v) if v is not UNDEF else None
    if v is None:
        raise Undecided('insertvalue undef')
    if len(idx) == 1:
        v[idx[0]] = x
    else:
        v[idx[0]] = insval(v[idx[0]], x, idx[1:])
    return v


def wrap(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) and w > 1 else v


def uns(v, w):
    if isinstance(v, int):
        return v & ((1 << w) - 1)
    if nonneg(v):
        return v
    return z3.If(v < 0, v + (1 << w), v)


def nonneg(v):
    """syntactically non-negative (decorations are constrained to their enumerators)"""
    if z3.is_int_value(v):
        return v.as_long() >= 0
    k = v.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED and v.num_args() == 0:
        return v.decl().name().endswith('.dec')
    if k == z3.Z3_OP_ITE:
        return nonneg(v.arg(1)) and nonneg(v.arg(2))
    return False


def bitop(op, a, b, w):
    """bitwise operation with a constant operand, by bit decomposition"""
    if isinstance(a, int):
        a, b = b, a
    if not isinstance(b, int):
        if w > 8:
            raise Undecided('bitwise operation on symbolic operands')
        r = 0
        ua, ub = uns(a, w), uns(b, w)
        for k in range(w):
            x, y = (ua / (1 << k)) % 2, (ub / (1 << k)) % 2
            bit = x * y if op == 'and' else z3.If(x + y > 0, 1, 0) if op == 'or' else (x + y) % 2
            r = r + (1 << k) * bit
        return z3.simplify(z3.If(r >= 1 << (w - 1), r - (1 << w), r))
    ub = b & ((1 << w) - 1)
    ua = uns(a, w)
    bits = [k for k in range(w) if ub >> k & 1]
    if op == 'and':
        if len(bits) > w // 2:
            # a & b = a - (a & ~b)
            inv = [k for k in range(w) if k not in bits]
            r = ua
            for k in inv:
                r = r - (1 << k) * ((ua / (1 << k)) % 2)
            return z3.simplify(z3.If(r >= 1 << (w - 1), r - (1 << w), r))
        r = z3.IntVal(0)
        for k in bits:
            r = r + (1 << k) * ((ua / (1 << k)) % 2)
        return z3.simplify(z3.If(r >= 1 << (w - 1), r - (1 << w), r))
    if op == 'xor' and len(bits) == w:
        return z3.simplify(-a - 1)
    r = ua
    for k in bits:
        bk = (ua / (1 << k)) % 2
        r = r + (1 << k) * (1 - bk) if op == 'or' else r + (1 << k) * (1 - 2 * bk)
    return z3.simplify(z3.If(r >= 1 << (w - 1), r - (1 << w), r))


def samestate(a, b):
    if a.ghost != b.ghost or a.mp.keys() != b.mp.keys() or a.mem.keys() != b.mem.keys():
        return False
    for k, v in a.mp.items():
        if b.mp[k] is not v:
            return False
    for k, v in a.mem.items():
        w = b.mem[k]
        if v is not w:
            if v.keys() != w.keys():
                return False
            for o in v:
                x, y = v[o], w[o]
                if x is not y and not (x[0] == y[0] and (x[1] is y[1] or (isinstance(x[1], (int, Ptr)) and isinstance(y[1], (int, Ptr)) and x[1] == y[1]))):
                    return False
    return True


_lin = {}


def linear(e):
    if isinstance(e, bool):
        return True
    i = e.get_id()
    r = _lin.get(i)
    if r is not None and r[0] is not None and r[0].eq(e):
        return r[1]
    res = True
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        j = x.get_id()
        if j in seen:
            continue
        seen.add(j)
        if z3.is_app(x):
            k = x.decl().kind()
            ch = x.children()
            if k == z3.Z3_OP_MUL:
                nc = sum(1 for c in ch if not (z3.is_rational_value(c) or z3.is_int_value(c)))
                if nc > 1:
                    res = False
                    break
            elif k == z3.Z3_OP_POWER:
                res = False
                break
            elif k == z3.Z3_OP_DIV:
                if not z3.is_rational_value(ch[1]):
                    res = False
                    break
            stack.extend(ch)
    _lin[i] = (e, res)
    return res
