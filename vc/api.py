"""The interval classes: every wrapper against the flavor operation it stands for.

A wrapper entry (kind 'api:<form>') builds the class call; its reference is the direct call of the flavor function of the
same name on the same operands.  Both are executed on the same symbolic operands with every flavor function replaced by
an uninterpreted function of its operands (which may also throw), so equality of the two outcomes means that the wrapper
calls that operation with these operands in this order and returns its result unchanged, whatever the operation returns."""
import re
import z3
from fp import *
from symex import *
from spec import *
from spec import IV, DV
from entries import SZ
import ops

CT = {'f': 'float', 'd': 'double', 'l': 'long double'}
OVER = {'pos': '+{0}', 'neg': '-{0}', 'add': '{0} + {1}', 'sub': '{0} - {1}', 'mul': '{0} * {1}', 'div': '{0} / {1}', 'equal': '{0} == {1}'}
# operations of the classes without a flavor function of that name: (operands, result, flavor expression)
DERIVED = {'superset': 'subset', 'greater': 'less', 'succeeds': 'precedes', 'contains_interior': 'interior', 'strictly_greater': 'strictly_less', 'strictly_succeeds': 'strictly_precedes'}
REF = {}
for _a, _b in DERIVED.items():
    ops.SIG[_a] = ('ii', 'b')
    REF[_a] = 'F<{A1}>::%s({1}, {0})' % _b
ops.SIG['not_equal'] = ('ii', 'b')
REF['not_equal'] = '!F<{A0}>::equal({0}, {1})'
OVER['not_equal'] = '{0} != {1}'
ops.SIG['text'] = ('s', 'i')
ops.SIG['put'] = ('i', 'S')
ops.SIG['get'] = ('s', 'i')
for _o in ('sin_rev', 'cos_rev', 'tan_rev'):
    ops.SIG[_o], ops.SIG[_o + '1'] = ('ii', 'i'), ('i', 'i')
    ops.CNAME[_o + '1'] = _o
CLASSOPS = {'empty': ['{I}()', '{I}::empty()'], 'entire': ['{I}::entire()'], 'empty_dec': ['{I}()', '{I}::empty()'], 'entire_dec': ['{I}::entire()'], 'nai': ['{I}::nai()'],
            'nums_to_interval': ['{I}({0}, {1})'], 'nums_to_decorated_interval': ['{I}({0}, {1})'], 'nums_dec_to_decorated_interval': ['{I}({0}, {1}, {2})'], 'copy': ['{I}({0})'],
            'convert_type': ['{I}({0})'], 'interval_part': ['{I}({0})'], 'new_dec': ['{I}({0})'], 'set_dec': ['{I}({0}, {1})'],
            'decoration_part': ['DI<{A0}>::decoration({0})', 'p1788::infsup::decoration({0})'],
            'is_nai': ['DI<{A0}>::is_nai({0})', 'p1788::infsup::is_nai({0})'], 'text': ['{I}({0})']}
NOSTATIC = {'put', 'get', 'not_equal'}


def forms(op, mixed):
    """forms of a class operation"""
    if op in CLASSOPS:
        return ['c%d' % i for i in range(1 if mixed else len(CLASSOPS[op]))]
    if op in ('put', 'get'):
        return ['stream']
    two = ops.SIG[op][1] in 'bo'        # relations accept mixed formats in every form
    fs = [] if op in NOSTATIC else ['static']
    if not mixed or two:
        fs += ([] if op in NOSTATIC else ['free']) + (['oper'] if op in OVER else [])
    return fs


def isapi(e):
    return e.kind != 'flavor'


def ref(e):
    import entries
    return entries.Entry(e.op, e.dec, e.T, e.A, kind='ref')


def code(e):
    """(parameters, types, statement) of a wrapper or reference entry"""
    form = e.kind
    api = form != 'ref'
    ts = e.argtypes()
    cls = 'DI' if e.dec else 'BI'
    rep = 'D' if e.dec else 'R'
    ps, vals = [], []
    for i, (c, t) in enumerate(zip(e.args, ts)):
        if c in 'ix':
            if api:
                ty = '%s<%s>' % (cls if c == 'i' else 'BI', CT[t])
            else:
                ty = '%s<%s>' % (rep if c == 'i' else 'R', CT[t])
        else:
            ty = {'n': CT.get(t), 'k': 'int', 'e': 'DEC', 's': 'std::istream' if e.op == 'get' else 'std::string'}[c]
        ps.append(ty + (' *' if e.op == 'get' else ' const*') + ' a%d' % i)
        vals.append('(*a%d)' % i)
    T = CT[e.T]
    r = e.ret
    I = '%s<%s>' % (cls if r == 'i' or r not in 'xy' else 'BI' if r == 'x' else 'DI', T)
    Rp = '%s<%s>' % (rep if r == 'i' or r not in 'xy' else 'R' if r == 'x' else 'D', T)
    o = {'i': I if api else Rp, 'n': T, 'b': 'uint8_t', 'o': 'uint32_t', 'p': 'std::pair<%s,%s>' % (T, T), 'e': 'DEC', 'S': 'std::ostream',
         'q': 'std::pair<%s,%s>' % ((I, I) if api else (Rp, Rp))}
    o['x'] = o['y'] = o['i']
    o = o[r]
    A = {'A%d' % i: CT[t] if t else '' for i, t in enumerate(ts)}
    nm = ops.CNAME.get(e.op, e.op)
    fmt = lambda s: s.format(*vals, I=I, T=T, **A)
    if e.op == 'put':
        st = '(*o) << *a0;' if api else 'F<%s>::operator_interval_to_text(*o, *a0);' % T
    elif e.op == 'get':
        st = ('new (o) %s(); (*a0) >> *o;' % I) if api else 'new (o) %s(F<%s>::%s()); F<%s>::operator_text_to_interval(*a0, *o);' % (Rp, T, 'empty_dec' if e.dec else 'empty', T)
    else:
        if not api:
            x = fmt(REF[e.op]) if e.op in REF else 'F<%s>::%s(%s)' % (T, 'text_to_%sinterval' % ('decorated_' if e.dec else '') if e.op == 'text' else nm, ', '.join(vals))
        elif form[0] == 'c' and form[1:].isdigit():
            x = fmt(CLASSOPS[e.op][int(form[1:])])
        elif form == 'static':
            k = '%s<%s>' % (cls, CT[ts[0]]) if r in 'bo' and e.op != 'is_member' else '%s<%s>' % (cls, CT[ts[-1]]) if e.op == 'is_member' else I
            x = '%s::%s(%s)' % (k, nm, ', '.join(vals))
        elif form == 'free':
            x = 'p1788::infsup::%s(%s)' % (nm, ', '.join(vals))
        elif form == 'oper':
            x = fmt(OVER[e.op])
        if r in 'bo':
            x = 'static_cast<%s>(%s)' % (o, x)
        st = '*o = %s;' % x if r in 'bonep' else 'new (o) %s(%s);' % (o, x)
    return ps, o, st


LIT = ['', '[]', '[1,2]', '[ 1.5 , 2 ]_com', '[nai]', '[entire]', '[-inf,3]', '[1,2', 'x', '[2,1]', '1.5?', '[0.1,0.1]_trv', '[,]', '[empty]_trv', '[1e-400,1e400]']


# ---------------------------------------------------------------- symbolic side
KEEP = re.compile(r'23mpfr_bin_ieee754_flavorI[fde]E(\d+)([a-zA-Z0-9_]+)')


def vid(ex, st, v, keep):
    """hashable identity of an argument"""
    if isinstance(v, FV):
        return ('F',) + tuple(vid(ex, st, x, keep) for x in (v.nan, v.inf, v.neg, v.val))
    if isinstance(v, Ptr):
        cells = st.mem.get(v.obj)
        if v.obj in ('out', 'outr'):        # the result object of the wrapper / of the reference
            return ('O', v.off) + tuple((o, c[0], vid(ex, st, c[1], keep)) for o, c in sorted(cells.items()))
        if cells is None or v.obj.startswith('opq'):
            return ('P', v.obj, v.off)
        return ('M',) + tuple((o - v.off, c[0], vid(ex, st, c[1], keep)) for o, c in sorted(cells.items()) if o >= v.off and c[1] is not UNDEF)
    if isinstance(v, (list, tuple)):
        return ('L',) + tuple(vid(ex, st, x, keep) for x in v)
    if isinstance(v, z3.ExprRef):
        keep.append(v)
        return ('z', v.get_id())
    return v


def install(run):
    """replace every flavor function the wrappers can call by an uninterpreted function"""
    ex, mod, e = run.ex, run.mod, run.entry
    memo, keep = {}, []
    run.th.api_keep = keep

    def value(th, t):
        t = mod.types.resolve(t)
        if t[0] == 'struct':
            return [value(th, x) for x in t[1]]
        if t[0] in ('arr', 'vec'):
            return [value(th, t[2]) for _ in range(t[1])]
        if t[0] == 'f':
            return th.havoc('api', {32: F32, 64: F64, 80: F80}[t[1]])
        if t == ('i', 1):
            return th.fresh('api', 'b')
        if t[0] == 'i':
            v = th.fresh('api', 'i')
            return v
        raise Undecided('result type of a flavor function')

    def rep(th, T, dec):
        f = FMT_OF_T[T]
        v = IV(th.havoc('api', f), th.havoc('api', f))
        if not dec:
            return v, [v.valid()]
        d = th.fresh('api', 'i')
        v = DV(v, d)
        return v, [z3.Or(*[d == k for k in (0, 4, 8, 12, 16)]), v.valid()]

    def put(st, p, v, T):
        sz = SZ[T]
        iv = v.iv if isinstance(v, DV) else v
        st.write(p, sz, iv.lo)
        st.write(Ptr(p.obj, p.off + sz), sz, iv.hi)
        if isinstance(v, DV):
            st.write(Ptr(p.obj, p.off + 2 * sz), 1, v.dec)

    def mk(sym, nm, T):
        def h(ex, st, args):
            th = ex.th
            f = mod.func(sym)
            sret = f.ret == ('void',) and f.sret is not None
            a = args[1:] if sret else args
            key = (sym,) + tuple(vid(ex, st, x, keep) for x in a)
            if key not in memo:
                facts = []
                if nm == 'operator_text_to_interval':
                    dec = 'S3_' in sym or any(isinstance(x, Ptr) and 2 * SZ[T] + x.off in st.mem.get(x.obj, {}) for x in a[1:])
                    val, facts = rep(th, T, dec)
                elif nm == 'operator_interval_to_text':
                    val = th.fresh('api', 'i')
                elif sret:
                    n = mod.types.size(f.sret)
                    sz = SZ[T]
                    if n == 2 * sz and 'mid_rad' not in nm:
                        val, facts = rep(th, T, False)
                    elif n == 2 * sz:
                        val = IV(th.havoc('api', FMT_OF_T[T]), th.havoc('api', FMT_OF_T[T]))
                    elif n == 3 * sz:
                        val, facts = rep(th, T, True)
                    elif n == 4 * sz:
                        x, y = rep(th, T, False), rep(th, T, False)
                        val, facts = (x[0], y[0]), x[1] + y[1]
                    elif n == 6 * sz:
                        x, y = rep(th, T, True), rep(th, T, True)
                        val, facts = (x[0], y[0]), x[1] + y[1]
                    else:
                        raise Undecided('result layout of ' + sym)
                elif f.ret == ('void',):
                    val = None
                else:
                    val = value(th, f.ret)
                    fl = []

                    def go(x):
                        if isinstance(x, list):
                            for y in x:
                                go(y)
                        else:
                            fl.append(x)
                    go(val)
                    if e.ret in 'ixyq' and 'mid_rad' not in nm and all(isinstance(x, FV) for x in fl[:2]) and len(fl) in (2, 4):
                        facts = [IV(fl[k], fl[k + 1]).valid() for k in range(0, len(fl), 2)]
                    elif len(fl) == 3 and isinstance(fl[0], FV):
                        facts = [z3.Or(*[fl[2] == k for k in (0, 4, 8, 12, 16)]), DV(IV(fl[0], fl[1]), fl[2]).valid()]
                    if f.ret[0] == 'i' and f.ret != ('i', 1):
                        facts = [val >= 0, val <= (255 if f.ret == ('i', 8) else (1 << 31) - 1)]
                memo[key] = (val, facts, th.fresh('throws', 'b'), len(memo))
            val, facts, thr, n = memo[key]
            st = ex.assume(st, tob(And(*facts)))
            if st is None:
                return []
            out = []
            for s, t in ex.split(st, thr):
                s = s.copy()
                if t:
                    out.append((s, 'throw', ('api', n)))
                    continue
                if sret:
                    for k, v in enumerate(val if isinstance(val, tuple) else (val,)):
                        put(s, Ptr(args[0].obj, args[0].off + k * (3 if isinstance(v, DV) else 2) * SZ[T]), v, T)
                    out.append((s, 'ret', None))
                elif nm == 'operator_text_to_interval':
                    put(s, args[1], val, T)
                    out.append((s, 'ret', args[0]))
                elif nm == 'operator_interval_to_text':
                    s.write(args[0], 4, val)
                    out.append((s, 'ret', args[0]))
                else:
                    out.append((s, 'ret', val))
            return out
        return h

    for sym in list(mod._raw):
        m = KEEP.search(sym)
        if not m:
            continue
        if not re.match(r'@_ZN(K?)5p1788', sym):
            continue
        n = int(m.group(1))
        nm = m.group(2)[:n]
        if nm in ('copy', 'is_valid'):
            continue
        T = {'f': 'f', 'd': 'd', 'e': 'l'}[re.search(r'flavorI([fde])E', sym).group(1)]
        ex.hooks[sym] = mk(sym, nm, T)


def outcomes(run):
    """outcomes of the wrapper, each with the outcome of the reference on the same path"""
    e = run.entry
    r = ref(e)
    res = []
    st0 = run.st0
    st0.mem['outr'] = {}
    for s, k, v in run.ex.call(st0, '@' + r.name, run.ptrs + [Ptr('outr', 0)]):
        want = (k, run.res(r, s.mem['outr']) if k == 'ret' else v, s.mem[run.pstate.obj][run.pstate.off][1])
        s = s.copy()
        s.mem['out'] = {}
        s.write(run.pstate, 4, st0.mem[run.pstate.obj][run.pstate.off][1])
        for s2, k2, v2 in run.ex.call(s, '@' + e.name, run.ptrs + [Ptr('out', 0)]):
            res.append((s2, k2, v2, want))
    return res


def same(a, b):
    """the same value, bit for bit (one NaN)"""
    if isinstance(a, tuple):
        return And(*[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, DV):
        return And(same(a.iv, b.iv), deq(a.dec, b.dec))
    if isinstance(a, IV):
        return And(same(a.lo, b.lo), same(a.hi, b.hi))
    if isinstance(a, FV):
        iff = lambda x, y: Or(And(x, y), And(Not(x), Not(y)))
        return Or(And(a.nan, b.nan), And(Not(a.nan), Not(b.nan), f_eq(a, b), iff(a.neg, b.neg)))
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef) or isinstance(a, bool) or isinstance(b, bool):
        x = a if isinstance(a, (bool, z3.BoolRef)) else a != 0
        y = b if isinstance(b, (bool, z3.BoolRef)) else b != 0
        return Or(And(x, y), And(Not(x), Not(y)))
    return a == b
