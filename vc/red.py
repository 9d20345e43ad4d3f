"""Reductions over vectors of any length (p1788/reduction/reduction.hpp).

The operand is a vector of symbolic length N; a pointer into it, or into the table of mpfr pointers the code allocates, is a
region name and a symbolic element index (RPtr).  A loop over such pointers is cut by an invariant that is found from one
symbolic iteration and then proved: induction variables have the value start + K * stride in iteration K, the table holds in
K of its entries mpfr variables of their own whose values are exactly the terms of the first K vector elements (the fill
loop), or K of its entries are released (the release loop).  mpfr_sum is by contract the correctly rounded sum of the
variables the table points at; the contract of the reduction names the same sum."""
import z3
from fp import *
from symex import *
from symex import RPtr
import ops, models
from entries import SZ

NAMES = {'sum': 'v', 'sum_abs': 'v', 'sum_sqr': 'v', 'dot': 'vv'}
MODES = {'D': (RD, 'downward'), 'U': (RU, 'upward'), 'N': (RN, 'to_nearest'), 'Z': (RZ, 'to_zero')}
CT = {'f': 'float', 'd': 'double', 'l': 'long double'}


def parts(op):
    """operation, rounding direction, form (p: iterators, l: initializer list)"""
    a, m, f = op[4:].rsplit('_', 2)
    return a, m, f


for _a, _s in NAMES.items():
    for _m in MODES:
        for _f in 'pl':
            _o = 'red_%s_%s_%s' % (_a, _m, _f)
            ops.SIG[_o] = (_s, 'n')
            ops.RED.add(_o)


def code(e):
    a, m, f = parts(e.op)
    T = CT[e.T]
    n = len(e.args)
    if f == 'p':
        x = 'a0->p, a0->p + a0->n' + (', a1->p' if n > 1 else '')
    else:
        x = ', '.join('reinterpret_cast<std::initializer_list<%s> const&>(*a%d)' % (T, i) for i in range(n))
    ps = ['VEC<%s> const* a%d' % (T, i) for i in range(n)]
    return ps, T, '*o = p1788::reduction::%s(%s, p1788::reduction::rnd_mode::%s);' % (a, x, MODES[m][1])


# ---------------------------------------------------------------- the exact value
def term(th, a, xs):
    """the exact term of one position"""
    x = xs[0]
    if a == 'sum':
        return x
    if a == 'sum_abs':
        return FV(x.nan, x.inf, False, abs(x.val) if num(x.val) else If(lt(x.val, 0), rneg(x.val), x.val), None)
    if a == 'sum_sqr':
        return FV(x.nan, x.inf, False, th.prod(x.val, x.val), None)
    y = xs[1]
    zi = lambda u, v: And(u.inf, Not(v.nan), Not(v.inf), eq(v.val, 0))
    nan = Or(x.nan, y.nan, zi(x, y), zi(y, x))
    inf = And(Not(nan), Or(x.inf, y.inf))
    ng = And(Or(x.neg, y.neg), Not(And(x.neg, y.neg)))
    return FV(nan, inf, ng, th.prod(x.val, y.val), None)


def spec(C, args, out):
    """NaN when a term is NaN or terms are infinite with both signs; the infinity; otherwise the exact sum rounded once"""
    a, m, f = parts(C.e.op)
    mode = MODES[m][0]
    if getattr(C, 'concrete', False):
        n = min(len(x) for x in args)
        ts = [term(C.th, a, [x[i] for x in args]) for i in range(n)]
        nan = any(t.nan for t in ts)
        p, q_ = any(t.inf and not t.nan and not t.neg for t in ts), any(t.inf and not t.nan and t.neg for t in ts)
        S = sum((Fraction(t.val) for t in ts if not t.inf and not t.nan), Fraction(0))
    else:
        s = C.th.seq
        nan, p, q_, S = s['nan'], s['pinf'], s['ninf'], s['sum']
    r = out.val
    isnan = Or(nan, And(p, q_))
    g = [('nan-when-a-term-is-nan-or-infinities-cancel', Implies(isnan, r.nan)),
         ('infinite-when-a-term-is-infinite', Implies(And(Not(isnan), Or(p, q_)), And(r.inf, Not(r.nan), Or(And(p, Not(r.neg)), And(q_, r.neg))))),
         ('exact-sum-rounded-once', Implies(Not(Or(nan, p, q_)), f_same(r, C.th.round(mode, C.f, S))))]
    return g


def released(C, args, out):
    """every variable and array the call allocated has been released"""
    if getattr(C, 'concrete', False):
        return [('temporaries-released', not out.leak)]
    h = out.st.ghost.get('heap', frozenset())
    t = [x for x in out.st.ghost.get('tabs', ()) if not x[1].freed]
    return [('temporaries-released', not out.leak and not h and not t)]


# ---------------------------------------------------------------- symbolic side
class Tab:
    """table of mpfr pointers: entries [lo, hi) hold the terms, entries [clo, chi) are released; 'new' are the entries written
    in the iteration at hand"""
    __slots__ = ('n', 'fill', 'clr', 'new', 'freed', 'prec')

    def __init__(self, n, fill=None, clr=None, new=(), freed=False, prec=None):
        self.n, self.fill, self.clr, self.new, self.freed, self.prec = n, fill, clr, new, freed, prec

    def but(self, **k):
        d = {x: getattr(self, x) for x in self.__slots__}
        d.update(k)
        return Tab(**d)


def tabs(st):
    return dict(st.ghost.get('tabs', ()))


def settab(st, nm, t):
    d = tabs(st)
    d[nm] = t
    st.ghost = dict(st.ghost)
    st.ghost['tabs'] = tuple(sorted(d.items(), key=lambda x: x[0]))


def same(a, b):
    d = z3.simplify(z3.IntVal(0) + a - b)
    return z3.is_int_value(d) and d.as_long() == 0


def delta(a, b):
    """b - a when it is a constant"""
    d = z3.simplify(z3.IntVal(0) + b - a)
    return d.as_long() if z3.is_int_value(d) else None


def ib(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def install(run):
    ex, th, e = run.ex, run.th, run.entry
    a, m, f = parts(e.op)
    fmt = FMT_OF_T[e.T]
    N = z3.Int('N')
    th.seq = dict(nan=z3.Bool('seq.nan'), pinf=z3.Bool('seq.pinf'), ninf=z3.Bool('seq.ninf'), sum=z3.Real('seq.sum'), N=N)
    s = th.seq
    pre = [N >= 0, N <= 1 << 40, z3.Implies(N == 0, z3.And(z3.Not(s['nan']), z3.Not(s['pinf']), z3.Not(s['ninf']), s['sum'] == 0))]
    if a in ('sum_abs', 'sum_sqr'):
        pre += [z3.Not(s['ninf']), s['sum'] >= 0]
    run.pre = list(run.pre) + pre
    for p in pre:
        ex.light.add(p)
    st = run.st0
    for i in range(len(e.args)):
        ex.regions['vec%d' % i] = SZ[e.T]
        st.mem['arg%d' % i] = {0: (8, RPtr('vec%d' % i, 0)), 8: (8, N)}
    st.ghost['heap'] = frozenset()
    st.ghost['tabs'] = ()
    st.ghost['reads'] = ()
    st.ghost['elts'] = ()
    elem = {}

    def element(i, j):
        k = (i, z3.simplify(ib(j)).sexpr())
        if k not in elem:
            elem[k] = th.input('x%d@%s' % k, fmt)
        return elem[k]

    def oblige(st, n, c):
        if c is not True:
            ex.obl.append((n, st.pc, tob(c)))

    def rload(ex, st, p, t):
        if p.reg.startswith('vec'):
            oblige(st, 'read-inside-the-vector', z3.And(ib(p.idx) >= 0, ib(p.idx) < N))
            i = int(p.reg[3:])
            st.ghost['reads'] = st.ghost['reads'] + ((i, p.idx),)
            return element(i, p.idx)
        T = tabs(st)[p.reg]
        for j, o in T.new:
            if same(j, p.idx):
                return o
        for o, r, j in st.ghost['elts']:
            if r == p.reg and same(j, p.idx):
                return Ptr(o, 0)
        if T.freed or T.fill is None:
            raise Undecided('load of an unset table entry')
        lo, hi = T.fill
        c = z3.And(ib(p.idx) >= lo, ib(p.idx) < hi)
        if T.clr is not None:
            c = z3.And(c, z3.Or(ib(p.idx) < T.clr[0], ib(p.idx) >= T.clr[1]))
        oblige(st, 'table-entry-holds-a-live-variable', c)
        o = ex.new_obj('elt')
        st.mp[(o, 0)] = models.MV(T.prec or 53, NAN() if not T.prec else th.havoc('elt', Format(T.prec, -(1 << 62), 1 << 62, False)), 0, None)
        st.mem[o] = {}
        st.ghost['heap'] = st.ghost['heap'] | {o}
        st.ghost['elts'] = st.ghost['elts'] + ((o, p.reg, p.idx),)
        return Ptr(o, 0)

    def rstore(ex, st, p, t, v):
        if p.reg.startswith('vec'):
            oblige(st, 'vector-is-not-modified', False)
            return
        T = tabs(st)[p.reg]
        oblige(st, 'write-inside-the-table', z3.And(ib(p.idx) >= 0, ib(p.idx) < T.n))
        if T.freed or not isinstance(v, Ptr):
            raise Undecided('table write')
        settab(st, p.reg, T.but(new=tuple(x for x in T.new if not same(x[0], p.idx)) + ((p.idx, v),)))

    ex.rload, ex.rstore = rload, rstore

    # ---- allocation
    def new(ex, st, args):
        st = st.copy()
        n = args[0]
        if isinstance(n, int):
            o = ex.new_obj('heap')
            st.mem[o] = {}
            st.ghost['heap'] = st.ghost['heap'] | {o}
            return [(st, Ptr(o, 0))]
        k = lindiv(n, 8)
        if k is None:
            raise Undecided('allocation size')
        ex.nobj += 1
        r = 'tab%d' % ex.nobj
        ex.regions[r] = 8
        settab(st, r, Tab(k))
        return [(st, RPtr(r, 0))]

    def delete(ex, st, args):
        st = st.copy()
        p = args[0]
        if isinstance(p, RPtr):
            T = tabs(st)[p.reg]
            if T.freed or not same(p.idx, 0):
                oblige(st, 'released-once', False)
                return [(st, None)]
            if T.fill is not None or T.new:
                c = False
                if T.fill is not None and not T.new:
                    c = ib(T.fill[0]) == T.fill[1] if T.clr is None else z3.And(ib(T.fill[0]) == T.clr[0], ib(T.fill[1]) == T.clr[1])
                oblige(st, 'every-entry-released-before-the-table', c)
            settab(st, p.reg, T.but(freed=True))
            return [(st, None)]
        if p == NULL:
            return [(st, None)]
        if p.obj not in st.ghost['heap']:
            oblige(st, 'released-once', False)
            return [(st, None)]
        if any(k[0] == p.obj for k in st.mp):
            oblige(st, 'cleared-before-released', False)
        st.ghost['heap'] = st.ghost['heap'] - {p.obj}
        st.mem.pop(p.obj, None)
        return [(st, None)]

    for nm in ('_Znam', '_Znwm'):
        ex.models[nm] = new
    for nm in ('_ZdaPv', '_ZdlPv', '_ZdlPvm', '_ZdaPvm'):
        ex.models[nm] = delete

    def const(v):
        return lambda ex, st, args: [(st, v)]
    ex.models['mpfr_get_emin_min'] = const(1 - (1 << 62))
    ex.models['mpfr_get_emax_max'] = const((1 << 62) - 1)

    def mpfr_sum(ex, st, args):
        """correctly rounded sum of the n variables the table points at"""
        p, t, n, rnd = args
        rnd = models.rndc(ex, rnd)
        if not isinstance(t, RPtr):
            raise Undecided('mpfr_sum over something else than the table')
        T = tabs(st)[t.reg]
        lo, hi = T.fill if T.fill is not None else (0, 0)
        if T.new or T.clr is not None or T.freed:
            raise Undecided('mpfr_sum over a table in an unknown state')
        oblige(st, 'summed-entries-are-the-terms-of-the-vector', z3.And(ib(t.idx) == lo, ib(t.idx) + n == hi, ib(n) == N))
        out = []
        for s1, b in ex.split(st, z3.Or(s['nan'], z3.And(s['pinf'], s['ninf']))):
            if b:
                out += models.special(ex, s1.copy(), p, NAN())
                continue
            for s2, pi in ex.split(s1, s['pinf']):
                if pi:
                    out += models.special(ex, s2.copy(), p, INF(False))
                    continue
                for s3, ni in ex.split(s2, s['ninf']):
                    out += models.special(ex, s3.copy(), p, INF(True)) if ni else models.finish(ex, s3.copy(), p, rnd, s['sum'], False)
        return out
    ex.models['mpfr_sum'] = mpfr_sum

    # ---- loops
    import loops
    snaps = {}

    def locs(f, hd, L):
        return [i[1] for i in f.blocks[hd] if i[0] == 'phi']

    def stride(x, y):
        if isinstance(x, bool) or isinstance(y, bool):
            return 0 if x is y else None
        if isinstance(x, (int, z3.ArithRef)) and isinstance(y, (int, z3.ArithRef)):
            return delta(x, y)
        if isinstance(x, RPtr) and isinstance(y, RPtr) and x.reg == y.reg:
            return delta(x.idx, y.idx)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x == y:
            return 0
        if x is y:
            return 0
        return None

    def at(x, d, K):
        if d == 0:
            return x
        if isinstance(x, RPtr):
            return RPtr(x.reg, z3.simplify(ib(x.idx) + d * K))
        return z3.simplify(ib(x) + d * K)

    def diff(sn, st, L, f, hd):
        """what one iteration changes: {('l', phi) | ('m', obj, off): stride or None}, changed mpfr variables"""
        r = {}
        for d in locs(f, hd, L):
            r['l', d] = stride(sn['L'][d], L[d])
        for o, cells in sn['st'].mem.items():
            now = st.mem.get(o)
            if now is cells:
                continue
            if now is None:
                raise Undecided('object released inside the loop')
            for off in set(cells) | set(now):
                x, y = cells.get(off), now.get(off)
                if x is None or y is None or x[0] != y[0]:
                    r['m', o, off] = None
                else:
                    k = stride(x[1], y[1])
                    if k != 0:
                        r['m', o, off] = k
        mp = []
        for k, v in sn['st'].mp.items():
            if st.mp.get(k) is not v:
                mp.append(k)
        gh = [k for k in ('emin', 'emax', 'fe') if not geq(sn['st'].ghost.get(k), st.ghost.get(k))]
        return r, mp, gh

    def geq(x, y):
        return x is y or (type(x) is type(y) and isinstance(x, int) and x == y) or (z3.is_expr(x) and z3.is_expr(y) and x.eq(y))

    def fold(sn, st):
        """entries written and released in this iteration: (fills, releases)"""
        old = dict(sn['st'].ghost['tabs'])
        fills, rel = [], []
        for nm, T in tabs(st).items():
            if nm not in old:
                raise Undecided('table allocated inside the loop')
            if len(T.new) != len(old[nm].new):
                fills.append((nm, T.new[len(old[nm].new):]))
        done = sn['st'].ghost['elts']
        for x in st.ghost['elts'][len(done):]:
            rel.append(x)
        return fills, rel

    def rng(i0, d, K):
        return (ib(i0), z3.simplify(ib(i0) + K)) if d > 0 else (z3.simplify(ib(i0) - K + 1), z3.simplify(ib(i0) + 1))

    def handler(name, hd):
        key = '%%loop:%s' % hd

        def inv(ex, st, L, prev, visits, f):
            ins = f.blocks[hd]
            L = dict(L)
            k = 0
            new = {}
            while ins[k][0] == 'phi':
                _, dst, t, inc = ins[k]
                for v, b in inc:
                    if b == prev:
                        new[dst] = ex.ev(st, L, t, v)
                k += 1
            L.update(new)
            cur = L.get(key)
            if cur is None:
                n = len(snaps)
                s1 = st.copy()
                L[key] = ('dry', n)
                s1.ghost['reads'] = ()
                snaps[n] = dict(st=s1.copy(), L=dict(L), gen=None)
                return [(s1, L, hd, prev, k)]
            kind, n = cur
            sn = snaps[n]
            if kind == 'dry':
                d = diff(sn, st, L, f, hd)
                if sn['gen'] is not None:
                    if d != sn['gen'][0]:
                        raise Undecided('loop changes different things on different paths')
                    return []
                fills, rel = fold(sn, st)
                K = th.fresh('K', 'i')
                var, mp, gh = d
                down = {}
                for (kind_, *w), dd in var.items():
                    x = sn['L'][w[0]] if kind_ == 'l' else (sn['st'].mem[w[0]].get(w[1]) or (0, None))[1]
                    if isinstance(x, RPtr) and dd == -1:
                        down[x.reg] = True

                def direction(nm, i0):
                    if down.get(nm):
                        return -1
                    acc = {}
                    free_consts(ib(i0), acc, set())
                    return -1 if 'N' in acc else 1
                plan = []
                s1 = sn['st'].copy()
                L1 = dict(sn['L'])
                for nm, w in fills:
                    if len(w) != 1 or tabs(s1)[nm].fill is not None:
                        raise Undecided('an iteration writes more than one table entry')
                    i0 = w[0][0]
                    dd = direction(nm, i0)
                    mv = st.mp.get((w[0][1].obj, w[0][1].off))
                    prec = mv.prec if mv is not None else None
                    plan.append(('fill', nm, i0, dd))
                    settab(s1, nm, tabs(s1)[nm].but(fill=rng(i0, dd, K), prec=prec))
                for nm in sorted({x[1] for x in rel}):
                    w = [x for x in rel if x[1] == nm]
                    if len(w) != 1 or tabs(s1)[nm].clr is not None:
                        raise Undecided('an iteration uses more than one table entry')
                    dd = direction(nm, w[0][2])
                    plan.append(('clear', nm, w[0][2], dd))
                    settab(s1, nm, tabs(s1)[nm].but(clr=rng(w[0][2], dd, K)))
                if not plan:
                    raise Undecided('loop neither fills nor releases a table')
                for (kind_, *w), dd in var.items():
                    if kind_ == 'l':
                        L1[w[0]] = UNDEF if dd is None else at(sn['L'][w[0]], dd, K)
                    else:
                        c = dict(s1.mem[w[0]])
                        if dd is None:
                            c.pop(w[1], None)
                        else:
                            c[w[1]] = (c[w[1]][0], at(c[w[1]][1], dd, K))
                        s1.mem[w[0]] = c
                for kk in mp:
                    mv = s1.mp[kk]
                    if kk not in st.mp:
                        raise Undecided('variable released inside the loop')
                    s1.mp[kk] = models.MV(mv.prec, th.havoc('lp', Format(mv.prec, -(1 << 62), 1 << 62, False)), th.fresh('lt', 'i'), None)
                for g in gh:
                    s1.ghost[g] = None
                sn['gen'] = (d, K, plan, s1)
                s2 = s1.copy()
                s2.pc = s2.pc + (K >= 0, K <= N)
                L1[key] = ('gen', n)
                return [(s2, L1, hd, prev, k)]
            # end of an arbitrary iteration
            d, K, plan, s1 = sn['gen']
            var, mp, gh = diff(sn, st, L, f, hd)
            K1 = z3.simplify(K + 1)
            oblige(st, 'loop-invariant/preserved/iteration-count', K + 1 <= N)
            for w, dd in d[0].items():
                if dd is None:
                    continue
                if w[0] == 'l':
                    x, y = at(sn['L'][w[1]], dd, K1), L[w[1]]
                else:
                    x, y = at(sn['st'].mem[w[1]][w[2]][1], dd, K1), (st.mem.get(w[1], {}).get(w[2]) or (0, None))[1]
                if stride(x, y) != 0:
                    oblige(st, 'loop-invariant/preserved/induction-variable', False)
            for w, dd in var.items():
                if w not in d[0]:
                    raise Undecided('later iterations change more')
            for kk in mp:
                if kk not in d[1]:
                    raise Undecided('later iterations change more variables')
            for g in gh:
                if g not in d[2]:
                    raise Undecided('later iterations change the environment')
            heap, keys = set(st.ghost['heap']), set(st.mp)
            used = {o for (o, _) in s1.mp} | set(s1.ghost['heap'])
            fills, rel = fold(dict(st=s1), st)
            for what, nm, i0, dd in plan:
                if what == 'fill':
                    w = [x for n_, x in fills if n_ == nm]
                    if len(w) != 1 or len(w[0]) != 1:
                        oblige(st, 'loop-invariant/preserved/one-entry-per-iteration', False)
                        continue
                    j, p = w[0][0]
                    oblige(st, 'loop-invariant/preserved/next-table-entry', ib(j) == ib(i0) + dd * K)
                    mv = st.mp.get((p.obj, p.off))
                    if mv is None or p.obj in used or p.obj not in heap:
                        oblige(st, 'loop-invariant/preserved/entry-is-a-variable-of-its-own', False)
                        continue
                    rd = [x for x in st.ghost['reads']]
                    js = {z3.simplify(ib(x[1])).sexpr() for x in rd}
                    jj = ib(K)
                    if len(js) == 1 and same(rd[0][1], N - 1 - K):
                        jj = N - 1 - K
                    t = term(th, a, [element(i, jj) for i in range(len(e.args))])
                    v = mv.fv
                    ng = Or(And(v.neg, t.neg), And(Not(v.neg), Not(t.neg)))
                    oblige(st, 'loop-invariant/preserved/entry-is-exactly-the-term', z3.And(tob(f_same(v, t)), tob(Implies(And(v.inf, Not(v.nan)), ng))))
                    if mv.prec != tabs(s1)[nm].prec:
                        raise Undecided('precision differs')
                    heap.discard(p.obj)
                    keys.discard((p.obj, p.off))
                else:
                    w = [x for x in rel if x[1] == nm]
                    if len(w) != 1:
                        oblige(st, 'loop-invariant/preserved/one-entry-per-iteration', False)
                        continue
                    oblige(st, 'loop-invariant/preserved/next-table-entry', ib(w[0][2]) == ib(i0) + dd * K)
                    oblige(st, 'loop-invariant/preserved/entry-cleared', (w[0][0], 0) not in keys)
                    oblige(st, 'loop-invariant/preserved/entry-memory-released', w[0][0] not in heap)
                    keys.discard((w[0][0], 0))
                    heap.discard(w[0][0])
            if {x[1] for x in rel} - {p[1] for p in plan if p[0] == 'clear'} or {x[0] for x in fills} - {p[1] for p in plan if p[0] == 'fill'}:
                raise Undecided('table use not seen in the first iteration')
            oblige(st, 'loop-invariant/preserved/no-memory-left-behind', heap <= set(s1.ghost['heap']) and keys <= set(s1.mp) and heap >= set(s1.ghost['heap']))
            return []
        return inv
    for name in list(run.mod._raw):
        if 'reduction' not in name and not name.startswith('@_ZSt') and '@_ZNSt' not in name:
            continue
        f_ = run.mod.func(name)
        for h in loops.headers(f_):
            ex.loopinv[(name, h)] = handler(name, h)
