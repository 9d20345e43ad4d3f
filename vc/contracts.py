"""Contracts.  Every function returns [(obligation name, formula)] over the operands and the outcome of one
call; the same code is evaluated symbolically (proof) and on concrete data (replay)."""
from fp import *
from spec import *
from spec import IV, DV
import ops
import red


def bare(a):
    return a.iv if isinstance(a, DV) else a


def ivals(e, args):
    return [bare(a) for c, a in zip(e.args, args) if c in 'ix']


def operands(e, args):
    return [a for c, a in zip(e.args, args) if c in 'ix']


def extras(e, args):
    return [a for c, a in zip(e.args, args) if c not in 'ix']


def all_valid(e, args):
    return And(*[a.valid() for a in operands(e, args)])


def any_nai(e, args):
    return Or(*[a.nai() for a in operands(e, args) if isinstance(a, DV)])


def any_empty(e, args):
    return Or(*[v.empty() for v in ivals(e, args)])


def proper(e, args):
    """all operands valid, not NaI, nonempty"""
    return And(all_valid(e, args), Not(any_nai(e, args)), *[v.nonempty() for v in ivals(e, args)])


def rng(C, args):
    it = iter(args)
    a = [bare(x) if c in 'ix' else x for c, x in zip(C.e.args, args)]
    return ops.RANGE[C.e.op](C.th, *a)


# ---------------------------------------------------------------- range operations
def contain(C, args, out):
    """every value of the point function on the operand box lies in the result"""
    e = C.e
    R = rng(C, args)
    r = bare(out.val)
    c = And(proper(e, args), Not(R.empty))
    return [('result-nonempty', Implies(c, r.nonempty())),
            ('lower-bound-below-range', Implies(c, le_fe(r.lo, R.lo))),
            ('upper-bound-above-range', Implies(c, le_ef(R.hi, r.hi)))]


def tight(C, args, out):
    """the result is the tightest interval of the format enclosing the range"""
    e = C.e
    R = rng(C, args)
    r = bare(out.val)
    p = And(proper(e, args), Not(R.corner))
    c = And(p, Not(R.empty))
    lo, hi = (datum(R.lo, C.f), datum(R.hi, C.f)) if R.exact and all(fmt_sub(FMT_OF_T[a], C.f) for a in e.A) else (rnd(C.th, RD, C.f, R.lo), rnd(C.th, RU, C.f, R.hi))
    return [('lower-bound-correctly-rounded', Implies(c, f_eq(r.lo, lo))),
            ('upper-bound-correctly-rounded', Implies(c, f_eq(r.hi, hi))),
            ('empty-range-gives-empty', Implies(And(p, R.empty), r.empty()))]


def propagate(C, args, out):
    """empty operands give empty, NaI and invalid operands give NaI (decorated) / empty (bare)"""
    e = C.e
    r = out.val
    v = all_valid(e, args)
    g = [('empty-operand-gives-empty', Implies(And(v, Not(any_nai(e, args)), any_empty(e, args)), bare(r).empty())),
         ('invalid-operand-gives-empty', Implies(Not(v), bare(r).empty()))]
    if isinstance(r, DV):
        bad = Or(Not(v), any_nai(e, args))
        g += [('nai-or-invalid-gives-nai', Implies(bad, r.nai())), ('nai-only-from-nai', Implies(Not(bad), Not(r.nai())))]
    return g


def validrep(C, args, out):
    """the result is a valid representation"""
    return [('valid-result', out.val.valid())]


def decorated(C, args, out):
    """result decoration = min(operand decorations, decoration of the function on the box)"""
    e = C.e
    r = out.val
    if not isinstance(r, DV):
        return []
    R = rng(C, args)
    p = proper(e, args)
    ok = And(all_valid(e, args), Not(any_nai(e, args)))
    d = COM
    for a in operands(e, args):
        d = dmin(d, a.dec)
    local = dite(Or(R.empty, Not(R.defd)), TRV, dite(Not(R.cont), DEF, dite(And(R.ptc, bare(r).bounded()), COM, DAC)))
    want = dmin(d, local)
    return [('decoration', Implies(And(p, Not(R.empty), Not(R.corner)), deq(r.dec, want))),
            ('decoration-not-too-strong', Implies(And(p, Not(R.empty), R.corner), dle(r.dec, want))),
            ('decoration-of-empty', Implies(And(ok, Or(any_empty(e, args), And(p, R.empty))), deq(r.dec, TRV)))]


# ---------------------------------------------------------------- non-range operations
def truth(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v != 0
    if z3.is_bool(v):
        return v
    return v != 0


def iff(a, b):
    return Or(And(a, b), And(Not(a), Not(b)))


def nice(e, args):
    """every operand valid and none NaI"""
    return And(all_valid(e, args), Not(any_nai(e, args)))


def boolspec(C, args, out):
    """boolean functions equal their set-theoretic definition; false for invalid operands and NaI"""
    e = C.e
    v = truth(out.val)
    if e.op == 'is_valid':
        return [('valid-iff-representation-valid', iff(v, args[0].valid()))]
    if e.op == 'is_nai':
        return [('nai-iff-ill', iff(v, args[0].nai()))]
    a = [bare(x) if c in 'ix' else x for c, x in zip(e.args, args)]
    ok = nice(e, args)
    return [('relation', Implies(ok, iff(v, ops.BOOL[e.op](*a)))), ('false-for-nai-or-invalid', Implies(Not(ok), Not(v)))]


def overlapspec(C, args, out):
    """the overlap state is the unique Allen relation of the operands"""
    e = C.e
    ok = nice(e, args)
    x, y = bare(args[0]), bare(args[1])
    g = [(nm, Implies(And(ok, c), deq(out.val, ops.OVERLAP[nm]))) for c, nm in ops.overlap_cases(x, y)]
    return g + [('undefined', Implies(Not(ok), deq(out.val, 0)))]


def setspec(C, args, out):
    """intersection / convex hull: exact (outward rounded for other formats), trv decoration"""
    e = C.e
    r = out.val
    x, y = bare(args[0]), bare(args[1])
    rb = bare(r)
    ok = nice(e, args)
    g = tight(C, args, out)
    if e.op == 'intersection':
        g += [('empty-operand-gives-empty', Implies(And(ok, any_empty(e, args)), rb.empty()))]
    else:
        g += [('both-empty', Implies(And(ok, x.empty(), y.empty()), rb.empty()))]
        for p, q, n in ((x, y, 'second'), (y, x, 'first')):
            c = And(ok, p.empty(), q.nonempty())
            g += [('only-%s-operand-lower' % n, Implies(c, And(Not(rb.lo.nan), f_eq(rb.lo, rnd(C.th, RD, C.f, q.L()))))),
                  ('only-%s-operand-upper' % n, Implies(c, And(Not(rb.hi.nan), f_eq(rb.hi, rnd(C.th, RU, C.f, q.U())))))]
    g += [('invalid-operand-gives-empty', Implies(Not(all_valid(e, args)), rb.empty()))]
    if isinstance(r, DV):
        g += [('decoration-trv', Implies(ok, deq(r.dec, TRV))), ('nai', Implies(Not(ok), r.nai()))]
    return g


def is_num(C, v, e, mode, zneg=None, exact=False):
    """datum v equals e rounded (exact: e is a member of the format); sign of a zero result if zneg is given"""
    r = datum(e, C.f) if exact else rnd(C.th, mode, C.f, e)
    c = And(Not(v.nan), f_eq(v, r))
    if zneg is not None:
        z = And(Not(v.inf), eq(v.val, 0))
        c = And(c, Implies(z, v.neg if zneg else Not(v.neg)))
    return c


def midspec(C, x):
    """[(condition on the nonempty interval, ER, exact?)] of the midpoint"""
    half = z3.RealVal('1/2')
    MX = C.th.MAX(C.f)
    e = er_c((x.lo.val + x.hi.val) / 2)
    return e


def numspec(C, args, out):
    """numeric functions: correctly rounded (in the stated direction) values of their mathematical definition"""
    e = C.e
    X = args[0]
    x = bare(X)
    v = out.val
    ok = nice(e, args)
    ne = And(ok, x.nonempty())
    vs = v if isinstance(v, tuple) else (v,)
    g = [('nan-for-nai-or-invalid', Implies(Not(ok), And(*[w.nan for w in vs])))]
    o = e.op
    if o == 'inf':
        return g + [('empty', Implies(And(ok, x.empty()), v.pinf())), ('lower-bound', Implies(ne, is_num(C, v, x.L(), RD, True)))]
    if o == 'sup':
        return g + [('empty', Implies(And(ok, x.empty()), v.ninf())), ('upper-bound', Implies(ne, is_num(C, v, x.U(), RU, False)))]
    g += [('nan-for-empty', Implies(And(ok, x.empty()), And(*[w.nan for w in vs])))]
    if o == 'wid':
        return g + [('width', Implies(ne, is_num(C, v, er_sub(x.U(), x.L()), RU, False)))]
    a, b = er_abs(x.L()), er_abs(x.U())
    ex = not e.A or fmt_sub(FMT_OF_T[e.A[0]], C.f)
    if o == 'mag':
        return g + [('magnitude', Implies(ne, is_num(C, v, er_max(a, b), RU, False, ex)))]
    if o == 'mig':
        m = er_cases((And(er_le(x.L(), er_c(0)), er_le(er_c(0), x.U())), er_c(0)), (er_le(er_c(0), x.L()), a), b)
        return g + [('mignitude', Implies(ne, is_num(C, v, m, RD, False, ex)))]
    MX = C.th.MAX(C.f)
    mid = v if o == 'mid' else v[0] if o == 'mid_rad' else None
    if mid is not None:
        c = er_c((x.lo.val + x.hi.val) / 2)
        g += [('mid-of-entire', Implies(And(ne, x.entire()), And(Not(mid.nan), Not(mid.inf), eq(mid.val, 0), Not(mid.neg)))),
              ('mid-of-left-unbounded', Implies(And(ne, x.lo.inf, Not(x.hi.inf)), And(Not(mid.nan), Not(mid.inf), eq(mid.val, -MX)))),
              ('mid-of-right-unbounded', Implies(And(ne, x.hi.inf, Not(x.lo.inf)), And(Not(mid.nan), Not(mid.inf), eq(mid.val, MX)))),
              ('mid-of-bounded', Implies(And(ne, x.bounded()), is_num(C, mid, c, RN, False)))]
    if o in ('rad', 'mid_rad'):
        rad = v if o == 'rad' else v[1]
        m = rnd(C.th, RN, C.f, er_c((x.lo.val + x.hi.val) / 2))
        d = er_max(er_c(m.val - x.lo.val), er_c(x.hi.val - m.val))
        g += [('rad-of-unbounded', Implies(And(ne, Not(x.bounded())), rad.pinf())),
              ('rad-of-bounded', Implies(And(ne, x.bounded(), Not(m.inf)), is_num(C, rad, d, RU, False)))]
    return g


def cancelspec(C, args, out):
    """cancellative addition / subtraction"""
    e = C.e
    r = out.val
    rb = bare(r)
    x, y = bare(args[0]), bare(args[1])
    ok = nice(e, args)
    if e.op == 'cancel_minus':
        yl, yu = y.L(), y.U()
    else:
        yl, yu = er_neg(y.U()), er_neg(y.L())
    xb, yb = And(x.nonempty(), x.bounded()), And(y.nonempty(), y.bounded())
    both = And(ok, xb, yb)
    xu_, xl_, yu_, yl_ = x.hi.val, x.lo.val, yu.val, yl.val
    narrow = lt(radd(xu_, rneg(xl_)), radd(yu_, rneg(yl_)))
    g = [('empty-minus-bounded-is-empty', Implies(And(ok, x.empty(), Or(y.empty(), yb)), rb.empty())),
         ('valid', r.valid()),
         ('unbounded-gives-entire', Implies(And(ok, Or(And(x.nonempty(), Not(x.bounded())), And(y.nonempty(), Not(y.bounded())))), rb.entire())),
         ('nonempty-minus-empty-is-entire', Implies(And(ok, x.nonempty(), y.empty()), rb.entire())),
         ('narrower-gives-entire', Implies(And(both, narrow), rb.entire())),
         ('tightest', Implies(And(both, Not(narrow)), outward(C, rb, er_sub(x.L(), yl), er_sub(x.U(), yu)))),
         ('invalid-gives-empty', Implies(Not(all_valid(e, args)), rb.empty()))]
    if isinstance(r, DV):
        g += [('decoration-trv', Implies(ok, deq(r.dec, TRV))), ('nai', Implies(Not(ok), r.nai()))]
    return g


def sumspec(C, args, out):
    """two_sum: rounded sum and its exact error"""
    a, b = args
    s, r = out.val
    fin = And(*[And(Not(x.nan), Not(x.inf)) for x in args])
    e = radd(a.val, b.val)
    w = rnd(C.th, RN, C.f, er_c(e))
    g = [('sum-is-rounded-to-nearest', Implies(fin, And(Not(s.nan), f_eq(s, w)))),
         ('error-is-exact', Implies(And(fin, Not(w.inf)), And(Not(r.nan), Not(r.inf), eq(radd(s.val, r.val), e))))]
    return g


def pairspec(C, args, out):
    """two-interval division"""
    e = C.e
    r1, r2 = out.val
    b, c = bare(args[0]), bare(args[1])
    ok = nice(e, args)
    p = proper(e, args)
    (e1, l1, u1), (e2, l2, u2) = ops.mul_rev_pieces(C.th, b, c)
    b1, b2 = bare(r1), bare(r2)
    g = [('no-solution-gives-empty', Implies(And(p, e1), And(b1.empty(), b2.empty()))),
         ('first-piece', Implies(And(p, Not(e1)), outward(C, b1, l1, u1))),
         ('second-piece', Implies(And(p, Not(e2)), outward(C, b2, l2, u2))),
         ('no-second-piece', Implies(And(p, e2), b2.empty())),
         ('empty-operand', Implies(And(ok, any_empty(e, args)), And(b1.empty(), b2.empty()))),
         ('invalid-operand', Implies(Not(all_valid(e, args)), And(b1.empty(), b2.empty()))),
         ('valid', And(r1.valid(), r2.valid()))]
    if isinstance(r1, DV):
        d = COM
        for a in operands(e, args):
            d = dmin(d, a.dec)
        w = dmin(d, dite(ops.has0(b), TRV, dite(b1.bounded(), COM, DAC)))
        g += [('decoration', Implies(p, deq(r1.dec, w))), ('decoration-of-second', Implies(ok, deq(r2.dec, TRV))),
              ('decoration-of-empty', Implies(And(ok, any_empty(e, args)), deq(r1.dec, TRV))), ('nai', Implies(Not(ok), And(r1.nai(), r2.nai())))]
    return g


def revspec(C, args, out):
    """reverse operations: encloses the preimage, and is no wider than the rounded pieces within the constraint"""
    e = C.e
    th, f = C.th, C.f
    r = out.val
    rb = bare(r)
    A = [bare(a) if c in 'ix' else a for c, a in zip(e.args, args)]
    unary = e.op.endswith('1')
    nx = len(e.args.replace('k', '')) - 1
    ivs = [a for a, c in zip(A, e.args) if c == 'i']
    ks = [a for a, c in zip(A, e.args) if c == 'k']
    if unary:
        xl, xu = NINF, PINF
    else:
        xl, xu = ivs[nx].L(), ivs[nx].U()
        ivs = ivs[:nx]
    P = ops.REV[e.op](th, *(ivs + ks))
    p = proper(e, args)
    ok = nice(e, args)
    g = []
    some = []
    xl_, xu_ = er_r(rnd(th, RD, f, xl)), er_r(rnd(th, RU, f, xu))
    for k, (em, lo, hi) in enumerate(P):
        meets = And(p, Not(em), er_le(lo, xu), er_le(xl, hi))
        g += [('piece-%d-nonempty' % k, Implies(meets, rb.nonempty())),
              ('piece-%d-lower' % k, Implies(meets, le_fe(rb.lo, er_max(lo, xl)))),
              ('piece-%d-upper' % k, Implies(meets, le_ef(er_min(hi, xu), rb.hi)))]
        l, u = er_r(rnd(th, RD, f, lo)), er_r(rnd(th, RU, f, hi))
        some.append((And(Not(em), er_le(l, xu_), er_le(xl_, u)), er_max(l, xl_), er_min(u, xu_)))
    ne = And(p, rb.nonempty())
    g += [('empty-unless-a-piece-meets', Implies(ne, Or(*[m for m, a, b in some]))),
          ('lower-not-below-pieces', Implies(ne, Or(*[And(m, le_ef(a, rb.lo)) for m, a, b in some]))),
          ('upper-not-above-pieces', Implies(ne, Or(*[And(m, le_fe(rb.hi, b)) for m, a, b in some]))),
          ('empty-operand-gives-empty', Implies(And(ok, any_empty(e, args)), rb.empty())),
          ('invalid-operand-gives-empty', Implies(Not(all_valid(e, args)), rb.empty())),
          ('valid', r.valid())]
    if isinstance(r, DV):
        g += [('decoration-trv', Implies(ok, deq(r.dec, TRV))), ('nai', Implies(Not(ok), r.nai()))]
    return g


def rootspec(C, args, out):
    """pown_rev_inf / pown_rev_sup: the k-th root, k < 0, rounded down / up; a nonzero return value only if it is not exact"""
    e = C.e
    a, k = args
    v, t = out.val
    lowr = e.op == 'pown_rev_inf'
    ok = And(k < 0, Not(a.nan), Not(a.inf), Not(eq(a.val, 0)), Or(lt(0, a.val), ops.n_odd(k)))
    r = ops.inv_root(C.th, a.val, k)
    w = rnd(C.th, RD if lowr else RU, C.f, er_c(r))
    inex = Not(eqn(t, 0))
    return [('correctly-rounded-root', Implies(ok, And(f_eq(v, w)))),
            ('inexact-flag-only-if-inexact', Implies(And(ok, inex), Not(And(v.fin(), eq(v.val, r))))),
            ('root-of-infinity', Implies(And(k < 0, Not(a.nan), a.inf, Or(Not(a.neg), ops.n_odd(k))), And(v.iszero(), Not(inex)))),
            ('root-of-zero', Implies(And(k < 0, a.iszero(), Not(a.neg)), And(v.inf, Not(v.nan), Not(v.neg), Not(inex))))]


def eqn(a, b):
    return a == b


def er_r(v):
    """the extended real of a rounded datum"""
    return er(v)


def good_bounds(l, u):
    return And(Not(l.nan), Not(u.nan), er_le(er(l), er(u)), Not(l.pinf()), Not(u.ninf()))


def outward(C, iv, lo, hi):
    """iv is the outward rounding of [lo, hi]"""
    return And(Not(iv.lo.nan), Not(iv.hi.nan), f_eq(iv.lo, rnd(C.th, RD, C.f, lo)), f_eq(iv.hi, rnd(C.th, RU, C.f, hi)))


def bit(s, k):
    if isinstance(s, int):
        return bool(s >> k & 1)
    if isinstance(s, bool):
        return bool(s) and k == 0
    return s.get(k)


def classspec(C, args, out):
    """constructors and conversions build the specified datum"""
    e = C.e
    o = e.op
    r = out.val
    th, f = C.th, C.f
    rb = bare(r) if isinstance(r, (IV, DV)) else None
    if o in ('empty', 'empty_dec'):
        return [('empty', rb.empty())] + ([('trv', deq(r.dec, TRV))] if isinstance(r, DV) else [])
    if o in ('entire', 'entire_dec'):
        return [('entire', rb.entire())] + ([('dac', deq(r.dec, DAC))] if isinstance(r, DV) else [])
    if o == 'nai':
        return [('nai', r.nai())]
    if o in ('convert_rndd', 'convert_rndn', 'convert_rndu'):
        x = args[0]
        m, z = {'d': (RD, True), 'n': (RN, False), 'u': (RU, False)}[o[-1]]
        return [('nan-propagates', iff(x.nan, r.nan)), ('correctly-rounded', Implies(Not(x.nan), is_num(C, r, er(x), m, z)))]
    if o in ('nums_to_interval', 'nums_to_decorated_interval', 'nums_dec_to_decorated_interval'):
        l, u = args[0], args[1]
        ok = good_bounds(l, u)
        if o == 'nums_dec_to_decorated_interval':
            d = args[2]
            vd = Or(*[deq(d, k) for k in (4, 8, 12, 16)])
            ok = And(ok, vd, Or(Not(deq(d, COM)), And(Not(l.inf), Not(u.inf))))
        g = [('bounds', Implies(ok, outward(C, rb, er(l), er(u))))]
        if isinstance(r, DV):
            want = dite(rb.bounded(), COM, DAC)
            if o == 'nums_dec_to_decorated_interval':
                want = dmin(args[2], want)
            return g + [('decoration', Implies(ok, deq(r.dec, want))), ('nai-otherwise', Implies(Not(ok), r.nai()))]
        return g + [('empty-otherwise', Implies(Not(ok), rb.empty()))]
    X = args[0]
    x = bare(X)
    ok = nice(e, args)
    if o == 'decoration_part':
        return [('decoration', Implies(X.valid(), deq(r, X.dec))), ('ill-for-invalid', Implies(Not(X.valid()), deq(r, ILL)))]
    g = [('bounds', Implies(And(ok, x.nonempty()), outward(C, rb, x.L(), x.U()))), ('empty', Implies(And(ok, x.empty()), rb.empty()))]
    if o == 'interval_part':
        return g + [('empty-for-nai-or-invalid', Implies(Not(ok), rb.empty()))]
    if o in ('copy', 'convert_type', 'convert_hull'):
        if o == 'convert_hull':
            pass
        elif isinstance(r, DV):
            g += [('nai', Implies(Not(ok), r.nai()))]
        else:
            g += [('empty-for-invalid', Implies(Not(ok), rb.empty()))]
        if isinstance(r, DV):
            w = dite(And(deq(X.dec, COM), Not(rb.bounded())), DAC, X.dec)
            g += [('decoration', Implies(ok, deq(r.dec, w)))]
            if o == 'convert_hull':
                g += [('nai', Implies(And(X.valid(), X.nai()), r.nai()))]
        return g
    if o == 'new_dec':
        return g + [('decoration', Implies(And(ok, x.nonempty()), deq(r.dec, dite(rb.bounded(), COM, DAC)))), ('empty-trv', Implies(And(ok, x.empty()), deq(r.dec, TRV))),
                    ('nai-for-invalid', Implies(Not(ok), r.nai()))]
    if o == 'set_dec':
        d = args[1]
        ok = And(ok, Or(*[deq(d, k) for k in (4, 8, 12, 16)]))
        g = [(n, Implies(ok, c)) for n, c in g]
        return g + [('decoration', Implies(And(ok, x.nonempty()), deq(r.dec, dite(And(deq(d, COM), Not(rb.bounded())), DAC, d)))),
                    ('empty-trv', Implies(And(ok, x.empty()), deq(r.dec, TRV))), ('nai-for-ill-or-invalid', Implies(Not(ok), r.nai()))]
    raise KeyError(o)


# ---------------------------------------------------------------- exception signalling
def expected_signal(C, args):
    """(must signal undefined-operation, interval-part-of-NaI, invalid-operand)"""
    e = C.e
    bad = Not(all_valid(e, args))
    und, nai = False, False
    o = e.op
    if o in ('nums_to_interval', 'nums_to_decorated_interval', 'nums_dec_to_decorated_interval'):
        ok = good_bounds(args[0], args[1])
        if o == 'nums_dec_to_decorated_interval':
            d = args[2]
            bad = Not(Or(*[deq(d, k) for k in (0, 4, 8, 12, 16)]))
            ok = And(ok, Not(deq(d, ILL)), Or(Not(deq(d, COM)), And(Not(args[0].inf), Not(args[1].inf))))
            und = And(Not(bad), Not(ok))
        else:
            und = Not(ok)
    elif o == 'interval_part':
        nai = And(all_valid(e, args), any_nai(e, args))
    elif o == 'set_dec':
        d = args[1]
        bad = Or(bad, Not(Or(*[deq(d, k) for k in (0, 4, 8, 12, 16)])))
    return und, nai, bad


def signals(C, args, out):
    """exactly the specified exception bit is raised and stays set; the exception is thrown iff its trap bit is set"""
    und, nai, bad = expected_signal(C, args)
    s0, s1, c0, c1 = C.state0, out.state1, C.cwd0, out.cwd1
    sig = [und, False, nai, bad]
    g = [('flag-%d' % (1 << k), iff(bit(s1, k), Or(bit(s0, k), sig[k]))) for k in range(4)]
    g += [('trap-mask-%d-unchanged' % (1 << k), iff(bit(c1, k), bit(c0, k))) for k in range(4)]
    trap = Or(*[And(sig[k], bit(c0, k)) for k in range(4)])
    if out.kind == 'ret':
        g += [('returns-only-without-trap', Not(trap))]
    else:
        g += [('throws-only-when-trapped', trap)]
    return g


signals.throws = True


def environment(C, args, out):
    """the rounding mode is as found and every multiple-precision temporary has been released"""
    g = [('rounding-mode-restored', True if out.fe1 is C.fe0 else (out.fe1 == C.fe0))]
    g += [('temporaries-released', len(out.leak) == 0)]
    return g


environment.throws = True


def owned(C, args, out):
    """every object accessed belongs to the calling thread (operands, locals, thread-local state) or is never modified"""
    return [('thread-owned:%s' % s.replace(' ', '-'), False) for s in out.shared] or [('thread-owned', True)]


owned.throws = True


def C(name):
    return globals()[name]


def forwards(C, args, out):
    """the class operation behaves as the flavor operation of its name on the same operands"""
    import api
    k, v, st = out.want
    if k != out.kind:
        return [('same-outcome', False)]
    if k != 'ret':
        return [('exception-passes-through', out.exc == v)]
    s1 = out.state1
    ok = (s1 is st) or (s1 == st if isinstance(s1, int) else s1.eq(st))
    return [('result-unchanged', api.same(out.val, v)), ('no-other-signal', ok)]


forwards.throws = True


def redspec(C, args, out):
    return red.spec(C, args, out)


def redmem(C, args, out):
    return red.released(C, args, out)
