"""Operations of the flavor: signatures and mathematical specifications (exact ranges of the point functions)."""
from fractions import Fraction
import z3
from fp import *
from spec import *

# args: i interval, x always-bare interval, k int, n number of type T, e decoration
# ret:  i interval, x always bare, y always decorated, n number, b bool, o overlap, p pair of numbers, q pair of intervals, e decoration
SIG = {}
RANGE = {}      # op -> fn(th, X...) -> Range
CNAME = {}      # op -> name of the library function when it differs

class Range:
    """exact range of the point function over the (nonempty) operand box.
    empty: no point of the box lies in the domain; lo, hi: exact infimum/supremum (ER)
    defd: every point lies in the domain; cont: the restriction to the box is continuous;
    ptc: the function is continuous at every point of the box; exact: lo/hi are members of the format;
    corner: operands for which only enclosure is claimed, not the tightest result"""
    def __init__(self, lo, hi, empty=False, defd=True, cont=True, ptc=True, exact=False, corner=False):
        self.lo, self.hi, self.empty, self.defd, self.cont, self.ptc, self.exact, self.corner = lo, hi, empty, defd, cont, ptc, exact, corner


def op(name, args, ret='i'):
    def d(f):
        SIG[name] = (args, ret)
        RANGE[name] = f
        return f
    return d


ZERO = er_c(0)
ONE = er_c(1)


def isz(x):
    """interval is [0,0]"""
    return And(er_zero(x.L()), er_zero(x.U()))


def has0(x):
    return And(er_le(x.L(), ZERO), er_le(ZERO, x.U()))


# ---------------------------------------------------------------- arithmetic
def mul4(th, x, y):
    p = [er_mul(th, a, b) for a in (x.L(), x.U()) for b in (y.L(), y.U())]
    lo = er_min(er_min(p[0], p[1]), er_min(p[2], p[3]))
    hi = er_max(er_max(p[0], p[1]), er_max(p[2], p[3]))
    return lo, hi


@op('pos', 'i')
def _(th, x):
    return Range(x.L(), x.U(), exact=True)


@op('neg', 'i')
def _(th, x):
    return Range(er_neg(x.U()), er_neg(x.L()), exact=True)


@op('add', 'ii')
def _(th, x, y):
    return Range(er_add(x.L(), y.L()), er_add(x.U(), y.U()))


@op('sub', 'ii')
def _(th, x, y):
    return Range(er_sub(x.L(), y.U()), er_sub(x.U(), y.L()))


@op('mul', 'ii')
def _(th, x, y):
    return Range(*mul4(th, x, y))


def div_range(th, xl, xu, yl, yu):
    """hull of {a/b : a in [xl,xu], b in [yl,yu], b != 0}"""
    def qt(a, b):   # b nonzero
        return er_quot(th, a, b)
    xz = And(er_zero(xl), er_zero(xu))
    xp, xn = er_le(ZERO, xl), er_le(xu, ZERO)
    ypos, yneg = er_pos(yl), er_negative(yu)
    y0p = And(er_zero(yl), er_pos(yu))      # (0, yu]
    yn0 = And(er_zero(yu), er_negative(yl))  # [yl, 0)
    # 0 not in y: extremes at corners determined by signs
    lo = er_cases((xz, ZERO),
                  (ypos, er_ite(xp, qt(xl, yu), qt(xl, yl))),
                  (yneg, er_ite(xn, qt(xu, yl), qt(xu, yu))),
                  (And(y0p, xp), qt(xl, yu)),
                  (And(yn0, xn), qt(xu, yl)),
                  NINF)
    hi = er_cases((xz, ZERO),
                  (ypos, er_ite(xn, qt(xu, yu), qt(xu, yl))),
                  (yneg, er_ite(xp, qt(xl, yl), qt(xl, yu))),
                  (And(y0p, xn), qt(xu, yu)),
                  (And(yn0, xp), qt(xl, yl)),
                  PINF)
    return lo, hi


@op('div', 'ii')
def _(th, x, y):
    lo, hi = div_range(th, x.L(), x.U(), y.L(), y.U())
    return Range(lo, hi, empty=isz(y), defd=Not(has0(y)))


@op('recip', 'i')
def _(th, x):
    lo, hi = div_range(th, ONE, ONE, x.L(), x.U())
    return Range(lo, hi, empty=isz(x), defd=Not(has0(x)))


@op('sqr', 'i')
def _(th, x):
    ll, uu = er_mul(th, x.L(), x.L()), er_mul(th, x.U(), x.U())
    return Range(er_cases((er_le(ZERO, x.L()), ll), (er_le(x.U(), ZERO), uu), ZERO), er_max(ll, uu))


@op('sqrt', 'i')
def _(th, x):
    neg = er_negative(x.L())
    return Range(er_ite(neg, ZERO, er_fn(th, 'sqrt', x.L())), er_fn(th, 'sqrt', x.U(), at_pinf=PINF), empty=er_negative(x.U()), defd=Not(neg))


@op('fma', 'iii')
def _(th, x, y, z):
    lo, hi = mul4(th, x, y)
    return Range(er_add(lo, z.L()), er_add(hi, z.U()))


# ---------------------------------------------------------------- powers
def n_odd(n):
    return n % 2 == 1


def pown_er(th, a, n, rn):
    """a^n for a finite nonzero or infinite, n != 0 (a = 0 only with n > 0)"""
    pos = le(0, a.val)
    ax = If(pos, a.val, rneg(a.val))
    v = th.fn('pown', ax, rn)
    odd = n_odd(n)
    v = If(eq(a.val, 0), Fraction(0), If(And(Not(pos), odd), rneg(v), v))
    nn = n < 0
    inf = And(a.inf(), Not(nn))
    ng = And(a.ninf, odd)
    return ER(And(inf, ng), And(inf, Not(ng)), If(a.inf(), Fraction(0), v))


@op('pown', 'ik')
def _(th, x, n):
    rn = Fraction(n) if isinstance(n, int) else z3.ToReal(n)
    odd, neg = n_odd(n), n < 0
    n0 = n == 0
    pl, pu = pown_er(th, x.L(), n, rn), pown_er(th, x.U(), n, rn)
    L, U = x.L(), x.U()
    h0 = has0(x)
    lpos, uneg = er_le(ZERO, L), er_le(U, ZERO)
    lz, uz = er_zero(L), er_zero(U)
    lo = er_cases((n0, ONE),
                  (And(Not(neg), odd), pl),
                  (Not(neg), er_cases((lpos, pl), (uneg, pu), ZERO)),
                  # negative exponents
                  (And(odd, h0), er_cases((lz, pu), NINF)),
                  (odd, pu),
                  (h0, er_min(er_ite(lz, PINF, pl), er_ite(uz, PINF, pu))),
                  (lpos, pu),
                  pl)
    hi = er_cases((n0, ONE),
                  (And(Not(neg), odd), pu),
                  (Not(neg), er_max(pl, pu)),
                  (And(odd, h0), er_cases((uz, pl), PINF)),
                  (odd, pl),
                  (h0, PINF),
                  (lpos, pl),
                  pu)
    return Range(lo, hi, empty=And(neg, isz(x)), defd=Or(Not(neg), Not(h0)))


def pow_er(th, b, e):
    """b^e for b >= 0 with limits: 0^+ = 0, 0^- = inf, b^0 = 1, b^inf by b<1, =1, >1"""
    ez, ep = er_zero(e), er_pos(e)
    bz = er_zero(b)
    b1 = And(b.fin(), eq(b.val, 1))
    blt = And(b.fin(), lt(b.val, 1))
    zero_or_inf = er_cases((ep, ZERO), PINF)
    return er_cases((Or(ez, b1), ONE),
                    (bz, zero_or_inf),
                    (b.pinf, er_cases((ep, PINF), ZERO)),
                    (e.inf(), er_cases((blt, zero_or_inf), (ep, PINF), ZERO)),
                    er_c(th.fn('pow', b.val, e.val)))


@op('pow', 'ii')
def _(th, x, y):
    L = er_ite(er_negative(x.L()), ZERO, x.L())
    U = x.U()
    uz = er_zero(U)
    ypos = er_pos(y.U())
    c = [pow_er(th, b, e) for b in (L, U) for e in (y.L(), y.U())]
    lo = er_min(er_min(c[0], c[1]), er_min(c[2], c[3]))
    hi = er_max(er_max(c[0], c[1]), er_max(c[2], c[3]))
    lo = er_ite(uz, ZERO, lo)
    hi = er_ite(uz, ZERO, hi)
    defd = Or(er_pos(x.L()), And(er_zero(x.L()), er_pos(y.L())))
    return Range(lo, hi, empty=Or(er_negative(U), And(uz, Not(ypos))), defd=defd)


# ---------------------------------------------------------------- exponential / logarithm / hyperbolic
def monotone(name, lo_lim, hi_lim):
    @op(name, 'i')
    def f(th, x):
        return Range(er_fn(th, name, x.L(), at_ninf=lo_lim), er_fn(th, name, x.U(), at_pinf=hi_lim))
    return f


for _n in ('exp', 'exp2', 'exp10'):
    monotone(_n, ZERO, PINF)
monotone('sinh', NINF, PINF)
monotone('asinh', NINF, PINF)
monotone('tanh', er_c(-1), ONE)


@op('atan', 'i')
def _(th, x):
    p = th.fn('pi')
    return Range(er_fn(th, 'atan', x.L(), at_ninf=er_c(-p / 2)), er_fn(th, 'atan', x.U(), at_pinf=er_c(p / 2)))


def logs(name):
    @op(name, 'i')
    def f(th, x):
        lp = er_pos(x.L())
        return Range(er_ite(lp, er_fn(th, name, x.L()), NINF), er_fn(th, name, x.U(), at_pinf=PINF), empty=Not(er_pos(x.U())), defd=lp)


for _n in ('log', 'log2', 'log10'):
    logs(_n)


@op('cosh', 'i')
def _(th, x):
    cl, cu = er_fn(th, 'cosh', x.L(), PINF, PINF), er_fn(th, 'cosh', x.U(), PINF, PINF)
    return Range(er_cases((er_le(ZERO, x.L()), cl), (er_le(x.U(), ZERO), cu), ONE), er_max(cl, cu))


@op('acosh', 'i')
def _(th, x):
    lt1 = er_lt(x.L(), ONE)
    return Range(er_ite(lt1, ZERO, er_fn(th, 'acosh', x.L())), er_fn(th, 'acosh', x.U(), at_pinf=PINF), empty=er_lt(x.U(), ONE), defd=Not(lt1))


@op('atanh', 'i')
def _(th, x):
    a, b = er_le(x.L(), er_c(-1)), er_le(ONE, x.U())
    return Range(er_ite(a, NINF, er_fn(th, 'atanh', x.L())), er_ite(b, PINF, er_fn(th, 'atanh', x.U())),
                 empty=Or(er_le(x.U(), er_c(-1)), er_le(ONE, x.L())), defd=And(Not(a), Not(b)))


@op('asin', 'i')
def _(th, x):
    p = th.fn('pi')
    a, b = er_le(x.L(), er_c(-1)), er_le(ONE, x.U())
    return Range(er_ite(a, er_c(-p / 2), er_fn(th, 'asin', x.L())), er_ite(b, er_c(p / 2), er_fn(th, 'asin', x.U())),
                 empty=Or(er_lt(x.U(), er_c(-1)), er_lt(ONE, x.L())), defd=And(er_le(er_c(-1), x.L()), er_le(x.U(), ONE)))


@op('acos', 'i')
def _(th, x):
    p = th.fn('pi')
    a, b = er_le(x.L(), er_c(-1)), er_le(ONE, x.U())
    return Range(er_ite(b, ZERO, er_fn(th, 'acos', x.U())), er_ite(a, er_c(p), er_fn(th, 'acos', x.L())),
                 empty=Or(er_lt(x.U(), er_c(-1)), er_lt(ONE, x.L())), defd=And(er_le(er_c(-1), x.L()), er_le(x.U(), ONE)))


# ---------------------------------------------------------------- trigonometric
def near_period(th, L, U):
    """width within 1e-5 of pi or 2 pi"""
    w = rsub(U.val, L.val)
    p = th.fn('pi')
    d = Fraction(1, 10 ** 5)
    return And(L.fin(), U.fin(), Or(*[And(le(k * p - (d if num(p) else q(d)), w), le(w, k * p + (d if num(p) else q(d)))) for k in (1, 2)]))


def trig_range(th, name, x):
    """extrema of sin (cos) lie at odd multiples of pi/2 (multiples of pi); hidx numbers the monotone branches:
    even branches increase for sin (cos increases on odd branches)"""
    L, U = x.L(), x.U()
    unb = Or(L.inf(), U.inf())
    hl, hu = th.hidx(name, L.val), th.hidx(name, U.val)
    two = hu - hl >= 2
    one = hu - hl == 1
    od = hu % 2 == 1
    if name == 'cos':
        od = Not(od)    # cos decreases on even branches: the boundary into an even branch is a maximum
    has_max = Or(unb, two, And(one, od))
    has_min = Or(unb, two, And(one, Not(od)))
    a, b = er_c(th.fn(name, L.val)), er_c(th.fn(name, U.val))
    return Range(er_ite(has_min, er_c(-1), er_min(a, b)), er_ite(has_max, ONE, er_max(a, b)), corner=near_period(th, L, U))


@op('sin', 'i')
def _(th, x):
    return trig_range(th, 'sin', x)


@op('cos', 'i')
def _(th, x):
    return trig_range(th, 'cos', x)


@op('tan', 'i')
def _(th, x):
    L, U = x.L(), x.U()
    pole = Or(L.inf(), U.inf(), Not(eqi(th.hidx('sin', L.val), th.hidx('sin', U.val))))
    return Range(er_ite(pole, NINF, er_c(th.fn('tan', L.val))), er_ite(pole, PINF, er_c(th.fn('tan', U.val))), defd=Not(pole), corner=near_period(th, L, U))


def eqi(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return a == b




@op('atan2', 'ii')
def _(th, y, x):
    P = th.fn('pi')
    yl, yu, xl, xu = y.L(), y.U(), x.L(), x.U()

    def a2(b, a):
        """atan2 at a corner (b over a) with limits at infinities; not both zero"""
        bz = er_zero(b)
        az = er_zero(a)
        h = er_c(P / 2)
        nh = er_c(-(P / 2))
        return er_cases((And(bz, er_pos(a)), ZERO),
                        (bz, er_c(P)),
                        (And(b.inf(), a.inf()), NINF),      # never used
                        (b.pinf, h), (b.ninf, nh),
                        (a.pinf, ZERO),
                        (a.ninf, er_ite(er_pos(b), er_c(P), er_c(-P))),
                        (az, er_ite(er_pos(b), h, nh)),
                        er_c(th.fn('atan2', b.val, a.val)))
    # corners at (inf, inf) are never extremal except through the limit along an edge: the edge's other
    # end decides, so replace an infinite ordinate's partner by the limit pi/2-type value
    yz = isz(y)
    xz = isz(x)
    yp = er_le(ZERO, yl)     # y >= 0
    yn = er_le(yu, ZERO)
    xp = er_le(ZERO, xl)
    xn = er_le(xu, ZERO)

    def a2l(b, a, lim):
        return er_ite(And(b.inf(), a.inf()), lim, a2(b, a))
    h, nh = er_c(P / 2), er_c(-(P / 2))
    # upper half plane (y >= 0, not y = [0,0]): the angle decreases with x; with y it increases for x > 0 and decreases for x < 0
    up_lo = er_cases((xz, h), (xp, corner_lo_q1(th, a2l, yl, xu)), (xn, a2l(yu, xu, h)),
                     a2l(yl, xu, ZERO))
    up_hi = er_cases((xz, h), (xp, a2l(yu, xl, h)), (xn, er_ite(er_zero(yl), er_c(P), a2l(yl, xl, er_c(P)))),
                     er_ite(er_zero(yl), er_c(P), a2l(yl, xl, er_c(P))))
    # lower half plane (y <= 0, not [0,0]); y = 0 with x < 0 belongs to +pi (branch cut)
    dn_hi0 = er_cases((xz, nh), (xp, er_ite(er_zero(yu), ZERO, a2l(yu, xu, ZERO))), (xn, a2l(yl, xu, nh)),
                      a2l(yu, xu, ZERO))
    dn_lo0 = er_cases((xz, nh), (xp, a2l(yl, xl, nh)), a2l(yu, xl, er_c(-P)))
    cut = And(er_zero(yu), er_negative(xl))
    dn_hi = er_ite(cut, er_c(P), dn_hi0)
    dn_lo = er_ite(cut, er_c(-P), dn_lo0)
    # y has both signs
    mx_lo = er_ite(xp, a2l(yl, xl, nh), er_c(-P))
    mx_hi = er_ite(xp, a2l(yu, xl, h), er_c(P))
    z_lo = er_ite(xn, er_c(P), ZERO)
    z_hi = er_ite(xp, ZERO, er_c(P))
    lo = er_cases((yz, z_lo), (yp, up_lo), (yn, dn_lo), mx_lo)
    hi = er_cases((yz, z_hi), (yp, up_hi), (yn, dn_hi), mx_hi)
    h0 = And(has0(y), has0(x))
    # branch cut: points y = 0, x < 0; the restriction is continuous when y >= 0, and not when y takes negative values too
    oncut = And(has0(y), er_negative(xl))
    cont = Not(And(oncut, er_negative(yl)))
    return Range(lo, hi, empty=And(isz(y), isz(x)), defd=Not(h0), cont=cont, ptc=Not(oncut))


def corner_lo_q1(th, a2l, yl, xu):
    return er_ite(er_zero(yl), ZERO, a2l(yl, xu, ZERO))


# ---------------------------------------------------------------- step functions
def step(name, jump):
    @op(name, 'i')
    def f(th, x):
        a, b = er_int(th, name, x.L()), er_int(th, name, x.U())
        const = er_eq(a, b)
        return Range(a, b, cont=const, ptc=And(const, Not(jump(th, x, a))), exact=True)


def er_int(th, name, a):
    return ER(a.ninf, a.pinf, th.intfn(name, a.val))


def is_int(th, v):
    return eq(th.intfn('floor', v), v)


def is_half(th, v):
    """v is an odd multiple of 1/2"""
    return eq(rsub(v, th.intfn('floor', v)), Fraction(1, 2))


step('floor', lambda th, x, v: is_int(th, x.L().val))
step('ceil', lambda th, x, v: is_int(th, x.U().val))
step('trunc', lambda th, x, v: Or(And(lt(0, v.val), is_int(th, x.L().val)), And(lt(v.val, 0), is_int(th, x.U().val))))
step('round_ties_to_even', lambda th, x, v: Or(is_half(th, x.L().val), is_half(th, x.U().val)))
step('round_ties_to_away', lambda th, x, v: Or(is_half(th, x.L().val), is_half(th, x.U().val)))


@op('sign', 'i')
def _(th, x):
    def sg(a):
        return er_c(If(er_pos(a), Fraction(1), If(er_negative(a), Fraction(-1), Fraction(0))))
    a, b = sg(x.L()), sg(x.U())
    const = er_eq(a, b)
    return Range(a, b, cont=const, ptc=And(const, Not(has0(x))), exact=True)


@op('abs', 'i')
def _(th, x):
    a, b = er_abs(x.L()), er_abs(x.U())
    return Range(er_cases((er_le(ZERO, x.L()), a), (er_le(x.U(), ZERO), b), ZERO), er_max(a, b), exact=True)


@op('min', 'ii')
def _(th, x, y):
    return Range(er_min(x.L(), y.L()), er_min(x.U(), y.U()), exact=True)


@op('max', 'ii')
def _(th, x, y):
    return Range(er_max(x.L(), y.L()), er_max(x.U(), y.U()), exact=True)


ARITH = ['pos', 'neg', 'add', 'sub', 'mul', 'div', 'recip', 'sqr', 'sqrt', 'fma']
STEP = ['sign', 'ceil', 'floor', 'trunc', 'round_ties_to_even', 'round_ties_to_away', 'abs', 'min', 'max']
ELEM = ['pown', 'pow', 'exp', 'exp2', 'exp10', 'log', 'log2', 'log10', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2',
        'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh']


# ---------------------------------------------------------------- set operations
@op('intersection', 'ii')
def _(th, x, y):
    return Range(er_max(x.L(), y.L()), er_min(x.U(), y.U()), empty=Or(er_lt(x.U(), y.L()), er_lt(y.U(), x.L())), exact=True)


@op('convex_hull', 'ii')
def _(th, x, y):
    return Range(er_min(x.L(), y.L()), er_max(x.U(), y.U()), exact=True)


SETOPS = ['intersection', 'convex_hull']

# ---------------------------------------------------------------- boolean functions of nonempty/empty intervals
BOOL = {}


def bop(name, args, dec=None):
    """dec: restrict to decorated (True) / bare (False) forms"""
    def d(f):
        SIG[name] = (args, 'b')
        BOOL[name] = f
        return f
    return d


def both(f):
    """formula for two nonempty operands"""
    return f


bop('is_empty', 'i')(lambda x: x.empty())
bop('is_entire', 'i')(lambda x: x.entire())
bop('is_common_interval', 'i')(lambda x: x.bounded())
bop('is_singleton', 'i')(lambda x: And(x.nonempty(), f_eq(x.lo, x.hi)))
bop('equal', 'ii')(lambda x, y: Or(And(x.empty(), y.empty()), And(x.nonempty(), y.nonempty(), er_eq(x.L(), y.L()), er_eq(x.U(), y.U()))))
bop('subset', 'ii')(lambda x, y: Or(x.empty(), And(x.nonempty(), y.nonempty(), er_le(y.L(), x.L()), er_le(x.U(), y.U()))))
bop('less', 'ii')(lambda x, y: Or(And(x.empty(), y.empty()), And(x.nonempty(), y.nonempty(), er_le(x.L(), y.L()), er_le(x.U(), y.U()))))
bop('precedes', 'ii')(lambda x, y: Or(x.empty(), y.empty(), And(x.nonempty(), y.nonempty(), er_le(x.U(), y.L()))))


def er_lt1(a, b):
    """a < b or both infinite of equal sign"""
    return Or(er_lt(a, b), And(a.inf(), er_eq(a, b)))


bop('interior', 'ii')(lambda x, y: Or(x.empty(), And(x.nonempty(), y.nonempty(), er_lt1(y.L(), x.L()), er_lt1(x.U(), y.U()))))
bop('strictly_less', 'ii')(lambda x, y: Or(And(x.empty(), y.empty()), And(x.nonempty(), y.nonempty(), er_lt1(x.L(), y.L()), er_lt1(x.U(), y.U()))))
bop('strictly_precedes', 'ii')(lambda x, y: Or(x.empty(), y.empty(), And(x.nonempty(), y.nonempty(), er_lt(x.U(), y.L()))))
bop('disjoint', 'ii')(lambda x, y: Or(x.empty(), y.empty(), And(x.nonempty(), y.nonempty(), Or(er_lt(x.U(), y.L()), er_lt(y.U(), x.L())))))
bop('is_member', 'ni')(lambda m, x: And(x.nonempty(), Not(m.nan), Not(m.inf), er_le(x.L(), er(m)), er_le(er(m), x.U())))
SIG['is_nai'] = ('i', 'b')
SIG['is_valid'] = ('i', 'b')
BOOLOPS = sorted(BOOL)

# ---------------------------------------------------------------- overlap
SIG['overlap'] = ('ii', 'o')
OVERLAP = dict(undefined=0, both_empty=1, first_empty=2, second_empty=4, before=8, meets=16, overlaps=32, starts=64, contained_by=128, finishes=256, equal=512,
               finished_by=1024, contains=2048, started_by=4096, overlapped_by=8192, met_by=16384, after=32768)


def overlap_cases(x, y):
    """[(condition, state name)]: pairwise exclusive and exhaustive over valid operands"""
    a1, a2, b1, b2 = x.L(), x.U(), y.L(), y.U()
    n = And(x.nonempty(), y.nonempty())
    L, E = er_lt, er_eq
    return [(And(x.empty(), y.empty()), 'both_empty'), (And(x.empty(), y.nonempty()), 'first_empty'), (And(x.nonempty(), y.empty()), 'second_empty'),
            (And(n, L(a2, b1)), 'before'), (And(n, L(a1, a2), E(a2, b1), L(b1, b2)), 'meets'), (And(n, L(a1, b1), L(b1, a2), L(a2, b2)), 'overlaps'),
            (And(n, E(a1, b1), L(a2, b2)), 'starts'), (And(n, L(b1, a1), L(a2, b2)), 'contained_by'), (And(n, L(b1, a1), E(a2, b2)), 'finishes'),
            (And(n, E(a1, b1), E(a2, b2)), 'equal'), (And(n, L(a1, b1), E(a2, b2)), 'finished_by'), (And(n, L(a1, b1), L(b2, a2)), 'contains'),
            (And(n, E(a1, b1), L(b2, a2)), 'started_by'), (And(n, L(b1, a1), L(a1, b2), L(b2, a2)), 'overlapped_by'),
            (And(n, L(b1, b2), E(b2, a1), L(a1, a2)), 'met_by'), (And(n, L(b2, a1)), 'after')]


# ---------------------------------------------------------------- numeric functions: op -> fn(C, x) -> exact ER, rounding mode
for _o in ('inf', 'sup', 'mid', 'rad', 'wid', 'mag', 'mig'):
    SIG[_o] = ('i', 'n')
SIG['mid_rad'] = ('i', 'p')
NUMOPS = ['inf', 'sup', 'mid', 'rad', 'mid_rad', 'wid', 'mag', 'mig']

# ---------------------------------------------------------------- construction and conversion
SIG.update({'empty': ('', 'i'), 'entire': ('', 'i'), 'empty_dec': ('', 'y'), 'entire_dec': ('', 'y'), 'nai': ('', 'y'), 'nums_to_interval': ('nn', 'x'), 'nums_to_decorated_interval': ('nn', 'y'),
            'nums_dec_to_decorated_interval': ('nne', 'y'), 'copy': ('i', 'i'), 'convert_type': ('i', 'i'), 'convert_hull': ('i', 'i'), 'interval_part': ('i', 'x'),
            'new_dec': ('x', 'y'), 'set_dec': ('xe', 'y'), 'decoration_part': ('i', 'e'), 'convert_rndd': ('n', 'n'), 'convert_rndn': ('n', 'n'), 'convert_rndu': ('n', 'n')})


# ---------------------------------------------------------------- cancellative operations
SIG['cancel_minus'] = SIG['cancel_plus'] = ('ii', 'i')
CANCEL = ['cancel_minus', 'cancel_plus']
SIG['two_sum'] = ('nn', 'p')
SIG['mul_rev_to_pair'] = ('ii', 'q')
# op -> fn(th, bare operands) -> [(condition, [result bounds or None for empty])], for valid operands that are not NaI
CASES = {}
CASEDEC = {'cancel_minus': lambda d, B, rs: [4], 'cancel_plus': lambda d, B, rs: [4],
           'mul_rev_to_pair': lambda d, B, rs: [dmin(d, dite(Or(has0(B[0]), rs[0].empty()), TRV, dite(rs[0].bounded(), COM, DAC))), TRV]}


def cancel_cases(th, x, y, yl, yu):
    xb, yb = And(x.nonempty(), x.bounded()), And(y.nonempty(), y.bounded())
    unb = Or(And(x.nonempty(), Not(x.bounded())), And(y.nonempty(), Not(y.bounded())))
    narrow = lt(radd(x.hi.val, rneg(x.lo.val)), radd(yu.val, rneg(yl.val)))
    both = And(xb, yb)
    E_ = [(NINF, PINF)]
    return [(unb, E_), (And(x.empty(), Not(unb)), [None]), (And(xb, y.empty()), E_), (And(both, narrow), E_), (And(both, Not(narrow)), [(er_sub(x.L(), yl), er_sub(x.U(), yu))])]


CASES['cancel_minus'] = lambda th, x, y: cancel_cases(th, x, y, y.L(), y.U())
CASES['cancel_plus'] = lambda th, x, y: cancel_cases(th, x, y, er_neg(y.U()), er_neg(y.L()))


def pair_cases(th, b, c):
    em = Or(b.empty(), c.empty())
    (e1, l1, u1), (e2, l2, u2) = mul_rev_pieces(th, b, c)
    p = Not(em)
    return [(em, [None, None]), (And(p, e1), [None, None]), (And(p, Not(e1), e2), [(l1, u1), None]), (And(p, Not(e1), Not(e2)), [(l1, u1), (l2, u2)])]


CASES['mul_rev_to_pair'] = pair_cases

# ---------------------------------------------------------------- reverse operations
# op -> fn(th, arguments without x) -> [(piece is empty, lo, hi)]: the exact preimage as closed intervals
REV = {}


def rev(name, args):
    """registers name (with the constraint interval last) and name1 (without)"""
    def d(f):
        n = args.replace('k', '')
        k = 'k' if 'k' in args else ''
        SIG[name] = (n + 'i' + k, 'i')
        SIG[name + '1'] = (n + k, 'i')
        CNAME[name + '1'] = name
        REV[name] = REV[name + '1'] = f
        return f
    return d


def mirrored(em, lo, hi):
    return [(em, lo, hi), (em, er_neg(hi), er_neg(lo))]


@rev('sqr_rev', 'i')
def _(th, c):
    em = er_negative(c.U())
    return mirrored(em, er_ite(er_pos(c.L()), er_fn(th, 'sqrt', c.L()), ZERO), er_fn(th, 'sqrt', c.U(), at_pinf=PINF))


@rev('abs_rev', 'i')
def _(th, c):
    return mirrored(er_negative(c.U()), er_ite(er_pos(c.L()), c.L(), ZERO), c.U())


@rev('cosh_rev', 'i')
def _(th, c):
    return mirrored(er_lt(c.U(), ONE), er_ite(er_lt(ONE, c.L()), er_fn(th, 'acosh', c.L()), ZERO), er_fn(th, 'acosh', c.U(), at_pinf=PINF))


def mul_rev_pieces(th, b, c):
    """{x : b*x meets c}: [(empty, lo, hi)] twice, the first below the second"""
    def qt(a, d):
        return er_quot(th, a, d)
    bl, bu, cl, cu = b.L(), b.U(), c.L(), c.U()
    b0, c0 = has0(b), has0(c)
    bz = isz(b)
    lo, hi = div_range(th, cl, cu, bl, bu)
    cp = er_pos(cl)
    str_ = And(er_negative(bl), er_pos(bu))
    all_ = And(b0, c0)
    two = And(str_, Not(c0))
    # two pieces, or one half line, for 0 in b and 0 not in c
    up1 = er_ite(cp, qt(cl, bl), qt(cu, bu))            # upper end of the negative piece
    lo2 = er_ite(cp, qt(cl, bu), qt(cu, bl))
    half_neg = Or(And(er_zero(bl), Not(cp)), And(er_zero(bu), cp))     # the only piece is the lower half line
    half_pos = And(Not(two), Not(half_neg))
    e1 = And(bz, Not(c0))
    first = (e1, er_cases((all_, NINF), (Not(b0), lo), (Or(two, half_neg), NINF), lo2), er_cases((all_, PINF), (Not(b0), hi), (Or(two, half_neg), up1), PINF))
    return [first, (Not(two), lo2, PINF)]


@rev('mul_rev', 'ii')
def _(th, b, c):
    return mul_rev_pieces(th, b, c)


@rev('pown_rev', 'ik')
def _(th, c, k):
    n = abs(k) if isinstance(k, int) else z3.If(k < 0, -k, k)
    rn = Fraction(n) if isinstance(n, int) else z3.ToReal(n)
    cl, cu = c.L(), c.U()
    od, ng = n_odd(k), k < 0

    def root(a):
        """real n-th root, odd in a"""
        v = a.val
        if num(v):
            r = th.fn('root', abs(v), rn) if v else Fraction(0)
            return ER(a.ninf, a.pinf, r if v >= 0 else rneg(r))
        m = th.fn('root', If(lt(v, 0), rneg(v), v), rn)
        return ER(a.ninf, a.pinf, If(eq(v, 0), Fraction(0), If(lt(v, 0), rneg(m), m)))

    def inv(a):
        """1 / root(a), a nonzero"""
        v = a.val
        if num(v):
            r = th.quot(Fraction(1), th.fn('root', abs(v), rn)) if v else Fraction(0)
            return er_ite(a.inf(), ZERO, er_c(r if v >= 0 else rneg(r)))
        m = th.quot(Fraction(1), th.fn('root', If(lt(v, 0), rneg(v), v), rn))
        return er_ite(a.inf(), ZERO, er_c(If(lt(v, 0), rneg(m), m)))
    c0 = er_ite(er_pos(cl), cl, ZERO)
    npos, nneg = Not(er_pos(cu)), Not(er_negative(cl))
    k0, k1 = k == 0, k == 1
    lo = er_cases((k0, NINF), (k1, cl), (ng, inv(cu)), (od, root(cl)), root(c0))
    hi = er_cases((k0, PINF), (k1, cu), (ng, er_ite(er_pos(cl), inv(cl), PINF)), root(cu))
    em = If(k0, Not(And(er_le(cl, ONE), er_le(ONE, cu))), If(k1, False, If(ng, npos, If(od, False, er_negative(cu)))))
    # second piece: below the first
    em2 = If(Or(k0, k1), True, If(od, If(ng, nneg, True), em))
    lo2 = er_ite(od, er_ite(er_negative(cu), inv(cu), NINF), er_neg(hi))
    hi2 = er_ite(od, inv(cl), er_neg(lo))
    return [(em, lo, hi), (em2, lo2, hi2)]


BYCON = set(REV)          # callees represented by any result that satisfies the contract
# private functions under a contract of their own: op -> body of the entry (T v; int t is the result)
SIG['pown_rev_inf'] = SIG['pown_rev_sup'] = ('nk', 't')
RED = set()     # filled by red.py
HELPER = {'pown_rev_%s' % w: 'F<{T}>::mpfr_var::setup(); F<{T}>::mpfr_var c(*a0, MPFR_RND%s); F<{T}>::mpfr_var x; o->t = F<{T}>::pown_rev_%s(c, x, *a1); o->v = x.template get<{T}>(MPFR_RND%s);' % (i, w, d)
          for w, i, d in (('inf', 'U', 'D'), ('sup', 'D', 'U'))}

# what a caller has to guarantee (checked where the contract is used)
HELPERPRE = {o: (lambda c, k: And(k < 0, Not(c.nan), Not(And(c.iszero(), c.neg)), Or(Not(c.neg), n_odd(k)))) for o in ('pown_rev_inf', 'pown_rev_sup')}


def inv_root(th, a, k):
    """the real r with r^k = a, for k < 0 and a finite, nonzero, positive if k is even"""
    n = -k if isinstance(k, int) else z3.simplify(-k)
    rn = Fraction(n) if isinstance(n, int) else z3.ToReal(n)
    if num(a):
        r = th.quot(Fraction(1), th.fn('root', abs(a), rn)) if a else Fraction(0)
        return r if a >= 0 else rneg(r)
    m = th.quot(Fraction(1), th.fn('root', If(lt(a, 0), rneg(a), a), rn))
    return If(lt(a, 0), rneg(m), m)


REVOPS = ['sqr_rev', 'abs_rev', 'cosh_rev', 'mul_rev', 'pown_rev']
