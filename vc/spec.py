"""Extended-real algebra for the specifications."""
from fractions import Fraction
import z3
from fp import *

ILL, TRV, DEF, DAC, COM = 0, 4, 8, 12, 16


class ER:
    """extended real: -inf, +inf or a real value"""
    __slots__ = ('ninf', 'pinf', 'val')

    def __init__(self, ninf, pinf, val):
        self.ninf, self.pinf, self.val = ninf, pinf, val

    def inf(self):
        return Or(self.ninf, self.pinf)

    def fin(self):
        return Not(self.inf())


def er(fv):
    return ER(fv.ninf(), fv.pinf(), fv.val)


def er_c(v):
    return ER(False, False, Fraction(v) if isinstance(v, (int, Fraction)) else v)


NINF = ER(True, False, Fraction(0))
PINF = ER(False, True, Fraction(0))


def er_neg(a):
    return ER(a.pinf, a.ninf, rneg(a.val))


def er_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a.ninf is True or a.pinf is True:
        v = b.val
    elif b.ninf is True or b.pinf is True:
        v = a.val
    else:
        v = If(c, a.val, b.val)
    return ER(If(c, a.ninf, b.ninf), If(c, a.pinf, b.pinf), v)


def er_cases(*cs):
    """(cond, ER)... last is default"""
    r = cs[-1]
    for c, v in cs[-2::-1]:
        r = er_ite(c, v, r)
    return r


def er_add(a, b):
    return ER(Or(a.ninf, b.ninf), Or(a.pinf, b.pinf), radd(a.val, b.val))


def er_sub(a, b):
    return er_add(a, er_neg(b))


def er_le(a, b):
    return Or(a.ninf, b.pinf, And(a.fin(), b.fin(), le(a.val, b.val)))


def er_lt(a, b):
    return Not(er_le(b, a))


def er_eq(a, b):
    return Or(And(a.ninf, b.ninf), And(a.pinf, b.pinf), And(a.fin(), b.fin(), eq(a.val, b.val)))


def er_zero(a):
    return And(a.fin(), eq(a.val, 0))


def er_pos(a):
    return Or(a.pinf, And(a.fin(), lt(0, a.val)))


def er_negative(a):
    return Or(a.ninf, And(a.fin(), lt(a.val, 0)))


def er_min(a, b):
    return er_ite(er_le(a, b), a, b)


def er_max(a, b):
    return er_ite(er_le(a, b), b, a)


def er_abs(a):
    return ER(False, a.inf(), If(lt(a.val, 0), rneg(a.val), a.val))


def er_mul(th, a, b):
    """product with 0 * inf = 0"""
    z = Or(er_zero(a), er_zero(b))
    i = And(Or(a.inf(), b.inf()), Not(z))
    ng = Or(And(er_negative(a), er_pos(b)), And(er_pos(a), er_negative(b)))
    val = th.prod(a.val, b.val)
    if not (num(val) and val == 0):
        val = If(z, Fraction(0), val)
    return ER(And(i, ng), And(i, Not(ng)), val)


def er_fn(th, name, a, at_ninf=None, at_pinf=None):
    """extended real function value with given limits at the infinities"""
    r = er_c(th.fn(name, a.val))
    if at_pinf is not None:
        r = er_ite(a.pinf, at_pinf, r)
    if at_ninf is not None:
        r = er_ite(a.ninf, at_ninf, r)
    return r


def rnd(th, mode, f, e):
    """correctly rounded extended real as floating-point datum"""
    r = th.round(mode, f, e.val)
    inf = Or(e.inf(), And(Not(e.inf()), r.inf))
    ng = If(e.ninf, True, If(e.pinf, False, r.neg))
    return FV(False, inf, ng, r.val, f)


def datum(e, f):
    """extended real that is a member of the format"""
    return FV(False, e.inf(), If(e.ninf, True, If(e.pinf, False, lt(e.val, 0))), e.val, f)


def le_fe(fv, e):
    """datum fv <= extended real e"""
    return And(Not(fv.nan), er_le(er(fv), e))


def le_ef(e, fv):
    return And(Not(fv.nan), er_le(e, er(fv)))


# ---------------------------------------------------------------- intervals
def cached(f):
    n = '_' + f.__name__

    def g(self):
        d = self.__dict__
        if n not in d:
            d[n] = f(self)
        return d[n]
    return g


class IV:
    """bare interval datum (a pair of floating-point data)"""
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    @cached
    def valid(self):
        return Or(And(self.lo.nan, self.hi.nan), self.nonempty())

    @cached
    def nonempty(self):
        return And(f_le(self.lo, self.hi), Not(self.lo.pinf()), Not(self.hi.ninf()))

    @cached
    def empty(self):
        return And(self.lo.nan, self.hi.nan)

    @cached
    def entire(self):
        return And(self.lo.ninf(), self.hi.pinf())

    @cached
    def bounded(self):
        return And(self.nonempty(), Not(self.lo.inf), Not(self.hi.inf))

    @cached
    def L(self):
        return er(self.lo)

    @cached
    def U(self):
        return er(self.hi)

    def same(self, o):
        return And(f_same(self.lo, o.lo), f_same(self.hi, o.hi))

    def has(self, r):
        """real r is a member"""
        return And(self.nonempty(), f_le_r(self.lo, r), r_le_f(r, self.hi))


class DV:
    """decorated interval datum"""
    def __init__(self, iv, dec):
        self.iv, self.dec = iv, dec

    @cached
    def valid(self):
        d = self.dec
        return Or(And(self.iv.empty(), Or(deq(d, ILL), deq(d, TRV))),
                  And(Not(deq(d, ILL)), self.iv.nonempty(), Or(Not(deq(d, COM)), self.iv.bounded())))

    @cached
    def nai(self):
        return And(self.iv.empty(), deq(self.dec, ILL))


def deq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return (a == b)


def dle(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return a <= b


def dmin(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    return If(a <= b, a, b)


def dite(c, a, b):
    return If(c, a, b)


def er_quot(th, a, b):
    """a / b for b nonzero; infinite b gives 0, infinite a (finite b) the signed infinity"""
    ng = Or(And(er_negative(a), er_pos(b)), And(er_pos(a), er_negative(b)))
    z = Or(er_zero(a), b.inf())
    i = And(a.inf(), Not(b.inf()))
    v = th.quot(a.val, b.val)
    if not (num(v) and v == 0):
        v = If(z, Fraction(0), v)
    return ER(And(i, ng), And(i, Not(ng)), v)
