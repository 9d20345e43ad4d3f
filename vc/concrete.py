"""Concrete side: IEEE encodings, correct rounding of rationals, high-precision real functions; evaluates the
same contracts on the outcome of a real call (replay of a failed obligation)."""
import struct, ctypes, random, itertools, time
from fractions import Fraction
import mpmath
import sys as _sys
_sys.set_int_max_str_digits(0)
from fp import *
import spec
from spec import IV, DV

ENC = {'f': (24, -148, 128), 'd': (53, -1073, 1024), 'l': (64, -16444, 16384)}


def fl(fmt, mode, e, zs=False):
    """correctly rounded Fraction -> FV"""
    p, emin, emax = fmt.p, fmt.emin, fmt.emax
    if e == 0:
        return FV(False, False, zs, Fraction(0), fmt)
    neg = e < 0
    a = -e if neg else e
    # exponent ex: 2^(ex-1) <= a < 2^ex
    ex = a.numerator.bit_length() - a.denominator.bit_length() + 1
    if a < Fraction(2) ** (ex - 1):
        ex -= 1
    lsb = ex - p
    if fmt.sub:
        lsb = max(lsb, emin - 1)
    s = a / Fraction(2) ** lsb
    n = s.numerator // s.denominator
    rem = s - n
    if mode == RN:
        up = rem > Fraction(1, 2) or (rem == Fraction(1, 2) and n % 2 == 1)
    elif mode == RA:
        up = rem != 0
    else:
        up = rem != 0 and ((mode == RU and not neg) or (mode == RD and neg))
    if up:
        n += 1
    v = Fraction(n) * Fraction(2) ** lsb
    mx = (1 - Fraction(1, 2 ** p)) * Fraction(2) ** emax
    if v > mx:
        if mode == RN or (mode == RU and not neg) or (mode == RD and neg):
            return FV(False, True, neg, Fraction(0), fmt)
        v = mx
    return FV(False, False, neg, -v if neg else v, fmt)


def mag2(x):
    """approximate binary exponent"""
    x = abs(Fraction(x))
    if x == 0:
        return 0
    return x.numerator.bit_length() - x.denominator.bit_length()


def to_mpf(x):
    return mpmath.mpf(x.numerator) / mpmath.mpf(x.denominator)


def from_mpf(m):
    if not mpmath.isfinite(m):
        raise OverflowError
    s, man, ex, bc = m._mpf_
    if abs(ex + bc) > 400000:       # far outside every format
        v = Fraction(2) ** 200000 if ex > 0 else Fraction(1, 2 ** 200000)
        return -v if s else v
    v = Fraction(int(man)) * (Fraction(2) ** ex)
    return -v if s else v


EXACT = {}


PIS = {}


def pi_to(prec):
    prec = (prec // 1000 + 1) * 1000
    if prec not in PIS:
        PIS[prec] = approx(lambda: +mpmath.pi, prec, None)
    return PIS[prec]


class CTheory:
    """concrete counterpart of fp.Theory"""
    def __init__(self):
        self.memo = {}
        self.base = []

    def MAX(self, f):
        return (1 - Fraction(1, 2 ** f.p)) * Fraction(2) ** f.emax

    def MIN(self, f):
        return Fraction(2) ** (f.emin - 1)

    def round(self, mode, f, e, zs=False):
        return fl(f, mode, Fraction(e), zs)

    def convert(self, mode, f, v):
        return fl(f, mode, v.val, v.neg)

    def prod(self, x, y):
        return Fraction(x) * Fraction(y)

    def quot(self, x, y):
        return Fraction(x) / Fraction(y) if y != 0 else Fraction(0)

    def intfn(self, name, x):
        x = Fraction(x)
        f = x.numerator // x.denominator
        if name == 'floor':
            return Fraction(f)
        if name == 'ceil':
            return Fraction(-((-x.numerator) // x.denominator))
        if name == 'trunc':
            return Fraction(f if x >= 0 or f == x else f + 1)
        d = x - f
        if name == 'round_ties_to_even':
            return Fraction(f + 1 if d > Fraction(1, 2) or (d == Fraction(1, 2) and f % 2) else f)
        return Fraction(f + 1 if d > Fraction(1, 2) or (d == Fraction(1, 2) and x > 0) else f)

    def hidx(self, name, x):
        k = ('hidx', name, x)
        r = self.memo.get(k)
        if r is None:
            p = pi_to(abs(mag2(x)) + 400)
            y = Fraction(x) / p + (Fraction(1, 2) if name == 'sin' else 0)
            r = self.memo[k] = y.numerator // y.denominator
        return r

    def fn(self, name, *args):
        k = (name,) + args
        r = self.memo.get(k)
        if r is None:
            if len(self.memo) > 20000:
                self.memo.clear()
            r = self.memo[k] = real_fn(name, *[Fraction(a) for a in args])
        return r


def real_fn(name, *a):
    """real function value as a rational: exact where the value is rational and known, otherwise an
    approximation with far more bits than any rounding boundary needs"""
    x = a[0] if a else None
    one = Fraction(1)
    if name == 'prod':
        return a[0] * a[1]
    if name == 'quot':
        return a[0] / a[1] if a[1] else Fraction(0)
    if name == 'pown':
        n = int(a[1])
        big = abs(mag2(x) + 1) * abs(n)
        if n == 0:
            return one
        if x == 0:
            return Fraction(0)
        if big < 200000 and (x.numerator.bit_length() + x.denominator.bit_length()) * abs(n) < 4000000:
            return x ** n
        # far outside every range (or close to one): approximate
        return approx(lambda: mpmath.power(to_mpf(x), n), 400, one)
    if name == 'sqrt':
        n, d = x.numerator, x.denominator
        if n < 0:
            return Fraction(0)
        k = 1 << 400
        import math
        r = math.isqrt(n * d * k * k)
        if r * r == n * d * k * k:
            return Fraction(r, d * k)
        return Fraction(2 * r + 1, 2 * d * k)
    if name == 'root':
        n = int(a[1])
        if x < 0 or n <= 0:
            return Fraction(0)
        if x == 0:
            return Fraction(0)
        v = approx(lambda: mpmath.root(to_mpf(x), n), 500, None)
        return snap_if(v, lambda c: c == x == 1 or (c.numerator.bit_length() + c.denominator.bit_length()) * n < 4000000 and c ** n == x)
    if name == 'pow':
        y = a[1]
        if x <= 0:
            return Fraction(0)
        if y.denominator == 1 and abs(mag2(x) + 1) * abs(int(y)) < 100000:
            return x ** int(y)
        if x == 1 or y == 0:
            return one
        v = approx(lambda: mpmath.power(to_mpf(x), to_mpf(y)), 500 + 2 * abs(mag2(x)) // 100 + 2 * abs(mag2(y)), None, wide=True)
        if y.denominator > 1 and y.denominator < 1 << 12 and abs(y.numerator) < 1 << 14:
            return snap_if(v, lambda c: mag2(c) * y.denominator < 100000 and abs(mag2(x)) * abs(y.numerator) < 100000 and c ** y.denominator == x ** y.numerator)
        return v
    with_zero = {'sin': 0, 'tan': 0, 'asin': 0, 'atan': 0, 'sinh': 0, 'tanh': 0, 'asinh': 0, 'atanh': 0, 'cos': 1, 'cosh': 1, 'exp': 1, 'exp2': 1, 'exp10': 1}
    if name in with_zero and x == 0:
        return Fraction(with_zero[name])
    if name == 'pi':
        return approx(lambda: +mpmath.pi, 2000, None)
    if name == 'exp2' and x.denominator == 1 and abs(x) < 200000:
        return Fraction(2) ** int(x)
    if name == 'exp10' and x.denominator == 1 and abs(x) < 60000:
        return Fraction(10) ** int(x)
    if name in ('log', 'log2', 'log10'):
        if x <= 0:
            return Fraction(0)
        if x == 1:
            return Fraction(0)
        if name == 'log2' and (x.numerator & (x.numerator - 1)) == 0 and (x.denominator & (x.denominator - 1)) == 0:
            return Fraction(x.numerator.bit_length() - x.denominator.bit_length())
        if name == 'log10':
            for u, sg in ((x, 1), (1 / x, -1)):
                if u.denominator == 1 and u > 1:
                    n = len(str(u.numerator)) - 1 if u.numerator.bit_length() < 40000 else 0
                    if 10 ** n == u.numerator:
                        return Fraction(n * sg)
    if name in ('asin', 'acos') and abs(x) > 1:
        return Fraction(0)
    if name == 'atanh' and abs(x) >= 1:
        return Fraction(0)
    if name == 'acosh':
        if x < 1:
            return Fraction(0)
        if x == 1:
            return Fraction(0)
    if name == 'acos' and x == 1:
        return Fraction(0)
    if name in ('exp', 'sinh', 'cosh') and abs(x) > 100000:
        return (Fraction(2) ** 200000 if (x > 0 or name == 'cosh') else (Fraction(1, 2 ** 200000) if name == 'exp' else -Fraction(2) ** 200000))
    if name == 'exp2' and abs(x) > 100000 or name == 'exp10' and abs(x) > 100000:
        return Fraction(2) ** 200000 if x > 0 else Fraction(1, 2 ** 200000)
    if name == 'tanh' and abs(x) > 400:
        v = 1 - Fraction(1, 2 ** 200000)
        return v if x > 0 else -v
    m = abs(mag2(x))
    if name == 'atan2':
        y, x2 = a
        if y == 0:
            return Fraction(0) if x2 > 0 else real_fn('pi')
        return approx(lambda: mpmath.atan2(to_mpf(y), to_mpf(x2)), 500 + 2 * (abs(mag2(y)) + abs(mag2(x2))), None)
    f = {'exp': mpmath.exp, 'exp2': lambda t: mpmath.power(2, t), 'exp10': lambda t: mpmath.power(10, t), 'log': mpmath.log,
         'log2': lambda t: mpmath.log(t) / mpmath.log(2), 'log10': lambda t: mpmath.log(t) / mpmath.log(10), 'sin': mpmath.sin, 'cos': mpmath.cos,
         'tan': mpmath.tan, 'asin': mpmath.asin, 'acos': mpmath.acos, 'atan': mpmath.atan, 'sinh': mpmath.sinh, 'cosh': mpmath.cosh,
         'tanh': mpmath.tanh, 'asinh': mpmath.asinh, 'acosh': mpmath.acosh, 'atanh': mpmath.atanh}[name]
    return approx(lambda: f(to_mpf(x)), 500 + 3 * m + (4 * int(abs(x)) if name == 'tanh' else 0), None)


def approx(g, prec, default, wide=False):
    with mpmath.workprec(int(prec)):
        return from_mpf(mpmath.mpf(g()))


def snap_if(v, ok):
    """replace the approximation by the dyadic next to it when that is the exact value"""
    if v == 0:
        return v
    for p in (66, 130):
        c = fl(Format(p, -10 ** 6, 10 ** 6, False), RN, v).val
        if abs(c - v) < abs(v) / 2 ** 300 and ok(c):
            return c
    return v


# ---------------------------------------------------------------- encodings
def enc(T, v):
    if T == 'f':
        return struct.pack('<f', pyf(v))
    if T == 'd':
        return struct.pack('<d', pyf(v))
    s = 0x8000 if v.neg else 0
    if v.nan:
        return struct.pack('<QH', 0xC000000000000000, 0x7fff) + b'\0' * 6
    if v.inf:
        return struct.pack('<QH', 1 << 63, 0x7fff | s) + b'\0' * 6
    a = abs(v.val)
    if a == 0:
        return struct.pack('<QH', 0, s) + b'\0' * 6
    ex = mag2(a) + 1
    if a < Fraction(2) ** (ex - 1):
        ex -= 1
    lsb = max(ex - 64, -16445)
    n = a / Fraction(2) ** lsb
    assert n.denominator == 1, 'not representable'
    n = n.numerator
    e = ex - 1 + 16383 if n >> 63 else 0
    return struct.pack('<QH', n, e | s) + b'\0' * 6


def pyf(v):
    if v.nan:
        return float('nan')
    if v.inf:
        return float('-inf') if v.neg else float('inf')
    r = float(v.val)
    if r == 0 and v.neg:
        return -0.0
    return r


def dec(T, b):
    if T in 'fd':
        x = struct.unpack('<f' if T == 'f' else '<d', b)[0]
        f = FMT_OF_T[T]
        if x != x:
            return FV(True, False, False, Fraction(0), f)
        if x in (float('inf'), float('-inf')):
            return FV(False, True, x < 0, Fraction(0), f)
        return FV(False, False, str(x)[0] == '-', Fraction(x), f)
    n, e = struct.unpack('<QH', b[:10])
    s = bool(e & 0x8000)
    e &= 0x7fff
    if e == 0x7fff:
        if n << 1 & ((1 << 64) - 1):
            return FV(True, False, False, Fraction(0), F80)
        return FV(False, True, s, Fraction(0), F80)
    v = Fraction(n) * Fraction(2) ** (max(e, 1) - 16383 - 63)
    return FV(False, False, s, -v if s else v, F80)


def show(v):
    if isinstance(v, DV):
        return '%s_%s' % (show(v.iv), {0: 'ill', 4: 'trv', 8: 'def', 12: 'dac', 16: 'com'}.get(v.dec, v.dec))
    if isinstance(v, IV):
        return '[%s,%s]' % (show(v.lo), show(v.hi))
    if isinstance(v, (tuple, list)):
        return '(' + ', '.join(show(x) for x in v) + ')'
    if isinstance(v, FV):
        if v.nan:
            return 'nan'
        if v.inf:
            return '-inf' if v.neg else 'inf'
        if v.val == 0:
            return '-0' if v.neg else '0'
        try:
            x = float(v.val)
            if Fraction(x) == v.val:
                return x.hex()
        except OverflowError:
            pass
        a = abs(v.val)
        ex = mag2(a) - 62
        n = a / Fraction(2) ** ex
        while n.denominator > 1:
            ex -= 1
            n = a / Fraction(2) ** ex
        return '%s0x%xp%+d' % ('-' if v.val < 0 else '', n.numerator, ex)
    return str(v)
