"""Symbolic IEEE/MPFR floating-point values and the ground theory used by the VC generator.

A value is one of NaN / -inf / +inf / finite real, plus a sign bit.  Finite values are mathematical
reals tagged with the format they are known to lie in.  Rounding is not interpreted bit by bit: a
rounding term R(mode, format, e) is characterised by its complete first-order specification
(direction, membership in the format, optimality against every other known member of the format,
overflow behaviour), instantiated on the ground terms of each obligation.
"""
import z3
from fractions import Fraction
from collections import namedtuple

RN, RZ, RU, RD, RA = 0, 1, 2, 3, 4      # mpfr_rnd_t
Format = namedtuple('Format', 'p emin emax sub')
F32 = Format(24, -148, 128, True)
F64 = Format(53, -1073, 1024, True)
F80 = Format(64, -16444, 16384, True)
FMT_OF_BITS = {32: F32, 64: F64, 80: F80}
FMT_OF_T = {'f': F32, 'd': F64, 'l': F80}


def fmt_sub(a, b):
    """every finite member of a is a member of b"""
    if a is None or b is None:
        return False
    if a == b:
        return True
    if a.p > b.p or a.emax > b.emax:
        return False
    if b.sub:
        return (a.emin >= b.emin) if a.sub else (a.emin - a.p >= b.emin - 1)
    # b without gradual underflow restriction: smallest positive 2^(emin-1), p bits everywhere
    return a.emin >= b.emin


_Q = {}


def q(x):
    if isinstance(x, (int, Fraction)):
        r = _Q.get(x)
        if r is None:
            r = _Q[x] = q_(x)
        return r
    return x


def q_(x):
    if isinstance(x, (int, Fraction)):
        x = Fraction(x)
        return z3.RealVal(str(x.numerator) + ('/' + str(x.denominator) if x.denominator != 1 else ''))
    return x


_CTX = z3.main_ctx()
_REF = _CTX.ref()
_MEMO = {}


def _nary(mk, r):
    key = (mk, tuple([x.get_id() for x in r]))
    v = _MEMO.get(key)
    if v is None:
        n = len(r)
        arr = (z3.Ast * n)()
        for i, x in enumerate(r):
            arr[i] = x.as_ast()
        v = z3.BoolRef(mk(_REF, n, arr), _CTX)
        if len(_MEMO) > 200000:
            _MEMO.clear()
        _MEMO[key] = (v, r)     # r keeps the ids alive
        return v
    return v[0]


def And(*a):
    r = []
    for x in a:
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else _nary(z3.Z3_mk_and, r)


def Or(*a):
    r = []
    for x in a:
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else _nary(z3.Z3_mk_or, r)


def Not(a):
    if a is True:
        return False
    if a is False:
        return True
    key = ('not', a.get_id())
    v = _MEMO.get(key)
    if v is None:
        v = a.arg(0) if z3.is_not(a) else z3.BoolRef(z3.Z3_mk_not(_REF, a.as_ast()), _CTX)
        _MEMO[key] = (v, a)
        return v
    return v[0]


def Implies(a, b):
    return Or(Not(a), b)


def tob(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def If(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else Not(c)
    if isinstance(a, bool) or isinstance(b, bool):
        if a is True:
            return Or(c, b)
        if a is False:
            return And(Not(c), b)
        if b is True:
            return Or(Not(c), a)
        return And(c, a)
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and a == b:
        return a
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return a
    if type(a) is int and type(b) is int:
        return z3.If(c, z3.IntVal(a), z3.IntVal(b))
    isint = (z3.is_expr(a) and z3.is_int(a)) or (z3.is_expr(b) and z3.is_int(b))
    if isint:
        return z3.If(c, z3.IntVal(a) if isinstance(a, int) else a, z3.IntVal(b) if isinstance(b, int) else b)
    return z3.If(c, q(a), q(b))


def num(x):
    return isinstance(x, (int, Fraction))


def cst(a, o):
    """constant a compared with o"""
    if not num(a):
        return a
    return z3.IntVal(a) if isinstance(a, int) and z3.is_int(o) else q(a)


def le(a, b):
    if num(a) and num(b):
        return a <= b
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return True
    a, b = cst(a, b), cst(b, a)
    if a.sort().kind() != b.sort().kind():
        return a <= b
    key = (z3.Z3_mk_le, a.get_id(), b.get_id())
    v = _MEMO.get(key)
    if v is None:
        v = z3.BoolRef(z3.Z3_mk_le(_REF, a.as_ast(), b.as_ast()), _CTX)
        _MEMO[key] = (v, a, b)
        return v
    return v[0]


def lt(a, b):
    if num(a) and num(b):
        return a < b
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return False
    a, b = cst(a, b), cst(b, a)
    if a.sort().kind() != b.sort().kind():
        return a < b
    key = (z3.Z3_mk_lt, a.get_id(), b.get_id())
    v = _MEMO.get(key)
    if v is None:
        v = z3.BoolRef(z3.Z3_mk_lt(_REF, a.as_ast(), b.as_ast()), _CTX)
        _MEMO[key] = (v, a, b)
        return v
    return v[0]


def eq(a, b):
    if num(a) and num(b):
        return a == b
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return True
    a, b = cst(a, b), cst(b, a)
    if a.sort().kind() != b.sort().kind():
        return a == b
    key = (z3.Z3_mk_eq, a.get_id(), b.get_id())
    v = _MEMO.get(key)
    if v is None:
        v = z3.BoolRef(z3.Z3_mk_eq(_REF, a.as_ast(), b.as_ast()), _CTX)
        _MEMO[key] = (v, a, b)
        return v
    return v[0]


def radd(a, b):
    if num(a) and num(b):
        return a + b
    if num(a) and a == 0:
        return b
    if num(b) and b == 0:
        return a
    return q(a) + q(b)


def rneg(a):
    return -a


def rsub(a, b):
    return radd(a, rneg(b))


def rmul(a, b):
    if num(a) and num(b):
        return a * b
    if (num(a) and a == 0) or (num(b) and b == 0):
        return Fraction(0)
    if num(a) and a == 1:
        return b
    if num(b) and b == 1:
        return a
    return q(a) * q(b)


class FV:
    __slots__ = ('nan', 'inf', 'neg', 'val', 'fmt', 'orig')

    def __init__(self, nan, inf, neg, val, fmt, orig=None):
        self.nan = nan
        self.inf = inf
        self.neg = neg
        self.val = val
        self.fmt = fmt
        self.orig = orig    # (mode, fmt, exact) when this is a rounding of a known exact real

    def fin(self):
        return And(Not(self.nan), Not(self.inf))

    def pinf(self):
        return And(Not(self.nan), self.inf, Not(self.neg))

    def ninf(self):
        return And(Not(self.nan), self.inf, self.neg)

    def iszero(self):
        return And(self.fin(), eq(self.val, 0))

    def __repr__(self):
        if self.nan is True:
            return 'NaN'
        if self.inf is True:
            return ('-' if self.neg is True else '+' if self.neg is False else '?') + 'inf'
        return 'FV(%s)' % (self.val,)


def NAN():
    return FV(True, False, False, Fraction(0), F32)


def INF(neg):
    return FV(False, True, neg, Fraction(0), F32)


def const_fmt(v):
    """smallest known format for a rational constant"""
    for f in (F32, F64, F80):
        if rep(v, f):
            return f
    return None


def rep(v, f):
    v = abs(Fraction(v))
    if v == 0:
        return True
    d = v.denominator
    if d & (d - 1):
        return False
    n = v.numerator
    tz = (n & -n).bit_length() - 1
    e = n.bit_length() - d.bit_length() + 1    # v = n/d, 2^(e-1) <= v < 2^e
    low = tz - (d.bit_length() - 1)            # exponent of lowest set bit
    if e > f.emax or e - low > f.p:
        return False
    return low >= f.emin - 1 if f.sub else e >= f.emin


def CONST(v, neg=None):
    v = Fraction(v)
    return FV(False, False, (v < 0) if neg is None else neg, v, const_fmt(v))


def ite_fv(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    fmt = a.fmt if a.fmt == b.fmt else (b.fmt if fmt_sub(a.fmt, b.fmt) else a.fmt if fmt_sub(b.fmt, a.fmt) else None)
    if a.nan is True or a.inf is True:
        v = b.val
        fmt = b.fmt
    elif b.nan is True or b.inf is True:
        v = a.val
        fmt = a.fmt
    else:
        v = If(c, a.val, b.val)
    return FV(If(c, a.nan, b.nan), If(c, a.inf, b.inf), If(c, a.neg, b.neg), v, fmt)


def f_lt(a, b):
    return And(Not(a.nan), Not(b.nan),
               Or(And(a.inf, a.neg, Not(And(b.inf, b.neg))),
                  And(b.inf, Not(b.neg), Not(And(a.inf, Not(a.neg)))),
                  And(Not(a.inf), Not(b.inf), lt(a.val, b.val) if a.inf is not True and b.inf is not True else False)))


def f_eq(a, b):
    return And(Not(a.nan), Not(b.nan),
               Or(And(a.inf, b.inf, Or(And(a.neg, b.neg), And(Not(a.neg), Not(b.neg)))),
                  And(Not(a.inf), Not(b.inf), eq(a.val, b.val) if a.inf is not True and b.inf is not True else False)))


def f_le(a, b):
    return Or(f_lt(a, b), f_eq(a, b))


def f_same(a, b):
    """same datum up to the sign of zero"""
    return Or(And(a.nan, b.nan), f_eq(a, b))


def f_le_r(a, r):
    """extended value a <= real r"""
    return And(Not(a.nan), Or(And(a.inf, a.neg), And(Not(a.inf), le(a.val, r))))


def r_le_f(r, a):
    return And(Not(a.nan), Or(And(a.inf, Not(a.neg)), And(Not(a.inf), le(r, a.val))))


def f_lt_r(a, r):
    return And(Not(a.nan), Or(And(a.inf, a.neg), And(Not(a.inf), lt(a.val, r))))


def r_lt_f(r, a):
    return And(Not(a.nan), Or(And(a.inf, Not(a.neg)), And(Not(a.inf), lt(r, a.val))))


def f_neg(a):
    o = None
    if a.orig:
        m, f, e = a.orig
        o = ({RD: RU, RU: RD}.get(m, m), f, rneg(e))
    return FV(a.nan, a.inf, Not(a.neg), rneg(a.val), a.fmt, o)


def free_consts(e, acc, seen):
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc[x.decl().name()] = x
        else:
            stack.extend(x.children())


class Term:
    """ground term with a defining fact set"""
    __slots__ = ('kind', 'name', 'args', 'res', 'facts', 'fv', 'deps', 'keep', 'grid')

    def __init__(self):
        self.grid = False


def strip(x):
    """x == sign * y with a canonical y"""
    if z3.is_app(x):
        k = x.decl().kind()
        if k == z3.Z3_OP_UMINUS:
            return -1, x.arg(0)
        if k == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_rational_value(x.arg(0)) and x.arg(0).as_fraction() == -1:
            return -1, x.arg(1)
    return 1, x


class Theory:
    def __init__(self):
        self.n = 0
        self.memo = {}
        self.def_of = {}       # const name -> Term
        self.inputs = {}       # const name -> FV (members of a format)
        self.input_facts = {}  # const name -> [facts]
        self.maxc = {}
        self.minc = {}
        self.base = []         # always-present facts
        self.listeners = []
        self.keepalive = []
        self.icache = {}
        self.ccache = {}

    # -- constants -------------------------------------------------------
    def fresh(self, pre, sort='r'):
        self.n += 1
        nm = '%s!%d' % (pre, self.n)
        return z3.Real(nm) if sort == 'r' else z3.Bool(nm) if sort == 'b' else z3.Int(nm)

    def _order(self, d, key, c, up):
        pass

    def MAX(self, f):
        k = (f.p, f.emax)
        if k not in self.maxc:
            c = z3.Real('MAX_%d_%d' % k)
            facts = [c > q(10) ** 30]
            for k2, c2 in self.maxc.items():
                if len(k2) == 3:
                    if k[1] > k2[1]:
                        facts.append(c > c2)
                    continue
                facts.append(c < c2 if (k[1], k[0]) < (k2[1], k2[0]) else c > c2)
                if k[0] == k2[0] and abs(k[1] - k2[1]) <= 16:
                    facts.append(c * 2 ** (k2[1] - k[1]) == c2 if k[1] < k2[1] else c == c2 * 2 ** (k[1] - k2[1]))
            self.maxc[k] = c
            self._base(facts)
        return self.maxc[k]

    def OVF(self, f):
        """magnitudes from here on round to infinity under round-to-nearest (MAX plus half its ulp)"""
        k = (f.p, f.emax, 'ovf')
        if k not in self.maxc:
            M = self.MAX(f)
            c = z3.Real('OVF_%d_%d' % k[:2])
            self.maxc[k] = c
            self._base([c > M, c < 2 * M] + [c < c2 for k2, c2 in self.maxc.items() if len(k2) == 2 and k2[1] > k[1]])
        return self.maxc[k]

    def MIN(self, f):
        return self.P2(f.emin - 1)

    def P2(self, k):
        """the number 2^k for very small k: a symbolic constant, ordered and scaled relative to the others"""
        if k not in self.minc:
            c = z3.Real('P2_m%d' % -k)
            facts = [c > 0, c < q(Fraction(1, 10 ** 30))]
            for k2, c2 in self.minc.items():
                facts.append(c < c2 if k < k2 else c > c2)
                if abs(k - k2) <= 64:
                    facts.append(c * 2 ** (k2 - k) == c2 if k < k2 else c == c2 * 2 ** (k - k2))
            self.minc[k] = c
            self._base(facts)
        return self.minc[k]

    def gran(self, e):
        """(g, has a coefficient other than +-1): e is a multiple of 2^g, for a linear combination of format members"""
        tot = [None, False]

        def go(x, c):
            k = x.decl().kind()
            if k == z3.Z3_OP_ADD:
                return all(go(y, c) for y in x.children())
            if k == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_rational_value(x.arg(0)):
                return go(x.arg(1), c * x.arg(0).as_fraction())
            if k == z3.Z3_OP_UMINUS:
                return go(x.arg(0), -c)
            if x.num_args():
                return False
            n = x.decl().name()
            t = self.def_of.get(n)
            if n in self.inputs and self.inputs[n].fmt is not None:
                f = self.inputs[n].fmt
            elif t is not None and t.kind == 'R':
                f = t.name[1]
            else:
                return False
            d = c.denominator
            if d & (d - 1) or c == 0:
                return False
            m = abs(c.numerator)
            g = (m & -m).bit_length() - 1 - (d.bit_length() - 1) + (f.emin - 1 if f.sub else f.emin - f.p)
            if abs(c) != 1:
                tot[1] = True
            tot[0] = g if tot[0] is None else min(tot[0], g)
            return True
        if not go(e, Fraction(1)) or tot[0] is None:
            return None
        return tot

    def _base(self, facts):
        self.base.extend(facts)
        for l in self.listeners:
            l(facts)

    def _emit(self, facts):
        for l in self.listeners:
            l(facts)

    # -- inputs ----------------------------------------------------------
    def input(self, name, f):
        nan, inf, neg, val = z3.Bool(name + '.nan'), z3.Bool(name + '.inf'), z3.Bool(name + '.neg'), z3.Real(name)
        M = self.MAX(f)
        facts = [z3.Not(z3.And(nan, inf)), z3.Implies(z3.Or(nan, inf), val == 0),
                 -M <= val, val <= M, z3.Implies(z3.And(z3.Not(nan), z3.Not(inf), val < 0), neg),
                 z3.Implies(z3.And(z3.Not(nan), z3.Not(inf), val > 0), z3.Not(neg))]
        v = FV(nan, inf, neg, val, f)
        self.inputs[name] = v
        for s in ('', '.nan', '.inf', '.neg'):
            self.input_facts[name + s] = (name, facts)
        self._emit(facts)
        return v

    def havoc(self, pre, f):
        self.n += 1
        return self.input('%s!%d' % (pre, self.n), f)

    # -- rounding --------------------------------------------------------
    def round(self, mode, f, e, zs=False):
        """correctly rounded value of the finite real e in format f (zs: sign of an exact zero)"""
        if num(e):
            if rep(e, f):
                return FV(False, False, If(e == 0, zs, e < 0), Fraction(e), const_fmt(e) or f)
            e = q(e)
        e = z3.simplify(e, som=False)
        if z3.is_rational_value(e):
            fr = e.as_fraction()
            if rep(fr, f):
                return FV(False, False, zs if fr == 0 else fr < 0, fr, const_fmt(fr) or f)
        key = ('R', mode, f, e.sexpr())
        t = self.memo.get(key)
        if t is None:
            t = Term()
            t.kind = 'R'
            t.name = (mode, f)
            t.args = (e,)
            rv = self.fresh('r')
            ro = self.fresh('o', 'b')
            t.res = (rv, ro)
            M = self.MAX(f)
            fs = [-M <= rv, rv <= M]
            if mode == RD:
                fs += [ro == (e < -M), z3.Implies(z3.Not(ro), rv <= e), z3.Implies(z3.And(e >= 0), rv >= 0), z3.Implies(e >= M, rv == M)]
            elif mode == RU:
                fs += [ro == (e > M), z3.Implies(z3.Not(ro), rv >= e), z3.Implies(e <= 0, rv <= 0), z3.Implies(e <= -M, rv == -M)]
            elif mode == RZ:
                fs += [ro == False, z3.Implies(e >= 0, z3.And(rv >= 0, rv <= e)), z3.Implies(e <= 0, z3.And(rv <= 0, rv >= e))]
            else:
                O = self.OVF(f)
                fs += [ro == z3.Or(e >= O, e <= -O), z3.Implies(z3.And(z3.Not(ro), e >= M), rv == M), z3.Implies(z3.And(z3.Not(ro), e <= -M), rv == -M), z3.Implies(z3.And(e >= 0, z3.Not(ro)), rv >= 0), z3.Implies(z3.And(e <= 0, z3.Not(ro)), rv <= 0)]
            fs += [z3.Implies(ro, rv == 0)]
            if mode in (RD, RU):
                # the neighbours of 1 towards zero are 1 - 2^-p
                near = q(1 - Fraction(1, 2 ** f.p))
                if mode == RD:
                    fs += [z3.Implies(z3.And(e >= -1, e < -near), rv == -1), z3.Implies(z3.And(e >= near, e < 1), rv == near)]
                else:
                    fs += [z3.Implies(z3.And(e <= 1, e > near), rv == 1), z3.Implies(z3.And(e <= -near, e > -1), rv == -near)]
            import realfun
            self.memo_ovf = ro
            fs += realfun.round_facts(self, mode, f, e, rv)
            G = self.gran(e)
            if G is not None and G[1] and G[0] + f.p < -60:
                g = G[0]
                S = self.P2(g + f.p)
                small = z3.And(e >= -S, e <= S)
                if g < f.emin - 1:
                    mn = self.MIN(f)
                    small = z3.And(small, z3.Or(e >= mn, e <= -mn, e == 0)) if not f.sub else False
                if small is not False:
                    fs.append(z3.Implies(small, z3.And(rv == e, z3.Not(ro))))
                t.grid = True
            if f.sub or True:
                mn = self.MIN(f)
                # no member of the format strictly between 0 and +-MIN
                fs += [z3.Or(rv == 0, rv >= mn, rv <= -mn)]
                if mode == RD:
                    fs += [z3.Implies(e >= mn, rv >= mn), z3.Implies(z3.And(z3.Not(ro), e < 0), rv <= -mn)]
                elif mode == RU:
                    fs += [z3.Implies(e <= -mn, rv <= -mn), z3.Implies(z3.And(z3.Not(ro), e > 0), rv >= mn)]
                elif mode == RN:
                    fs += [z3.Implies(z3.And(z3.Not(ro), e >= mn), rv >= mn), z3.Implies(z3.And(z3.Not(ro), e <= -mn), rv <= -mn)]
                    fs += [z3.Implies(z3.And(2 * e <= mn, 2 * e >= -mn), rv == 0), z3.Implies(z3.And(2 * e > mn, e <= mn), rv == mn), z3.Implies(z3.And(2 * e < -mn, e >= -mn), rv == -mn)]
            if mode == RN:
                fs += self.two_sum(f, e, rv, ro)
            t.facts = fs
            self.memo[key] = t
            self.def_of[rv.decl().name()] = t
            self.def_of[ro.decl().name()] = t
            self.keepalive.append(e)
            self._emit(fs)
        rv, ro = t.res
        e0 = t.args[0]
        zneg = z3.And(rv == 0, tob(If(e0 == 0, zs, e0 < 0)))
        if mode == RD:
            neg = z3.Or(ro, rv < 0, zneg)
        elif mode == RU:
            neg = z3.And(z3.Not(ro), z3.Or(rv < 0, zneg))
        else:
            neg = If(ro, e0 < 0, z3.Or(rv < 0, zneg))
        return FV(False, ro if mode != RZ else False, neg, rv, f, (mode, f, e0))

    def rn_def(self, c, f=None):
        """the defining round-to-nearest term of the constant c"""
        if not z3.is_const(c) or c.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return None
        t = self.def_of.get(c.decl().name())
        if t is None or t.kind != 'R' or t.name[0] != RN or (f is not None and t.name[1] != f) or not t.res[0].eq(c):
            return None
        return t

    def two_sum(self, f, e, rv, ro):
        """e = RN(a - RN(s - b)) + RN(b - RN(s - RN(s - b))) with s = RN(a + b): Knuth's 2Sum, whose last result is the
        exact error of s; none of the later operations overflows when their exponent range is larger by one.  Proved in
        /verif/coq/TwoSum.v (theorems binary32, binary64, x87) on top of Flocq."""
        if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ADD and e.num_args() == 2):
            return []
        if not f.sub:       # the overflow behaviour is that of the format with gradual underflow
            f = f._replace(sub=True)
            rv = None
        u, v = (self.rn_def(x, f) for x in e.children())
        if u is None or v is None:
            return []
        out = []
        for u, v in ((u, v), (v, u)):
            for ad in self.consts(u.args[0]):           # u = RN(a - ad)
                tad = self.rn_def(z3.Real(ad), f)
                if tad is None:
                    continue
                a = z3.simplify(u.args[0] + tad.res[0])
                for sn in self.consts(tad.args[0]):     # ad = RN(s - b)
                    ts = self.rn_def(z3.Real(sn))
                    if ts is None:
                        continue
                    b = z3.simplify(ts.res[0] - tad.args[0])
                    if not z3.simplify(a + b - ts.args[0]).eq(q(0)):
                        continue
                    bd = z3.simplify(b - v.args[0])     # v = RN(b - bd), bd = RN(s - ad)
                    tbd = self.rn_def(bd, f)
                    if tbd is None or not z3.simplify(tbd.args[0] - ts.res[0] + tad.res[0]).eq(q(0)):
                        continue
                    g = ts.name[1]
                    if not (g.sub and g.p == f.p and g.emin == f.emin and g.emax < f.emax and self.member(a, g) and self.member(b, g)):
                        continue
                    fl = [z3.Not(t.res[1]) for t in (tad, tbd, u, v)] + [z3.Not(ro)]
                    M = self.MAX(g)
                    out.append(z3.Implies(z3.Not(ts.res[1]), z3.And(*fl) if rv is None else z3.And(ts.res[0] + rv == ts.args[0], rv <= M, rv >= -M, *fl)))
        return out

    def member(self, x, f):
        """x is, up to sign, a constant known to be a member of f"""
        if z3.is_rational_value(x):
            return rep(x.as_fraction(), f)
        x = strip(x)[1]
        if not z3.is_const(x):
            return False
        n = x.decl().name()
        if n in self.inputs:
            return fmt_sub(self.inputs[n].fmt, f)
        t = self.def_of.get(n)
        return t is not None and t.kind == 'R' and t.res[0].eq(x) and fmt_sub(t.name[1], f)

    def convert(self, mode, f, v, st=None):
        """round a FINITE value v into format f; identity when it is already a member"""
        if fmt_sub(v.fmt, f):
            return v
        if num(v.val):
            return self.round(mode, f, v.val, v.neg)
        if v.orig is not None and v.orig[0] == mode and mode in (RD, RU) and fmt_sub(f, v.orig[1]):
            return self.round(mode, f, v.orig[2], v.neg)
        return self.round(mode, f, v.val, v.neg)

    # -- real functions ----------------------------------------------------
    def fn(self, name, *args):
        """uninterpreted real function application; axioms come from realfun.py"""
        import realfun
        args = tuple(z3.simplify(q(a)) for a in args)
        key = ('F', name) + tuple(a.sexpr() for a in args)
        t = self.memo.get(key)
        if t is None:
            t = Term()
            t.kind = 'F'
            t.name = name
            t.args = args
            t.res = (self.fresh(name),)
            self.memo[key] = t
            self.def_of[t.res[0].decl().name()] = t
            self.keepalive.append(args)
            t.facts = realfun.unary_facts(self, name, t)
            self._emit(t.facts)
        return t.res[0]

    def prod(self, x, y):
        if num(x) or num(y):
            return rmul(x, y)
        sg = 1
        x, y = z3.simplify(x), z3.simplify(y)
        (sx, x), (sy, y) = strip(x), strip(y)
        sg = sx * sy
        for u, v in ((x, y), (y, x)):
            if z3.is_rational_value(u):
                r = u.as_fraction()
                return rmul(r * sg, v)
        if y.sexpr() < x.sexpr():
            x, y = y, x
        r = self.fn('prod', x, y)
        return r if sg > 0 else -r

    def quot(self, x, y):
        if num(y) and y == 0:
            return Fraction(0)      # never used: guarded by the caller
        if num(x) and num(y):
            return Fraction(x) / Fraction(y)
        if num(y):
            return q(x) / q(y)
        sg = 1
        if not num(x):
            sx, x = strip(z3.simplify(x))
            sg *= sx
        elif x < 0:
            x, sg = -x, -sg
        sy, y = strip(z3.simplify(y))
        sg *= sy
        r = self.fn('quot', x, y)
        return r if sg > 0 else -r

    def floor(self, x):
        """the integer F with F <= x < F + 1"""
        x = z3.simplify(q(x))
        sg, y = strip(x)
        if sg < 0:
            F = self.floor(y)
            return z3.If(y == z3.ToReal(F), -F, -F - 1)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(x.arg(0), self.floor(x.arg(1)), self.floor(x.arg(2)))
        key = ('I0', x.sexpr())
        t = self.memo.get(key)
        if t is None:
            t = Term()
            t.kind = 'I'
            t.name = 'floor'
            F = self.fresh('fl', 'i')
            t.args = (x,)
            t.res = (F,)
            t.keep = None
            t.facts = [z3.ToReal(F) <= x, x < z3.ToReal(F) + 1]
            self.memo[key] = t
            self.def_of[F.decl().name()] = t
            self.keepalive.append(x)
            self._emit(t.facts)
        return t.res[0]

    def neighbour(self, x, f, up):
        """the member of f next to the member x, which is not the last one in that direction"""
        x = z3.simplify(q(x))
        key = ('N', f, up, x.sexpr())
        t = self.memo.get(key)
        if t is None:
            t = Term()
            t.kind = 'N'
            t.name = (up, f)
            t.args = (x,)
            y = self.fresh('nx')
            t.res = (y,)
            M, mn = self.MAX(f), self.MIN(f)
            t.facts = [z3.Or(y == 0, y >= mn, y <= -mn), y <= M, y >= -M]
            if up:
                t.facts += [z3.Implies(x < M, x < y), z3.Implies(x < 0, y <= 0)]
            else:
                t.facts += [z3.Implies(x > -M, y < x), z3.Implies(x > 0, y >= 0)]
            t.facts = [tob(z) for z in t.facts]
            self.memo[key] = t
            self.def_of[y.decl().name()] = t
            self.keepalive.append(x)
            self._emit(t.facts)
        return t.res[0]

    def intfn(self, name, x):
        """rounding to an integer"""
        import models
        f = models.INTF[name]
        if num(x):
            return models.fn_num(f, x)
        return f(self, x)

    def hidx(self, name, x):
        """index of the monotone branch of sin (branches between odd multiples of pi/2) or cos (between multiples of pi)"""
        import realfun
        x = z3.simplify(q(x))
        key = ('H', name, x.sexpr())
        t = self.memo.get(key)
        if t is None:
            t = Term()
            t.kind = 'F'
            t.name = 'hidx_' + name
            t.args = (x,)
            t.res = (self.fresh('h' + name, 'i'),)
            self.memo[key] = t
            self.def_of[t.res[0].decl().name()] = t
            self.keepalive.append(t.args)
            t.facts = realfun.unary_facts(self, t.name, t)
            self._emit(t.facts)
        return t.res[0]

    # -- obligations -------------------------------------------------------
    def consts(self, e):
        """names of the free constants of e (cached)"""
        k = e.get_id()
        r = self.ccache.get(k)
        if r is None:
            acc = {}
            free_consts(e, acc, set())
            r = self.ccache[k] = (tuple(acc), e)
        return r[0]

    def cone(self, exprs):
        acc = {}
        for e in exprs:
            if z3.is_expr(e):
                for n in self.consts(e):
                    acc[n] = None
        terms = {}
        inputs = {}
        facts = []
        work = list(acc)
        done = set()
        while work:
            n = work.pop()
            if n in done:
                continue
            done.add(n)
            t = self.def_of.get(n)
            new = []
            if t is not None and id(t) not in terms:
                terms[id(t)] = t
                new = list(t.facts) + [a for a in t.args if z3.is_expr(a)] + [r for r in t.res]
                facts += t.facts
            elif n in self.input_facts:
                base, fs = self.input_facts[n]
                if base not in inputs:
                    inputs[base] = self.inputs[base]
                    facts += fs
                    new = fs
            for e in new:
                for n2 in self.consts(e):
                    if n2 not in done:
                        work.append(n2)
        return list(terms.values()), inputs, facts

    def instances(self, terms, inputs):
        """ground instances of the pairwise axioms over the given terms"""
        import realfun
        out = []
        cache = self.icache
        rts = [t for t in terms if t.kind == 'R']
        uni = [(n, v.fmt, v) for n, v in inputs.items()]
        for k, t in enumerate(rts):
            for n, vf, v in uni:
                if not fmt_sub(vf, t.name[1]):
                    continue
                key = (id(t), n)
                r = cache.get(key)
                if r is None:
                    r = cache[key] = wit(t, tob(v.fin()), v.val) + realfun.round_wit(self, t, tob(v.fin()), v.val)
                out += r
            key = (id(t), 0)
            r = cache.get(key)
            if r is None:
                r = []
                for c in (Fraction(0), Fraction(1), Fraction(-1)):
                    r += wit(t, z3.BoolVal(True), q(c))
                cache[key] = r
            out += r
            for b in rts:
                if b is t:
                    continue
                key = (id(t), id(b))
                r = cache.get(key)
                if r is None:
                    r = []
                    if fmt_sub(b.name[1], t.name[1]):
                        r += wit(t, z3.Not(b.res[1]), b.res[0])
                    if id(t) < id(b) and t.name == b.name:
                        r += same_round(t, b)
                    if id(t) < id(b) and (t.grid or b.grid) and t.name != b.name and t.name[0] == b.name[0] and t.name[1].p == b.name[1].p:
                        r += cross_round(self, t, b)
                    if (b.grid or t.grid) and t.args[0].eq(b.res[0]) and t.name[1].p >= b.name[1].p and t.name[1].emax >= b.name[1].emax:
                        r += member_again(self, t, b)
                    if t.args[0].eq(b.res[0]) and t.name[1].emax < b.name[1].emax and t.name[1]._replace(emax=b.name[1].emax) == b.name[1]:
                        M = self.MAX(t.name[1])     # same format but for the largest exponent
                        r += [z3.Implies(z3.And(-M <= b.res[0], b.res[0] <= M), z3.And(t.res[0] == b.res[0], z3.Not(t.res[1])))]
                    if t.name[1] == b.name[1] and t.name[0] == RD and b.name[0] == RU:
                        r += mirror_round(t, b)
                    cache[key] = r
                out += r
        nts = [t for t in terms if t.kind == 'N']
        for t in nts:
            up, f = t.name
            x, y, M = t.args[0], t.res[0], self.MAX(f)

            def no_between(fin, v):
                return [z3.Implies(z3.And(fin, x < M, v > x), v >= y) if up else z3.Implies(z3.And(fin, x > -M, v < x), v <= y)]
            for n, vf, v in uni:
                if fmt_sub(vf, f):
                    out += no_between(tob(v.fin()), v.val)
            for b in rts:
                if fmt_sub(b.name[1], f):
                    out += no_between(z3.Not(b.res[1]), b.res[0])
                if fmt_sub(f, b.name[1]):
                    out += wit(b, z3.BoolVal(True), y)
            for b in nts:
                if b is not t and fmt_sub(b.name[1], f):
                    out += no_between(z3.BoolVal(True), b.res[0])
        flo = [t for t in terms if t.kind == 'I' and t.name == 'floor']
        for i, a in enumerate(flo):
            for b in flo[i + 1:]:
                x, y, F, G = a.args[0], b.args[0], a.res[0], b.res[0]
                out += [z3.Implies(x <= y, F <= G), z3.Implies(y <= x, G <= F)]
        ints = [t for t in terms if t.kind == 'I' and t.keep]
        for i, a in enumerate(ints):
            for b in ints[i + 1:]:
                if a.keep[0] == b.keep[0]:
                    x, y = a.keep[1], b.keep[1]
                    out += [z3.Implies(x <= y, a.res[0] <= b.res[0]), z3.Implies(y <= x, b.res[0] <= a.res[0])]
        by = {}
        for t in terms:
            if t.kind == 'F':
                by.setdefault(t.name, []).append(t)
        out += realfun.cross(self, by, rts, uni)
        for name, ts in by.items():
            for i, a in enumerate(ts):
                for b in ts[i + 1:]:
                    key = (id(a), id(b)) if id(a) < id(b) else (id(b), id(a))
                    r = cache.get(key)
                    if r is None:
                        r = cache[key] = realfun.pair(self, name, a, b)
                    out += r
        return out


def wit(t, fin, v):
    """optimality of a rounding against the known format member v"""
    mode, f = t.name
    rv, ro = t.res
    e = t.args[0]
    out = []
    if mode in (RD, RN):
        out.append(z3.Implies(z3.And(fin, v <= e), z3.And(z3.Not(ro), v <= rv) if mode == RD else z3.Implies(z3.Not(ro), v <= rv)))
    if mode in (RU, RN):
        out.append(z3.Implies(z3.And(fin, v >= e), z3.And(z3.Not(ro), v >= rv) if mode == RU else z3.Implies(z3.Not(ro), v >= rv)))
    if mode == RN:
        out.append(z3.Implies(z3.And(fin, z3.Not(ro)),
                              z3.And(z3.Implies(z3.And(e >= rv, v >= e), e - rv <= v - e),
                                     z3.Implies(z3.And(rv >= e, v <= e), rv - e <= e - v))))
    if mode == RZ:
        out.append(z3.Implies(z3.And(fin, v >= 0, v <= e), v <= rv))
        out.append(z3.Implies(z3.And(fin, v <= 0, v >= e), v >= rv))
    return out


def mirror_round(a, b):
    """rounding down -e mirrors rounding up e"""
    ea, eb = a.args[0], b.args[0]
    return [z3.Implies(ea == -eb, z3.And(a.res[0] == -b.res[0], a.res[1] == b.res[1]))]


def same_round(a, b):
    ea, eb = a.args[0], b.args[0]
    ra, oa = a.res
    rb, ob = b.res
    out = [z3.Implies(ea == eb, z3.And(ra == rb, oa == ob))]
    if a.name[0] == RN:
        out.append(z3.Implies(z3.And(ea <= eb, z3.Not(oa), z3.Not(ob)), ra <= rb))
        out.append(z3.Implies(z3.And(ea >= eb, z3.Not(oa), z3.Not(ob)), ra >= rb))
        out.append(z3.Implies(z3.And(oa, z3.Not(ob)), z3.If(ea > 0, eb < ea, eb > ea)))
        out.append(z3.Implies(z3.And(ob, z3.Not(oa)), z3.If(eb > 0, ea < eb, ea > eb)))
    return out


def lim(th, f):
    """magnitudes from here on have the full precision"""
    return th.P2(f.emin + f.p - 2) if f.sub else th.P2(f.emin - 1)


def cross_round(th, a, b):
    """same precision: equal results once both formats have the full precision and neither overflows"""
    fa, fb = a.name[1], b.name[1]
    e, e2 = a.args[0], b.args[0]
    l = th.P2(max(fa.emin + fa.p - 2 if fa.sub else fa.emin - 1, fb.emin + fb.p - 2 if fb.sub else fb.emin - 1))
    M = th.MAX(fa if fa.emax <= fb.emax else fb)
    return [z3.Implies(z3.And(e == e2, z3.Or(z3.And(e >= l, e <= M), z3.And(e <= -l, e >= -M))), z3.And(a.res[0] == b.res[0], z3.Not(a.res[1]), z3.Not(b.res[1])))]


def member_again(th, t, b):
    """rounding a rounded value that still has the full precision"""
    l = lim(th, t.name[1])
    x = b.res[0]
    e = b.args[0]
    out = [z3.Implies(z3.And(z3.Not(b.res[1]), z3.Or(x >= l, x <= -l)), z3.And(t.res[0] == x, z3.Not(t.res[1])))]
    f, g = t.name[1], b.name[1]
    if (f.emin + f.p - 2 if f.sub else f.emin - 1) < g.emin - 1:
        return out
    return out + [z3.Implies(z3.And(e >= l, z3.Not(b.res[1])), x >= l), z3.Implies(z3.And(e <= -l, z3.Not(b.res[1])), x <= -l)]
