"""Assumed contracts of the functions outside /repo: MPFR, GMP-free subset of libm/fenv, libstdc++ strings
used by the exception classes, and the C++ runtime's throw.  Each contract states the documented
behaviour: correct rounding in the destination precision and the exponent range in force, the
IEEE special values, and the ternary value."""
import z3
from fractions import Fraction
from fp import *
from symex import Ptr, Undecided, MV, UNDEF, NULL

MODELS = {}


def model(*names, override=False, raw=False):
    def d(f):
        f.override = override
        f.raw = raw
        for n in names:
            MODELS[n] = f
        return f
    return d


# ---------------------------------------------------------------- mpfr state
def rndc(ex, r):
    if isinstance(r, int) and r in (0, 1, 2, 3):
        return r
    raise Undecided('rounding mode %r' % (r,))


def get(st, p):
    mv = st.mp.get((p.obj, p.off))
    if mv is None:
        raise Undecided('mpfr variable used before initialisation')
    return mv


def mine(st, p):
    if p.obj[:2] == 'g:':
        st.touch(p.obj, 'w')


def fmt_of(st, mv):
    e0, e1 = st.ghost.get('emin'), st.ghost.get('emax')
    if e0 is None or e1 is None:
        return None
    return Format(mv.prec, e0, e1, False)


def put(st, p, fv, tern=0, exact=None):
    mv = get(st, p)
    mine(st, p)
    st.mp[(p.obj, p.off)] = MV(mv.prec, fv, tern, exact)


def tern_of(ex, fv, exact):
    """ternary value of a rounded result: sign(rounded - exact), magnitude unspecified"""
    if num(fv.val) and num(exact):
        return 0 if fv.val == exact else (1 if fv.val > exact else -1)
    th = ex.th
    key = ('T', fv.val.sexpr() if z3.is_expr(fv.val) else str(fv.val), exact.sexpr() if z3.is_expr(exact) else str(exact))
    t = th.memo.get(key)
    if t is None:
        from fp import Term
        t = Term()
        t.kind = 'T'
        t.name = 'ternary'
        c = th.fresh('t', 'i')
        v = q(fv.val)
        e = q(exact)
        inf = tob(fv.inf)
        neg = tob(fv.neg)
        t.args = tuple(x for x in (v, e, inf, neg))
        t.res = (c,)
        t.facts = [(c > 0) == z3.If(inf, z3.Not(neg), v > e), (c < 0) == z3.If(inf, neg, v < e), c >= -(1 << 31) + 1, c <= (1 << 31) - 1]
        th.memo[key] = t
        th.def_of[c.decl().name()] = t
        th.keepalive.append(t.args)
        th._emit(t.facts)
    return t.res[0]


def finish(ex, st, p, rnd, exact, zs=False):
    """store the correctly rounded exact real and return the ternary value"""
    mv = get(st, p)
    f = fmt_of(st, mv)
    if f is None:
        return havoc_result(ex, st, p)
    r = ex.th.round(rnd, f, exact, zs)
    t = tern_of(ex, r, exact)
    put(st, p, r, t, (rnd, exact))
    return [(st, t)]


def special(ex, st, p, fv, tern=0):
    put(st, p, fv, tern, None)
    return [(st, tern)]


def conv(ex, st, p, rnd, v):
    """assign a finite FV"""
    mv = get(st, p)
    f = fmt_of(st, mv)
    if f is None:
        return havoc_result(ex, st, p)
    r = ex.th.convert(rnd, f, v)
    t = 0 if r is v else tern_of(ex, r, v.val)
    put(st, p, r, t, (rnd, v.val))
    return [(st, t)]


def havoc_result(ex, st, p):
    """operation performed with an unknown exponent range: nothing is known about the result"""
    mv = get(st, p)
    r = ex.th.havoc('unk', Format(mv.prec, -(1 << 30), 1 << 30, False))
    t = ex.th.fresh('unkt', 'i')
    put(st, p, r, t, None)
    st.notes = st.notes + ('exponent range not set up',)
    return [(st, t)]


def fork(f):
    """run model f on a private copy of the state"""
    def g(ex, st, a):
        return f(ex, st.copy(), a)
    return g


# ---------------------------------------------------------------- init / set / get
@model('mpfr_init2')
@fork
def _(ex, st, a):
    if not isinstance(a[1], int):
        raise Undecided('symbolic precision')
    mine(st, a[0])
    st.mp[(a[0].obj, a[0].off)] = MV(a[1], NAN(), 0, None)
    return [(st, None)]


@model('mpfr_clear')
@fork
def _(ex, st, a):
    get(st, a[0])
    mine(st, a[0])
    del st.mp[(a[0].obj, a[0].off)]
    return [(st, None)]


@model('mpfr_set_emin')
@fork
def _(ex, st, a):
    st.ghost['emin'] = a[0]
    return [(st, 0)]


@model('mpfr_set_emax')
@fork
def _(ex, st, a):
    st.ghost['emax'] = a[0]
    return [(st, 0)]


def getter_of(k):
    def m(ex, st, a):
        v = st.ghost.get(k)
        if v is None:
            raise Undecided('exponent range read before it is set')
        return [(st, v)]
    return m


MODELS['mpfr_get_emin'] = getter_of('emin')
MODELS['mpfr_get_emax'] = getter_of('emax')


@model('mpfr_free_cache')
def _(ex, st, a):
    return [(st, None)]


def set_fv(ex, st, p, v, rnd):
    out = []
    for s, k in ex.kinds(st, v):
        s = s.copy()
        if k.nan is True or k.inf is True:
            out += special(ex, s, p, k)
        else:
            out += conv(ex, s, p, rnd, k)
    return out


@model('mpfr_set_flt', 'mpfr_set_d', 'mpfr_set_ld')
def _(ex, st, a):
    return set_fv(ex, st, a[0], a[1], rndc(ex, a[2]))


@model('mpfr_set', 'mpfr_set4')
def _(ex, st, a):
    return set_fv(ex, st, a[0], get(st, a[1]).fv, rndc(ex, a[2]))


def int_fv(ex, v, w=64):
    if isinstance(v, int):
        return CONST(v, v < 0)
    r = z3.ToReal(v)
    return FV(False, False, r < 0, r, Format(w, 1, w + 1, False))


@model('mpfr_set_si')
def _(ex, st, a):
    return set_fv(ex, st, a[0], int_fv(ex, a[1]), rndc(ex, a[2]))


@model('mpfr_set_ui')
def _(ex, st, a):
    v = a[1]
    v = v & ((1 << 64) - 1) if isinstance(v, int) else z3.If(v < 0, v + (1 << 64), v)
    return set_fv(ex, st, a[0], int_fv(ex, v), rndc(ex, a[2]))


@model('mpfr_set_inf')
@fork
def _(ex, st, a):
    if not isinstance(a[1], int):
        raise Undecided('sign')
    put(st, a[0], INF(a[1] < 0))
    return [(st, None)]


@model('mpfr_set_nan')
@fork
def _(ex, st, a):
    put(st, a[0], NAN())
    return [(st, None)]


@model('mpfr_set_zero')
@fork
def _(ex, st, a):
    put(st, a[0], CONST(0, a[1] < 0))
    return [(st, None)]


def getter(f):
    def g(ex, st, a):
        rnd = rndc(ex, a[1])
        out = []
        for s, k in ex.kinds(st, get(st, a[0]).fv):
            if k.nan is True or k.inf is True:
                out.append((s, k))
            else:
                out.append((s, ex.th.convert(rnd, f, k)))
        return out
    return g


MODELS['mpfr_get_flt'] = getter(F32)
MODELS['mpfr_get_d'] = getter(F64)
MODELS['mpfr_get_ld'] = getter(F80)


@model('mpfr_subnormalize')
def _(ex, st, a):
    p, t, rnd = a
    rnd = rndc(ex, rnd)
    mv = get(st, p)
    out = []
    for s, k in ex.kinds(st, mv.fv):
        s = s.copy()
        if k.nan is True or k.inf is True or k.iszero() is True:
            put(s, p, k, t, mv.exact)
            out.append((s, t))
            continue
        f = fmt_of(s, mv)
        if f is None:
            out += havoc_result(ex, s, p)
            continue
        f = Format(f.p, f.emin, f.emax, True)
        linked = mv.exact is not None and mv.exact[0] == rnd and (t is mv.tern or (z3.is_expr(t) and z3.is_expr(mv.tern) and t.eq(mv.tern)) or (isinstance(t, int) and isinstance(mv.tern, int) and t == mv.tern))
        if fmt_sub(k.fmt, f):
            out.append((s, t))
            continue
        if linked:
            r = ex.th.round(rnd, f, mv.exact[1], k.neg)
            t2 = tern_of(ex, r, mv.exact[1])
            put(s, p, r, t2, mv.exact)
            out.append((s, t2))
        elif rnd in (RD, RU):
            r = ex.th.convert(rnd, f, k)
            t2 = ex.th.fresh('st', 'i')
            put(s, p, r, t2, None)
            out.append((s, t2))
        else:
            # result depends on a ternary value that is not the one of this value
            r = ex.th.havoc('subn', f)
            t2 = ex.th.fresh('st', 'i')
            put(s, p, r, t2, None)
            s.notes = s.notes + ('subnormalize with unrelated ternary value',)
            out.append((s, t2))
    return out


@model('mpfr_check_range')
def _(ex, st, a):
    p, t, rnd = a
    rnd = rndc(ex, rnd)
    mv = get(st, p)
    out = []
    for s, k in ex.kinds(st, mv.fv):
        s = s.copy()
        if k.nan is True or k.inf is True or k.iszero() is True:
            out.append((s, t))
            continue
        f = fmt_of(s, mv)
        if f is None:
            out += havoc_result(ex, s, p)
            continue
        if fmt_sub(k.fmt, f):
            out.append((s, t))
            continue
        linked = mv.exact is not None and mv.exact[0] == rnd and (t is mv.tern or (z3.is_expr(t) and z3.is_expr(mv.tern) and t.eq(mv.tern)))
        if linked or (isinstance(t, int) and isinstance(mv.tern, int) and t == mv.tern and mv.exact is not None):
            r = ex.th.round(rnd, f, mv.exact[1], k.neg)
            t2 = tern_of(ex, r, mv.exact[1])
            put(s, p, r, t2, mv.exact)
            out.append((s, t2))
        else:
            r = ex.th.convert(rnd, f, k)
            t2 = ex.th.fresh('ct', 'i')
            put(s, p, r, t2, None)
            out.append((s, t2))
    return out


# ---------------------------------------------------------------- arithmetic
def binary(f):
    def g(ex, st, a):
        z, x, y, rnd = a[0], a[1], a[2], rndc(ex, a[3])
        out = []
        for s, (kx, ky) in ex.many_kinds(st, [get(st, x).fv, get(st, y).fv]):
            out += f(ex, s.copy(), z, kx, ky, rnd)
        return out
    return g


def zsum(kx, ky, rnd):
    """sign of an exact zero sum"""
    return If(And(kx.neg, ky.neg), True, If(And(Not(kx.neg), Not(ky.neg)), False, rnd == RD)) if True else None


def add(ex, s, z, x, y, rnd):
    if x.nan is True or y.nan is True:
        return special(ex, s, z, NAN())
    if x.inf is True or y.inf is True:
        if x.inf is True and y.inf is True and x.neg != y.neg:
            return special(ex, s, z, NAN())
        return special(ex, s, z, x if x.inf is True else y)
    # exact zero: both zero with equal signs keep the sign, otherwise by rounding direction
    bz = And(eq(x.val, 0), eq(y.val, 0))
    zs = If(And(bz, x.neg, y.neg), True, If(And(bz, Not(x.neg), Not(y.neg)), False, rnd == RD))
    return finish(ex, s, z, rnd, radd(x.val, y.val), zs)


def sub(ex, s, z, x, y, rnd):
    return add(ex, s, z, x, f_neg(y) if y.nan is not True else y, rnd)


def sgnsplit(ex, s, x):
    """fork a finite FV on zero / sign: [(state, -1|0|1)]"""
    out = []
    for s1, z in ex.split(s, eq(x.val, 0)):
        if z:
            out.append((s1, 0))
            continue
        for s2, n in ex.split(s1, lt(x.val, 0)):
            out.append((s2, -1 if n else 1))
    return out


def xneg(x):
    return x.neg


def bxor(a, b):
    return And(Or(a, b), Not(And(a, b)))


def mul(ex, s, z, x, y, rnd):
    if x.nan is True or y.nan is True:
        return special(ex, s, z, NAN())
    if x.inf is True or y.inf is True:
        if x.inf is True and y.inf is True:
            return special(ex, s, z, INF(x.neg != y.neg))
        i, f = (x, y) if x.inf is True else (y, x)
        out = []
        for s2, sg in sgnsplit(ex, s, f):
            s2 = s2.copy()
            if sg == 0:
                out += special(ex, s2, z, NAN())
            else:
                out += special(ex, s2, z, INF(i.neg != (sg < 0)))
        return out
    return product(ex, s, z, x, y, rnd, bxor(x.neg, y.neg))


def product(ex, s, z, x, y, rnd, neg):
    """the product of numbers of p and q digits has at most p + q digits: exact where the target has them"""
    v = ex.th.prod(x.val, y.val)
    f = fmt_of(s, get(s, z))
    if x.fmt is not None and y.fmt is not None and f is not None and not num(v):
        g = Format(x.fmt.p + y.fmt.p, x.fmt.emin + y.fmt.emin - 1, x.fmt.emax + y.fmt.emax, False)
        if fmt_sub(g, f):
            put(s, z, FV(False, False, neg, v, g), 0, (rnd, v))
            return [(s, 0)]
    return finish(ex, s, z, rnd, v, neg)


def div(ex, s, z, x, y, rnd):
    if x.nan is True or y.nan is True or (x.inf is True and y.inf is True):
        return special(ex, s, z, NAN())
    if y.inf is True:
        return special(ex, s, z, FV(False, False, bxor(x.neg, y.neg), Fraction(0), F32))
    out = []
    for s2, yz in ex.split(s, eq(y.val, 0)):
        s2 = s2.copy()
        if x.inf is True:
            for s3, ng in ex.split(s2, bxor(x.neg, y.neg)):
                out += special(ex, s3.copy(), z, INF(ng))
        elif yz:
            for s3, xz in ex.split(s2, eq(x.val, 0)):
                if xz:
                    out += special(ex, s3.copy(), z, NAN())
                else:
                    for s4, ng in ex.split(s3, bxor(x.neg, y.neg)):
                        out += special(ex, s4.copy(), z, INF(ng))
        else:
            out += finish(ex, s2, z, rnd, ex.th.quot(x.val, y.val), bxor(x.neg, y.neg))
    return out


MODELS['mpfr_add'] = binary(add)
MODELS['mpfr_sub'] = binary(sub)
MODELS['mpfr_mul'] = binary(mul)
MODELS['mpfr_div'] = binary(div)


def with_int(f, swap=False, unsigned=False):
    def g(ex, st, a):
        z, rnd = a[0], rndc(ex, a[3])
        if swap:
            n, x = a[1], a[2]
        else:
            x, n = a[1], a[2]
        nv = int_fv(ex, n)
        if nv.val is not None and num(nv.val) and nv.val == 0:
            nv = CONST(0, False)
        out = []
        for s, (kx,) in ex.many_kinds(st, [get(st, x).fv]):
            s = s.copy()
            out += f(ex, s, z, nv, kx, rnd) if swap else f(ex, s, z, kx, nv, rnd)
        return out
    return g


def div_int(ex, s, z, x, n, rnd):
    if num(n.val) and n.val in (2, 4, 8) and x.nan is not True and x.inf is not True and not num(x.val) and x.fmt is not None:
        # division by a power of two: exact when the exponent range allows it
        k = int(n.val).bit_length() - 1
        f2 = Format(x.fmt.p, x.fmt.emin - k, x.fmt.emax - k, x.fmt.sub)
        f = fmt_of(s, get(s, z))
        if f is not None and fmt_sub(f2, f):
            v = FV(False, False, x.neg, x.val / q(n.val), f2)
            put(s, z, v, 0, (rnd, v.val))
            return [(s, 0)]
    return div(ex, s, z, x, n, rnd)


MODELS['mpfr_div_si'] = MODELS['mpfr_div_ui'] = with_int(div_int)
MODELS['mpfr_mul_si'] = MODELS['mpfr_mul_ui'] = with_int(mul)
MODELS['mpfr_add_si'] = MODELS['mpfr_add_ui'] = with_int(add)
MODELS['mpfr_sub_si'] = MODELS['mpfr_sub_ui'] = with_int(sub)
MODELS['mpfr_ui_div'] = MODELS['mpfr_si_div'] = with_int(div, True)
MODELS['mpfr_ui_sub'] = MODELS['mpfr_si_sub'] = with_int(sub, True)


def with_fp(f, swap=False):
    def g(ex, st, a):
        z, rnd = a[0], rndc(ex, a[3])
        x, d = (a[2], a[1]) if swap else (a[1], a[2])
        out = []
        for s, (kx, kd) in ex.many_kinds(st, [get(st, x).fv, d]):
            s = s.copy()
            out += f(ex, s, z, kd, kx, rnd) if swap else f(ex, s, z, kx, kd, rnd)
        return out
    return g


for _n, _f in (('add', add), ('sub', sub), ('mul', mul), ('div', div)):
    MODELS['mpfr_%s_d' % _n] = with_fp(_f)
MODELS['mpfr_d_div'] = with_fp(div, True)
MODELS['mpfr_d_sub'] = with_fp(sub, True)


def scale(down):
    """multiplication by a power of two: exact when the exponent range allows it"""
    def g(ex, st, a):
        z, x, k, rnd = a[0], a[1], a[2], rndc(ex, a[3])
        if not isinstance(k, int):
            raise Undecided('symbolic binary exponent')
        k = k - (1 << 64) if k >= 1 << 63 else k
        k = -k if down else k
        out = []
        for s, kx in ex.kinds(st, get(st, x).fv):
            s = s.copy()
            if kx.nan is True or kx.inf is True:
                out += special(ex, s, z, kx)
                continue
            v = rmul(Fraction(2) ** k, kx.val)
            f = fmt_of(s, get(s, z))
            f2 = Format(kx.fmt.p, kx.fmt.emin + k, kx.fmt.emax + k, kx.fmt.sub) if kx.fmt is not None else None
            if f is not None and f2 is not None and not num(v) and fmt_sub(f2, f):
                put(s, z, FV(False, False, kx.neg, v, f2), 0, (rnd, v))
                out.append((s, 0))
            else:
                out += finish(ex, s, z, rnd, v, kx.neg)
        return out
    return g


MODELS['mpfr_mul_2si'] = MODELS['mpfr_mul_2ui'] = MODELS['mpfr_mul_2exp'] = scale(False)
MODELS['mpfr_div_2si'] = MODELS['mpfr_div_2ui'] = MODELS['mpfr_div_2exp'] = scale(True)


@model('mpfr_swap')
@fork
def _(ex, st, a):
    p, q_ = a[0], a[1]
    u, v = get(st, p), get(st, q_)
    mine(st, p)
    mine(st, q_)
    st.mp[(p.obj, p.off)], st.mp[(q_.obj, q_.off)] = v, u
    return [(st, None)]


@model('mpfr_get_prec')
def _(ex, st, a):
    return [(st, get(st, a[0]).prec)]


def varlist(a):
    r = []
    for p in a:
        if not isinstance(p, Ptr) or p is NULL:
            return r
        r.append(p)
    raise Undecided('list of variables without end')


@model('mpfr_clears')
def _(ex, st, a):
    for p in varlist(a):
        st = MODELS['mpfr_clear'](ex, st, [p])[0][0]
    return [(st, None)]


@model('mpfr_inits2')
def _(ex, st, a):
    for p in varlist(a[1:]):
        st = MODELS['mpfr_init2'](ex, st, [p, a[0]])[0][0]
    return [(st, None)]


@model('mpfr_fma', 'mpfr_fms')
def _(ex, st, a):
    z, rnd = a[0], rndc(ex, a[4])
    out = []
    for s, (x, y, w) in ex.many_kinds(st, [get(st, p).fv for p in a[1:4]]):
        s = s.copy()
        if x.nan is True or y.nan is True or w.nan is True:
            out += special(ex, s, z, NAN())
            continue
        if x.inf is True or y.inf is True:
            alts = []
            if x.inf is True and y.inf is True:
                alts = [(s, x.neg != y.neg)]
            else:
                i, f = (x, y) if x.inf is True else (y, x)
                for s2, sg in sgnsplit(ex, s, f):
                    alts.append((s2, None if sg == 0 else (i.neg != (sg < 0))))
            for s2, ng in alts:
                s2 = s2.copy()
                if ng is None or (w.inf is True and w.neg != ng):
                    out += special(ex, s2, z, NAN())
                else:
                    out += special(ex, s2, z, INF(ng))
            continue
        if w.inf is True:
            out += special(ex, s, z, w)
            continue
        pn = bxor(x.neg, y.neg)
        pz = Or(eq(x.val, 0), eq(y.val, 0))
        bz = And(pz, eq(w.val, 0))
        zs = If(And(bz, pn, w.neg), True, If(And(bz, Not(pn), Not(w.neg)), False, rnd == RD))
        out += finish(ex, s, z, rnd, radd(ex.th.prod(x.val, y.val), w.val), zs)
    return out


def unary(f):
    def g(ex, st, a):
        z, x, rnd = a[0], a[1], rndc(ex, a[2])
        out = []
        for s, kx in ex.kinds(st, get(st, x).fv):
            out += f(ex, s.copy(), z, kx, rnd)
        return out
    return g


def sqr(ex, s, z, x, rnd):
    if x.nan is True:
        return special(ex, s, z, NAN())
    if x.inf is True:
        return special(ex, s, z, INF(False))
    return product(ex, s, z, x, x, rnd, False)


def sqrt(ex, s, z, x, rnd):
    if x.nan is True:
        return special(ex, s, z, NAN())
    if x.inf is True:
        return special(ex, s, z, NAN() if x.neg else x)
    out = []
    for s2, sg in sgnsplit(ex, s, x):
        s2 = s2.copy()
        if sg < 0:
            out += special(ex, s2, z, NAN())
        elif sg == 0:
            out += special(ex, s2, z, FV(False, False, x.neg, Fraction(0), F32))
        else:
            out += finish(ex, s2, z, rnd, ex.th.fn('sqrt', x.val), False)
    return out


def neg(ex, s, z, x, rnd):
    if x.nan is True:
        return special(ex, s, z, NAN())
    r = f_neg(x)
    if x.inf is True:
        return special(ex, s, z, r)
    return conv(ex, s, z, rnd, r)


def absf(ex, s, z, x, rnd):
    if x.nan is True:
        return special(ex, s, z, NAN())
    if x.inf is True:
        return special(ex, s, z, INF(False))
    v = FV(False, False, False, abs(x.val) if num(x.val) else If(lt(x.val, 0), rneg(x.val), x.val), x.fmt)
    return conv(ex, s, z, rnd, v)


MODELS['mpfr_sqr'] = unary(sqr)
MODELS['mpfr_sqrt'] = unary(sqrt)
MODELS['mpfr_neg'] = unary(neg)
MODELS['mpfr_abs'] = unary(absf)


def minmax(ismax):
    def f(ex, s, z, x, y, rnd):
        if x.nan is True and y.nan is True:
            return special(ex, s, z, NAN())
        if x.nan is True or y.nan is True:
            v = y if x.nan is True else x
            return special(ex, s, z, v) if v.inf is True else conv(ex, s, z, rnd, v)
        out = []
        # zeros of opposite sign: min is -0, max is +0
        bz = And(x.iszero(), y.iszero())
        lesseq = If(bz, Or(x.neg, Not(y.neg)), f_le(x, y))
        if x.inf is not True and y.inf is not True and x.fmt is not None and y.fmt is not None:
            c = lesseq
            if not isinstance(c, bool):
                c = z3.simplify(c)
            v = ite_fv(c, y if ismax else x, x if ismax else y) if not isinstance(c, bool) else ((y if ismax else x) if c else (x if ismax else y))
            return conv(ex, s, z, rnd, v)
        for s2, c in ex.split(s, lesseq):
            s2 = s2.copy()
            v = (y if ismax else x) if c else (x if ismax else y)
            out += special(ex, s2, z, v) if v.inf is True else conv(ex, s2, z, rnd, v)
        return out
    return f


MODELS['mpfr_min'] = binary(minmax(False))
MODELS['mpfr_max'] = binary(minmax(True))


# ---------------------------------------------------------------- comparisons
def sign_int(ex, pos, neg):
    """int whose sign is +/-/0; magnitude unspecified"""
    if isinstance(pos, bool) and isinstance(neg, bool) and not pos and not neg:
        return 0
    th = ex.th
    pos, neg = tob(pos), tob(neg)
    key = ('C', pos.sexpr(), neg.sexpr())
    t = th.memo.get(key)
    if t is None:
        t = Term()
        t.kind = 'T'
        t.name = 'cmp'
        c = th.fresh('c', 'i')
        t.args = (pos, neg)
        t.res = (c,)
        t.facts = [(c > 0) == pos, (c < 0) == neg, c >= -(1 << 31) + 1, c <= (1 << 31) - 1]
        th.memo[key] = t
        th.def_of[c.decl().name()] = t
        th._emit(t.facts)
    return t.res[0]


@model('mpfr_cmp', 'mpfr_cmp3')
def _(ex, st, a):
    x, y = get(st, a[0]).fv, get(st, a[1]).fv
    if len(a) > 2 and a[2] != 1:
        raise Undecided('cmp3')
    return [(st, sign_int(ex, f_lt(y, x), f_lt(x, y)))]


@model('mpfr_cmp_si', 'mpfr_cmp_ui')
def _(ex, st, a):
    x = get(st, a[0]).fv
    y = int_fv(ex, a[1])
    return [(st, sign_int(ex, f_lt(y, x), f_lt(x, y)))]


@model('mpfr_cmp_si_2exp', 'mpfr_cmp_ui_2exp')
def _(ex, st, a):
    if a[2] != 0:
        raise Undecided('cmp_2exp')
    return MODELS['mpfr_cmp_si'](ex, st, a[:2])


@model('mpfr_cmp_d', 'mpfr_cmp_ld')
def _(ex, st, a):
    x = get(st, a[0]).fv
    y = a[1]
    return [(st, sign_int(ex, f_lt(y, x), f_lt(x, y)))]


@model('mpfr_cmpabs')
def _(ex, st, a):
    def ab(v):
        return FV(v.nan, v.inf, False, If(lt(v.val, 0), rneg(v.val), v.val), v.fmt)
    x, y = ab(get(st, a[0]).fv), ab(get(st, a[1]).fv)
    return [(st, sign_int(ex, f_lt(y, x), f_lt(x, y)))]


@model('mpfr_sgn')
def _(ex, st, a):
    x = get(st, a[0]).fv
    # the installed implementation returns MPFR_SIGN, i.e. -1, 0 or 1 (documented: negative, zero, positive)
    return [(s, v) for s0, p in ex.split(st, f_lt(CONST(0), x)) for s, v in ([(s0, 1)] if p else [(s1, -1 if n else 0) for s1, n in ex.split(s0, f_lt(x, CONST(0)))])]


def pred(f):
    def g(ex, st, a):
        c = f(*[get(st, p).fv for p in a])
        return [(st, If(c, 1, 0) if not isinstance(c, bool) else int(c))]
    return g


MODELS['mpfr_lessequal_p'] = pred(f_le)
MODELS['mpfr_less_p'] = pred(f_lt)
MODELS['mpfr_greater_p'] = pred(lambda x, y: f_lt(y, x))
MODELS['mpfr_greaterequal_p'] = pred(lambda x, y: f_le(y, x))
MODELS['mpfr_equal_p'] = pred(f_eq)
MODELS['mpfr_nan_p'] = pred(lambda x: x.nan)
MODELS['mpfr_inf_p'] = pred(lambda x: And(Not(x.nan), x.inf))
MODELS['mpfr_number_p'] = pred(lambda x: x.fin())
MODELS['mpfr_zero_p'] = pred(lambda x: x.iszero())
MODELS['mpfr_regular_p'] = pred(lambda x: And(x.fin(), Not(eq(x.val, 0))))
MODELS['mpfr_signbit'] = pred(lambda x: x.neg)
MODELS['mpfr_unordered_p'] = pred(lambda x, y: Or(x.nan, y.nan))
MODELS['mpfr_lessgreater_p'] = pred(lambda x, y: Or(f_lt(x, y), f_lt(y, x)))


# ---------------------------------------------------------------- elementary functions
def zero_like(x):
    return FV(False, False, x.neg, Fraction(0), F32)


def table(name, minf, pinf, zero, lo=None, hi=None, at_lo=None, at_hi=None):
    """real function `name` with special values; outside [lo,hi] the result is NaN"""
    def f(ex, s, z, x, rnd):
        if x.nan is True:
            return special(ex, s, z, NAN())
        if x.inf is True:
            r = minf if x.neg else pinf
            return r(ex, s, z, rnd)
        out = []
        alts = [(s, None)]
        conds = []
        if lo is not None:
            conds.append((lt(x.val, lo), lambda ex, s, z, rnd: special(ex, s, z, NAN())))
            if at_lo:
                conds.append((eq(x.val, lo), at_lo))
        if hi is not None:
            conds.append((lt(hi, x.val), lambda ex, s, z, rnd: special(ex, s, z, NAN())))
            if at_hi:
                conds.append((eq(x.val, hi), at_hi))
        if zero is not None:
            conds.append((eq(x.val, 0), lambda ex, s, z, rnd: special(ex, s, z, zero_like(x)) if zero == 'same' else special(ex, s, z, CONST(zero, False))))
        cur = [s]
        for c, h in conds:
            nxt = []
            for s1 in cur:
                for s2, b in ex.split(s1, c):
                    if b:
                        out += h(ex, s2.copy(), z, rnd)
                    else:
                        nxt.append(s2)
            cur = nxt
        for s1 in cur:
            out += finish(ex, s1.copy(), z, rnd, ex.th.fn(name, x.val), False)
        return out
    return f


def _nan(ex, s, z, rnd):
    return special(ex, s, z, NAN())


def _inf(n):
    return lambda ex, s, z, rnd: special(ex, s, z, INF(n))


def _c(v, neg=False):
    return lambda ex, s, z, rnd: special(ex, s, z, CONST(v, neg or v < 0))


def _real(mk):
    return lambda ex, s, z, rnd: finish(ex, s, z, rnd, mk(ex.th))


def pi(th):
    return th.fn('pi')


half = Fraction(1, 2)
TABLE = {
    'exp': table('exp', _c(0), _inf(False), None),
    'exp2': table('exp2', _c(0), _inf(False), None),
    'exp10': table('exp10', _c(0), _inf(False), None),
    'log': table('log', _nan, _inf(False), None, 0, None, _inf(True)),
    'log2': table('log2', _nan, _inf(False), None, 0, None, _inf(True)),
    'log10': table('log10', _nan, _inf(False), None, 0, None, _inf(True)),
    'sin': table('sin', _nan, _nan, 'same'),
    'cos': table('cos', _nan, _nan, None),
    'tan': table('tan', _nan, _nan, 'same'),
    'asin': table('asin', _nan, _nan, 'same', -1, 1),
    'acos': table('acos', _nan, _nan, None, -1, 1, None, _c(0)),
    'atan': table('atan', _real(lambda th: -pi(th) / 2), _real(lambda th: pi(th) / 2), 'same'),
    'sinh': table('sinh', _inf(True), _inf(False), 'same'),
    'cosh': table('cosh', _inf(False), _inf(False), None),
    'tanh': table('tanh', _c(-1), _c(1), 'same'),
    'asinh': table('asinh', _inf(True), _inf(False), 'same'),
    'acosh': table('acosh', _nan, _inf(False), None, 1, None, _c(0)),
    'atanh': table('atanh', _nan, _nan, 'same', -1, 1, _inf(True), _inf(False)),
}
for nm, f in TABLE.items():
    MODELS['mpfr_' + nm] = unary(f)


def signed(z, x, neg, rnd, ex, s):
    """x with the given sign"""
    if x.nan is True:
        return special(ex, s, z, NAN())
    flip = bxor(x.neg, neg)
    return special(ex, s, z, FV(False, True, neg, 0, x.fmt)) if x.inf is True else conv(ex, s, z, rnd, FV(False, False, neg, If(flip, rneg(x.val), x.val), x.fmt))


@model('mpfr_setsign')
def _(ex, st, a):
    neg = a[2] != 0
    if z3.is_expr(neg):
        neg = z3.simplify(neg)
    return [r for s, kx in ex.kinds(st, get(st, a[1]).fv) for r in signed(a[0], kx, neg, rndc(ex, a[3]), ex, s.copy())]


@model('mpfr_copysign')
def _(ex, st, a):
    neg = get(st, a[2]).fv.neg
    return [r for s, kx in ex.kinds(st, get(st, a[1]).fv) for r in signed(a[0], kx, neg, rndc(ex, a[3]), ex, s.copy())]


def both(f, g):
    """two functions of one operand"""
    def h(ex, st, a):
        out = []
        for s, kx in ex.kinds(st, get(st, a[2]).fv):
            for s2, _ in f(ex, s.copy(), a[0], kx, rndc(ex, a[3])):
                for s3, _ in g(ex, s2.copy(), a[1], kx, rndc(ex, a[3])):
                    out.append((s3, ex.th.fresh('unkt', 'i')))
        return out
    return h


MODELS['mpfr_sin_cos'] = both(TABLE['sin'], TABLE['cos'])
MODELS['mpfr_sinh_cosh'] = both(TABLE['sinh'], TABLE['cosh'])


@model('mpfr_const_pi')
@fork
def _(ex, st, a):
    return finish(ex, st, a[0], rndc(ex, a[1]), ex.th.fn('pi'), False)


# ---------------------------------------------------------------- powers
@model('mpfr_pow')
def _(ex, st, a):
    z, rnd = a[0], rndc(ex, a[3])
    out = []
    for s, (x, y) in ex.many_kinds(st, [get(st, a[1]).fv, get(st, a[2]).fv]):
        out += powr(ex, s.copy(), z, x, y, rnd)
    return out


def powr(ex, s, z, x, y, rnd):
    one = CONST(1)
    if y.nan is not True and y.inf is not True:
        res = []
        for s1, y0 in ex.split(s, eq(y.val, 0)):
            s1 = s1.copy()
            res += special(ex, s1, z, one) if y0 else powr2(ex, s1, z, x, y, rnd)
        return res
    return powr2(ex, s, z, x, y, rnd)


def powr2(ex, s, z, x, y, rnd):
    one = CONST(1)
    # y is nan, +-inf or nonzero finite
    if x.nan is not True and x.inf is not True:
        res = []
        for s1, x1 in ex.split(s, eq(x.val, 1)):
            s1 = s1.copy()
            res += special(ex, s1, z, one) if x1 else powr3(ex, s1, z, x, y, rnd)
        return res
    return powr3(ex, s, z, x, y, rnd)


def powr3(ex, s, z, x, y, rnd):
    if x.nan is True or y.nan is True:
        return special(ex, s, z, NAN())
    if y.inf is True:
        if x.inf is True:
            return special(ex, s, z, INF(False) if not y.neg else CONST(0, False))
        out = []
        # |x| against 1
        for s1, m1 in ex.split(s, eq(x.val, -1)):
            if m1:
                out += special(ex, s1.copy(), z, CONST(1))
                continue
            for s2, big in ex.split(s1, Or(lt(1, x.val), lt(x.val, -1))):
                out += special(ex, s2.copy(), z, INF(False) if big != y.neg else CONST(0, False))
        return out
    # y finite nonzero
    if x.inf is True:
        if x.neg:
            raise Undecided('pow(-inf, y)')
        return [r for s1, n in ex.split(s, lt(y.val, 0)) for r in special(ex, s1.copy(), z, CONST(0, False) if n else INF(False))]
    out = []
    for s1, sg in sgnsplit(ex, s, x):
        s1 = s1.copy()
        if sg < 0:
            out += havoc_result(ex, s1, z)
        elif sg == 0:
            for s2, n in ex.split(s1, lt(y.val, 0)):
                if x.neg is False:
                    out += special(ex, s2.copy(), z, INF(False) if n else CONST(0, False))
                else:
                    # -0: the sign depends on y being an odd integer
                    for s3, xn in ex.split(s2, x.neg):
                        s3 = s3.copy()
                        sgn = ex.th.fresh('oddint', 'b') if xn else False
                        if n:
                            for s4, ng in ex.split(s3, sgn):
                                out += special(ex, s4.copy(), z, INF(ng))
                        else:
                            out += special(ex, s3, z, FV(False, False, sgn, Fraction(0), F32))
        else:
            out += finish(ex, s1, z, rnd, ex.th.fn('pow', x.val, y.val), False)
    return out


def odd(n):
    if isinstance(n, int):
        return n % 2 == 1
    return n % 2 == 1


@model('mpfr_pow_si', 'mpfr_pow_ui')
def _(ex, st, a):
    z, n, rnd = a[0], a[2], rndc(ex, a[3])
    out = []
    for s, x in ex.kinds(st, get(st, a[1]).fv):
        for s1, n0 in ex.split(s, eq(n, 0) if isinstance(n, int) else n == 0):
            if n0:
                out += special(ex, s1.copy(), z, CONST(1))
                continue
            if x.nan is True:
                out += special(ex, s1.copy(), z, NAN())
                continue
            for s2, nn in ex.split(s1, n < 0):
                for s3, od in ex.split(s2, odd(n)):
                    s3 = s3.copy()
                    if x.inf is True:
                        ng = bool(x.neg and od)
                        out += special(ex, s3, z, CONST(0, ng) if nn else INF(ng))
                        continue
                    for s4, sg in sgnsplit(ex, s3, x):
                        s4 = s4.copy()
                        if sg == 0:
                            ng = And(x.neg, od)
                            if nn:
                                for s5, g in ex.split(s4, ng):
                                    out += special(ex, s5.copy(), z, INF(g))
                            else:
                                out += special(ex, s4, z, FV(False, False, ng, Fraction(0), F32))
                        else:
                            ax = x.val if sg > 0 else rneg(x.val)
                            e = ex.th.fn('pown', ax, Fraction(n) if isinstance(n, int) else z3.ToReal(n))
                            out += finish(ex, s4, z, rnd, rneg(e) if (sg < 0 and od) else e, False)
    return out


@model('mpfr_root', 'mpfr_rootn_ui')
def _(ex, st, a):
    """real n-th root, n > 0"""
    z, n, rnd = a[0], a[2], rndc(ex, a[3])
    out = []
    for s, x in ex.kinds(st, get(st, a[1]).fv):
        if x.nan is True:
            out += special(ex, s.copy(), z, NAN())
            continue
        for s1, n0 in ex.split(s, n <= 0):
            if n0:
                # n is an unsigned long: zero gives NaN; a wrapped negative value is never what is meant
                out += havoc_result(ex, s1.copy(), z)
                continue
            for s3, od in ex.split(s1, odd(n)):
                s3 = s3.copy()
                if x.inf is True:
                    out += special(ex, s3, z, x if (od or not x.neg) else NAN())
                    continue
                for s4, sg in sgnsplit(ex, s3, x):
                    s4 = s4.copy()
                    if sg == 0:
                        out += special(ex, s4, z, FV(False, False, And(x.neg, od), Fraction(0), F32))
                    elif sg < 0 and not od:
                        out += special(ex, s4, z, NAN())
                    else:
                        ax = x.val if sg > 0 else rneg(x.val)
                        e = ex.th.fn('root', ax, Fraction(n) if isinstance(n, int) else z3.ToReal(n))
                        out += finish(ex, s4, z, rnd, e if sg > 0 else rneg(e), False)
    return out


@model('mpfr_atan2')
def _(ex, st, a):
    """atan2(y, x)"""
    z, rnd = a[0], rndc(ex, a[3])
    th = ex.th
    out = []
    for s, (y, x) in ex.many_kinds(st, [get(st, a[1]).fv, get(st, a[2]).fv]):
        if x.nan is True or y.nan is True:
            out += special(ex, s.copy(), z, NAN())
            continue
        P = th.fn('pi')
        # classify y: -inf, neg, -0, +0, pos, +inf
        def cls(s, v):
            if v.inf is True:
                return [(s, 'i', v.neg)]
            r = []
            for s1, sg in sgnsplit(ex, s, v):
                if sg == 0:
                    for s2, n in ex.split(s1, v.neg):
                        r.append((s2, 'z', n))
                else:
                    r.append((s1, 'f', sg < 0))
            return r
        for s1, cy, ny in cls(s, y):
            for s2, cx, nx in cls(s1, x):
                s2 = s2.copy()
                sg = -1 if ny else 1
                if cy == 'z':
                    if nx:
                        out += finish(ex, s2, z, rnd, P * sg, ny)
                    else:
                        out += special(ex, s2, z, CONST(0, ny))
                elif cy == 'i':
                    if cx == 'i':
                        out += finish(ex, s2, z, rnd, (P * Fraction(3, 4).numerator / 4 if nx else P / 4) * sg, ny)
                    else:
                        out += finish(ex, s2, z, rnd, P / 2 * sg, ny)
                else:
                    if cx == 'i':
                        if nx:
                            out += finish(ex, s2, z, rnd, P * sg, ny)
                        else:
                            out += special(ex, s2, z, CONST(0, ny))
                    elif cx == 'z':
                        out += finish(ex, s2, z, rnd, P / 2 * sg, ny)
                    else:
                        out += finish(ex, s2, z, rnd, th.fn('atan2', y.val, x.val), ny)
    return out


def step_to(up):
    def g(ex, st, a):
        z = a[0]
        th = ex.th
        out = []
        for s, k in ex.kinds(st, get(st, z).fv):
            s = s.copy()
            g_ = fmt_of(s, get(s, z))
            if k.nan is True:
                out.append((s, None))
                continue
            if g_ is None or (k.inf is not True and not fmt_sub(k.fmt, g_)):
                out += [(x, None) for x, t in havoc_result(ex, s, z)]
                continue
            M = th.MAX(g_)
            if k.inf is True:
                if bool(k.neg) == up:
                    put(s, z, FV(False, False, up, -M if up else M, g_))
                out.append((s, None))
                continue
            v = k.val
            for s1, last in ex.split(s, tob(q(v) == M if up else q(v) == -M)):
                s1 = s1.copy()
                if last:
                    put(s1, z, INF(not up))
                else:
                    y = th.neighbour(v, g_, up)
                    put(s1, z, FV(False, False, z3.Or(y < 0, z3.And(y == 0, q(v) < 0)), y, g_))
                out.append((s1, None))
        return out
    return g


MODELS['mpfr_nextabove'] = step_to(True)
MODELS['mpfr_nextbelow'] = step_to(False)


# ---------------------------------------------------------------- native floating point (libm, fenv)
def native(ex, st, op, f, x, y):
    if isinstance(x, list):
        return [native(ex, st, op, f, a, b) for a, b in zip(x, y)]
    if x is UNDEF or y is UNDEF:
        raise Undecided('fp arithmetic on undef')
    kx, ky = known(ex, st, x), known(ex, st, y)
    if kx is None or ky is None:
        raise Undecided('native arithmetic on unclassified operands')
    x, y = kx, ky
    if x.nan is True or y.nan is True:
        return NAN()
    if op == 'fsub':
        y = f_neg(y)
        op = 'fadd'
    if op == 'fadd':
        if x.inf is True or y.inf is True:
            if x.inf is True and y.inf is True and x.neg != y.neg:
                return NAN()
            return x if x.inf is True else y
        bz = And(eq(x.val, 0), eq(y.val, 0))
        zs = And(bz, x.neg, y.neg)
        fr = fraction_of(ex.th, x.val, y.val)
        if fr is not None and fmt_sub(x.fmt, f):
            # x - trunc(x) is a member of x's format
            return FV(False, False, Or(lt(fr, 0), And(eq(fr, 0), zs)), fr, x.fmt)
        return ex.th.round(RN, f, radd(x.val, y.val), zs)
    if op == 'fmul':
        if x.inf is True or y.inf is True:
            raise Undecided('native multiplication of infinities')
        return ex.th.round(RN, f, ex.th.prod(x.val, y.val), bxor(x.neg, y.neg))
    raise Undecided('native ' + op)


def fraction_of(th, a, b):
    """a + b when b is -trunc(a)"""
    if num(a) or num(b):
        return None
    sg, c = strip(z3.simplify(b))
    if sg < 0 and z3.is_const(c):
        t = th.def_of.get(c.decl().name())
        if t is not None and t.kind == 'I' and t.keep and t.keep[0] == 'trunc_' and z3.simplify(t.keep[1]).eq(z3.simplify(a)):
            return a - c
    return None


def known(ex, st, v):
    r = ex.kinds(st, v)
    if len(r) == 1:
        return r[0][1]
    return None


def fpconv(ex, st, v, f):
    if fmt_sub(v.fmt, f) or v.nan is True or v.inf is True:
        return v
    k = known(ex, st, v)
    if k is None:
        raise Undecided('narrowing of unclassified value')
    if k.nan is True or k.inf is True:
        return k
    return ex.th.convert(RN, f, k)


MODELS['native'] = native
MODELS['fpconv'] = fpconv


def intfun(f):
    """rounding to an integer: special values and zeros map to themselves"""
    def g(ex, st, a):
        out = []
        for s, v in ex.kinds(st, a[0]):
            if v.nan is True or v.inf is True:
                out.append((s, v))
                continue
            r = f(ex, s, v)
            r = FV(False, False, Or(lt(r, 0), And(eq(r, 0), v.neg)), r, v.fmt)
            name = 'int!%d' % ex.th.n
            out.append((s, r))
        return out
    return g


def named_int(ex, v, fmt, expr, src=None):
    """integer-valued member of the operand's format"""
    th = ex.th
    key = ('I', expr.sexpr())
    t = th.memo.get(key)
    if t is None:
        t = Term()
        t.kind = 'I'
        t.name = 'int'
        c = th.fresh('k')
        t.args = (expr,)
        t.res = (c,)
        M = th.MAX(fmt)
        t.facts = [c == expr, -M <= c, c <= M]
        t.keep = src
        th.memo[key] = t
        th.def_of[c.decl().name()] = t
        # members of the format: usable as witnesses
        th.inputs[c.decl().name()] = FV(False, False, c < 0, c, fmt)
        th._emit(t.facts)
    return t.res[0]


def mk_int(fn):
    def f(ex, s, v):
        if num(v.val):
            return fn_num(fn, v.val)
        return named_int(ex, v, v.fmt, fn(ex.th, v.val), (fn.__name__, v.val))
    return f


def fn_num(fn, x):
    import concrete
    return concrete.CTheory().intfn({'flo': 'floor', 'ceil_': 'ceil', 'trunc_': 'trunc', 'away_': 'round_ties_to_away', 'even_': 'round_ties_to_even'}[fn.__name__], x)


def flo(th, x):
    return z3.ToReal(th.floor(x))


def ceil_(th, x):
    F = flo(th, x)
    return z3.If(q(x) == F, F, F + 1)


def trunc_(th, x):
    F = flo(th, x)
    return z3.If(z3.Or(q(x) >= 0, q(x) == F), F, F + 1)


def away_(th, x):
    F = flo(th, x)
    d = q(x) - F
    return z3.If(z3.Or(d > q(half), z3.And(d == q(half), q(x) >= 0)), F + 1, F)


def even_(th, x):
    F = th.floor(x)
    d = q(x) - z3.ToReal(F)
    return z3.ToReal(z3.If(z3.Or(d > q(half), z3.And(d == q(half), F % 2 == 1)), F + 1, F))


INTF = {'floor': flo, 'ceil': ceil_, 'trunc': trunc_, 'round_ties_to_away': away_, 'round_ties_to_even': even_}
for suf in ('', 'f', 'l'):
    MODELS['floor' + suf] = intfun(mk_int(flo))
    MODELS['ceil' + suf] = intfun(mk_int(ceil_))
    MODELS['trunc' + suf] = intfun(mk_int(trunc_))
    MODELS['round' + suf] = intfun(mk_int(away_))
    MODELS['roundeven' + suf] = intfun(mk_int(even_))


def integral(nm, fixed):
    """rounding to an integer and then to the precision of the target (fixed: in the same direction)"""
    def g(ex, st, a):
        rnd = fixed if fixed is not None else rndc(ex, a[2])
        out = []
        for s, kx in ex.kinds(st, get(st, a[1]).fv):
            if kx.nan is True or kx.inf is True:
                out += special(ex, s.copy(), a[0], kx)
                continue
            for s2, r in MODELS[nm](ex, s, [kx]):
                for s3, t in conv(ex, s2.copy(), a[0], rnd, r):
                    out.append((s3, t if fixed is None else ex.th.fresh('unkt', 'i')))
        return out
    return g


for _n, _l, _m in (('floor', 'floor', RD), ('ceil', 'ceil', RU), ('trunc', 'trunc', RZ), ('roundeven', 'roundeven', RN), ('round', 'round', None)):
    if _m is not None:
        MODELS['mpfr_' + _n] = integral(_l, _m)
    MODELS['mpfr_rint_' + _n] = integral(_l, None)


@model('mpfr_integer_p')
def _(ex, st, a):
    out = []
    for s, kx in ex.kinds(st, get(st, a[0]).fv):
        if kx.nan is True or kx.inf is True:
            out.append((s, 0))
        elif num(kx.val):
            out.append((s, int(Fraction(kx.val).denominator == 1)))
        else:
            out += [(s2, int(b)) for s2, b in ex.split(s, eq(flo(ex.th, kx.val), kx.val))]
    return out


def nearby(ex, st, a):
    mode = st.ghost.get('fe', None)
    if mode == 0:
        return MODELS['roundeven'](ex, st, a)
    # unknown rounding direction: some integer at distance < 1
    def f(ex, s, v):
        if num(v.val):
            v = FV(False, False, v.neg, q(v.val), v.fmt)
        b = ex.th.fresh('dir', 'b')
        return named_int(ex, v, v.fmt, z3.If(b, flo(ex.th, v.val), ceil_(ex.th, v.val)))
    return intfun(f)(ex, st, a)


for suf in ('', 'f', 'l'):
    MODELS['nearbyint' + suf] = nearby
    MODELS['rint' + suf] = nearby


@model('fegetround')
def _(ex, st, a):
    m = st.ghost.get('fe')
    if m is None:
        m = z3.Int('fe0')
        st = st.copy()
        st.ghost['fe'] = m
    return [(st, m)]


@model('fesetround')
@fork
def _(ex, st, a):
    st.ghost['fe'] = a[0]
    return [(st, 0)]


def fminmax(ismax):
    def f(ex, st, a):
        out = []
        for s, (x, y) in ex.many_kinds(st, a):
            if x.nan is True:
                out.append((s, y))
            elif y.nan is True:
                out.append((s, x))
            else:
                for s2, c in ex.split(s, f_le(x, y)):
                    out.append((s2, (y if ismax else x) if c else (x if ismax else y)))
        return out
    return f


for suf in ('', 'f', 'l'):
    MODELS['fmax' + suf] = fminmax(True)
    MODELS['fmin' + suf] = fminmax(False)


# ---------------------------------------------------------------- C++ runtime
@model('__cxa_allocate_exception')
@fork
def _(ex, st, a):
    o = ex.new_obj('exc')
    st.mem[o] = {}
    return [(st, Ptr(o, 0))]


@model('__cxa_throw', raw=True)
def _(ex, st, a):
    return [(st, 'throw', a[1].obj if isinstance(a[1], Ptr) else None)]


@model('__cxa_guard_acquire')
@fork
def _(ex, st, a):
    return [(st, 1)]


@model('__cxa_guard_release')
@fork
def _(ex, st, a):
    ex.forget(st, '@_Z' + a[0].obj[7:])
    return [(st, None)]


@model('__cxa_guard_abort')
@fork
def _(ex, st, a):
    return [(st, None)]


@model('__cxa_atexit', '__cxa_thread_atexit')
@fork
def _(ex, st, a):
    return [(st, 0)]


@model('__cxa_free_exception', '__cxa_begin_catch', '__cxa_end_catch')
def _(ex, st, a):
    return [(st, None)]


def nop(ex, st, a):
    return [(st, None)]


def string_models(mod):
    """std::string / runtime_error construction inside the exception classes: no effect on interval data"""
    r = {}
    for n in mod.decls | set(mod._raw):
        b = n[1:]
        if b.startswith('_ZNSt7__cxx1112basic_string') and ('C1E' in b or 'C2E' in b or 'D1E' in b or 'D2E' in b):
            nop.override = True
            r[b] = nop
        if b.startswith('_ZNSt13runtime_errorC') or b.startswith('_ZNSt13runtime_errorD') or b.startswith('_ZNSaIcE') or b.startswith('_ZNSt15__new_allocatorIcE'):
            r[b] = nop
    return r


nop.override = True
nop.raw = False
