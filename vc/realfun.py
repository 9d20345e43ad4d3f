"""Axioms (ground instances) for the real functions MPFR computes."""
import z3
from fractions import Fraction


def q(x):
    x = Fraction(x)
    return z3.RealVal('%d/%d' % (x.numerator, x.denominator))


PI_LO = Fraction(314159265358979323846264338327, 10 ** 29)
PI_HI = PI_LO + Fraction(1, 10 ** 29)


def round_facts(th, mode, f, e, rv):
    """accuracy of the rounded circle constant"""
    t = th.memo.get(('F', 'pi'))
    if t is not None and e.eq(t.res[0]):
        ulp = q(Fraction(4, 2 ** f.p))
        return [rv > e - ulp, rv < e + ulp]
    if t is not None and mode in (2, 3):
        # relative accuracy (used to compare a rounded width with the period)
        d = q(Fraction(2, 2 ** f.p))
        o = th.memo_ovf
        if mode == 2:
            return [z3.Implies(z3.And(e >= 1, z3.Not(o)), rv <= e + e * d), z3.Implies(z3.And(e <= -1, z3.Not(o)), rv <= e - e * d)]
        return [z3.Implies(z3.And(e >= 1, z3.Not(o)), rv >= e - e * d), z3.Implies(z3.And(e <= -1, z3.Not(o)), rv >= e + e * d)]
    return []


def round_wit(th, t, fin, v):
    """no member of the format lies strictly between the two neighbours of the circle constant"""
    p = th.memo.get(('F', 'pi'))
    mode, f = t.name
    if p is None or not t.args[0].eq(p.res[0]):
        return []
    p, rv = p.res[0], t.res[0]
    ulp = q(Fraction(4, 2 ** f.p))
    nxt = rv + ulp if mode == 3 else rv if mode == 2 else None
    if nxt is None:
        return []
    return [z3.Implies(z3.And(fin, v >= p), v >= nxt), z3.Implies(z3.And(fin, v <= -p), v <= -nxt)]


def unary_facts(th, name, t):
    r = t.res[0]
    a = t.args
    if name == 'pi':
        return [r > q(PI_LO), r < q(PI_HI)]
    if name == 'sqrt':
        return [r >= 0, z3.Implies(a[0] > 0, r > 0), z3.Implies(a[0] == 0, r == 0), z3.Implies(a[0] == 1, r == 1), z3.Implies(a[0] > 1, z3.And(r > 1, r < a[0])), z3.Implies(z3.And(a[0] > 0, a[0] < 1), z3.And(r < 1, r > a[0]))]
    if name in ('exp', 'exp2', 'exp10'):
        return [r > 0, z3.Implies(a[0] == 0, r == 1), z3.Implies(a[0] > 0, r > 1), z3.Implies(a[0] < 0, r < 1)]
    if name in ('log', 'log2', 'log10'):
        return [z3.Implies(a[0] == 1, r == 0), z3.Implies(a[0] > 1, r > 0), z3.Implies(z3.And(a[0] > 0, a[0] < 1), r < 0)]
    if name == 'tanh':
        return [r > -1, r < 1, z3.Implies(a[0] == 0, r == 0), z3.Implies(a[0] > 0, r > 0), z3.Implies(a[0] < 0, r < 0)]
    if name in ('sinh', 'asinh', 'atanh', 'asin', 'atan'):
        fs = [z3.Implies(a[0] == 0, r == 0), z3.Implies(a[0] > 0, r > 0), z3.Implies(a[0] < 0, r < 0)]
        if name in ('asin', 'atan'):
            p = th.fn('pi')
            fs += [r >= -p / 2, r <= p / 2]
            if name == 'atan':
                fs += [r > -p / 2, r < p / 2]
            else:
                fs += [z3.Implies(a[0] == 1, r == p / 2), z3.Implies(a[0] == -1, r == -p / 2)]
        if name == 'atanh':
            fs = [z3.Implies(z3.And(a[0] > -1, a[0] < 1), f) for f in fs]
        return fs
    if name == 'acos':
        p = th.fn('pi')
        return [r >= 0, r <= p, z3.Implies(a[0] == 1, r == 0), z3.Implies(a[0] == -1, r == p), z3.Implies(a[0] < 1, r > 0), z3.Implies(z3.And(a[0] < 1, a[0] > -1), r < p)]
    if name == 'acosh':
        return [r >= 0, z3.Implies(a[0] == 1, r == 0), z3.Implies(a[0] > 1, r > 0)]
    if name == 'cosh':
        return [r >= 1, z3.Implies(a[0] == 0, r == 1), z3.Implies(a[0] != 0, r > 1)]
    if name == 'prod':
        x, y = a
        fs = [z3.Implies(z3.Or(x == 0, y == 0), r == 0),
              z3.Implies(z3.Or(z3.And(x > 0, y > 0), z3.And(x < 0, y < 0)), r > 0),
              z3.Implies(z3.Or(z3.And(x > 0, y < 0), z3.And(x < 0, y > 0)), r < 0),
              z3.Implies(x == 1, r == y), z3.Implies(y == 1, r == x), z3.Implies(x == -1, r == -y), z3.Implies(y == -1, r == -x)]
        return fs
    if name == 'quot':
        return [z3.Implies(z3.And(a[0] == 0, a[1] != 0), r == 0), z3.Implies(a[1] == 1, r == a[0]), z3.Implies(z3.And(a[0] == a[1], a[1] != 0), r == 1),
                z3.Implies(z3.And(a[0] > 0, a[1] > 0), r > 0), z3.Implies(z3.And(a[0] < 0, a[1] < 0), r > 0),
                z3.Implies(z3.And(a[0] > 0, a[1] < 0), r < 0), z3.Implies(z3.And(a[0] < 0, a[1] > 0), r < 0)]
    if name in ('sin', 'cos'):
        x = a[0]
        h = th.hidx('cos' if name == 'sin' else 'sin', x)
        fs = [r >= -1, r <= 1]
        # branch index of the other function gives the sign; no argument but 0 is a multiple of pi/2
        pos, zero = (h % 2 == 0), x == 0
        if name == 'sin':
            tiny = q(Fraction(1, 10 ** 25))
            fs += [z3.Implies(zero, r == 0), z3.Implies(z3.Not(zero), z3.If(pos, r > 0, r < 0)), z3.Implies(z3.And(x > 0, x <= 1), z3.And(r < x, r >= x / 2)), z3.Implies(z3.And(x < 0, x >= -1), z3.And(r > x, r <= x / 2)),
                   z3.Implies(z3.Or(x > 1, x < -1), z3.Or(r > tiny, r < -tiny))]
        else:
            tiny = q(Fraction(1, 10 ** 25))
            fs += [z3.Implies(zero, r == 1), z3.If(pos, r > tiny, r < -tiny), z3.Implies(z3.Not(zero), r < 1),
                   z3.Implies(z3.And(x <= q(Fraction(1, 2 ** 40)), x >= -q(Fraction(1, 2 ** 40))), r >= q(1 - Fraction(1, 2 ** 80)))]
        return fs
    if name == 'tan':
        x = a[0]
        hs, hc = th.hidx('sin', x), th.hidx('cos', x)
        big, tiny = q(10 ** 25), q(Fraction(1, 10 ** 25))
        return [z3.Implies(x == 0, r == 0), z3.Implies(x != 0, z3.If((hs - hc) % 2 == 0, r > 0, r < 0)), r < big, r > -big,
                z3.Implies(z3.And(x > 0, x <= 1), r > x), z3.Implies(z3.And(x < 0, x >= -1), r < x),
                z3.Implies(z3.Or(x > 1, x < -1), z3.Or(r > tiny, r < -tiny))]
    if name in ('hidx_sin', 'hidx_cos'):
        x = a[0]
        p = th.fn('pi')
        fs = [z3.Implies(x >= 0, r >= 0), z3.Implies(x == 0, r == 0)]
        if name == 'hidx_sin':
            fs += [z3.Implies(x <= 0, r <= 0)]
            off = q(Fraction(1, 2))
        else:
            fs += [z3.Implies(x < 0, r <= -1)]
            off = q(0)
        for n in range(-3, 4):
            # boundary below branch n at (n - off) pi
            fs.append((r >= n) == (x >= (n - off) * p))
        return fs
    if name == 'pown':
        x, n = a
        return [z3.Implies(x > 0, r > 0), z3.Implies(x == 1, r == 1), z3.Implies(n == 1, r == x),
                z3.Implies(z3.And(x > 1, n > 0), z3.And(r > 1, r >= x)), z3.Implies(z3.And(x > 0, x < 1, n > 0), z3.And(r < 1, r <= x)),
                z3.Implies(z3.And(x > 1, n < 0), r < 1), z3.Implies(z3.And(x > 0, x < 1, n < 0), r > 1)]
    if name == 'root':
        x, n = a
        return [z3.Implies(x > 0, r > 0), z3.Implies(x == 1, r == 1), z3.Implies(n == 1, r == x), z3.Implies(x == 0, r == 0), z3.Implies(x > 1, z3.And(r > 1, r <= x)), z3.Implies(z3.And(x > 0, x < 1), z3.And(r < 1, r >= x))]
    if name == 'pow':
        x, n = a
        return [z3.Implies(x > 0, r > 0), z3.Implies(x == 1, r == 1), z3.Implies(n == 1, r == x), z3.Implies(n == 0, r == 1),
                z3.Implies(z3.And(x > 1, n > 0), r > 1), z3.Implies(z3.And(x > 0, x < 1, n > 0), r < 1),
                z3.Implies(z3.And(x > 1, n < 0), r < 1), z3.Implies(z3.And(x > 0, x < 1, n < 0), r > 1)]
    if name == 'atan2':
        b, x = a
        p = th.fn('pi')
        return [r > -p, r < p, z3.Implies(b > 0, r > 0), z3.Implies(b < 0, r < 0), z3.Implies(z3.And(b > 0, x > 0), r < p / 2), z3.Implies(z3.And(b > 0, x < 0), r > p / 2),
                z3.Implies(z3.And(b < 0, x > 0), r > -p / 2), z3.Implies(z3.And(b < 0, x < 0), r < -p / 2)]
    return []


INC = {'exp', 'exp2', 'exp10', 'sinh', 'asinh', 'tanh', 'atan'}
INC_DOM = {'log': lambda x: x > 0, 'log2': lambda x: x > 0, 'log10': lambda x: x > 0, 'sqrt': lambda x: x >= 0,
           'asin': lambda x: z3.And(x >= -1, x <= 1), 'acosh': lambda x: x >= 1, 'atanh': lambda x: z3.And(x > -1, x < 1)}


def pair(th, name, s, t):
    out = []
    a, b = s.args, t.args
    r, u = s.res[0], t.res[0]
    if len(a) == 1:
        x, y = a[0], b[0]
        out.append(z3.Implies(x == y, r == u))
        if name in ('hidx_sin', 'hidx_cos'):
            p = th.fn('pi')
            for (x1, r1), (x2, r2) in (((x, r), (y, u)), ((y, u), (x, r))):
                out.append(z3.Implies(x1 <= x2, r1 <= r2))
                for n in range(1, 5):
                    out += [z3.Implies(x2 - x1 >= n * p, r2 - r1 >= n), z3.Implies(r2 - r1 >= n + 1, x2 - x1 > n * p)]
        elif name in ('sin', 'cos'):
            hx, hy = th.hidx(name, x), th.hidx(name, y)
            up = (hx % 2 == 0) if name == 'sin' else (hx % 2 == 1)
            for (x1, r1), (x2, r2) in (((x, r), (y, u)), ((y, u), (x, r))):
                out.append(z3.Implies(z3.And(hx == hy, x1 < x2), z3.If(up, r1 < r2, r1 > r2)))
            # two points nearly a full branch (two branches) apart lie next to the extrema: 1 - |f| <= d^2/2
            p = th.fn('pi')
            for (x1, r1, h1), (x2, r2, h2) in (((x, r, hx), (y, u, hy)), ((y, u, hy), (x, r, hx))):
                u1 = (h1 % 2 == 0) if name == 'sin' else (h1 % 2 == 1)
                for fp in (24, 53, 64):
                    d1, d2 = Fraction(4, 2 ** fp), Fraction(8, 2 ** fp)
                    b1, b2 = q(-1 + d1 * d1 / 2), q(-1 + d2 * d2 / 2)
                    out.append(z3.Implies(z3.And(h1 == h2, x2 - x1 >= p - q(d1)), z3.If(u1, z3.And(r1 <= b1, r2 >= -b1), z3.And(r1 >= -b1, r2 <= b1))))
                    out.append(z3.Implies(z3.And(h2 - h1 == 1, x2 - x1 >= 2 * p - q(d2)), z3.If(u1, z3.And(r1 <= b2, r2 <= b2), z3.And(r1 >= -b2, r2 >= -b2))))
        elif name == 'tan':
            hx, hy = th.hidx('sin', x), th.hidx('sin', y)
            p = th.fn('pi')
            for (x1, r1), (x2, r2), d in (((x, r), (y, u), hy - hx), ((y, u), (x, r), hx - hy)):
                out.append(z3.Implies(z3.And(hx == hy, x1 < x2), r1 < r2))
                out.append(z3.Implies(z3.And(d == 1, x2 - x1 < p), r2 < r1))
                out.append(z3.Implies(z3.And(d == 1, x2 - x1 > p), r2 > r1))
        if name in INC:
            out += [z3.Implies(x < y, r < u), z3.Implies(y < x, u < r)]
        elif name in INC_DOM:
            d = INC_DOM[name]
            out += [z3.Implies(z3.And(d(x), d(y), x < y), r < u), z3.Implies(z3.And(d(x), d(y), y < x), u < r)]
        elif name == 'acos':
            d = INC_DOM['asin']
            out += [z3.Implies(z3.And(d(x), d(y), x < y), r > u), z3.Implies(z3.And(d(x), d(y), y < x), u > r)]
        elif name == 'cosh':
            ax, ay = ab(x), ab(y)
            out += [z3.Implies(ax < ay, r < u), z3.Implies(ay < ax, u < r), z3.Implies(ax == ay, r == u)]
    elif len(a) == 2:
        out.append(z3.Implies(z3.And(a[0] == b[0], a[1] == b[1]), r == u))
        if name == 'prod':
            out += prod_pair(a, r, b, u)
        elif name == 'quot':
            out += quot_pair(a, r, b, u)
        elif name in ('pown', 'root'):
            for (x, n, r1), (y, m, r2) in (((a[0], a[1], r), (b[0], b[1], u)), ((b[0], b[1], u), (a[0], a[1], r))):
                inc = z3.BoolVal(True) if name == 'root' else n > 0
                out.append(z3.Implies(z3.And(n == m, x > 0, x < y), z3.If(inc, r1 < r2, r1 > r2)))
        elif name == 'pow':
            for (b1, e1, r1), (b2, e2, r2) in (((a[0], a[1], r), (b[0], b[1], u)), ((b[0], b[1], u), (a[0], a[1], r))):
                pa = z3.And(z3.Or(z3.And(b1 <= b2, e1 >= 0), z3.And(b1 >= b2, e1 <= 0)), z3.Or(z3.And(e1 <= e2, b2 >= 1), z3.And(e1 >= e2, b2 <= 1)))
                pb = z3.And(z3.Or(z3.And(e1 <= e2, b1 >= 1), z3.And(e1 >= e2, b1 <= 1)), z3.Or(z3.And(b1 <= b2, e2 >= 0), z3.And(b1 >= b2, e2 <= 0)))
                out.append(z3.Implies(z3.And(b1 > 0, b2 > 0, z3.Or(pa, pb)), r1 <= r2))
        elif name == 'atan2':
            for (y1, x1, r1), (y2, x2, r2) in (((a[0], a[1], r), (b[0], b[1], u)), ((b[0], b[1], u), (a[0], a[1], r))):
                out += [z3.Implies(z3.And(y1 == y2, y1 > 0, x1 < x2), r1 > r2), z3.Implies(z3.And(y1 == y2, y1 < 0, x1 < x2), r1 < r2),
                        z3.Implies(z3.And(y1 != 0, y2 != 0, x1 != 0, x2 != 0, z3.Or(
                            z3.And(at_x(y1, x1, x2), at_y(x2, y1, y2)), z3.And(at_y(x1, y1, y2), at_x(y2, x1, x2)))), r1 <= r2),
                        z3.Implies(z3.And(x1 == x2, x1 > 0, y1 < y2), r1 < r2), z3.Implies(z3.And(x1 == x2, x1 < 0, y1 < y2, z3.Or(y1 > 0, y2 < 0)), r1 > r2)]
    return out


def cross(th, by, rts, uni):
    """instances between different functions: powers and roots"""
    out = []
    roots = {t.res[0].decl().name(): t for t in by.get('root', ())}
    if not roots:
        return out
    invs = []
    for t in by.get('quot', ()):
        if z3.is_rational_value(t.args[0]) and t.args[0].as_fraction() == 1 and z3.is_const(t.args[1]) and t.args[1].decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = roots.get(t.args[1].decl().name())
            if r is not None:
                invs.append((t.res[0], r))
    for p in by.get('pown', ()):
        y, n = p.args
        for v, r in invs:       # v = c^(1/n), n < 0: y^n < c iff y > v
            c, m = r.args
            h = z3.And(n == -m, m > 0, y > 0, c > 0)
            out += [z3.Implies(h, z3.And((p.res[0] < c) == (y > v), (p.res[0] > c) == (y < v)))]
    for s in by.get('sqrt', ()):
        for a in roots.values():        # root of a (rounded) square root
            for b in roots.values():
                if a is not b:
                    h = z3.And(2 * a.args[1] == b.args[1], b.args[0] == s.args[0], b.args[0] > 0, a.args[1] > 0)
                    x, e = a.args[0], s.res[0]
                    out += [z3.Implies(h, z3.And(z3.Implies(x > e, a.res[0] > b.res[0]), z3.Implies(x < e, a.res[0] < b.res[0]), z3.Implies(x == e, a.res[0] == b.res[0])))]
    # roots of degree >= 2 and the inverses of their roundings are far from the ends of the exponent range
    rd = {}
    for t in rts:
        b = t.args[0]
        neg = False
        if z3.is_app(b) and b.num_args() == 1 and b.decl().kind() == z3.Z3_OP_UMINUS:
            b, neg = b.arg(0), True
        elif z3.is_app(b) and b.num_args() == 2 and b.decl().kind() == z3.Z3_OP_MUL and z3.is_rational_value(b.arg(0)) and b.arg(0).as_fraction() == -1:
            b, neg = b.arg(1), True
        r = roots.get(b.decl().name()) if z3.is_const(b) else None
        if r is not None and t.name[1].p in (24, 53, 64):
            rd[t.res[0].decl().name()] = (t, r, neg)
    for t in by.get('quot', ()):
        if z3.is_rational_value(t.args[0]) and t.args[0].as_fraction() == 1 and z3.is_const(t.args[1]) and t.args[1].decl().name() in rd:
            rt, r, neg = rd[t.args[1].decl().name()]
            g = rt.name[1]
            f = base_fmt(th, r.args[0])
            if f is None or not ((1 - f.emin) // 2 + 3 < g.emax and -(f.emax // 2) - 3 > g.emin):
                continue
            h = z3.And(r.args[1] >= 2, r.args[0] > 0)
            a = -t.res[0] if neg else t.res[0]
            out.append(z3.Implies(h, z3.And(z3.Not(rt.res[1]), rt.res[0] < 0 if neg else rt.res[0] > 0, a > th.MIN(g), a < th.MAX(g))))
    # a binary number whose n-th power, n <= -2, is a binary number is a power of two, and so is its inverse
    for v, r in invs:
        for t in rts:
            if t.args[0].eq(r.res[0]) and not t.name[1].sub:
                for n, vf, x in uni:
                    for sg in (1, -1):
                        out.append(z3.Implies(z3.And(r.args[1] >= 2, r.args[0] > 0, sg * x.val == v, *dyadic(th, r.args[0])), z3.And(t.res[0] == r.res[0], z3.Not(t.res[1]))))
    return out


def base_fmt(th, c):
    """format of which |c| is a member by construction, or None"""
    while z3.is_app(c) and c.num_args():
        k = c.decl().kind()
        if k == z3.Z3_OP_ITE:
            a, b = base_fmt(th, c.arg(1)), base_fmt(th, c.arg(2))
            return a if a == b else None
        if k == z3.Z3_OP_UMINUS:
            c = c.arg(0)
        elif k == z3.Z3_OP_MUL and z3.is_rational_value(c.arg(0)) and abs(c.arg(0).as_fraction()) == 1:
            c = c.arg(1)
        else:
            return None
    if z3.is_const(c):
        n = c.decl().name()
        if n in th.inputs:
            return th.inputs[n].fmt
        t = th.def_of.get(n)
        if t is not None and t.kind in 'RN':
            return t.name[1]
    return None


def dyadic(th, c):
    """conditions under which c is a binary number (a member of some format): none if it is one by construction"""
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE:
        return dyadic(th, c.arg(1)) + dyadic(th, c.arg(2))
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_UMINUS:
        return dyadic(th, c.arg(0))
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_MUL and z3.is_rational_value(c.arg(0)):
        return dyadic(th, c.arg(1))
    if z3.is_rational_value(c):
        return []
    if z3.is_const(c) and (c.decl().name() in th.inputs or getattr(th.def_of.get(c.decl().name()), 'kind', '') in ('R', 'N')):
        return []
    return [z3.BoolVal(False)]


def at_x(y, x1, x2):
    """atan2(y, x1) <= atan2(y, x2)"""
    return z3.Or(z3.And(y > 0, x1 >= x2), z3.And(y < 0, x1 <= x2))


def at_y(x, y1, y2):
    """atan2(y1, x) <= atan2(y2, x)"""
    return z3.Or(z3.And(x > 0, y1 <= y2), z3.And(x < 0, y1 >= y2, z3.Or(y2 > 0, y1 < 0)), z3.And(y1 < 0, y2 > 0))


def ab(x):
    return z3.If(x < 0, -x, x)


def prod_pair(a, r, b, u):
    out = []
    out.append(z3.Implies(z3.And(a[0] == b[1], a[1] == b[0]), r == u))
    shared = False
    for i in (0, 1):
        for j in (0, 1):
            if a[i].eq(b[j]):
                shared = True
                c, x, y = a[i], a[1 - i], b[1 - j]
                out += [z3.Implies(z3.And(c >= 0, x <= y), r <= u), z3.Implies(z3.And(c >= 0, x >= y), r >= u),
                        z3.Implies(z3.And(c <= 0, x <= y), r >= u), z3.Implies(z3.And(c <= 0, x >= y), r <= u),
                        z3.Implies(z3.And(c > 0, x < y), r < u), z3.Implies(z3.And(c > 0, x > y), r > u),
                        z3.Implies(z3.And(c < 0, x < y), r > u), z3.Implies(z3.And(c < 0, x > y), r < u)]
    if not shared:
        for p, q_ in ((b[0], b[1]), (b[1], b[0])):
            # |a0|<=|p| and |a1|<=|q| bound the products
            big = z3.And(ab(a[0]) <= ab(p), ab(a[1]) <= ab(q_))
            sml = z3.And(ab(a[0]) >= ab(p), ab(a[1]) >= ab(q_))
            out += [z3.Implies(big, ab(r) <= ab(u)), z3.Implies(sml, ab(r) >= ab(u))]
    return out


def quot_pair(a, r, b, u):
    out = []
    if a[1].eq(b[1]):
        c, x, y = a[1], a[0], b[0]
        out += [z3.Implies(z3.And(c > 0, x < y), r < u), z3.Implies(z3.And(c > 0, x > y), r > u), z3.Implies(z3.And(c != 0, x == y), r == u),
                z3.Implies(z3.And(c < 0, x < y), r > u), z3.Implies(z3.And(c < 0, x > y), r < u)]
    elif a[0].eq(b[0]):
        n, c, d = a[0], a[1], b[1]
        if z3.is_rational_value(n):
            out += [z3.Implies(z3.And(c != 0, c == -d), r == -u)]
            opp = z3.Or(z3.And(c > 0, d < 0), z3.And(c < 0, d > 0))
            out += [z3.Implies(z3.And(opp, ab(c) < ab(d)), ab(r) > ab(u)), z3.Implies(z3.And(opp, ab(c) > ab(d)), ab(r) < ab(u))]
        same = z3.Or(z3.And(c > 0, d > 0), z3.And(c < 0, d < 0))
        out += [z3.Implies(z3.And(same, c == d), r == u), z3.Implies(z3.And(same, n > 0, c < d), r > u), z3.Implies(z3.And(same, n > 0, c > d), r < u),
                z3.Implies(z3.And(same, n < 0, c < d), r < u), z3.Implies(z3.And(same, n < 0, c > d), r > u)]
    else:
        big = z3.And(a[1] != 0, b[1] != 0, ab(a[0]) <= ab(b[0]), ab(a[1]) >= ab(b[1]))
        sml = z3.And(a[1] != 0, b[1] != 0, ab(a[0]) >= ab(b[0]), ab(a[1]) <= ab(b[1]))
        out += [z3.Implies(big, ab(r) <= ab(u)), z3.Implies(sml, ab(r) >= ab(u))]
    return out
