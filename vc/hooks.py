"""Modular verification: a call of an operation whose contract is discharged in the same run is replaced by that
contract (precondition: none; postcondition: propagate + validrep + tight + decorated)."""
from fp import *
from symex import *
from spec import *
from spec import IV, DV
from entries import SZ
import ops


def helper_contract(mod, entry):
    """model of a private helper from its contract (c, x, k): x is assigned, the inexactness indicator returned"""
    import models
    f0 = mod.func('@' + entry.name)
    name = None
    for b in f0.blocks.values():
        for i in b:
            if i[0] in ('call', 'invoke') and i[3][0] == 'g' and entry.op in i[3][1]:
                name = i[3][1]
    if name is None:
        raise Undecided('no library call in ' + entry.name)
    f = FMT_OF_T[entry.T]
    down = entry.op == 'pown_rev_inf'

    def h(ex, st, args):
        c, x, k = args
        th = ex.th
        out = []
        for s, v in ex.kinds(st, models.get(st, c).fv):
            pre = ops.HELPERPRE[entry.op](v, k)
            ex.obl.append(('precondition-of-' + entry.op, s.pc, tob(pre)))
            s = ex.assume(s, tob(pre))
            if s is None:
                continue
            if v.inf is True:
                s = s.copy()
                models.put(s, x, CONST(0, v.neg))
                out.append((s, 'ret', 0))
                continue
            for s1, z in ex.split(s, eq(v.val, 0)):
                s1 = s1.copy()
                if z:
                    models.put(s1, x, INF(False))
                    out.append((s1, 'ret', 0))
                    continue
                r = ops.inv_root(th, v.val, k)
                w = th.round(RD if down else RU, f, r, False)
                t = th.fresh('ht', 'i')
                models.put(s1, x, w, t)
                s1 = ex.assume(s1, z3.Implies(t != 0, tob(Not(And(w.fin(), eq(w.val, r))))))
                if s1 is not None:
                    out.append((s1, 'ret', t))
        return out
    return name, h


def callee(mod, ename):
    """(symbol, return type, argument types) of the library function an entry calls"""
    f = mod.func('@' + ename)
    for b in f.blocks.values():
        for i in b:
            if i[0] == 'call' and i[3][0] == 'g' and '5p1788' in i[3][1]:
                return i[3][1], i[2], [t for t, v, bv in i[4]]
    raise Undecided('no library call in ' + ename)


def fptype(mod, T):
    return ('f', {'f': 32, 'd': 64, 'l': 80}[T])


def read_ops(ex, st, entry, args):
    out = []
    for a, c, t in zip(args, entry.args, entry.argtypes()):
        if c in 'ix':
            ft = fptype(ex.m, t)
            sz = SZ[t]
            v = IV(ex.load(st, a, ft), ex.load(st, Ptr(a.obj, a.off + sz), ft))
            if c == 'i' and entry.dec:
                v = DV(v, ex.load(st, Ptr(a.obj, a.off + 2 * sz), ('i', 8)))
            out.append(v)
        else:
            out.append(a)
    return out


def flat(v):
    if isinstance(v, tuple):
        return [y for x in v for y in flat(x)]
    return [v.iv.lo, v.iv.hi, v.dec] if isinstance(v, DV) else [v.lo, v.hi] if isinstance(v, IV) else [v]


def build(ex, rt, vals):
    """aggregate of type rt holding the flattened values"""
    rt = ex.m.types.resolve(rt)
    it = iter(vals)

    def go(t):
        t = ex.m.types.resolve(t)
        if t[0] == 'struct':
            return [go(x) for x in t[1]]
        if t[0] in ('arr', 'vec'):
            return [go(t[2]) for _ in range(t[1])]
        return next(it)
    r = go(rt)
    return r


def deliver(ex, st, entry, rt, args, v, T):
    """return value v (IV/DV) through the ABI: by value or through the result pointer"""
    if isinstance(v, tuple):
        if rt != ('void',):
            return build(ex, rt, flat(v))
        for k, x in enumerate(v):
            p = args[0]
            deliver(ex, st, entry, rt, [Ptr(p.obj, p.off + k * (3 if entry.dec else 2) * SZ[T])], x, T)
        return None
    if rt == ('void',):
        p = args[0]
        sz = SZ[T]
        st.write(p, sz, flat(v)[0])
        st.write(Ptr(p.obj, p.off + sz), sz, flat(v)[1])
        if isinstance(v, DV):
            st.write(Ptr(p.obj, p.off + 2 * sz), 1, v.dec)
        return None
    return build(ex, rt, flat(v))


def op_contract(mod, entry, state_ptr):
    """model of entry's callee from its contract"""
    if entry.op in ops.HELPER:
        return helper_contract(mod, entry)
    name, rt, ats = callee(mod, entry.name)
    sret = rt == ('void',)
    f = FMT_OF_T[entry.T]

    def h(ex, st, args):
        th = ex.th
        a = args[1:] if sret else args
        A = read_ops(ex, st, entry, a)
        ivs = [x.iv if isinstance(x, DV) else x for x in A if isinstance(x, (IV, DV))]
        out = []
        for s, bad in ex.split(st, Not(And(*[x.valid() for x in A if isinstance(x, (IV, DV))]))):
            if bad:
                s = s.copy()
                old = s.mem[state_ptr.obj][state_ptr.off][1]
                s.write(state_ptr, 4, old | 8 if isinstance(old, int) else BInt.of(old).op('or', BInt.of(8)))
                out.append((s, empties(entry, ILL)))
                continue
            for s1, nai in ex.split(s, Or(*[x.nai() for x in A if isinstance(x, DV)])):
                if nai:
                    out.append((s1, empties(entry, ILL)))
                    continue
                if entry.op in ops.BYCON:
                    out += bycon(ex, s1, entry, A)
                    continue
                if entry.op in ops.CASES:
                    out += cases(ex, s1, entry, A)
                    continue
                for s2, em in ex.split(s1, Or(*[v.empty() for v in ivs])):
                    if em:
                        out.append((s2, empty(entry.dec, TRV)))
                        continue
                    B = [x.iv if isinstance(x, DV) else x for x in A]
                    R = ops.RANGE[entry.op](th, *B)
                    for s3, re in ex.split(s2, R.empty):
                        if re:
                            out.append((s3, empty(entry.dec, TRV)))
                            continue
                        lo, hi = (datum(R.lo, f), datum(R.hi, f)) if R.exact else (rnd(th, RD, f, R.lo), rnd(th, RU, f, R.hi))
                        iv = IV(zsign(th, lo), zsign(th, hi))
                        r = iv
                        if entry.dec:
                            d = COM
                            for x in A:
                                if isinstance(x, DV):
                                    d = dmin(d, x.dec)
                            local = dite(Not(R.defd), TRV, dite(Not(R.cont), DEF, dite(And(R.ptc, iv.bounded()), COM, DAC)))
                            r = DV(iv, dmin(d, local))
                        s4 = ex.assume(s3, tob(r.valid()))
                        if s4 is not None:
                            out.append((s4, r))
        res = []
        for s, v in out:
            s = s.copy()
            s.ghost['emin'] = s.ghost['emax'] = None     # the callee may leave another exponent range
            res.append((s, 'ret', deliver(ex, s, entry, rt, args, v, entry.T)))
        return res

    return name, h


def zsign(th, v):
    """the sign of a zero result is not specified"""
    if v.inf is True:
        return v
    b = th.fresh('zs', 'b')
    z = And(Not(v.inf), eq(v.val, 0))
    return FV(v.nan, v.inf, If(z, b, v.neg), v.val, v.fmt, v.orig)


def empty(dec, d):
    iv = IV(NAN(), NAN())
    return DV(iv, d) if dec else iv


def empties(entry, d):
    v = empty(entry.dec, d)
    return (v, v) if entry.ret == 'q' else v


def cases(ex, st, entry, A):
    """results of an operation whose contract is a list of disjoint cases (condition, value of each result)"""
    th, f = ex.th, FMT_OF_T[entry.T]
    B = [x.iv if isinstance(x, DV) else x for x in A]
    out = []
    for cond, vals in ops.CASES[entry.op](th, *B):
        s = ex.assume(st, tob(cond))
        if s is None:
            continue
        rs = []
        for v in vals:
            if v is None:
                rs.append(IV(NAN(), NAN()))
            else:
                rs.append(IV(zsign(th, rnd(th, RD, f, v[0])), zsign(th, rnd(th, RU, f, v[1]))))
        if entry.dec:
            d = COM
            for x in A:
                if isinstance(x, DV):
                    d = dmin(d, x.dec)
            rs = [DV(r, c) for r, c in zip(rs, ops.CASEDEC[entry.op](d, B, rs))]
        s = ex.assume(s, tob(And(*[r.valid() for r in rs])))
        if s is not None:
            out.append((s, tuple(rs) if entry.ret == 'q' else rs[0]))
    return out


class Seen:
    """one assumed outcome of a callee"""
    kind = 'ret'

    def __init__(self, val):
        self.val = val


def bycon(ex, st, entry, A):
    """an arbitrary result that satisfies the callee's contract"""
    import contracts, jobs, engine
    th, f = ex.th, FMT_OF_T[entry.T]
    C = engine.Ctx(th, entry)
    out = []
    for em in (True, False):
        v = IV(NAN(), NAN()) if em else IV(th.havoc('r', f), th.havoc('r', f))
        facts = [] if em else [Not(v.lo.nan), Not(v.hi.nan)]
        if entry.dec:
            v = DV(v, TRV)
        for cn in jobs.full(entry):
            facts += [g for n, g in contracts.C(cn)(C, A, Seen(v))]
        s = ex.assume(st, tob(And(*facts)))
        if s is not None:
            out.append((s, v))
    return out
