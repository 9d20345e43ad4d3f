"""Loop invariants for loops that step from one binary number to the next (mpfr_nextabove, mpfr_nextbelow).  The header
of such a loop is cut: the invariant must hold on entry, it is assumed for an arbitrary iteration, and it must hold again
at the end of that iteration.

What is assumed of the arbitrary iteration is chosen mechanically: a trial run of the body shows which variables it
changes; a changed binary number keeps its sign, and of the relations `strictly below / above the exact root' the ones
that a trial proof finds established and preserved are kept.  Nothing rests on the choice: every kept relation is an
obligation on entry and at the end of the arbitrary iteration, `not changed' included."""
import re
import z3
from fp import *
from symex import Ptr, Undecided, UNDEF, MV
import models


def headers(f):
    """targets of back edges"""
    succ = {}
    for b, ins in f.blocks.items():
        succ[b] = targets(ins[-1], f)
    out, on, seen = set(), set(), set()
    st = [(f.entry, iter(succ[f.entry]))]
    on.add(f.entry)
    seen.add(f.entry)
    while st:
        b, it = st[-1]
        for n in it:
            if n in on:
                out.add(n)
            elif n not in seen:
                seen.add(n)
                on.add(n)
                st.append((n, iter(succ[n])))
                break
        else:
            on.discard(b)
            st.pop()
    return out


def targets(i, f):
    """labels a terminator mentions"""
    r = []

    def go(x):
        if isinstance(x, str):
            if x in f.blocks:
                r.append(x)
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y)
    go(i)
    return r


STEP = ('@mpfr_nextabove', '@mpfr_nextbelow', '@mpfr_nexttoward')
CALL = re.compile(r'(?:call|invoke)[^@]*(@[^( ]+)')


def stepping(mod):
    """functions that reach a step to the neighbouring number, with their stepping loops: (function, header)"""
    raw = {n: set(CALL.findall(t if isinstance(t, str) else '\n'.join(t))) for n, t in mod._raw.items()}
    reach, more = set(STEP), True
    while more:
        more = False
        for n, c in raw.items():
            if n not in reach and c & reach:
                reach.add(n)
                more = True
    for n in raw:
        if n in reach:
            f = mod.func(n)
            for h in headers(f):
                body = loop_body(f, h)
                if any(i[0] in ('call', 'invoke') and i[3][0] == 'g' and i[3][1] in reach for b in body for i in f.blocks[b]):
                    yield n, h, body


def loop_body(f, h):
    succ = {b: set(targets(i[-1], f)) for b, i in f.blocks.items()}
    for b, ins in f.blocks.items():
        for i in ins:
            if i[0] in ('call', 'invoke'):
                succ[b] |= set(targets(i[5:], f))
    fw, st = set(), [h]
    while st:
        b = st.pop()
        for n in succ[b]:
            if n not in fw:
                fw.add(n)
                st.append(n)
    pred = {}
    for b, ss in succ.items():
        for n in ss:
            pred.setdefault(n, set()).add(b)
    bw, st = {h}, [h]
    while st:
        for n in pred.get(st.pop(), ()):
            if n not in bw:
                bw.add(n)
                st.append(n)
    return (fw & bw) | {h}


def install(ex, mod, run):
    if not run.entry.op.startswith('pown_rev'):
        return
    for name, h, body in stepping(mod):
        ex.loopinv[(name, h)] = handler(name, h, body, run)


class Unknown:
    """value the invariant says nothing about"""
    def __getattr__(self, k):
        raise Undecided('value not described by the loop invariant')


def same(a, b):
    if a is b:
        return True
    if isinstance(a, FV) and isinstance(b, FV):
        return all(same(getattr(a, k), getattr(b, k)) for k in ('nan', 'inf', 'neg', 'val'))
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return type(a) == type(b) and not isinstance(a, FV) and not z3.is_expr(a) and a == b


def phis(f, hd):
    return [i for i in f.blocks[hd] if i[0] == 'phi']


def incoming(ex, st, L, prev, i):
    for v, b in i[3]:
        if b == prev:
            return ex.ev(st, L, i[2], v)
    raise Undecided('phi without incoming edge')


def snapshot(ex, st, L, prev, f, hd):
    """everything the next iteration can depend on"""
    r = {('phi', i[1]): incoming(ex, st, L, prev, i) for i in phis(f, hd)}
    for k, mv in st.mp.items():
        r[('mp', k)] = mv
    for o, cells in st.mem.items():
        for off, c in cells.items():
            r[('mem', o, off)] = c
    return r


def differ(a, b):
    """keys of a whose value is another one in b"""
    out = set()
    for k, v in a.items():
        w = b.get(k)
        if k[0] == 'mp':
            ok = w is not None and w.prec == v.prec and same(w.fv, v.fv)
        elif k[0] == 'mem':
            ok = w is not None and w[0] == v[0] and same(w[1], v[1])
        else:
            ok = k in b and same(w, v)
        if not ok:
            out.add(k)
    return out


def roots(ex, st, run):
    """|b| ** (1/p) for the finite nonzero bounds b of the operand, p < 0: [(name, term)]"""
    th = ex.th
    c, p = run.args[0], run.args[-1]
    n = z3.simplify(-p) if z3.is_expr(p) else -p
    fs = [('', c)] if isinstance(c, FV) else [('lower-', getattr(c, 'iv', c).lo), ('upper-', getattr(c, 'iv', c).hi)]
    out = []
    for nm, b in fs:
        ks = ex.kinds(st, b)
        if len(ks) != 1 or ks[0][1].nan is True or ks[0][1].inf is True:
            continue
        sg = models.sgnsplit(ex, ks[0][0], ks[0][1])
        if len(sg) != 1 or sg[0][1] == 0:
            continue
        v = ks[0][1].val if sg[0][1] > 0 else rneg(ks[0][1].val)
        out.append((nm, th.quot(Fraction(1), th.fn('root', v, Fraction(n) if isinstance(n, int) else z3.ToReal(n)))))
    return out


def handler(name, hd, body, run):
    tag = 'loop:%s:%s' % (name, hd)

    def inv(ex, st, L, prev, visits, f):
        if st.ghost.get(tag) == 'go':           # the state made below starts its iteration
            st.ghost[tag] = 'in'
            return None
        trial = trials.get(tag)
        if prev in body and st.ghost.get(tag) == 'in':
            if trial is not None:
                trial.append((st, L, prev))
            else:
                for n, c in plans[st.ghost[tag + '#']](st, L, prev):
                    ex.obl.append(('loop-invariant/preserved/' + n, st.pc, tob(c)))
            return []
        if trial is not None:
            raise Undecided('nested loop')
        return enter(ex, st, L, prev, f)

    trials, plans = {}, []

    def attempt(ex, st, L, prev, f):
        """states at the end of one iteration"""
        st = st.copy()
        st.ghost[tag] = 'go'
        trials[tag] = []
        n = len(ex.obl)
        try:
            ex.exec_func(st, name, None, start=(st, L, hd, prev))
            return trials[tag]
        finally:
            del trials[tag]
            del ex.obl[n:]

    def havoc(ex, st, L, prev, f, s0, mods, cands):
        """an arbitrary iteration: (state, locals)"""
        th = ex.th
        s, L = st.copy(), dict(L)
        facts, val = [], {}
        for k in sorted(mods, key=str):
            v = s0[k]
            x = v.fv if k[0] == 'mp' else v[1] if k[0] == 'mem' else v
            if k in cands:
                w = th.havoc('lx', cands[k]['fmt'])
                sg = cands[k]['sg']
                x = FV(False, False, sg < 0, w.val, cands[k]['fmt'])
                facts += [z3.Not(w.nan), z3.Not(w.inf)] + [g for n, g in cands[k]['f'](x)]
            elif k[0] == 'mp':
                x = UNDEF
            elif isinstance(x, bool) or z3.is_bool(x):
                x = th.fresh('lb', 'b')
            elif isinstance(x, int) or z3.is_int(x):
                x = th.fresh('li', 'i')
                w = 8 * (v[0] if k[0] == 'mem' else 4)
                for i in phis(f, hd):
                    if k == ('phi', i[1]):
                        w = i[2][1]
                facts += [x >= -(1 << (w - 1)), x < 1 << (w - 1)]
            else:
                x = UNDEF
            val[k] = x
            if k[0] == 'mp':
                s.mp[k[1]] = MV(v.prec, x, 0)
            elif k[0] == 'mem':
                s.mem[k[1]] = dict(s.mem[k[1]])
                s.mem[k[1]][k[2]] = (v[0], x)
        # the phis of the header take their arbitrary values through names of their own
        for i in phis(f, hd):
            if ('phi', i[1]) in mods:
                L[('hv', i[1])] = val[('phi', i[1])]
        for c in facts:
            s = ex.assume(s, tob(c))
            if s is None:
                return None
        return s, L

    def enter(ex, st, L, prev, f):
        from prove import Prover
        P = Prover(ex.th, 3000, use_cvc5=False)
        if P.prove(list(run.pre) + list(st.pc), False)[0] == 'proved':
            ex.obl.append(('loop-invariant/established/not-reached', st.pc, False))
            return []
        s0 = snapshot(ex, st, L, prev, f, hd)
        gh = {k: v for k, v in st.ghost.items()}
        mods, cands = set(), {}

        def changed(ends):
            m = set()
            for s, l, p in ends:
                for k in ('emin', 'emax', 'fe'):
                    if not same(s.ghost.get(k), gh.get(k)):
                        raise Undecided('the loop changes the environment')
                m |= differ(s0, snapshot(ex, s, l, p, f, hd))
            return m

        def describe(k):
            v = s0[k]
            x = v.fv if k[0] == 'mp' else v[1] if k[0] == 'mem' else v
            if not isinstance(x, FV):
                return None
            def holds(g):
                return P.prove(list(run.pre) + list(st.pc), tob(g))[0] == 'proved'
            if x.nan is True or x.inf is True or not holds(x.fin()):
                return None
            sg = 1 if holds(lt(0, x.val)) else -1 if holds(lt(x.val, 0)) else 0
            if sg == 0:
                return None
            g = models.fmt_of(st, v) if k[0] == 'mp' else x.fmt
            if g is None or x.fmt is None or not fmt_sub(x.fmt, g):
                return None
            rel = [('sign', lambda w: w.val > 0 if sg > 0 else w.val < 0)]
            for n, r in roots(ex, st, run):
                t = r if sg > 0 else -r
                for m, h in (('strictly-below-the-%sroot' % n, lambda w, t=t: w.val < t), ('strictly-above-the-%sroot' % n, lambda w, t=t: w.val > t)):
                    if holds(h(FV(x.nan, x.inf, x.neg, q(x.val), x.fmt))):
                        rel.append((m, h))
            c = dict(fmt=g, sg=sg, rel=rel)
            c['f'] = lambda w: [(n, h(w)) for n, h in c['rel']]
            return c

        def step(end):
            """obligations at the end of an iteration"""
            s, l, p = end
            s1 = snapshot(ex, s, l, p, f, hd)
            out = [('%s-not-changed' % '-'.join(map(str, k[:1])), False) for k in differ(s0, s1) - mods]
            for k, c in cands.items():
                v = s1.get(k)
                x = None if v is None else v.fv if k[0] == 'mp' else v[1] if k[0] == 'mem' else v
                if not isinstance(x, FV) or not fmt_sub(x.fmt or F32, c['fmt']):
                    out.append(('number-of-the-format', False))
                    continue
                out.append(('finite', x.fin()))
                out += c['f'](FV(x.nan, x.inf, x.neg, q(x.val), x.fmt))
            return out

        m = changed(attempt(ex, st, L, prev, f))
        for _ in range(6):
            grew = m - mods
            mods |= m
            for k in sorted(grew, key=str):
                c = describe(k)
                if c is not None:
                    cands[k] = c
            h = havoc(ex, st, L, prev, f, s0, mods, cands)
            if h is None:
                break
            ends = attempt(ex, h[0], h[1], prev, f)
            m = changed(ends)
            bad = set()
            for s, l, p in ends:
                s1 = snapshot(ex, s, l, p, f, hd)
                for k, c in cands.items():
                    v = s1.get(k)
                    x = None if v is None else v.fv if k[0] == 'mp' else v[1] if k[0] == 'mem' else v
                    if not isinstance(x, FV):
                        continue
                    for n, g in c['rel']:
                        if n != 'sign' and (k, n) not in bad and P.prove(list(run.pre) + list(s.pc), tob(g(FV(x.nan, x.inf, x.neg, q(x.val), x.fmt))))[0] != 'proved':
                            bad.add((k, n))
            for k, n in bad:
                cands[k]['rel'] = [(a, b) for a, b in cands[k]['rel'] if a != n]
            if not bad and not m - mods:
                break
        for n, c in step((st, L, prev)):
            ex.obl.append(('loop-invariant/established/' + n, st.pc, tob(c)))
        h = havoc(ex, st, L, prev, f, s0, mods, cands)
        if h is None:
            return []
        s, l = h
        s.ghost[tag] = 'go'
        s.ghost[tag + '#'] = len(plans)
        plans.append(lambda *end: step(end))
        return [(s, l, hd, prev, 0)]
    return inv
