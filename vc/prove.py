"""Discharge of one verification condition: pc => goal under the ground theory."""
import time
import z3
from fp import *


class Prover:
    def __init__(self, th, timeout_ms=20000, use_cvc5=True):
        self.th = th
        self.timeout = timeout_ms
        self.use_cvc5 = use_cvc5
        self.n = 0
        self.by = {}
        self.time = 0.0
        self.maxtime = 0.0
        self.slow = []

    def problem(self, exprs):
        exprs = [tob(e) for e in exprs]
        terms, inputs, facts = self.th.cone(exprs)
        extra = list(self.th.base)
        inst = self.th.instances(terms, inputs)
        # instances may mention further terms (pi, ...)
        t2, i2, f2 = self.th.cone(inst + facts + extra)
        fs = {}
        for f in f2 + extra + inst:
            fs[f.get_id()] = f
        for f in facts:
            fs[f.get_id()] = f
        return list(fs.values())

    def check(self, exprs, timeout=None):
        """sat / unsat / unknown of the conjunction with the theory"""
        fs = self.problem(exprs)
        s = z3.SolverFor('QF_UFLIRA') if False else z3.Solver()
        s.set('timeout', timeout or self.timeout)
        s.add(*fs)
        s.add(*[tob(e) for e in exprs])
        t0 = time.time()
        r = s.check()
        dt = time.time() - t0
        self.time += dt
        self.maxtime = max(self.maxtime, dt)
        return r, s

    def prove_all(self, pc, goals):
        """[(name, status, backend, model)]: one query for the conjunction, split when it is not discharged"""
        live, out = [], []
        for n, g in goals:
            g = z3.simplify(tob(g))
            if z3.is_true(g):
                self.by['trivial'] = self.by.get('trivial', 0) + 1
                self.n += 1
                out.append((n, 'proved', 'trivial', None))
            else:
                live.append((n, g))
        if len(live) > 1:
            r, s = self.check(list(pc) + [z3.Not(z3.And(*[g for _, g in live]))], min(self.timeout, 5000))
            if r == z3.unsat:
                self.by['z3'] = self.by.get('z3', 0) + len(live)
                self.n += len(live)
                return out + [(n, 'proved', 'z3', None) for n, _ in live]
        for n, g in live:
            out.append((n,) + self.prove(pc, g, n))
        return out

    def prove(self, pc, goal, name=''):
        """('proved', backend, None) | ('refuted'|'unknown', backend, model or None)"""
        self.n += 1
        if goal is True:
            self.by['trivial'] = self.by.get('trivial', 0) + 1
            return 'proved', 'trivial', None
        goal = z3.simplify(tob(goal))
        if z3.is_true(goal):
            self.by['trivial'] = self.by.get('trivial', 0) + 1
            return 'proved', 'trivial', None
        ex = list(pc) + [z3.Not(goal)]
        r, s = self.check(ex)
        if r == z3.unsat:
            self.by['z3'] = self.by.get('z3', 0) + 1
            return 'proved', 'z3', None
        if r == z3.sat:
            return 'refuted', 'z3', s.model()
        if self.use_cvc5:
            t0 = time.time()
            r2 = cvc5_check(s, self.timeout)
            self.time += time.time() - t0
            if r2 == 'unsat':
                self.by['cvc5'] = self.by.get('cvc5', 0) + 1
                return 'proved', 'cvc5', None
        return 'unknown', 'z3+cvc5', None


def cvc5_check(s, timeout):
    import cvc5
    try:
        txt = s.to_smt2()
        slv = cvc5.Solver()
        slv.setOption('tlimit-per', str(timeout))
        slv.setLogic('ALL')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'vc')
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(slv, sm)
            o = str(o).strip()
            if o in ('sat', 'unsat', 'unknown'):
                res = o
        return res or 'unknown'
    except Exception as e:
        return 'error %s' % e
