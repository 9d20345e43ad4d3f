"""Proof jobs: one entry, a list of contracts, the contracts it may assume."""
import entries, ops, contracts

FULL = ['propagate', 'validrep', 'tight', 'decorated']
CASECON = {'cancel_minus': ['cancelspec'], 'cancel_plus': ['cancelspec'], 'mul_rev_to_pair': ['pairspec']}
CASECON.update({o: ['rootspec'] for o in ops.HELPER})
CASECON.update({o: ['revspec'] for o in ops.REV})


def full(e):
    """the contracts that determine the result of e"""
    return CASECON.get(e.op, FULL)


# operations whose decorated / mixed-type form is verified against the contract of the bare form
HEAVY = {'mul': 16, 'fma': 40, 'pow': 15, 'pown': 9, 'div': 10, 'recip': 4, 'atan2': 6}


def own_needs(e):
    """operations whose proved contract replaces their inlining in entry e"""
    if e.op == 'cancel_plus':        # implemented on cancel_minus
        return own_needs(entries.Entry('cancel_minus', e.dec, e.T, e.A)) or [entries.Entry('cancel_minus', False, e.T)]
    if e.op in ops.REV:
        b = e.op.rstrip('1')
        if e.A:
            if e.dec or b != e.op:      # the decorated and the unary forms call the bare binary form
                return [entries.Entry(b, False, e.T, e.A + (e.T if b != e.op else ''))]
            return [entries.Entry(b, False, max(e.T + e.A, key='fdl'.index))]
        if e.dec or b != e.op:
            return [entries.Entry(b, False, e.T)]
        return [entries.Entry(h, False, e.T) for h in ('pown_rev_inf', 'pown_rev_sup')] if b == 'pown_rev' else []
    if e.op in ops.CASES:
        return [entries.Entry(e.op, e.dec, max((e.T + e.A), key='fdl'.index))] if e.A else [entries.Entry(e.op, False, e.T)] if e.dec else []
    if e.op not in ops.RANGE:
        return []
    if e.A:
        m = max((e.T + e.A), key='fdl'.index)
        return [entries.Entry(e.op, e.dec, m)]
    if e.dec and e.op in HEAVY:
        return [entries.Entry(e.op, False, e.T)]
    return []


class Job:
    def __init__(self, entry, contracts, needs=(), unit=None, sym_exc=False, known=None, concrete=0.25, weight=None, assume_dead=()):
        self.entry = entry
        self.contracts = list(contracts)
        self.needs = list(needs)            # entries whose full contract may be assumed
        self.unit = unit or entry.op
        self.sym_exc = sym_exc
        self.known = known                  # fn(entry, args) -> finding id or None
        self.concrete = concrete            # seconds of the bounded cross-check
        self.weight = weight if weight is not None else HEAVY.get(entry.op, 2)
        self.lemma = False                  # only serves as a dependency

    @property
    def key(self):
        return self.entry.name + ('!x' if self.sym_exc else '')


def E(op, dec, T, A='', **k):
    return entries.Entry(op, dec, T, A, **k)


def forward(opl, cons, decs=(False, True), types='dfl', sym_exc=False):
    js = []
    for op in opl:
        for dec in decs:
            for T in types:
                e = E(op, dec, T)
                js.append(Job(e, cons, own_needs(e), sym_exc=sym_exc, weight=None if not dec else 3))
    return js


def mixed1():
    return [(T, A) for T in 'fdl' for A in 'fdl' if A != T]


def boolT(tier):
    """(T, A) of the two-operand relations between formats"""
    return [(T, T + A) for T in 'fdl' for A in 'fdl' if A != T]


def plain(opl, cons, decs=(False, True), types='dfl', needs=True, **k):
    if not needs:
        return [Job(E(op, dec, T), cons, (), weight=1, **k) for op in opl for dec in decs for T in types]
    return [Job(E(op, dec, T), cons, own_needs(E(op, dec, T)) if (op in ops.CASES or op in ops.REV) and not k.get('sym_exc') else (), weight=1, **k) for op in opl for dec in decs for T in types]


def mixed(opl, cons, combos, decs=(False, True), **k):
    return [Job(E(op, dec, T, A), cons, own_needs(E(op, dec, T, A)) if (op in ops.CASES or op in ops.REV) and not k.get('sym_exc') else (), weight=1, **k) for op in opl for dec in decs for T, A in combos]


def mixed_fwd(opl, cons, tier, decs=(False, True)):
    """mixed-type forms against the contract of the form in the widest format"""
    js = []
    for op in opl:
        k = len(ops.SIG[op][0].replace('k', ''))
        if k == 1:
            combos = [('f', 'd'), ('d', 'f'), ('d', 'l')] if tier == 'quick' else mixed1()
        elif k == 2:
            combos = [('f', 'df'), ('d', 'fl')] if tier == 'quick' else [('f', 'df'), ('d', 'fl'), ('l', 'fd'), ('f', 'ld'), ('d', 'ff'), ('l', 'dl'), ('f', 'fd'), ('f', 'dd')]
        else:
            combos = [('f', 'dfd'), ('d', 'lfd')] if tier == 'quick' else [('f', 'dfd'), ('d', 'lfd'), ('f', 'ffd'), ('d', 'dfl'), ('d', 'fff'), ('l', 'fdl'), ('f', 'ddd')]
        for T, A in combos:
            for dec in decs:
                e = E(op, dec, T, A)
                js.append(Job(e, cons, own_needs(e), weight=1))
    return js
