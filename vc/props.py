"""Property registry: which entries, which contracts."""
import ops
from jobs import *

TRUSTED = ['clang 18 front end and opt (sroa, early-cse, simplifycfg, dce) producing the LLVM IR that is verified', 'z3 4.x / cvc5 1.1.2',
           'the VC generator in /verif/vc (ir.py, symex.py, fp.py, prove.py)', 'contracts of MPFR, GMP and libm functions in models.py',
           'ground axiom instances for rounding and real functions in fp.py / realfun.py']
ASSUMPTIONS = ['MPFR 4.2 functions meet their documentation (correct rounding, ternary value, mpfr_sgn in {-1,0,1})', 'the floating-point environment rounds to nearest on entry (checked separately that it is left as found)',
               'no member of float/double/long double other than 0 is a multiple of pi/2; |sin|,|cos| >= 1e-25 at nonzero members', 'memory allocation inside MPFR/GMP succeeds']

ALLF = ops.ARITH + ops.STEP + ops.ELEM
PROPS = {}


def prop(pid, **k):
    def d(f):
        PROPS[pid] = dict(jobs=f, **k)
        return f
    return d


@prop('C01')
def _(tier):
    return forward(ops.ARITH, ['contain'])


@prop('C02')
def _(tier):
    return forward(ops.ELEM, ['contain'])


@prop('C03')
def _(tier):
    return forward(ops.STEP, ['contain', 'tight'])


@prop('C04')
def _(tier):
    return forward(ops.ARITH + ops.ELEM, ['tight'])


@prop('C05')
def _(tier):
    return forward(ALLF, ['decorated'], decs=(True,))


@prop('C06')
def _(tier):
    return forward(ALLF, ['propagate'])


@prop('C07')
def _(tier):
    return forward(ALLF, ['validrep'])


MB = [('f', 'dl'), ('d', 'fl'), ('l', 'fd'), ('f', 'fd'), ('d', 'dl')]      # result and operand formats of mixed binary forms


@prop('C08')
def _(tier):
    return plain(ops.SETOPS, ['setspec']) + mixed(ops.SETOPS, ['setspec'], MB)


B1 = [o for o in ops.BOOLOPS if len(ops.SIG[o][0]) == 1]
B2 = [o for o in ops.BOOLOPS if len(ops.SIG[o][0]) == 2]


@prop('C09')
def _(tier):
    return plain(ops.BOOLOPS + ['is_valid'], ['boolspec']) + plain(['is_nai'], ['boolspec'], decs=(True,)) + mixed([o for o in B2 if o != 'is_member'], ['boolspec'], boolT(tier)) + mixed(['is_member'], ['boolspec'], [(T, A + T) for T, A in mixed1()])


@prop('C10')
def _(tier):
    return plain(['overlap'], ['overlapspec']) + mixed(['overlap'], ['overlapspec'], boolT(tier))


@prop('C11')
def _(tier):
    return plain(ops.NUMOPS, ['numspec']) + mixed(ops.NUMOPS, ['numspec'], mixed1())


@prop('C16')
def _(tier):
    return mixed_fwd(ops.ARITH + ops.STEP, FULL, tier)


@prop('C23')
def _(tier):
    return mixed_fwd(ops.ELEM, FULL, tier)


@prop('C12', coq=['TwoSum.v'])
def _(tier):
    return plain(ops.CANCEL, ['cancelspec']) + mixed(ops.CANCEL, ['cancelspec'], MB)


@prop('C13')
def _(tier):
    q = tier == 'quick'
    js = plain(ops.REVOPS + [o + '1' for o in ops.REVOPS], ['revspec'])
    js += mixed([o for o in ops.REVOPS if o != 'mul_rev'], ['revspec'], MB[:2] if q else MB)
    js += mixed(['mul_rev'], ['revspec'], [('f', 'dlf'), ('d', 'flf')] + ([] if q else [('l', 'fdl'), ('f', 'fld')])) + mixed(['mul_rev1'], ['revspec'], MB[:2] if q else MB)
    return js + mixed([o + '1' for o in ops.REVOPS if o != 'mul_rev'], ['revspec'], [('f', 'd'), ('d', 'f'), ('d', 'l')] if q else mixed1())


@prop('C15')
def _(tier):
    return plain(['mul_rev_to_pair'], ['pairspec']) + mixed(['mul_rev_to_pair'], ['pairspec'], MB)


CON2 = ['nums_to_interval', 'nums_to_decorated_interval', 'nums_dec_to_decorated_interval']
CT2 = [('f', 'dl'), ('d', 'fl'), ('l', 'fd'), ('d', 'ff')]


def constructors(cons, **k):
    js = plain(['empty', 'entire'], cons, decs=(False,), **k) + plain(['empty_dec', 'entire_dec', 'nai'], cons, decs=(True,), **k)
    js += plain(['interval_part', 'decoration_part', 'copy'], cons, decs=(True,), **k) + plain(['copy', 'new_dec', 'set_dec'] + CON2, cons, decs=(False,), **k)
    js += mixed(CON2, cons, CT2, decs=(False,), **k) + mixed(['convert_type'] + (['convert_hull'] if cons != ['signals'] else []), cons, mixed1(), **k)   # convert_hull requires valid operands
    js += mixed(['interval_part'], cons, mixed1(), decs=(True,), **k) + mixed(['new_dec', 'set_dec'], cons, mixed1(), decs=(False,), **k)
    return js + mixed(['convert_rndd', 'convert_rndn', 'convert_rndu'], cons, mixed1(), decs=(False,), **k)


@prop('C17')
def _(tier):
    return constructors(['classspec'])


REVALL = ops.REVOPS + [o + '1' for o in ops.REVOPS]


def revx(cons):
    """reverse operations with arbitrary exception flags; the loops of pown_rev by the contracts of its helpers"""
    js = plain([o for o in REVALL if o not in ('pown_rev', 'pown_rev1')], cons, sym_exc=True)
    return js + [Job(E(o, dec, T), cons, [E(h, False, T) for h in ('pown_rev_inf', 'pown_rev_sup')], sym_exc=True, unit='pown_rev', weight=1)
                 for o in ('pown_rev', 'pown_rev1') for dec in (False, True) for T in 'dfl']


def mixedx(cons, skip=(), **k):
    """one mixed-format instance of each function template that has a mixed form, operation bodies executed"""
    js = []
    for op in ALLF + ops.SETOPS + ops.NUMOPS + ops.BOOLOPS + ['overlap'] + ops.CANCEL + ['mul_rev_to_pair'] + ops.REVOPS:
        if op in skip or op in ops.BOOLOPS and (len(ops.SIG[op][0]) < 2 or op == 'is_member'):
            continue
        n = len(ops.SIG[op][0].replace('k', ''))
        T, A = ('f', 'd') if op in ops.NUMOPS else ('d', {1: 'f', 2: 'df' if op in ops.BOOLOPS + ['overlap'] else 'fd', 3: 'fdd' if op in ops.ELEM else 'fdf'}[n])
        for dec in (False, True):
            e = E(op, dec, T, A)
            js.append(Job(e, cons, [E(h, False, max(T + A, key='fdl'.index)) for h in ops.HELPER] if op == 'pown_rev' else own_needs(e) if op in ops.CANCEL and not k.get('sym_exc') else (), weight=1, **k))
    return js


@prop('C18')
def _(tier):
    skip = ops.CANCEL + (['fma', 'mul', 'div', 'pow', 'pown', 'atan2', 'mul_rev', 'mul_rev_to_pair'] if tier == 'quick' else [])   # many paths
    return plain(ALLF + ops.SETOPS + ops.NUMOPS + ops.BOOLOPS + ['overlap'] + ops.CANCEL + ['mul_rev_to_pair'], ['signals'], sym_exc=True) + constructors(['signals'], sym_exc=True) + revx(['signals']) + mixedx(['signals'], skip, sym_exc=True)


@prop('C19')
def _(tier):
    js = plain(ALLF + ops.SETOPS + ops.NUMOPS + ops.BOOLOPS + ['overlap'] + ops.CANCEL + ['mul_rev_to_pair'], ['environment'], needs=False) + constructors(['environment'])
    js += [Job(E(h, False, T), ['environment'], unit='pown_rev', weight=5) for h in ('pown_rev_inf', 'pown_rev_sup') for T in 'dfl']
    return js + revx(['environment']) + mixedx(['environment'])


def classjobs(tier):
    import api
    q = tier == 'quick'
    fwd = ALLF + ops.SETOPS + ops.CANCEL + ['mul_rev_to_pair'] + ops.REVOPS + ['sin_rev', 'cos_rev', 'tan_rev']
    fwd += [o + '1' for o in ops.REVOPS + ['sin_rev', 'cos_rev', 'tan_rev']]
    rel = [o for o in ops.BOOLOPS if o not in ('is_nai', 'is_valid')] + sorted(api.DERIVED) + ['not_equal', 'overlap']
    js = []

    def add(op, dec, T, A=''):
        for f in api.forms(op, bool(A)):
            j = Job(E(op, dec, T, A, kind=f), ['forwards'], (), unit=op.rstrip('1'), concrete=0.05, weight=1)
            js.append(j)
    two = [('f', 'dl'), ('d', 'fd')] if q else [('f', 'dl'), ('d', 'fd'), ('d', 'df'), ('l', 'fd'), ('d', 'll'), ('f', 'ff'), ('d', 'ff')]
    three = [('f', 'dlf'), ('d', 'fld')] if q else [('f', 'dlf'), ('d', 'fld'), ('l', 'dfl'), ('d', 'ffd'), ('f', 'ddf')]
    for dec in (False, True):
        for T in 'dfl':
            for op in fwd + rel + ops.NUMOPS:
                add(op, dec, T)
            for op in ('copy', 'text', 'put', 'get'):
                add(op, dec, T)
        for op in fwd:
            n = len(ops.SIG[op][0].replace('k', ''))
            for T, A in {1: [('f', 'd'), ('d', 'f')] if q else mixed1(), 2: two, 3: three}[n]:
                add(op, dec, T, A)
        for op in ops.NUMOPS + ['convert_type']:
            for T, A in mixed1():
                add(op, dec, T, A)
        for op in rel:
            if len(ops.SIG[op][0]) == 2:
                for T, A in (boolT(tier) if op != 'is_member' else [(T, A + T) for T, A in mixed1()]):
                    add(op, dec, T, A)
    for T in 'dfl':
        for op in ('empty', 'entire', 'nums_to_interval'):
            add(op, False, T)
        for op in ('empty_dec', 'entire_dec', 'nai', 'nums_to_decorated_interval', 'nums_dec_to_decorated_interval', 'interval_part', 'decoration_part', 'is_nai'):
            add(op, True, T)
        for op in ('new_dec', 'set_dec'):
            add(op, False, T)
    for T, A in CT2:
        add('nums_to_interval', False, T, A)
        add('nums_to_decorated_interval', False, T, A)
        add('nums_dec_to_decorated_interval', False, T, A)
    for T, A in mixed1():
        add('interval_part', True, T, A)
        add('new_dec', False, T, A)
        add('set_dec', False, T, A)
    return js


@prop('C20')
def _(tier):
    return classjobs(tier)


@prop('C21')
def _(tier):
    return [Job(E('red_%s_%s_%s' % (a, m, f), False, T), ['redspec', 'redmem'], unit='red_' + T)
            for T in 'dfl' for a in ('sum', 'sum_abs', 'sum_sqr', 'dot') for m in 'UDNZ' for f in 'pl']


@prop('C22', coq=['TwoSum.v'])
def _(tier):
    return plain(['two_sum'], ['sumspec', 'environment'], decs=(False,))


@prop('C25')
def _(tier):
    q = tier == 'quick'
    js = plain(ALLF + ops.SETOPS + ops.NUMOPS + ops.BOOLOPS + ['overlap'], ['owned'], sym_exc=True) + constructors(['owned'], sym_exc=True)
    js += plain(ops.CANCEL + ['mul_rev_to_pair'], ['owned'], sym_exc=True) + revx(['owned']) + plain(['two_sum'], ['owned'], decs=(False,))
    js += [Job(E(h, False, T), ['owned'], unit='pown_rev', weight=5) for h in ('pown_rev_inf', 'pown_rev_sup') for T in 'dfl']
    js += mixedx(['owned'])
    js += [Job(E('red_%s_%s_%s' % (a, m, f), False, T), ['owned'], unit='red_' + T)
           for T in 'dfl' for a in ('sum', 'sum_abs', 'sum_sqr', 'dot') for m in ('U' if q else 'UDNZ') for f in 'pl']
    for j in classjobs(tier):
        if j.entry.T == 'd' and not (q and j.entry.A):
            j.contracts = ['owned']
            js.append(j)
    for j in js:
        j.concrete = 0.08
    return js
