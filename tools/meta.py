#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'p1788/flavor/infsup/setbased/'
I = lambda n: D + 'mpfr_bin_ieee754_flavor_%s_impl.hpp' % n
F = {k: I(k) for k in ('elem_func', 'bool_func', 'cancel_func', 'class', 'io', 'mul_rev_to_pair_func', 'num_func', 'rec_bool_func', 'rec_overlap', 'rev_func', 'set_op', 'setup_func', 'util_func', 'validation_func')}
VAR = 'p1788/util/mpfr_var.hpp', 'p1788/util/mpfr_var_impl.hpp'

INP = ['inputs']
P = []


def p(pid, title, statement, over, text, why, files, mech, state=None):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **({'state': state} if state else {}))))


FMT = 'binary32, binary64 and x87 extended endpoints'
p('C01', 'Arithmetic encloses every point result',
  'For the operations +, -, *, /, reciprocal, square, square root, fused multiply-add, negation and identity, the result interval contains f(x) for every choice of real points x from the operand intervals at which f is defined. This holds for bare and decorated intervals and for ' + FMT + '.',
  INP, 'every valid operand tuple, including empty, unbounded, zero-straddling and subnormal intervals, and every real point in it', 'Tests sample a few dozen operand pairs; the guarantee quantifies over all real points of all intervals, and a wrong branch condition or rounding direction at one endpoint is invisible elsewhere.',
  [F['elem_func']], [('endpoint case analysis with directed rounding', F['elem_func'] + ': add, sub, mul, div, recip, sqr, sqrt, fma'), ('directed assignment to the endpoint format', VAR[1] + ': subnormalize, get')])
p('C02', 'Elementary functions enclose every point result',
  'For pown, pow, exp, exp2, exp10, log, log2, log10, the trigonometric, inverse trigonometric, hyperbolic and inverse hyperbolic functions and atan2, the result interval contains f(x) for every real point x of the operands in the domain of f. This holds for bare and decorated intervals and for ' + FMT + '.',
  INP, 'every valid operand tuple and every integer exponent', 'The tests compare selected reference values; extrema inside the argument (sin, cos), poles (tan, negative powers), quadrant cases (atan2) and sign cases of pow are decided by conditions that hold on the samples but must hold for all intervals.',
  [F['elem_func']], [('monotonicity case analysis', F['elem_func'] + ': pow, pown, exp, log, asin, cosh, ...'), ('periodicity and quadrant case analysis', F['elem_func'] + ': sin, cos, tan, atan2')])
p('C03', 'Integer, sign, abs, min and max functions are exact images',
  'abs, min, max, sign, ceil, floor, trunc, round-ties-to-even and round-ties-to-away return the tightest interval containing the image of the operands, with no rounding of representable results.',
  INP, 'every valid operand tuple in every format', 'The functions are step or fold functions whose branch boundaries (0, halves, infinities) are single points; tests sample only some of them.',
  [F['elem_func']], [('endpoint mapping', F['elem_func'] + ': abs, min, max, sign, ceil, floor, trunc, round_ties_to_even, round_ties_to_away')])
p('C04', 'Forward results are the tightest representable enclosure',
  'Whenever the exact range of an arithmetic or elementary function on its operands is non-empty, the lower and upper bound of the result are that range rounded outward by exactly one correct rounding: no narrower and no wider interval of the format encloses the range. An empty natural domain gives the empty interval.',
  INP, 'every valid operand tuple in every format', 'Tests catch a loss of tightness only at sampled values; double rounding, a missing exact case or an overestimated branch shows at isolated inputs.',
  [F['elem_func'], VAR[1]], [('single directed rounding per bound', F['elem_func']), ('emulation of the subnormal range', VAR[1] + ': subnormalize')])
p('C05', 'Decorations are correct and never better than the truth',
  'The decoration of a forward operation result is the weaker of the operand decorations and the strongest property that holds for the function on the operand box: com only if the operands are bounded, the function is defined and continuous on them and the result is bounded; dac only if defined and continuous; def only if defined; trv otherwise.',
  INP, 'every tuple of valid decorated operands, for each decoration combination', 'A wrong decoration is wrong on boundary cases (touching a domain edge, a jump, overflow of the result) and then falsifies existence proofs silently; tests check a handful.',
  [F['elem_func']], [('decoration computation per operation', F['elem_func'] + ': decorated overloads'), ('decoration order', 'p1788/decoration/decoration.hpp')])
p('C06', 'Empty, NaI and invalid operands propagate',
  'Every forward operation returns the empty interval if a bare operand is empty or not a valid interval, returns NaI if a decorated operand is NaI or not valid, and returns empty decorated trv if a decorated operand is empty.',
  INP, 'every operand tuple, including pairs of bounds that are not an interval and invalid decorations', 'The space includes malformed representations (reversed bounds, mixed NaN, infinite bounds of the wrong sign, wrong decorations) in every operand position; tests use one or two.',
  [F['elem_func'], F['validation_func']], [('validity check on entry', F['validation_func'] + ': is_valid'), ('early return', F['elem_func'])])
p('C07', 'Results are always valid representations',
  'Every forward operation returns a valid interval: both bounds NaN for empty, otherwise lower <= upper, lower < +infinity, upper > -infinity; decorated results also carry a decoration consistent with the interval (ill only with NaI, empty only with trv or ill, com only when bounded).',
  INP, 'every operand tuple, valid or not', 'Closure must hold on every result, since each result is the operand of another operation; sampled results cannot show that no case escapes.',
  [F['elem_func'], F['validation_func']], [('construction of results', F['elem_func']), ('validity definition', F['validation_func'])])
p('C08', 'Intersection and convex hull are exact',
  'The intersection of two intervals is exactly the set intersection and their convex hull is the smallest interval containing both, each rounded outward only if the result format is narrower. Decorated results carry trv, NaI propagates, and invalid operands give empty or NaI.',
  INP, 'every operand pair in every format and format combination', 'Ordering cases of four bounds with empties, infinities and format changes are sampled, not covered.',
  [F['set_op']], [('bound selection', F['set_op'] + ': intersection, convex_hull')])
p('C09', 'Set relations decide exactly what they are defined to decide',
  'Each boolean relation (equality, subset, interior, less, precedes, strict forms, disjoint, is-empty, is-entire, is-NaI, is-singleton, is-common-interval, is-member) is true if and only if its defining condition on the sets of reals holds; any relation on an invalid interval or NaI is false, and mixed formats are compared without loss.',
  INP, 'every operand pair in every format combination, including empty, unbounded and invalid operands', 'A relation is an equivalence over all pairs; boundary cases (equal infinities, empty against empty, touching bounds, mixed precision) are single points.',
  [F['bool_func'], F['rec_bool_func']], [('bound comparisons', F['bool_func']), ('recommended relations', F['rec_bool_func'])])
p('C10', 'The overlapping relation names the right state',
  'The overlap function returns the one of the sixteen overlapping states whose definition the two intervals satisfy, and the undefined state for NaI or invalid operands.',
  INP, 'every operand pair in every format combination', 'Sixteen states are separated by equalities of bounds, which samples hit only where the test author looked.',
  [F['rec_overlap']], [('decision tree on bounds', F['rec_overlap'] + ': overlap')])
p('C11', 'Numeric functions return correctly rounded values',
  'Infimum, supremum, midpoint, radius, width, magnitude and mignitude return the standard value of the interval rounded in the required direction (down, up or to nearest), with NaN or the defined infinity for empty, unbounded, NaI and invalid intervals; midpoint and radius taken together enclose the interval.',
  INP, 'every operand in every format and format conversion', 'Rounding of midpoints and radii near overflow and in the subnormal range is decided bit by bit; tests sample a few values.',
  [F['num_func']], [('rounded bound arithmetic', F['num_func'] + ': mid, rad, wid, mag, mig, mid_rad, inf, sup')])
p('C12', 'Cancellative addition and subtraction are tightest and safe',
  'The cancellative operations return the tightest interval that when added to the second operand encloses the first if the first is at least as wide as the second (in exact arithmetic), and the whole line otherwise; empty and unbounded operands give the values the standard defines, decorated results carry trv, and invalid operands or NaI give empty or NaI.',
  INP, 'every operand pair in every format combination', 'The width comparison must be exact for all pairs of endpoints of different exponent, where rounding hides the difference.',
  [F['cancel_func']], [('exact width comparison and rounded difference', F['cancel_func'] + ': cancel_minus, cancel_plus')])
p('C13', 'Reverse operations enclose every preimage',
  'The reverse operations of square, absolute value, integer power, cosh and multiplication return an interval that contains every point x of the constraint interval for which f(x) lies in the target interval (for multiplication, for some factor in the given interval), and that is no wider than the hull of the outward-rounded pieces of the solution set within the constraint; it is the empty interval when an operand is empty; decorated results carry trv and NaI propagates.',
  INP, 'every operand tuple and every integer exponent', 'Preimages consist of up to two branches that must both survive intersection with the constraint; samples rarely put the constraint in the gap or at a branch edge.',
  [F['rev_func']], [('branch preimages and intersection', F['rev_func'] + ': sqr_rev, abs_rev, pown_rev, cosh_rev, mul_rev')])
p('C14', 'Reverse trigonometric operations enclose every preimage',
  'The reverse operations of sine, cosine and tangent return an interval containing every point x of the constraint interval for which f(x) lies in the target interval.',
  INP, 'every operand pair', 'The number of branches is unbounded and the search for the outermost branch depends on argument reduction.',
  [F['rev_func']], [('branch search by period', F['rev_func'] + ': sin_rev, cos_rev, tan_rev')])
p('C15', 'Two-interval division encloses the solution set in two pieces',
  'The reverse multiplication to a pair returns two intervals, the first entirely below the second, whose union is the tightest pair enclosing every x with b*x in c for some b of the divisor; empty parts are returned as empty, decorated results are valid with the decoration of a division when zero is not a divisor and trv otherwise, and invalid operands or NaI give empty or NaI pairs.',
  INP, 'every operand pair in every format combination', 'Sign cases of four bounds with zeros, infinities and conversions between formats are far more than the tests sample.',
  [F['mul_rev_to_pair_func']], [('case analysis on signs', F['mul_rev_to_pair_func'] + ': mul_rev_to_pair')])
p('C16', 'Mixed-format arithmetic is as good as one-format arithmetic',
  'Arithmetic and the integer, sign, abs, min and max functions called with operands and result of different number formats meet the same guarantees as with one format: enclosure, tightest result in the result format with a single rounding, correct decoration, propagation and validity.',
  INP, 'every operand tuple, for combinations of float, double and long double operands and result', 'The mixed forms are separate code paths that choose an intermediate format; a wrong choice loses bits only for some values.',
  [F['elem_func'], F['class']], [('computation in the widest format and final conversion', F['elem_func'] + ': mixed overloads'), ('hull conversion', F['util_func'] + ': convert_hull')])
p('C17', 'Constructors and conversions build exactly the requested interval',
  'Constructing an interval from bounds, converting between formats, setting or reading a decoration and taking the interval part give exactly the requested set rounded outward to the format and the decoration the standard defines; an impossible request gives empty, NaI or the standard fallback.',
  INP, 'every pair of bounds, decoration and representation, in every format combination', 'Conversion between formats rounds each bound; overflow, underflow and subnormal halfway cases are single points.',
  [F['class'], F['util_func']], [('bare and decorated constructors', F['class'] + ': nums_to_interval, new_dec, set_dec, interval_part'), ('rounded conversion', F['util_func'] + ': convert_hull, convert_rndd, convert_rndu')])
p('C18', 'Exceptions are signalled exactly when the standard says so',
  'An operation raises its invalid-operand, undefined-operation or interval-part exception state if and only if an operand is invalid, a construction is impossible or the interval part of NaI is taken; the C++ exception is thrown exactly if the user enabled it for that state, and no other state changes.',
  ['inputs', 'configurations'], 'every operand tuple and every setting of the enabled exceptions', 'The state is global and sticky and each operation is a separate path; tests look at the state after a few constructions.',
  ['p1788/exception/exception.hpp', F['validation_func'], F['class']], [('signalling', 'p1788/exception/exception.hpp'), ('validity check', F['validation_func'] + ': is_valid')])
p('C19', 'No operation disturbs the environment or leaks',
  'Every operation on intervals leaves the floating-point rounding mode and the exponent range of the multiple-precision library as it found them at every return, and releases every temporary multiple-precision object it creates exactly once.',
  INP, 'every operand tuple and every path to a return', 'A leak or a rounding mode left behind shows only later and elsewhere; tests compare values only.',
  [F['elem_func'], F['setup_func'], VAR[1]], [('scoped multiple-precision temporaries', VAR[0]), ('explicit init/clear pairs', F['elem_func'])])
p('C20', 'The interval classes forward every operation faithfully',
  'Each function, operator, constructor and stream operator of the interval and decorated interval classes behaves exactly as the operation of its name applied to the operands in the order given: it returns the result of that operation unchanged, passes its exceptions through and signals nothing else, for equal and mixed number formats.',
  INP, 'every operand tuple and every result the operation could return', 'A swapped operand or wrong callee in one of hundreds of thin wrappers shows only when that wrapper is called with asymmetric values.',
  ['p1788/infsup/base_interval.hpp', 'p1788/infsup/interval.hpp', 'p1788/infsup/decorated_interval.hpp'], [('forwarding wrappers', 'p1788/infsup/base_interval_elem_func_impl.hpp and siblings')])
p('C21', 'Reductions are correctly rounded for any vector',
  'Sum, sum of absolute values, sum of squares and dot product of vectors of any length return the exact value rounded once in the requested direction, propagate NaN, give NaN for contradicting infinities, and release every temporary object.',
  INP, 'every vector of every length and every rounding direction', 'The length is unbounded and cancellation or intermediate overflow needs long or extreme vectors.',
  ['p1788/reduction/reduction.hpp'], [('exact terms and correctly rounded sum', 'p1788/reduction/reduction.hpp: reduction_sum_op')])
p('C22', 'The error-free sum is error-free',
  'The error-free transformation of a sum returns the rounded sum and the exact rounding error, so that both parts add up to the exact sum of the operands whenever no overflow occurs.',
  INP, 'every pair of finite numbers', 'The identity must hold bit for bit at every exponent difference.',
  ['p1788/util/mpfr_util.hpp'], [('two_sum', 'p1788/util/mpfr_util.hpp: two_sum')])
p('C23', 'Mixed-format elementary functions are as good as one-format ones',
  'The elementary functions called with operands and result of different number formats meet the same guarantees as with one format: enclosure, tightest result in the result format with a single rounding, correct decoration, propagation and validity.',
  INP, 'every operand tuple, for combinations of float, double and long double operands and result', 'The mixed forms are separate code paths; a wrong intermediate format loses bits only for some values.',
  [F['elem_func']], [('computation in the widest format and final conversion', F['elem_func'] + ': mixed overloads')])
p('C24', 'Text input and output enclose and round-trip',
  'Reading an interval literal gives an interval containing the denoted set, malformed literals give empty or NaI and set the stream failure state, and exact text output read back gives the same interval.',
  INP, 'every string and every interval', 'The input space is all strings; tests sample a few dozen literals.',
  [F['io'], 'p1788/io/io_manip.hpp'], [('literal grammar', F['io'] + ': operator_text_to_interval'), ('number formatting', VAR[1] + ': get_str')])
p('C25', 'Threads computing with intervals do not disturb each other',
  'Operations running in different threads at the same time do not influence each other: an operation touches only its operands, its own temporaries and state of the calling thread, or data that never changes. Exception flags and the control word that enables exceptions belong to the thread, so neither a signal nor a setting of one thread is visible in another, and no result depends on calls made by another thread.',
  ['schedules', 'inputs', 'histories'], 'every operation, every operand tuple and every interleaving with operations of other threads', 'A race or a shared static needs two threads at a particular moment; the tests are single-threaded.',
  ['p1788/exception/exception.hpp', F['elem_func'], VAR[1]], [('thread-local exception state and control word', 'p1788/exception/exception.hpp: state, cwd'), ('operations without static objects', F['elem_func'])],
  state=[dict(name='exception flags and control word', meaning='belong to the active thread', where='p1788/exception/exception.hpp: state, cwd')])

NA = {
    'C14': 'contracts for the reverse trigonometric operations are not finished yet',
    'C24': 'The readers and writers are regular-expression and iostream code (std::regex, std::string, locale streams): their LLVM IR is some hundred thousand instructions of libstdc++ with unbounded recursion, no deductive verifier installed here reads it, and assuming contracts for std::regex and the streams would assume the property.',
}
NOTE = ('Deductive: per-path weakest-precondition VCs over the LLVM IR that clang compiles from /repo on every run, for all inputs and without bound on values; discharged by z3 (cvc5 as second back end). '
        'Assumes the contracts of MPFR, GMP and libm and ground axioms on real functions listed in DESIGN.md and the evidence file; a bounded concrete run of the same contracts on the compiled code is reported separately and not counted as proved.')
EXTRA = {
    'C20': ' Relational: wrapper and direct call are executed on the same symbolic operands with the flavor operations as uninterpreted functions; copies of results use that operations return valid intervals (C07, C12, C13, C15, C17).',
    'C13': ' Loops in pown_rev are cut by an invariant (partial correctness; termination argued from the finite format, not discharged).',
    'C02': ' For sin, cos and tan with an argument whose width is within 1e-5 of pi or 2 pi only enclosure is claimed.',
    'C21': ' The vector length is symbolic (up to 2^40); fill and release loops are cut by invariants proved inductive; mpfr_sum is the correctly rounded sum by contract.',
    'C22': ' The 2Sum theorem is not assumed: coqc rechecks its proof (Flocq) in every run.',
    'C25': ' Ownership contract: every object with static storage duration that any path reads or writes is constant, thread-local or only written by its guarded initialisation; absence of races then holds for every schedule. MPFR is assumed to be built thread-safe.',
    'C16': ' Same-format contracts are proved in the same run and assumed at the call.', 'C23': ' Same-format contracts are proved in the same run and assumed at the call.',
}


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, q['id']
            f.write(json.dumps(q) + '\n')
    m = dict(version=1, setup_cmd='python3-vt tools/setup.py',
             checks=[dict(property=q['id'], quick_cmd='python3-vt vc/check.py %s --tier quick' % q['id'], thorough_cmd='python3-vt vc/check.py %s --tier thorough' % q['id'],
                          technique='contract-based deductive verification (VCs from LLVM IR of the real code, z3/cvc5)', level='proof', level_note=NOTE + EXTRA.get(q['id'], ''))
                     for q in P if q['id'] not in NA],
             not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
             notes='No hooks in /repo. Known findings: known_findings.json.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
