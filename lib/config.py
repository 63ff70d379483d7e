"""One entry per claimed property: which harnesses decide it, with how many cases (quick, thorough)."""


def R(bin, cases, variant='asan', **k):
    return dict(bin=bin, variant=variant, cases=cases, **k)


SAN = 'AddressSanitizer and UndefinedBehaviorSanitizer (halt on error, assertions on) watch the same executions'
GENX = ('random expression trees over + - * / pow, elementary functions, min, max, if-then-else, with re-used sub-terms and structured constants, '
        'built through randomly chosen API forms (copies, temporaries, moves, in-place and aliased operators)')

CHECKS = {
    'C01': dict(
        title='reference evaluation', runs=[R('h_expr', (90000, 4000000))],
        technique='runtime monitor: value oracle (binary128 reference evaluation with error bounds) over generated construction programs, under ASan+UBSan',
        note='Every construction program is executed on the real code and each evaluation is compared with an independent binary128 evaluation; comparison only where that evaluation bounds its own error.',
        rule=GENX + '; non-trivial when at least one evaluation was compared with a conclusive reference value; ' + SAN),
    'C02': dict(
        runs=[R('h_expr', (60000, 1000000))],
        technique='runtime monitor: error-class oracle at function-domain boundaries, under ASan+UBSan',
        note='Observed outcome (value or exception class) compared with the documented domain of each function, for arguments on, next to and away from the boundary, through seven ways of reaching the function.',
        rule='one function application or division per case with boundary-biased arguments, reached as constant, variables, mixed, wrapped in a compound expression, partially evaluated or inside a formula; or the NaN expression; or an expression/inequality with one variable unbound; distinct by text; ' + SAN),
    'C03': dict(
        runs=[R('h_expr', (45000, 2000000))],
        technique='runtime monitor: value oracle for substitution and partial evaluation, under ASan+UBSan',
        note='Substitution results are evaluated and compared with the reference evaluation of the textually substituted reference tree; quantified formulas are compared on a finite grid.',
        rule=GENX + ', formulas with and without quantifiers, and a simultaneous substitution (swaps, rotations, constants, terms, formulas); non-trivial when a result value was compared; ' + SAN),
    'C04': dict(
        runs=[R('h_expr', (20000, 800000))],
        technique='runtime monitor: derivative oracle (binary128 five-point differences of the reference), under ASan+UBSan',
        note='Symbolic derivatives are evaluated and compared with numerical differentiation in binary128 (relative tolerance 1e-7) at points where two step sizes agree.',
        rule=GENX + ', restricted to differentiable operations; non-trivial when a derivative was compared at a point; ' + SAN),
    'C05': dict(
        runs=[R('h_expr', (50000, 2000000))],
        technique='runtime monitor: value oracle and polynomial normal-form oracle for expansion, under ASan+UBSan',
        note='Expansion results are read back as coefficient tables and compared with exact polynomial arithmetic; values compared with the reference at sampled points.',
        rule=GENX + ', half of them polynomials with small integer coefficients; non-trivial when values or coefficient tables were compared; ' + SAN),
    'C08': dict(
        runs=[R('h_expr', (35000, 2000000))],
        technique='runtime monitor: recomputation of free variables and flags from the structure, under ASan+UBSan',
        note='Cached free-variable sets and flags are compared with a recomputation through the public accessors, initially and after substitutions and expansions, and evaluation is repeated with only the reported variables bound.',
        rule=GENX + ' and formulas with quantifiers; distinct expressions or formulas with at least two free variables count as non-trivial; ' + SAN),
    'C06': dict(
        runs=[R('h_struct', (40000, 2000000))],
        technique='runtime monitor: algebraic-law checker for equality, order and hash over pairs and triples, against a canonical serialisation, under ASan+UBSan',
        note='All pairs and triples of generated object sets are tested against the laws and against an independent canonical serialisation; containers and construction orders are exercised.',
        rule='sets of up to 20 related objects (differently built copies, one-place mutations, interval constants, uninterpreted functions, huge and signed-zero constants), permuted sums and products, variable sets; distinct by serialisation; ' + SAN),
    'C07': dict(
        runs=[R('h_struct', (6000, 400000))],
        technique='runtime monitor: history checker (register snapshots) plus AddressSanitizer and allocation accounting',
        note='After every operation of a random history all other live registers are compared with their snapshots (structure, text, hash, free variables); moved and in-place forms are compared with the operator on copies; all memory must be returned at the end.',
        rule='histories of 10 to 60 operations over 6 expression and 4 formula registers, stored copies and containers, with sharing, aliasing, moves and failures; distinct by operation log; ' + SAN),
    'C10': dict(
        runs=[R('h_struct', (20000, 1000000), 'dbg')],
        technique='runtime monitor: model-based history checker (mathematical set and map), under ASan+UBSan',
        note='Every query after every operation of a random history is compared with a std::map model; the library is built with the debug containers of libstdc++, which stop on invalidated iterators.',
        rule='histories of 5 to 60 operations on 4 variable sets (including aliased operands) or one environment; distinct by operation log; ' + SAN),
    'C09': dict(
        runs=[R('h_logic', (40000, 2000000))],
        technique='runtime monitor: truth oracle (three-valued reference evaluation) and normal-form monitor over generated construction programs, under ASan+UBSan',
        note='Formulas built through random API forms are evaluated at every Boolean assignment and compared with a reference evaluation; flattened operand sets are compared with a set computed from the operands.',
        rule='random formulas over comparisons, Boolean variables and all connectives, or lists of up to 6 formulas combined through eight forms; non-trivial when a truth value was compared; ' + SAN),
    'C13': dict(
        runs=[R('h_logic', (40000, 2000000))],
        technique='runtime monitor: implication and exact-shift oracle for strengthening and weakening, under ASan+UBSan',
        note='The strengthened and the weakened formula are evaluated next to the original and next to a reference strengthening with the shift moved to one side, at points placed around the boundary.',
        rule='random quantifier-free formulas (with if-then-else in terms), ten deltas and random ones, assignments shifted by multiples of delta; non-trivial when truth values were compared; ' + SAN),
    'C16': dict(
        runs=[R('h_logic', (80000, 3000000))],
        technique='runtime monitor: recomputation of the classification from the structure, under ASan+UBSan',
        note='Classification results are compared with definitions recomputed from the kinds of the nodes; clause sets are conjoined again and compared; intersections against id sets.',
        rule='random formulas concentrated near the definitions (conjunctions of disjunctions of literals with one place broken, quantified formulas and their negations); distinct by serialisation; ' + SAN),
    'C17': dict(
        runs=[R('h_logic', (60000, 2500000))],
        technique='runtime monitor: truth-equivalence and normal-form oracle over generated formulas, under ASan+UBSan',
        note='Input and result are evaluated side by side with the reference evaluation (quantifiers over a finite grid) at all Boolean assignments; the normal form is checked by structure.',
        rule='random formulas with quantifiers, both settings; non-trivial when truth values were compared; ' + SAN),
    'C18': dict(
        runs=[R('h_logic', (40000, 1500000))],
        technique='runtime monitor: truth-equivalence and normal-form oracle over generated formulas, under ASan+UBSan',
        note='As C17, with the CNF structure recomputed by kinds and the free variables compared.',
        rule='random formulas of at most 60 nodes; non-trivial when truth values were compared; ' + SAN),
    'C19': dict(
        runs=[R('h_logic', (12000, 800000))],
        technique='runtime monitor: model-extension oracle in both directions and freshness monitor over conversion histories, under ASan+UBSan',
        note='For each sampled assignment either the recorded definitions give an extension satisfying all clauses, or all extensions (exhaustively up to 9 fresh variables) are seen to fail.',
        rule='sequences of up to 4 conversions with a shared or own converter, formulas with quantifiers (also vacuous ones); non-trivial when a truth value was compared and a variable introduced; ' + SAN),
    'C20': dict(
        runs=[R('h_logic', (18000, 1000000))],
        technique='runtime monitor: model-extension oracle for if-then-else elimination, under ASan+UBSan',
        note='At each sampled assignment the result is searched over the values the if-then-else terms and their branches take (plus unrelated ones) and compared with the truth of the original; exact arithmetic.',
        rule='random formulas with up to 3 if-then-else terms, nested in conditions and branches, under negation and quantifiers; non-trivial when a truth value was compared; ' + SAN),
    'C21': dict(
        runs=[R('h_logic', (25000, 1000000))],
        technique='runtime monitor: substitution-back oracle and one-to-one monitor over conversion histories, under ASan+UBSan',
        note='Each abstraction is evaluated with its variables set to the truth of the recorded atoms and compared with the original; the recorded correspondence is compared across conversions.',
        rule='sequences of up to 5 conversions with one abstractor, single formulas and lists, re-used and negated formulas; non-trivial when a truth value was compared and an atom recorded; ' + SAN),
    'C22': dict(
        runs=[R('h_util', (15000, 1500000), 'dbg')],
        technique='runtime monitor: model-based history checker (copy-on-push containers), under ASan+UBSan and libstdc++ debug mode',
        note='After every operation of a random history the whole content, lookups, iterators and comparisons are compared with containers that copy themselves on push.',
        rule='histories of 5 to 80 operations on two containers of one of seven kinds (colliding hashes, heap-allocated elements), with pops without scope, copies and moves; distinct by operation log; ' + SAN),
    'C23': dict(
        runs=[R('h_util', (60000, 4000000))],
        technique='runtime monitor: model-based history checker (ranked sources), under ASan+UBSan',
        note='The effective value after every step is compared with a model that remembers the highest-ranked source seen.',
        rule='histories of up to 14 settings from file, command line and code on two options of one of four types, with copies and moves; distinct by operation log; ' + SAN),
    'C24': dict(
        runs=[R('h_util', (6000, 400000))],
        technique='runtime monitor: exact oracle (binary128 and integer arithmetic), under ASan+UBSan with float-cast-overflow',
        note='Each result is compared with exact arithmetic; conversions out of range are also caught by the float-cast and integer sanitizers.',
        rule='doubles by bit pattern, around the limits of int, powers of two, near-integers and special values; 64-bit integers around 2^31, 2^53, 2^63; distinct doubles; ' + SAN),
    'C25': dict(
        runs=[R('h_util', (3000, 100000), hang=180)],
        technique='runtime monitor: interval oracle for readings (clock values taken around every call), under ASan+UBSan',
        note='Every reading must lie between the least and the greatest running time compatible with clock values taken before and after each call.',
        rule='histories of up to 25 operations on two timers and guards, with busy waiting between them; distinct by operation log; ' + SAN),
    'C26': dict(
        runs=[R('h_util', (15000, 600000))],
        technique='runtime monitor: state snapshot around every scope (stream state, rounding mode, signal dispositions), under ASan+UBSan',
        note='The ambient state (also as observed through divisions, printed numbers and raised signals) is compared before, inside and after each guard.',
        rule='nestings of up to four levels of three kinds of guard, left normally or by exception, from random prior states; distinct by history; ' + SAN),
    'C31': dict(
        runs=[R('h_util', (4000, 200000))],
        technique='runtime monitor: string oracle and file-system states in a scratch directory, under ASan+UBSan',
        note='Extensions are compared with a recomputation per path component; file existence with the object the harness created.',
        rule='path strings from components with and without dots, embedded zero bytes, empty names; nine kinds of file-system object; distinct names; ' + SAN),
    'C32': dict(
        runs=[R('h_util', (12000, 800000), 'dbg')],
        technique='runtime monitor: model-based history checker (vector of bits), under ASan+UBSan and libstdc++ debug mode',
        note='All queries of all bit sets are compared with a vector<bool> model after every operation.',
        rule='histories of up to 40 operations on three bit sets with blocks of 8, 16, 32 or 64 bits, sizes around block boundaries; distinct by operation log; ' + SAN),
    'C28': dict(
        runs=[R('h_smt2', (6000, 400000))],
        technique='runtime monitor: name-table round-trip oracle, under ASan+UBSan',
        note='Parsing and printing of every accepted name and of names one or two edits away from them are compared with a table of the accepted names.',
        rule='names of logics and sorts, unchanged or edited (deleted, inserted, case-flipped, doubled, cut, prefixed); distinct by name list; ' + SAN),
    'C29': dict(
        runs=[R('h_smt2', (12000, 800000))],
        technique='runtime monitor: model-based history checker (tagged value), under ASan+UBSan',
        note='After every operation of a random history every term is compared (kind, content, refused access, text) with a model; substitution with the direct expression or formula operation.',
        rule='histories of 3 to 25 operations on four terms over real, integer, binary and Boolean variables, with moves, own-content assignment and substitution of either kind; distinct by operation log; ' + SAN),
    'C30': dict(
        runs=[R('h_smt2', (12000, 800000))],
        technique='runtime monitor: text oracle over command sequences, under ASan+UBSan',
        note='The text of every command is compared with the text required for its kind and arguments, twice, after copies and after the arguments were changed by the caller.',
        rule='sequences of 2 to 8 commands of 19 kinds with extreme numerals and arbitrary words, printed to one stream; distinct by text; ' + SAN),
    'C11': dict(
        runs=[R('h_thread', (1500, 60000), 'tsan'), R('h_thread', (6000, 200000))],
        technique='runtime monitor: uniqueness checker over variables created in several threads, under ThreadSanitizer and under ASan+UBSan',
        note='All variables made by all threads of a history are collected and checked for distinct identities, names, types and order; the observed order of identifiers is the interleaving.',
        rule='1 to 8 threads making 2 to 40 variables each, singly and in vectors, with yields, busy waits and sleeps injected; distinct by the order in which the threads obtained identifiers; ThreadSanitizer reports races'),
    'C12': dict(
        runs=[R('h_thread', (400, 25000), 'tsan'), R('h_thread', (900, 50000))],
        technique='runtime monitor: ThreadSanitizer and AddressSanitizer over concurrent programs on shared objects, with a per-thread result oracle',
        note='Every thread records a digest of each result; the same program is then run alone and must give the same digests; shared and handed-over objects are compared with their text; memory use must not grow.',
        rule='2 to 8 threads running 5 to 40 of 24 kinds of operations on shared expressions and formulas, handing objects to each other, with injected delays; distinct by order of fresh identifiers and results'),
    'C27': dict(
        runs=[R('h_thread', (900, 40000), 'tsan'), R('h_thread', (5000, 200000))],
        technique='runtime monitor: exactly-once checker over task event logs, under ThreadSanitizer and under ASan+UBSan',
        note='Each task records how often, when and where it ran; after the pool is destroyed the log is checked: accepted tasks ran once and ended in time, refused ones never, identifiers are distinct and in range.',
        rule='1 to 3 pools of 1 to 8 workers, in turn or at the same time, owned by different threads, tasks submitted by the owner, other threads and tasks (also during destruction), values, exceptions, dropped futures; distinct by the order of (worker) task starts'),
    'C14': dict(
        runs=[R('h_print', (25000, 1500000))],
        technique='runtime monitor: read-back oracle (independent prefix reader, normal forms with exact constants), under ASan+UBSan',
        note='The text is read by an independent reader and compared, as a normal form that forgets only grouping and order, with the printed object; stream state is compared before and after.',
        rule=GENX + ' and formulas, with constants of all magnitudes that need all digits; streams in use, nested printers, constructs that are refused; distinct by structure; ' + SAN),
    'C15': dict(
        runs=[R('h_print', (20000, 1200000))],
        technique='runtime monitor: read-back oracle (independent infix reader, normal forms with exact constants), under ASan+UBSan',
        note='As C14 with the infix notation, including interval constants, uninterpreted functions and quantifiers; the text is compared across streams of any formatting state.',
        rule=GENX + ' and formulas with quantifiers; streams with any precision, float format, sign and fill; distinct by structure; ' + SAN),
    'C33': dict(
        runs=[R('h_box', (20000, 1000000), kind='full')],
        technique='runtime monitor: model-based history checker (list of variables and intervals), under ASan+UBSan',
        note='After every operation every box of the history is compared with a model by position and by name; bisections are checked for coverage. Runs on a stand-in for the IBEX interval library (shim/), the code of dReal is the real one.',
        rule='histories of 4 to 40 operations on up to five boxes sharing tables (adding, copying, moving, updating, uniting, emptying, bisecting) over variables of all types; distinct by operation log; ' + SAN),
    'C34': dict(
        runs=[R('h_box', (6000, 400000), kind='full')],
        technique='runtime monitor: exact rational oracle (GMP), under ASan+UBSan',
        note='The interval of every literal is compared with the exact rational value, in all rounding modes; runs on the stand-in for IBEX.',
        rule='literals of every form the scanner accepts: representable values, values next to them, halfway points, long digit strings, large and small exponents; distinct literals; ' + SAN),
    'C36': dict(
        runs=[R('h_box', (20000, 1500000), kind='full')],
        technique='runtime monitor: set oracle for absorbed bounds, under ASan+UBSan',
        note='The interval after each assertion is compared with the set of values of the old interval that satisfy it; runs on the stand-in for IBEX.',
        rule='sequences of up to six bounds with either polarity and orientation, numbers and interval constants at, next to and away from the ends of the current interval, and formulas that are no bounds; distinct by text; ' + SAN),
    'C37': dict(
        runs=[R('h_box', (12000, 600000), kind='full')],
        technique='runtime monitor: enclosure and verdict oracle (binary128 reference evaluation at sampled points), under ASan+UBSan',
        note='Each verdict and reported interval is tested at points of the box, among them its corners; runs on the stand-in for IBEX, whose interval functions are checked by the same comparison.',
        rule=GENX + ', all six comparisons with either polarity, four boxes each (points, thin, wide, unbounded); non-trivial when a point with a conclusive value was compared; ' + SAN),
    'C35': dict(
        runs=[R('h_ctc', (20000, 1000000), kind='full')],
        technique='runtime monitor: solution-preservation oracle (planted and sampled solutions, binary128 reference), report checker, under ASan+UBSan',
        note='Every pruning is compared with the planted solutions and with sampled points whose truth is conclusive; explanations of emptied boxes are tested against points that satisfy all but a few constraints (in chains: all but any one). Runs on the stand-in for IBEX; the contractors of dReal are the real code.',
        rule='one to five constraints true at planted points (equalities with exact dyadic values, inequalities, either polarity), boxes around the points, all contractor kinds and compositions, branching points for the work-list; non-trivial when the box changed or a solution was compared; ' + SAN),
    'C38': dict(
        runs=[R('h_sat', (20000, 1500000), kind='full')],
        technique='runtime monitor: truth-table oracle over the Boolean skeleton, model enumeration with learned clauses, under ASan+UBSan',
        note='Every answer is compared with the models of the formulas and learned clauses in force; every completion of the literals returned must be one of them. Uses the real PicoSAT.',
        rule='histories of up to 16 operations (formulas of all connectives over up to nine Boolean variables, relations and quantified formulas in all spellings, push, pop, checks, learned clauses over the literals returned), all decision phases; distinct by history; ' + SAN),
    'C39': dict(
        runs=[R('h_solve', (6000, 300000), kind='full')],
        technique='runtime monitor: planted-solution and sampling oracle (binary128 reference) on answers of the real solver, under ASan+UBSan',
        note='Each problem has a solution planted with exact values; an unsat answer is compared with it and with sampled points. Runs on the stand-in for IBEX, real PicoSAT and NLopt; searches end by a budget of contractions, after which the answer is not used.',
        rule='up to nine constraints over up to nine variables (continuous, integer, binary, Boolean), clauses with one true literal among others, everything random configurations offer (polytope, work-list, local search, stacking, phases, branching strategies, precisions); distinct by text; ' + SAN),
    'C40': dict(
        runs=[R('h_solve', (6000, 300000), kind='full')],
        technique='runtime monitor: checker of returned boxes (domains, integrality, variables, weakened constraints by interval reference evaluation), under ASan+UBSan',
        note='Every sampled point of a returned box must satisfy the weakened constraints (as long as the box could be split further; otherwise some point must); exact for Boolean constraints and non-strict bounds. Formulas with if-then-else terms are not evaluated on models. Runs on the stand-in for IBEX.',
        rule='as for C39, satisfiable and unsatisfiable; distinct by text; ' + SAN),
    'C41': dict(
        runs=[R('h_solve', (6000, 300000), kind='full')],
        technique='runtime monitor: state-machine model of scopes compared with the real solver over histories, under ASan+UBSan',
        note="After each operation the stack and box are compared with the model's; each answer with planted and sampled solutions of what is asserted then. Includes scopes opened again with variables declared in other orders, intervals set anew, assertions repeated. Runs on the stand-in for IBEX.",
        rule='histories of up to 40 operations; distinct by history; ' + SAN),
    'C42': dict(
        runs=[R('h_smt2front', (20000, 1000000), kind='full')],
        technique='runtime monitor: recorder in front of the solver compares the log of commands, declarations, assertions (value at sampled assignments, binary128 reference) and the printed text with those of the script generated along, under ASan+UBSan',
        note='The recorder replaces the methods of dreal::Context and stands in front of the real implementation; it scripts the answers (or lets the real solver answer, on the stand-in for IBEX, when the planted assignment is compared). Undeclared variables in any assertion are violations. Malformed scripts must be refused with a diagnostic.',
        rule='scripts of up to 18 commands, all terms and number formats, let, shadowing, define-fun, forall with bounds, n-ary operators, comments, white space, push and pop, options, models and values; malformed: cut anywhere, bytes, parentheses, scopes, sorts, mutations; distinct by text; ' + SAN),
    'C43': dict(
        runs=[R('h_dr', (20000, 1000000), kind='full')],
        technique='runtime monitor: recorder in front of the solver compares declarations, bounds, constraints and costs (value at sampled assignments, binary128 reference) and the printed text with those of the file generated along, under ASan+UBSan',
        note='As for C42; expressions are printed with the fewest parentheses the precedences allow, so that another grouping has another value. Malformed files must be refused with a diagnostic, before anything is solved.',
        rule='one to four variables, up to five constraints and two costs over all operators; comments and white space anywhere; malformed: cut anywhere, bytes, text after the end, undeclared, grammar, mutations; distinct by text; ' + SAN),
    'C44': dict(
        runs=[R('h_solve', (1500, 100000), kind='full'), R('h_solve', (400, 20000), 'tsan', kind='full')],
        technique='runtime monitor: ThreadSanitizer, and the oracles of C39 and C40 on parallel answers, under ASan+UBSan',
        note="Two to five workers, thread counts above the work available included; the schedule is the system's, so reach comes from repetition. Runs on the stand-in for IBEX.",
        rule='as for C39 with 2-5 jobs; distinct by text; ' + SAN),
    'C45': dict(
        runs=[R('h_forall', (700, 20000), kind='full')],
        technique='runtime monitor: grid oracle for quantified constraints and optima, planted solutions, under ASan+UBSan',
        note='Unsat answers are compared with a planted assignment for which the constraint holds with a margin at every grid point and in between; models and optima with the worst grid point, respectively the best feasible one (for several objectives: one better in all of them). Runs on the stand-in for IBEX with the real NLopt.',
        rule='one or two universally quantified clauses with one or two bounded variables each next to ordinary constraints; objectives under up to two constraints, or under a chain of constraints which only together bound the objective, asserted in any order, with and without popped scopes, one or two objectives; one to three jobs; random configurations; distinct by text; ' + SAN),
    'C46': dict(
        runs=[R('h_opt', (12000, 600000), kind='full')],
        technique='runtime monitor: feasibility and optimality oracle (planted and sampled feasible points, reference evaluation) on results of the local optimiser, under ASan+UBSan',
        note='Convex problems, so that a local optimum is a global one: the point reported must lie within the bounds, satisfy every constraint up to the precision, have the value reported, and cost no more than any sampled feasible point. Uses the real NLopt with its time limit out of reach, so that results are deterministic.',
        rule='one to four variables in any order, up to two parameters given by an environment and changed between runs, quadratic objectives, up to four constraints in either polarity and conjunctions, objectives set before, after or twice, unsupported constraints; cached expressions and refined counterexamples; distinct by problem and start; ' + SAN),
}
NOT_APPLICABLE = {}
