import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
D="third_party/com_github_robotlocomotion_drake/dreal/symbolic/"
E=[D+"symbolic_expression.cc",D+"symbolic_expression_cell.cc",D+"symbolic_expression.h",D+"symbolic_expression_cell.h"]
F=[D+"symbolic_formula.cc",D+"symbolic_formula_cell.cc",D+"symbolic_formula.h",D+"symbolic_formula_cell.h"]
p("C01","Building an expression preserves its value",
 "An expression built with any mix of the arithmetic operators (in all their copying, moving and in-place forms), the elementary functions, min, max, if-then-else, sums and products evaluates, at every assignment where each construction step is defined, to the value those steps denote over the reals (zero to the power zero being one), up to floating-point rounding. The automatic simplifications (constant folding, collecting like terms, combining powers, flattening, cancelling) never change that value. Evaluation depends only on the expression and the assignment, not on the order or history in which equal parts were built.",
 ["inputs","programs"],"all construction programs over all operators and functions, all assignments at which every step is defined",
 "The unit tests check some dozens of hand-written expressions at a few points; simplification rules interact, so the claim is over all nestings, coefficients, exponents (negative, fractional, zero, symbolic) and sign patterns of arguments.",
 E,[("canonicalising factories for sums and products","symbolic_expression_cell.cc ExpressionAddFactory/ExpressionMulFactory"),("rewrites in constructors","symbolic_expression.cc operators, pow, sqrt, min, max")],["Expression::Evaluate","Formula::Evaluate"])
p("C02","Evaluation outside a function's domain fails loudly",
 "Constructing with constants, or evaluating, a logarithm or square root of a negative number, a power of a negative base with a non-integral exponent, or an arcsine or arccosine outside [-1, 1] raises a domain error, also inside products and other compound expressions; evaluating a division at a zero divisor raises an error; evaluating the not-a-number expression, an expression with a variable the assignment does not bind, or an inequality or Boolean variable with such a variable, raises an error; none of these silently produces a number or truth value. (The logarithm of zero and zero to a negative power are not specified; equations with unbound variables compare structurally by design.) Conversely, at every argument inside the domain, including its end points, evaluation succeeds and returns the function's value.",
 ["inputs"],"all functions with restricted domains, all argument values on, next to and away from the domain boundary, all ways the argument is produced",
 "Tests probe one or two points per function; the boundary (end points, neighbours by one ulp, signed zeros, negative bases with integral and non-integral exponents, compound arguments) is not sampled.",
 E,[("check_domain of each function","symbolic_expression_cell.cc"),("unbound-variable check","symbolic_expression_cell.cc ExpressionVar::Evaluate, symbolic_formula_cell.cc FormulaVar::Evaluate")],["Expression::Evaluate","constructors"])
p("C03","Substitution and partial evaluation commute with evaluation",
 "Substituting expressions or formulas for variables, all at once, yields an expression or formula whose value at any assignment equals the value of the original at the assignment updated with the values of the substituted parts; quantified variables are never replaced and unmentioned variables stay (the substituted parts do not mention variables quantified in the formula: substitution does not rename bound variables). Partially evaluating an expression at an assignment equals substituting the constants, and completing the assignment then gives the value of the full evaluation. Simultaneous substitution is not applied twice: swapping two variables swaps them.",
 ["inputs"],"all expressions and formulas of the public grammar, all substitutions (including cyclic, variable-to-itself, constants), all assignments where both sides are defined",
 "Substitution tests exercise one operator at a time with a single variable; every cell kind and every combination of maps would be needed.",
 E+F,[("per-cell Substitute / EvaluatePartial","symbolic_expression_cell.cc, symbolic_formula_cell.cc")],["Expression::Substitute","Formula::Substitute","Expression::EvaluatePartial"])
p("C04","Symbolic derivatives are the derivatives",
 "Wherever an expression is built from differentiable operations and is differentiable at a point, its symbolic partial derivative evaluates there to the true partial derivative; differentiating with respect to a variable that does not occur gives zero. Expressions reported as differentiable can be differentiated without error, and expressions containing operations without a symbolic derivative are reported as not differentiable.",
 ["inputs"],"all expressions, all variables, all points of differentiability",
 "Tests compare a fixed list of closed forms; chain, product, quotient and power rules interact for compound operands.",
 E+["dreal/symbolic/symbolic.cc"],[("per-cell Differentiate","symbolic_expression_cell.cc"),("IsDifferentiable visitor","dreal/symbolic/symbolic.cc")],["Expression::Differentiate","IsDifferentiable"])
p("C05","Expansion preserves value and distributes completely",
 "Expanding an expression without if-then-else yields an expression with the same value at every assignment where the original is defined. For a polynomial expression (sums, products and natural powers of variables and constants) the expansion is a sum of monomials: no product or positive integer power of a sum or product is left, expanding again changes nothing, and two polynomials with small integer coefficients that are equal as functions expand to structurally equal expressions.",
 ["inputs"],"all expressions; for the normal form, all pairs of polynomials with integer coefficients small enough for exact arithmetic",
 "Tests expand a dozen fixed products; the claim is over nested products, powers and sums inside every other operation.",
 E,[("per-cell Expand","symbolic_expression_cell.cc")],["Expression::Expand"])
p("C06","Structural equality, ordering and hashing are coherent",
 "Structural equality of expressions, formulas, variables and variable sets is an equivalence under which equal objects have equal hashes and equal values; the structural order is a strict total order whose induced equivalence is structural equality. Hence ordered and hashed containers keyed by expressions or formulas hold exactly one copy of each equal object and always find it again, and two sums of the same parts, or two products of the same integral powers of variables and function applications, are equal no matter in which order they were built (coefficients small enough to be exact).",
 ["inputs","histories"],"all pairs and triples of expressions and formulas, all insertion orders",
 "Tests check the order on one fixed chain of examples; totality, transitivity and agreement between the three relations quantify over pairs and triples of arbitrary objects.",
 E+F+[D+"hash.h",D+"symbolic_variable.h",D+"symbolic_variables.cc"],[("EqualTo / Less / hash","cells")],["EqualTo","Less","get_hash","std::set<Expression>, std::unordered_set<Formula>"])
p("C07","Expressions, formulas and environments are immutable values",
 "Copies of expressions and formulas are independent values: no later operation on any object (compound assignment, move, operators on temporaries, substitution, expansion, destruction, self-assignment) changes the value, text, free variables, hash or equality of another object that was copied from it or contains it. No sequence of operations leaks, double-frees or touches freed memory.",
 ["histories"],"all histories of constructing, copying, moving, compound-assigning, embedding and destroying objects that share structure",
 "Operators reuse operands' storage when they believe nobody else holds it; unit tests hold each operand once, so aliasing bugs need specific sharing histories to show.",
 E+F,[("use-count guarded in-place updates","symbolic_expression.cc operator+/-/*, symbolic_formula.cc make_conjunction/make_disjunction"),("intrusive reference counts","symbolic_expression_cell.h, symbolic_formula_cell.h")],["to_string, Evaluate, EqualTo of every live register","AddressSanitizer/LeakSanitizer reports"])
p("C08","Reported free variables and syntactic classes are exact",
 "The free variables reported for an expression or formula are exactly the variables that occur in its simplified form outside a binding quantifier, so evaluation succeeds when exactly these are bound and its result does not depend on any other variable. The flags saying that an expression is a polynomial, and that it contains an if-then-else, are exact for the simplified form, also through nesting in formulas.",
 ["inputs"],"all expressions and formulas",
 "Cached metadata is computed per node kind at construction; tests look at a few kinds, not at metadata after in-place updates, substitutions and cancellation.",
 E+F,[("cached variables_, is_polynomial_, include_ite_","cells")],["GetVariables","GetFreeVariables","is_polynomial","include_ite"])
p("C09","Logical connectives preserve truth and normalise",
 "A formula built from comparisons, Boolean variables, and, or, not, implication, equivalence, conjunction and disjunction lists evaluates to the truth value those connectives denote at every assignment. Nested conjunctions and disjunctions are flattened and duplicates, units and absorbing constants are removed, so a conjunction or disjunction never contains its own kind, a truth constant, or fewer than two operands, and a negation never contains a negation; and the empty conjunction is true and the empty disjunction false.",
 ["inputs","programs"],"all formulas over the connectives, in all operand forms (copies, temporaries, variables), all assignments",
 "Tests evaluate fixed small formulas; flattening with in-place reuse depends on which operand is shared and on its kind.",
 F+["dreal/symbolic/symbolic.cc"],[("make_conjunction / make_disjunction","symbolic_formula.cc, dreal/symbolic/symbolic.cc"),("relational constructors","symbolic_formula.cc")],["Formula::Evaluate","get_operands"])
p("C10","Variable sets and environments behave as finite sets and maps",
 "Over any history of operations a variable set behaves as the mathematical set of variables (insert, erase, union, difference, intersection, membership, subset, strict subset, superset, equality, iteration in a fixed order), and an environment behaves as a finite map from variables to real values: the first inserted binding wins for insert, indexing updates, lookup of an absent variable fails or creates as documented, and the domain is exactly the bound variables. Anonymous variables and not-a-number values are rejected by environments.",
 ["histories"],"all histories of set and environment operations over a pool of variables",
 "Unit tests call each operation once on two or three variables; the algebra over histories, aliasing (s += s, s -= s) and corner cases is not sampled.",
 [D+"symbolic_variables.cc",D+"symbolic_variables.h",D+"symbolic_environment.cc",D+"symbolic_environment.h"],[("Variables","symbolic_variables.cc"),("Environment","symbolic_environment.cc")],["Variables and Environment API"])
p("C11","Variables have unique, stable identities",
 "Every newly created named variable, from any thread, is different from every other one even when name and type coincide; copies of a variable are equal to it and keep its name and type. Vectors of variables have the requested length, names numbered from zero, and the requested type.",
 ["schedules","histories"],"all interleavings of variable creation in several threads, all names and types",
 "Tests create variables from one thread only and compare a handful.",
 [D+"symbolic_variable.cc",D+"symbolic_variable.h","dreal/symbolic/symbolic.cc"],[("atomic id counter","symbolic_variable.cc get_next_id"),("CreateVector","dreal/symbolic/symbolic.cc")],["Variable::get_id, equal_to, get_name, get_type"])
p("C12","Sharing symbolic objects between threads is race-free",
 "Threads may concurrently copy, destroy, read, evaluate, print, compare, and build new objects out of shared expressions, formulas and variables, without data races, memory errors or leaks, and each thread obtains the same results it would obtain alone. Converting formulas to normal forms and eliminating if-then-else with one converter object per thread is likewise safe, and fresh variables they introduce are distinct.",
 ["schedules"],"all interleavings of read-only use and construction over shared objects in several threads",
 "No symbolic unit test starts a thread, while the parallel solver shares expressions, formulas and converters' variables across its workers.",
 E+F+["dreal/util/tseitin_cnfizer.cc","dreal/util/if_then_else_eliminator.cc"],[("atomic reference counts","symbolic_expression_cell.h, symbolic_formula_cell.h"),("static singletons","symbolic_expression.cc Zero/One/Pi/E/NaN, symbolic_formula.cc True/False")],["ThreadSanitizer reports","per-thread results vs. sequential results"])
p("C13","Delta strengthening implies, delta weakening is implied",
 "For every quantifier-free formula over comparisons and every positive delta, any assignment satisfying the delta-strengthened formula satisfies the formula, and any assignment satisfying the formula satisfies the delta-weakened formula. Inequalities shift by exactly delta: a strict or non-strict inequality that holds with a margin larger than delta survives strengthening, and one violated by more than delta stays violated after weakening; Boolean variables, quantified variables and truth constants are left alone.",
 ["inputs"],"all quantifier-free and quantified formulas in the supported grammar, all deltas, all assignments off the rounding boundary",
 "Tests compare the syntactic result for one formula per relation; polarity through negation and nesting is where soundness lives.",
 ["dreal/symbolic/symbolic.cc"],[("DeltaStrengthenVisitor","dreal/symbolic/symbolic.cc")],["DeltaStrengthen","DeltaWeaken"])
p("C14","Prefix output denotes the printed object exactly",
 "The prefix text produced for an expression or formula, read as SMT-LIB-style prefix notation, denotes the same function of its variables, with every finite constant recovered to the exact same double, an interval constant to one of its values; quantified formulas and uninterpreted functions are refused with an error. Printing leaves the stream's precision and formatting as it was, whether it succeeds or fails.",
 ["inputs"],"all printable expressions and formulas, all finite double constants",
 "Tests compare strings for one example per operator; operand order, nesting, unary minus, coefficients, exponents and full-precision constants combine freely.",
 ["dreal/symbolic/prefix_printer.cc","dreal/symbolic/prefix_printer.h"],[("PrefixPrinter","prefix_printer.cc")],["ToPrefix","PrefixPrinter::Print"])
p("C15","Infix output is faithful and printing has no side effect",
 "The infix text of an expression or formula, read back with the usual precedence of its fully parenthesised notation, denotes the same function, with every finite constant recovered to the exact same double, and names exactly the variables that occur. Printing changes neither the printed object nor the stream's formatting state, is deterministic, and gives the same text whatever the precision and format of the stream, equal to that of the string conversion.",
 ["inputs"],"all expressions and formulas, all stream precisions",
 "Tests compare fixed strings for a few shapes.",
 E+F,[("Display methods","symbolic_expression_cell.cc, symbolic_formula_cell.cc")],["operator<<","to_string"])
p("C16","Formula classification predicates match their definitions",
 "A formula is reported as atomic exactly when it is a truth constant, Boolean variable, comparison or quantified formula, or the negation of a Boolean variable or comparison; as a clause exactly when it is a literal (an atomic formula or the negation of one) or a disjunction of literals; and as CNF exactly when it is a clause or a conjunction of clauses; the clauses returned for a CNF formula conjoin to it. Negating a relational operator gives the complementary relation, and an intersection of variable sets is reported exactly when one exists.",
 ["inputs"],"all formulas, all variable sets",
 "Tests check a short list of formulas; the definitions are recursive.",
 ["dreal/symbolic/symbolic.cc","dreal/symbolic/symbolic.h"],[("is_atomic/is_clause/is_cnf/get_clauses/HaveIntersection","dreal/symbolic/symbolic.cc")],["those predicates"])
p("C17","Negation normal form is equivalent and normal",
 "Converting a formula to negation normal form yields a formula with the same truth value at every assignment in which negation is applied only to Boolean variables, quantified formulas and equalities or comparisons as requested; when negations are to be pushed into comparisons no comparison remains negated.",
 ["inputs"],"all formulas, both treatments of comparisons, all assignments",
 "Three unit tests over a handful of formulas each.",
 ["dreal/util/nnfizer.cc","dreal/util/nnfizer.h"],[("polarity visitor","nnfizer.cc")],["Nnfizer::Convert"])
p("C18","Distributive CNF is equivalent and in CNF",
 "Converting a formula to CNF by distribution yields a formula in CNF with the same truth value at every assignment and no variables beyond those of the input.",
 ["inputs"],"all quantifier-free formulas of moderate size, all assignments",
 "This conversion has almost no direct unit test and is used on every quantified constraint.",
 ["dreal/util/naive_cnfizer.cc","dreal/util/naive_cnfizer.h"],[("distribution visitor","naive_cnfizer.cc")],["NaiveCnfizer::Convert"])
p("C19","Definitional CNF is equisatisfiable and model-preserving",
 "Converting a formula with definitional clauses yields a set of clauses such that every assignment satisfying the formula extends, by values of the fresh variables only, to one satisfying all clauses, and every assignment satisfying all clauses satisfies the formula. Fresh variables never collide with existing ones or with those of other conversions, and the recorded definitions describe exactly the fresh variables of that conversion.",
 ["inputs","histories"],"all formulas including quantified ones, sequences of conversions with one converter, all assignments",
 "A single unit test with fixed formulas checks a shape, not both directions of equisatisfiability.",
 ["dreal/util/tseitin_cnfizer.cc","dreal/util/tseitin_cnfizer.h"],[("Tseitin transformation","tseitin_cnfizer.cc")],["TseitinCnfizer::Convert","TseitinCnfizer::map"])
p("C20","Eliminating if-then-else keeps the solutions",
 "Eliminating if-then-else expressions from a formula yields one without any, such that an assignment of the original variables satisfies the original exactly when it can be extended by values of the introduced variables to satisfy the result; under a quantifier the meaning for the remaining free variables is kept. The introduced free variables are reported and fresh, and a quantifier-free formula without if-then-else is returned unchanged. (One eliminator object serves one formula.)",
 ["inputs"],"all formulas with if-then-else at any nesting depth, in conditions, branches, under negation and quantifiers",
 "Its unit test is not even built here, and elimination under negation, nesting and quantifiers needs semantic comparison.",
 ["dreal/util/if_then_else_eliminator.cc","dreal/util/if_then_else_eliminator.h"],[("lifting visitor","if_then_else_eliminator.cc")],["IfThenElseEliminator::Process","IfThenElseEliminator::variables"])
p("C21","Predicate abstraction is faithful and reversible",
 "Abstracting a formula yields a propositional formula over Boolean variables that becomes equal to the original when each introduced variable is replaced by the atom recorded for it; one atom is always mapped to the same variable, different atoms to different variables, across all conversions of one abstractor, and existing Boolean variables and truth constants are kept.",
 ["inputs","histories"],"all formulas, all sequences of conversions with one abstractor",
 "Tests check single conversions of fixed formulas.",
 ["dreal/util/predicate_abstractor.cc","dreal/util/predicate_abstractor.h"],[("atom/variable maps","predicate_abstractor.cc")],["PredicateAbstractor::Convert","var_to_formula_map","operator[]"])
p("C22","Scoped containers restore exactly what push saved",
 "Over every history of insertions, updates, pushes and pops, a scoped vector, set or map holds exactly the content a plain copy-on-push container would hold: popping restores the content at the matching push, whatever happened in between, including overwriting and re-inserting keys. Popping without a matching push raises an error and leaves the container unchanged, and the comparisons, counts, lookups and iterators always agree with that content.",
 ["histories"],"all histories of insert, update, push, pop, copy and query operations, over all key collisions",
 "Tests run one short script per container; undo logs fail on overwrites and on multiple levels.",
 ["dreal/util/scoped_vector.h","dreal/util/scoped_unordered_set.h","dreal/util/scoped_unordered_map.h"],[("undo stacks","scoped_*.h")],["container API"])
p("C23","Option sources keep their priority",
 "For every sequence of settings of one option from the input file, the command line and code, the effective value is the latest one set by the source with the highest priority among those used, where code overrides the command line, the command line overrides the input file, and every source overrides the default; a value set from a lower-priority source never replaces one from a higher-priority source.",
 ["histories"],"all sequences of settings from the four sources",
 "Three unit tests run one sequence each.",
 ["dreal/util/option_value.h","dreal/solver/config.h","dreal/solver/config.cc"],[("source-ranked setters","option_value.h")],["OptionValue::get"])
p("C24","Integer conversions are exact or refused",
 "A double is reported as an integer exactly when it is finite, integral and representable as the integer type used, and converting a 64-bit integer to int or to double either returns the exact same number or raises an error.",
 ["inputs"],"all doubles and all 64-bit integers, in particular at the edges of the representable ranges",
 "Tests use a few small values.",
 ["dreal/util/math.cc","dreal/util/math.h"],[("is_integer / convert_int64_to_*","math.cc")],["those functions"])
p("C25","Timers count exactly the running time",
 "A stopwatch accumulates the time between start or resume and pause and nothing else: while paused its reading is constant, while running it never decreases and never exceeds the real time elapsed since it was started, pausing twice or resuming twice changes nothing, starting resets it; a scoped timer guard runs the timer exactly while the guard is active and enabled.",
 ["histories"],"all histories of start, pause, resume, read, guard construction, pause, resume and destruction",
 "One unit test runs a single script.",
 ["dreal/util/timer.cc","dreal/util/timer.h"],[("TimerBase and TimerGuard","timer.cc")],["seconds, is_running, elapsed"])
p("C26","Guards restore the ambient state on every exit",
 "A scoped guard for stream precision, floating-point rounding mode or a signal handler restores exactly the state it found, when its scope is left normally, early or by exception, also when guards are nested; while it is active its own setting is in force.",
 ["histories","fault_sequences"],"all nestings of guards and all ways of leaving them, all prior states",
 "One unit test covers one precision guard; rounding-mode and signal guards are not tested.",
 ["dreal/util/precision_guard.cc","dreal/util/precision_guard.h","dreal/util/rounding_mode_guard.h","dreal/util/signal_handler_guard.cc","dreal/util/signal_handler_guard.h"],[("RAII guards","dreal/util/*_guard.*")],["ios precision, fegetround, sigaction"])
p("C27","The thread pool runs every task exactly once",
 "Every task submitted to the pool, from any thread, runs exactly once, and its future delivers its result or its exception; destroying the pool lets all submitted tasks finish first and joins every worker, and submitting after the pool has been stopped is refused. Workers of a pool carry distinct identifiers from one to the number of workers, different from the identifier zero of the thread that never was a worker, also when pools are created one after the other.",
 ["schedules","histories"],"all interleavings of submission, execution, waiting and destruction, all pool sizes and task mixes",
 "The bundled demo and test submit a few tasks from one thread.",
 ["third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h"],[("queue, mutex, condition variable, thread-local id","ThreadPool.h")],["futures, per-task execution counters, ThreadSanitizer reports"])
p("C28","SMT-LIB sorts, logics and results convert faithfully",
 "Every logic and sort name the front end accepts parses to the value that prints as that same name, distinct names stay distinct, and unknown names are refused with an error rather than mapped to something else; each sort maps to the variable type of its meaning.",
 ["inputs"],"all names, valid or not",
 "Tests parse a couple of names.",
 ["dreal/smt2/sort.cc","dreal/smt2/logic.cc","dreal/smt2/sort.h","dreal/smt2/logic.h"],[("parse tables","sort.cc, logic.cc")],["ParseSort, SortToType, parse_logic, operator<<"])
p("C29","SMT-LIB terms keep their kind and content",
 "A term holds either an expression or a formula: it returns exactly the expression or formula it was last given, refuses access as the other kind with an error, and substitution into it, checking its sort and printing it agree with the object it holds.",
 ["histories","inputs"],"all histories of construction, assignment, access and substitution, all contents",
 "Tests build two terms.",
 ["dreal/smt2/term.cc","dreal/smt2/term.h"],[("kind tag","term.cc")],["Term API"])
p("C30","SMT-LIB commands print as what they are",
 "Each command object prints the SMT-LIB command it was made as, with exactly the arguments it was made with (numerals in decimal, logic names, keys, values and messages verbatim, the formula as the library prints it); it keeps these arguments whatever happens to the caller's objects afterwards, and copies and repeated printing give the same text.",
 ["inputs"],"all command kinds and all arguments",
 "There is one test per kind at most, with one argument.",
 ["dreal/smt2/command.cc","dreal/smt2/command_cell.cc","dreal/smt2/command.h","dreal/smt2/command_cell.h"],[("Display of cells","command_cell.cc")],["operator<<(Command), accessors of command cells"])
p("C31","File-name helpers split and read paths correctly",
 "The extension reported for a file name is the part after the last dot of its last path component, empty if there is none, where a slash separates components, and a file is reported to exist exactly when the name leads to a regular file, following links.",
 ["inputs"],"all path strings and file-system states",
 "Tests use a handful of names.",
 ["dreal/util/filesystem.cc","dreal/util/filesystem.h"],[("get_extension, file_exists","filesystem.cc")],["those functions"])
p("C32","Dynamic bit sets agree with sets of indices",
 "Over every history of operations a dynamic bit set behaves as the set of its one-bits within its size: set, reset, flip, test, any, none, all, count, finding first and next bits, bitwise operators, shifts, resizing, appending, comparison and subset tests all agree with that model, including sizes that are not multiples of the block width.",
 ["histories"],"all histories of bit-set operations, all sizes",
 "The repository does not test it here at all, yet contractor inputs and outputs, and the work-list, rely on it.",
 ["third_party/com_github_pinam45_dynamic_bitset/dreal/util/dynamic_bitset.hpp","dreal/util/dynamic_bitset.h"],[("block storage with unused bits zero","dynamic_bitset.hpp")],["dynamic_bitset API"])
B=["dreal/util/box.cc","dreal/util/box.h"]
p("C33","Boxes keep variables and intervals aligned; bisection covers",
 "Over any history of adding variables, copying, updating and uniting boxes, a box maps each of its variables to its own interval by name and by position, copies are independent, and membership, size and equality agree with that map. Bisecting a dimension gives two boxes that differ from the original only there and together contain every (for integer dimensions: every integral) point of it, and the reported largest dimension is one of largest width that can be split.",
 ["histories","inputs"],"all histories of box operations, all interval bounds including infinite, degenerate and empty, all variable types",
 "Box tests need IBEX and do not run here; they use small fixed boxes.",
 B,[("copy-on-write variable tables","box.cc Add"),("bisect_int/bisect_continuous","box.cc")],["Box API"])
p("C34","Decimal literals become enclosing intervals",
 "A decimal literal of any form the input language accepts is converted to an interval of doubles that contains the exact rational value of the literal, is a single point exactly when that value is representable, and is otherwise no wider than neighbouring doubles require; the rounding mode is left as found. A literal beyond the range of normal doubles may be refused instead.",
 ["inputs"],"all decimal literals, any sign, length and exponent",
 "The tests need IBEX and use a short list of literals.",
 ["dreal/util/string_to_interval.cc","dreal/util/interval.cc"],[("directed rounding conversion","string_to_interval.cc"),("BloatPoint","interval.cc")],["StringToInterval","BloatPoint"])
C=["dreal/contractor/"+x for x in ["contractor_ibex_fwdbwd.cc","contractor_ibex_polytope.cc","contractor_integer.cc","contractor_seq.cc","contractor_join.cc","contractor_fixpoint.cc","contractor_worklist_fixpoint.cc","generic_contractor_generator.cc","contractor_status.cc","contractor.cc"]]
p("C35","Pruning never loses a solution and reports what it did",
 "Whatever contractor is built for a formula, pruning a box only shrinks it and keeps every point of the box that satisfies the formula; if the box becomes empty, the formula has no solution in it. Every dimension that changed is flagged in the reported output (the work-list contractor, whose output covers its last step only, excepted), every constraint that contributed is recorded, and the explanation given for an empty box is a subset of the used constraints that by itself has no solution in the original box.",
 ["inputs","configurations"],"all formulas and boxes, all contractor compositions and strategies",
 "Contractor tests need IBEX and check single examples.",
 C+["dreal/util/ibex_converter.cc"],[("Prune of each contractor cell","dreal/contractor"),("GenerateExplanation","contractor_status.cc")],["Contractor::Prune","ContractorStatus"])
p("C36","Bound extraction equals the asserted bound",
 "Absorbing an asserted bound on a variable into the box gives a box containing exactly the points of the old box that satisfy it (up to the neighbouring double for strict bounds on continuous variables), and it reports the assertion as absorbed only if nothing else needs to be remembered; anything that is not a bound leaves the box untouched.",
 ["inputs"],"all atoms with either polarity, all variable types and boxes",
 "Its tests need IBEX and sample a few bounds around small positive values.",
 ["dreal/solver/filter_assertion.cc"],[("AssertionFilter","filter_assertion.cc")],["FilterAssertion"])
p("C37","Evaluation verdicts over boxes are sound",
 "When a constraint is judged valid over a box it holds at every point of the box, when it is judged unsatisfiable it holds at none, and the reported interval contains the difference of the two sides at every point.",
 ["inputs"],"all relational constraints with either polarity, all boxes",
 "The evaluator tests need IBEX and use one box each.",
 ["dreal/solver/relational_formula_evaluator.cc","dreal/solver/expression_evaluator.cc","dreal/solver/formula_evaluator.cc"],[("interval evaluation","expression_evaluator.cc"),("operator table","relational_formula_evaluator.cc")],["FormulaEvaluator::operator()","ExpressionEvaluator::operator()"])
p("C38","The propositional layer enumerates exactly the skeleton's models",
 "The propositional solver reports satisfiable exactly when the asserted formulas' Boolean skeleton together with learned clauses is satisfiable, the literals it returns make every asserted formula true in the skeleton whatever the unlisted atoms are, and after pop only the formulas of the remaining scopes count.",
 ["histories"],"all histories of assert, learn, check, push and pop",
 "The solver tests need picosat and assert two or three formulas.",
 ["dreal/solver/sat_solver.cc","dreal/solver/sat_solver.h"],[("Tseitin, abstraction, variable maps","sat_solver.cc")],["SatSolver::CheckSat"])
S=["dreal/solver/context_impl.cc","dreal/solver/theory_solver.cc","dreal/solver/icp.cc","dreal/solver/icp_seq.cc","dreal/solver/brancher.cc"]
p("C39","An unsat answer means there is no solution",
 "If the solver answers unsat for a set of constraints over its variables' domains, then no assignment in the domains satisfies all of them, for every input and every strategy (pruning, branching, work-list, polytope, local search, stacking order, any precision).",
 ["inputs","configurations"],"all constraint sets, all configurations",
 "Solver tests need IBEX and have fixed inputs; a planted solution must survive every pruning, branching and learning step.",
 S+C,[("interval constraint propagation","icp_seq.cc"),("clause learning from explanations","context_impl.cc CheckSatCore")],["Context::CheckSat"])
p("C40","A delta-sat answer satisfies the delta-weakened problem",
 "If the solver answers delta-sat, the box it returns is non-empty, lies within the variables' domains, has integral values for integer and Boolean variables, contains every declared variable and no auxiliary one, and contains a point satisfying the constraints weakened by the precision; when the constraints are propositional, equalities of a variable with a number or bounds of variables (non-strict ones for integers), the answer is exact.",
 ["inputs","configurations"],"all constraint sets, precisions and configurations",
 "Solver tests need IBEX and check a few models.",
 S+["dreal/solver/formula_evaluator.cc"],[("EvaluateBox, Tighten, ExtractModel","icp.cc, context_impl.cc")],["Context::CheckSat, get_model"])
p("C41","Checking depends only on what is currently asserted",
 "Over every history of declaring, asserting, pushing, popping and checking, each answer is one that a fresh solver could give for exactly the constraints and bounds asserted in the scopes still open; checks do not change what is asserted, and popping a scope undoes everything asserted, bounded or learned in it.",
 ["histories"],"all histories of declare, assert, push, pop, check",
 "Tests need IBEX and run one push/pop script.",
 S+["dreal/solver/sat_solver.cc","dreal/util/scoped_vector.h"],[("scoped stacks of boxes, assertions, SAT maps","context_impl.cc")],["Context::CheckSat across histories"])
p("C42","SMT-LIB input means what the standard says",
 "A script accepted by the SMT-LIB front end asserts formulas that have, at every assignment, the truth value the standard gives to the text (all supported operators, chained and n-ary forms, let scoping and shadowing, defined functions, quantifiers, numerals and decimals), and the printed answers follow the commands in order. Malformed input is refused with a diagnostic, without memory errors or hangs.",
 ["inputs","programs"],"all scripts in the supported fragment, and all byte strings for robustness",
 "The parser is not even compiled in this environment's tests; regression inputs elsewhere are fixed files.",
 ["dreal/smt2/parser.yy","dreal/smt2/scanner.ll","dreal/smt2/driver.cc","dreal/smt2/driver.h"],[("grammar actions","parser.yy"),("scoped symbol table","driver.cc")],["asserted formulas, output text"])
p("C43","DR input means what it says",
 "A file accepted by the DR front end declares each variable with its bounds and asserts constraints and cost functions whose values at every assignment are those of the text under the usual operator precedence and associativity; malformed input is refused with a diagnostic, without memory errors or hangs.",
 ["inputs","programs"],"all files in the supported grammar, and all byte strings for robustness",
 "The parser is not compiled in this environment's tests.",
 ["dreal/dr/parser.yy","dreal/dr/scanner.ll","dreal/dr/driver.cc"],[("grammar actions","parser.yy")],["asserted formulas, declared bounds"])
p("C44","Parallel solving agrees with sequential solving",
 "With any number of worker threads the solver gives an answer the sequential solver could give: unsat only if there is no solution, a valid delta-sat box otherwise; it terminates with all workers done, without data races, lost boxes or deadlock.",
 ["schedules","inputs"],"all interleavings of workers, all inputs, all job counts",
 "No parallel test runs here; interleavings are not sampled anywhere.",
 ["dreal/solver/icp_parallel.cc","dreal/contractor/contractor_ibex_fwdbwd_mt.cc","dreal/contractor/contractor_ibex_polytope_mt.cc","dreal/util/cds.h"],[("lock-free stack of boxes, box counter, found flag","icp_parallel.cc")],["Context::CheckSat with jobs > 1, ThreadSanitizer reports"])
p("C45","Quantified constraints and optimisation are sound",
 "For a universally quantified constraint, unsat means no assignment of the free variables makes the constraint hold for all values of the quantified ones in their ranges, and delta-sat returns values for which it holds up to the precision, the ranges being narrowed by the precision as well; minimising or maximising under constraints returns a feasible point up to the precision whose cost no feasible point beats by more than the precision allows.",
 ["inputs","histories"],"all quantified constraints with bounded quantified variables and all bounded optimisation problems in the supported fragment, also after earlier checks on the same solver",
 "Tests need IBEX and NLopt and solve a handful of fixed problems once.",
 ["dreal/contractor/contractor_forall.h","dreal/solver/forall_formula_evaluator.cc","dreal/solver/context_impl.cc","dreal/contractor/counterexample_refiner.cc","dreal/optimization/nlopt_optimizer.cc","dreal/api/api.cc"],[("counterexample-guided pruning","contractor_forall.h"),("Minimize encoding","context_impl.cc")],["CheckSatisfiability, Minimize, Maximize"])
p("C46","Local optimisation solves the problem stated",
 "The local optimiser finds a point within the bounds that satisfies every constraint added (relations, their negations, conjunctions of these) up to the precision, reports the objective's value there, and no feasible point of a convex problem costs notably less; parameters take the values of the environment of that run; constraints it does not support are refused. Cached expressions have the values and derivatives of their expression; refining a counterexample leaves the free variables alone and stays in the ranges of the quantified ones.",
 ["inputs","histories"],"all convex problems with linear constraints, all starting points, all parameter values and repeated runs on the same optimiser; all expressions",
 "Tests need IBEX and NLopt and solve five fixed problems, none with a negated constraint or a parameter.",
 ["dreal/optimization/nlopt_optimizer.cc","dreal/optimization/cached_expression.cc","dreal/contractor/counterexample_refiner.cc"],[("AddConstraint, Optimize","nlopt_optimizer.cc")],["NloptOptimizer, CachedExpression, CounterexampleRefiner"])
json.dump
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
import os
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    for fn in x['anchors']['files']:
        assert os.path.exists('/repo/'+fn),fn
