# Source of /verif/properties.jsonl (one place to edit; run: python3 engine/mkprops.py)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))
LRA=["src/lra/Linear_arithmetic.cpp","src/lra/Bounds.cpp","src/lra/Lra_conflict_analysis.cpp","src/lra/Variable_bounds.h","src/lra/Linear_constraint.h","src/lra/Linear_constraints.h"]
p("C01","SMT verdicts on linear real arithmetic are correct",
 "For every QF_LRA script whose final (check-sat) the solver answers, the answer is `sat` only if the conjunction of the assertions is satisfiable over the reals and `unsat` only if it is not. This holds for every Boolean structure, every rational coefficient and every rational constant, and no such script makes the solver crash.",
 ["inputs","programs"],"all formulas over Boolean and real variables; all numeric constants in them",
 "The tests run a few fixed formulas; the verdict must be right in every region of the constants' space, in particular at ties between bounds (strict against non-strict, equal, empty interval).",
 LRA+["src/Solver.cpp","src/Conflict_analysis.cpp","src/parser/Solver_wrapper.cpp","src/terms/Term_manager.cpp"],
 [("bound derivation and conflict clauses by Fourier-Motzkin elimination","src/lra/Lra_conflict_analysis.cpp, src/lra/Bounds.cpp"),("MCSat main loop","src/Solver.cpp"),("Tseitin-style internalisation of terms","src/parser/Solver_wrapper.cpp")],["stdout of smt"])
p("C02","A printed model satisfies every assertion",
 "After `sat`, (get-model) prints at most one value, of the right sort, for every declared constant, and one for each that the asserted formulas depend on (constants that simplification removed may take any value), and substituting these values makes every assertion true. Bool values, real values and their signs are printed in SMT-LIB syntax that denotes the value the solver holds.",
 ["inputs","programs"],"all satisfiable QF_LRA scripts and all numeric constants in them",
 "Tests check models of a handful of fixed formulas; a wrong value picked only in a narrow interval, or one stale value, is invisible to them.",
 LRA+["src/parser/Smt2_parser.cpp","src/parser/Solver_wrapper.cpp","src/Model.h"],
 [("value selection inside the current bounds","Linear_arithmetic::decide/find_integer, src/lra/Linear_arithmetic.cpp"),("model printing","src/parser/Smt2_parser.cpp, src/lra/Long_fraction.cpp print")],["stdout of smt"])
p("C03","Propositional verdicts and assignments are correct",
 "For every clause set the propositional solver returns `sat` exactly when the clause set is satisfiable, and then the assignment it leaves is total and satisfies every clause. Neither the order in which variables are decided, nor the phase used, nor the moments at which it restarts can change this.",
 ["inputs","histories","schedules"],"all clause sets; all decision orders, phases and restart points",
 "Tests solve a few fixed clause sets with one decision order and one restart schedule; the claim quantifies over every clause set and every heuristic history.",
 ["src/Solver.cpp","src/Conflict_analysis.cpp","src/Subsumption.cpp","src/bool/Bool_theory.cpp","src/Trail.cpp","src/Clause.h"],
 [("two-watched-literal propagation","src/bool/Bool_theory.cpp"),("first-UIP learning and backjumping","src/Conflict_analysis.cpp, src/Solver.cpp"),("clause minimisation and subsumption","src/Subsumption.cpp")],["Solver::check and the Boolean model"])
p("C04","Learned clauses follow from the input and drive the search",
 "Every clause the solver learns is a logical consequence of the asserted clauses (together with the theory), after any minimisation applied to it. Removing clauses as redundant never changes the set of satisfying assignments of the clause database, and a learned clause is false under the assignment it is learned from and leads to a propagation or decision after backtracking.",
 ["inputs","histories"],"all clause sets, all conflicts reached under all decision orders, all subsets of clauses removed at restarts",
 "Unit tests analyse a few hand-made conflicts; unsound minimisation or subsumption shows only for particular implication graphs, and rarely changes a verdict.",
 ["src/Conflict_analysis.cpp","src/Conflict_analysis.h","src/Subsumption.cpp","src/Subsumption.h","src/Solver.cpp"],
 [("resolution up to the first UIP","src/Conflict_analysis.cpp"),("recursive redundancy test and subsumption by signatures","src/Subsumption.cpp"),("backtracking with several learned clauses","Solver::backtrack_with, src/Solver.cpp")],["learned clause events and database"])
p("C05","Arithmetic conflicts and propagations are theory-valid",
 "Every conflict the arithmetic theory reports is a clause that is valid in linear real arithmetic (given the meaning of its atoms) and false in the current assignment, and every atom value it propagates is the one the current values of the real variables give it. When the theory reports no conflict, every real variable still has a value compatible with all assigned atoms that mention only it and already assigned variables.",
 ["inputs","histories"],"all sets of linear constraints and all constants, all sequences of Boolean and rational decisions, propagations and backtracks",
 "Tests check a few bound conflicts with fixed numbers; strictness, sign and disequality combinations over all constants are out of their reach.",
 LRA,[("bound, inequality and disequality conflict analysis with Fourier-Motzkin","src/lra/Lra_conflict_analysis.cpp"),("propagation of unit and fully assigned constraints","src/lra/Linear_arithmetic.cpp")],["clauses returned by Theory::propagate"])
p("C06","Deduced bounds are implied and never stale",
 "At every moment the lower bound, upper bound and excluded values the arithmetic theory uses for a real variable are consequences of constraints that are true in the current assignment and of current values of other variables, and are the strongest such unit bounds. After backtracking no bound that depends on an undone assignment is used.",
 ["inputs","histories"],"all constraint sets and constants, all interleavings of assignment and backtracking",
 "Needs sequences of push/backtrack/re-assign with ties between bounds; tests contain a few fixed sequences.",
 ["src/lra/Bounds.cpp","src/lra/Bounds.h","src/lra/Variable_bounds.h","src/lra/Linear_arithmetic.cpp"],
 [("stack of implied bounds with lazy removal of obsolete ones","src/lra/Variable_bounds.h"),("bound computation from unit constraints","Bounds::update, src/lra/Bounds.cpp")],["value ranges used for decisions and conflicts"])
p("C07","Decided values of real variables are always allowed",
 "Whenever the solver decides a value for a real variable whose permitted set is non-empty, the value lies inside the current lower and upper bound (respecting strictness) and is none of the excluded values, even when all integers, or the cached previous value, are excluded. This holds for intervals of any width, including a single point, and for any finite set of excluded values.",
 ["inputs","histories"],"all bounds, strictness flags and finite sets of excluded rational values; all previously cached values",
 "The candidate search has many special cases around zero, half-open and tiny intervals; tests exercise a few of them with fixed numbers.",
 ["src/lra/Linear_arithmetic.cpp","src/lra/Variable_bounds.h"],[("candidate value search","Linear_arithmetic::decide, find_integer, src/lra/Linear_arithmetic.cpp"),("membership test","Variable_bounds::is_allowed, src/lra/Variable_bounds.h")],["rational model after a decision"])
p("C08","Constraint atoms keep the meaning of the written constraint",
 "For every linear (in)equality, equality or negation of one, the literal that represents it is true under an assignment of its variables exactly when the written constraint is. Two constraints are represented by the same atom (or by an atom and its negation) only if they are equivalent (or complementary), regardless of scaling, of variable order and of zero coefficients. (Each variable is listed once and at least one coefficient is not zero: the front end evaluates variable-free constraints itself.)",
 ["inputs"],"all coefficient vectors, right-hand sides and predicates; all assignments",
 "Normalisation divides by a leading coefficient, flips predicates and merges duplicates; tests check a few constants, not all signs, ties and scalings.",
 ["src/lra/Linear_constraints.h","src/lra/Linear_constraint.h","src/lra/Linear_arithmetic.h","src/utils/Linear_polynomial.cpp","src/parser/Solver_wrapper.cpp"],
 [("normalisation and deduplication of constraints","src/lra/Linear_constraints.h"),("evaluation","Linear_constraint::eval, src/lra/Linear_constraint.h")],["Yaga::linear_constraint and models"])
p("C09","Rational arithmetic is exact at every magnitude",
 "Sum, difference, product, quotient, negation, inverse, floor, ceiling, numerator, denominator and comparison of rationals give the mathematically exact result for all operands, in particular across the boundary where the result or an operand stops fitting machine words. In-place and value-returning forms agree, and operands are not changed, also when an operand is the result.",
 ["inputs"],"all rational operands, with emphasis on numerators and denominators around 2^31 and 2^32 and on negative values",
 "Tests exercise small numbers only; overflow handling depends on exact operand values near the word limits.",
 ["src/lra/Long_fraction.h","src/lra/Long_fraction.cpp"],[("overflow checks that fall back to GMP","CHECK_WORD/CHECK_UWORD/CHECK_SUM_OVERFLOWS_LWORD, src/lra/Long_fraction.h"),("conversion back to words","Long_fraction::try_fit_word")],["Rational operations"])
p("C10","Rational equality, order and hash agree with the value",
 "Two rationals compare equal exactly when they denote the same number, however they were computed, the order is the numeric order, and equal rationals have equal hash values. Sign, integrality, zero and one tests and the printed form depend on the value only and denote it exactly.",
 ["inputs","histories"],"all rationals, all sequences of operations that produce them (word and big representation)",
 "A value that passes through the big representation and back must end in the same canonical form; tests do not build equal values along different routes across the word limit.",
 ["src/lra/Long_fraction.h","src/lra/Long_fraction.cpp","src/lra/Linear_constraints.h","src/terms/Terms.cpp"],[("canonical form with dual representation","State, isWellFormed, src/lra/Long_fraction.h"),("hash","getHashValue, src/lra/Long_fraction.h")],["Rational operations"])
p("C11","Building and simplifying terms preserves their meaning",
 "The term built for any well-sorted combination of the connectives the front end supports (n-ary and, or, +, distinct; binary =>, xor, =, -, *, /, <, <=, >, >=; not, unary minus, if-then-else) with linear arithmetic denotes, under every assignment of its free variables, the value the SMT-LIB expression denotes. All simplifications, rewritings, constant foldings and negations keep that value.",
 ["inputs","programs"],"all terms over Bool and Real connectives, all constants in them, all assignments",
 "Simplifications trigger on particular shapes (duplicates, complements, constants, nested ite, zero coefficients) and constants; tests cover a few shapes.",
 ["src/terms/Term_manager.cpp","src/terms/Terms.cpp","src/terms/Arithmetic_polynomial.h","src/parser/Parser_context.cpp","src/parser/Smt2_term_parser.cpp","src/parser/Solver_wrapper.cpp"],
 [("simplifying constructors","mk_* in src/terms/Term_manager.cpp"),("polynomial normalisation","src/terms/Arithmetic_polynomial.h"),("internalisation to clauses","src/parser/Solver_wrapper.cpp")],["smt verdicts; term handles"])
p("C12","Terms are shared: same structure, same handle, nothing lost",
 "Constructing a term twice from the same parts returns the same handle and constructing it from different parts returns a different one, no matter how many terms were created in between or how often the internal table grew. Kind, sort, children, value, name and polarity read back from a handle are those it was built with.",
 ["inputs","histories"],"all sequences of term constructions, including hash collisions and table growth",
 "Collisions, growth and tombstones depend on hash values and on long histories; no test reaches them.",
 ["src/terms/Term_hash_table.cpp","src/terms/Term_hash_table.h","src/terms/Terms.cpp","src/terms/Terms.h"],
 [("open-addressing hash table with growth","src/terms/Term_hash_table.cpp"),("hash-consing of term descriptors","src/terms/Terms.cpp")],["term handles"])
p("C13","let and define-fun follow SMT-LIB scoping",
 "A name bound by let denotes its bound term exactly inside the let body, bindings of one let do not see each other, inner bindings and parameters shadow outer ones and the outer meaning returns afterwards. A defined function applied to arguments denotes its body with the parameters replaced simultaneously by the arguments, in every polarity and nesting.",
 ["programs","inputs"],"all nestings of let, define-fun and applications; all constants in them",
 "Scoping and substitution mistakes need particular nestings (shadowing, swapped parameters, reuse under negation); no existing test exercises them.",
 ["src/parser/Parser_context.cpp","src/parser/Smt2_term_parser.cpp","src/terms/Term_rewriter.h","src/terms/Term_manager.cpp"],
 [("binding scopes","src/parser/Parser_context.cpp"),("simultaneous substitution","src/terms/Term_rewriter.h")],["smt verdicts"])
p("C14","Small fixed-width fractions are exact and canonical",
 "Fractions over a fixed-width integer type give the exact sum, difference, product, quotient, inverse, comparison and conversion to integers whenever the canonical result and the operands' cross products fit the type, and results are always canonical: lowest terms and positive denominator. (Operands above the smallest value of the type, whose negation does not exist.) Equal fractions are equal as values and have the same hash.",
 ["inputs"],"all operand pairs whose cross products fit the type",
 "Tests use about thirty fixed operand pairs.",
 ["src/lra/Fraction.h"],[("normalisation by gcd and sign","Fraction constructors, src/lra/Fraction.h")],["Fraction operations"])
p("C15","Uninterpreted functions behave as functions",
 "For every QF_UFLRA script the answer is `sat` only if the assertions have a model in which every function symbol maps equal arguments to equal results, and `unsat` only if they have none. After `sat`, the printed function definitions and constants satisfy the assertions.",
 ["inputs","programs","histories"],"all QF_UFLRA formulas and constants, all orders in which arguments and results get values",
 "Congruence has to be enforced for every way in which argument values coincide and after every backtrack; tests cover a few fixed cases.",
 ["src/uf/Uninterpreted_functions.cpp","src/uf/Uninterpreted_functions.h","src/parser/Solver_wrapper.cpp","src/parser/Smt2_parser.cpp"],
 [("watching of arguments and functional consistency lemmas","src/uf/Uninterpreted_functions.cpp"),("model printing","Print_model::visit_fnc, src/parser/Smt2_parser.cpp")],["stdout of smt"])
p("C16","Command-line options never change an answer",
 "With every combination of the rational-propagation, bound-deduction and phase options the solver gives the same, correct answer on every script it finishes, its models satisfy the assertions, and it does not crash.",
 ["configurations","inputs"],"all option combinations, all QF_LRA formulas and constants",
 "The tests run only the default configuration.",
 ["src/Options.h","src/Yaga.cpp","src/smt_solver.cpp","src/lra/Linear_arithmetic.cpp","src/lra/Bounds.cpp","src/variable_order/Generalized_vsids.cpp","src/bool/Bool_theory.cpp"],
 [("option plumbing","src/Yaga.cpp, src/smt_solver.cpp"),("bound deduction","Bounds::deduce, src/lra/Bounds.cpp"),("phase saving","src/bool/Bool_theory.cpp")],["stdout of smt"])
p("C17","Backtracking restores the assignment exactly",
 "After backtracking to a decision level, exactly the assignments made at that level or below remain, with their values, reasons, levels and relative order; everything above is unassigned in the model. Recording, deciding and propagating never loses or duplicates an assignment, including propagations recorded at a lower level than the current one (they are listed with the level at which they were recorded and keep the level that justifies them).",
 ["histories"],"all sequences of decide, propagate (at any level), backtrack and clear",
 "Late propagations at lower levels mixed with backtracking need multi-step sequences; tests cover a few.",
 ["src/Trail.cpp","src/Trail.h","src/Model.h"],[("trail with per-level lists","src/Trail.cpp")],["Trail queries and models"])
p("C18","Unit propagation is complete and never misses a conflict",
 "When Boolean propagation ends without a conflict, no clause is falsified and every clause (without repeated literals) whose literals are all false but one has that one true; when it reports a conflict, the reported clause is falsified. Each propagated literal has a reason clause in which it is the only literal not false, and this stays so across decisions, backtracking and learning of further clauses.",
 ["inputs","histories"],"all clause sets; all sequences of decisions, backtracks and learned clauses",
 "A missed watch leads to a wrong result only on later, particular sequences; tests propagate on small fixed formulas.",
 ["src/bool/Bool_theory.cpp","src/bool/Bool_theory.h","src/Clause.h"],[("two watched literals","src/bool/Bool_theory.cpp")],["Bool_theory::propagate, trail"])
p("C19","The next variable is unassigned and of highest priority",
 "As long as some variable is unassigned the decision heuristic returns an unassigned variable, and it returns none only when all are assigned; with activity scores the returned variable has the highest score among the unassigned ones of the kinds it orders. This holds after any sequence of score updates, rescaling, assignments and backtracks.",
 ["histories"],"all sequences of bumps, decays, rescales, picks, assignments and backtracks",
 "A variable lost from the queue shows only after particular histories and then makes the solver answer sat with a partial model.",
 ["src/variable_order/Variable_priority_queue.cpp","src/variable_order/Evsids.cpp","src/variable_order/Generalized_vsids.cpp","src/variable_order/First_unassigned.cpp","src/variable_order/Combined_order.h"],
 [("binary heap with positions","src/variable_order/Variable_priority_queue.cpp"),("re-insertion on backtrack","on_before_backtrack in src/variable_order/Evsids.cpp, Generalized_vsids.cpp")],["Variable_order::pick"])
p("C20","Restart schedule follows the Luby sequence and averages",
 "The Luby policy restarts after a number of learned clauses that follows the Luby sequence times the multiplier, for every index. The moving-average policy counts the distinct decision levels of each learned clause, never restarts before the configured minimum number of conflicts since the last restart, and restarts exactly when the fast average reaches the threshold times the slow one.",
 ["inputs","histories"],"all sequence indexes; all sequences of learned clauses and restarts",
 "Tests check a prefix of the sequence and a few fixed clause sequences.",
 ["src/Restart.h"],[("Luby sequence and exponential moving averages","src/Restart.h")],["Restart::should_restart"])
p("C21","Numerals, decimals and constant divisions are read exactly",
 "Every numeral, decimal and constant quotient or product in a script denotes exactly its mathematical value, whatever its length, leading or trailing zeros and sign.",
 ["inputs"],"all digit strings for numerals and decimals, all constant divisions",
 "Digit strings beyond a few digits, fractions with leading zeros and divisors beyond the word size are not in any test.",
 ["src/terms/Term_manager.cpp","src/parser/Smt2_term_parser.cpp","src/parser/Parser_context.cpp","src/lra/Long_fraction.cpp"],
 [("construction of constants from text","mk_integer_constant/mk_rational_constant, src/terms/Term_manager.cpp"),("division by a constant","mk_divides, src/terms/Term_manager.cpp")],["smt verdicts and models"])
p("C22","The DIMACS front end solves the formula in the file",
 "For every well-formed DIMACS CNF file the printed answer (SAT or UNSAT) and the exit status are those of the formula in the file, whatever the layout of clauses, blank space and comments and including empty and unit clauses, duplicate and complementary literals.",
 ["inputs"],"all well-formed DIMACS CNF files",
 "No test runs the DIMACS front end.",
 ["src/sat_solver.cpp","src/Clause.h"],[("line-oriented reader","src/sat_solver.cpp")],["stdout of sat"])
p("C23","Fourier-Motzkin combination is exact",
 "Resolving two constraints on a variable yields the constraint implied by them in which the variable is eliminated, with strictness exactly when one of the two is strict, for all signs of the coefficients. The justification literals returned are the negations of the constraints used.",
 ["inputs"],"all pairs of linear constraints with any coefficients and predicates",
 "Sign and strictness combinations times ties of constants; tests fix a few.",
 ["src/lra/Lra_conflict_analysis.cpp","src/lra/Lra_conflict_analysis.h","src/utils/Linear_polynomial.cpp"],[("elimination step","Fm_elimination::resolve, src/lra/Lra_conflict_analysis.cpp")],["conflict clauses"])
p("C24","Each run of check-sat answers for the current assertions",
 "Every (check-sat) in a script answers for the conjunction of all assertions made before it, independently of earlier (check-sat) commands and of declarations in between, and (get-model) after it describes that answer.",
 ["histories","programs"],"all scripts with several check-sat commands",
 "Needs several commands in sequence with state kept between them; no test has more than one check-sat.",
 ["src/parser/Solver_wrapper.cpp","src/parser/Smt2_parser.cpp","src/Yaga.cpp","src/Solver.cpp"],[("re-initialisation of the solver between checks","Solver_wrapper::check, Yaga::init, Solver::init")],["stdout of smt"])
p("C25","The search always makes progress and ends",
 "A search ends with an answer: between two restarts no state repeats, so a search over n Boolean variables needs at most 2^(n+1) propagation rounds per restart interval whatever variables and values are decided, and a search over linear arithmetic or uninterpreted functions that starts from finitely many atoms reaches an answer for every decision order, phase, option and constant (it does not loop by learning a clause that does not lead it away from the conflict, by undoing a decision and repeating it, or by creating atoms for ever). Restarts that follow the restart policy do not prevent this.",
 ["inputs","histories"],"all formulas, decision orders, phases, restart moments","A test shows that one schedule on one input ends; a non-progressing backtrack needs a particular decision order or conflict set.",
 ["src/Solver.cpp","src/Conflict_analysis.cpp","src/lra/Linear_arithmetic.cpp","src/lra/Lra_conflict_analysis.cpp","src/uf/Uninterpreted_functions.cpp"],[("backtracking of semantic decisions","Solver::backtrack_with, src/Solver.cpp"),("search loop","Solver::check, src/Solver.cpp")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
