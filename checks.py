"""One entry per claimed property: units to build and run, what is encoded, bounds, assumptions."""
E2E = ["e2e.cpp", "h_e2e.cpp"]
API = ["h_api.cpp"]
TECH = "symbolic execution of the real C++ code over symbolic exact rationals and symbolic choices; z3 decides every branch and assertion"
TECH_BV = "symbolic execution of the compiled code (LLVM instrumentation pass, bit-vectors of the real widths); z3 decides every branch and assertion"
NOTE = ("Bounded: holds for every value of the symbolic inputs within the stated bounds when a job finishes; unfinished jobs are listed in the evidence and count as explored up to the budget only. "
        "Trusts clang, z3, the instrumentation pass and its runtime; every counterexample is replayed on the untouched code before it is reported.")
A_SYM = ["Long_fraction is replaced by a symbolic exact rational (engine/overlay); all other sources of /repo are compiled as they are",
         "std::vector, deque, map, shared_ptr code is executed as compiled; library preconditions (bounds of operator[], front, back, optional) are asserted",
         "word overflow of rational arithmetic is not modelled in this check (symbolic rationals are exact reals); C09 and C10 decide the word-level representation"]
A_GMP = ["GMP is replaced during symbolic execution by engine/gmpstub, an exact stand-in over wide bit-vectors; replays and path validation use the real GMP",]
CHECKS = {}
def sym(p, harness, focus, bounds, assumptions=(), **k):
    CHECKS[p] = dict(units=[dict(flavour="sym", harness=harness)], technique=TECH, note=NOTE, focus=focus, bounds=bounds, assumptions=list(assumptions) + A_SYM, **k)
G = "generated scripts (seeded by VERIF_SEED) have up to about 7 variables and 12 assertions; the numeric constants marked symbolic are reals or integers in small ranges given by the job"
sym("C01", E2E, ["Solver", "lra", "Linear", "Bound", "Conflict", "Variable_bounds"], "scripts: hand-written families plus generated ones; " + G + "; whole pipeline from the parsed term to the answer, answers compared with z3 on the same symbolic formula", ["the reference formula is built by a second, independent evaluator of the script (harness/e2e.cpp)"])
sym("C02", E2E, ["Smt2_parser", "Solver_wrapper", "Model"], "as C01, satisfiable instances; the printed model text is parsed back", ["the reference evaluator of harness/e2e.cpp gives the meaning of the script"])
sym("C03", API, ["Solver", "Conflict", "Bool_theory", "Clause"], "clause sets with up to 7 variables and 15 clauses of up to 6 literals; symbolic: signs of up to 6 literals, up to 4 decision picks, 4 phases, 3 restart moments")
sym("C04", API, ["Conflict", "Subsumption", "Solver"], "clause sets as in C03 and generated arithmetic instances with up to 4 real variables; subsumption and minimisation driven directly with up to 4 clauses of 3 literals", ["theory consequences are judged over the reals"])
sym("C05", API, ["lra", "Linear", "Bound", "Conflict_analysis"], "generated sets of linear constraints over up to 4 real variables with symbolic constants; symbolic schedule of up to 6 picks, phases and restarts")
sym("C06", API, ["Bounds", "Variable_bounds", "Linear_arithmetic", "Implied_value"], "as C05, plus sets of up to 5 one-variable constraints with symbolic constants in [-3, 3]")
sym("C07", API, ["Linear_arithmetic", "Variable_bounds", "Bounds"], "one variable: up to 5 bounds and excluded values, symbolic reals in [-3, 3] and a symbolic cached value; several variables as in C05")
sym("C08", API, ["Linear_constraint", "Linear_arithmetic", "Linear_polynomial"], "pairs of atoms over up to 4 variables, symbolic coefficients and right-hand sides in [-3, 3], all predicates, orders and scalings", ["each variable is listed once and at least one coefficient is not zero, as the front end guarantees"])
CHECKS["C09"] = dict(units=[dict(flavour="bv", harness=["h_frac.cpp"], gmp_stub=True, only=["lra/Long_fraction.cpp"])], technique=TECH_BV, note=NOTE, focus=["Long_fraction"], assumptions=A_GMP,
    bounds="operands: full-width numerators and denominators offset from the boundaries 0, 2^31, 2^32, 2^62.. (base symbolic, distance symbolic), word and big representation")
CHECKS["C10"] = dict(CHECKS["C09"], units=[dict(u) for u in CHECKS["C09"]["units"]])
sym("C11", E2E, ["Term_manager", "Arithmetic_polynomial", "Terms", "Parser"], "term shapes up to depth 4 with symbolic choice of connective and symbolic constants; the value of the built term and the verdict of the solver are compared with the reference meaning")
sym("C12", ["h_terms.cpp"], ["Term_table", "Term_hash_table", "Term_manager"], "histories of up to 4 constructions (all kinds, up to 3 arguments) over symbolic rational constants in [-3, 3], with up to 300 unrelated terms in between; hash values chosen by the harness so that all terms collide into two classes, or the real ones", ["symbolic rationals all have the same hash, so every pair of them goes through the equality test"])
sym("C13", E2E, ["Parser_context", "Smt2_term_parser", "Term_rewriter"], "scripts with up to 3 nested let/define-fun, symbolic choice of names, nesting and constants")
CHECKS["C14"] = dict(units=[dict(flavour="bv", harness=["h_fraction.cpp"], gmp_stub=True, only=[])], technique=TECH_BV, note=NOTE, focus=["Fraction"], assumptions=["std::gcd is replaced by Euclid's loop during symbolic execution (same contract); replays use std::gcd"],
    bounds="operands within the symbolic ranges of the jobs (around 0 and around the limits of int) whose cross products fit")
sym("C15", E2E, ["Uninterpreted", "Solver_wrapper"], "scripts with up to 3 function symbols of arity 1 or 2, up to about 6 applications, Boolean and real arguments, nested and sum arguments; " + G)
sym("C16", E2E, ["Options", "Yaga", "Linear_arithmetic", "Bounds", "Generalized_vsids"], "scripts as in C01, all combinations of --prop-rational, --prop-bounds, --phase and restart options chosen symbolically")
CHECKS["C16"]["units"].append(dict(flavour="sym", harness=API))
sym("C17", API, ["Trail", "Model"], "trail histories of up to 6 operations on 2 Boolean and 2 real variables, all arguments symbolic; plus the invariants at every propagation of the C03 and C05 runs")
sym("C18", API, ["Bool_theory"], "clauses of 3 to 6 literals beside up to 3 further clauses, schedules of up to 9 decisions/backtracks with symbolic choice and learned clauses; plus every propagation of the C03 runs", ["the clause sets have no empty clause; a clause repeating a literal is not a unit clause"])
CHECKS["C19"] = dict(units=[dict(flavour="sym", harness=["h_order.cpp"]), dict(flavour="sym", harness=["h_queue.cpp"])], technique=TECH, note=NOTE, focus=["Variable_priority_queue", "vsids", "First_unassigned"], assumptions=["scores are machine doubles, executed concretely; the schedule is symbolic"],
    bounds="up to 5 variables and 6 operations (bump, decay, rescale, pick, assign, backtrack), symbolic")
CHECKS["C20"] = dict(units=[dict(flavour="concrete", script="bmc/luby.py", job="luby_bmc", job_budget=45, harness=["h_restart.cpp"]), dict(flavour="sym", harness=["h_restart.cpp"])], note=NOTE, focus=["Restart", "restart"],
    technique="bounded model checking of the LLVM IR of Luby_restart::luby with z3 over a symbolic index; " + TECH, functions=["yaga::Luby_restart::luby (LLVM IR to z3, bmc/luby.py)"],
    bounds="luby(i) for every i in [1, 2^16-1] (thorough: 2^19-1); restart histories of up to 130 restarts; learned-clause histories of up to 6 steps over 8 variables", assumptions=["moving averages compare as exact reals outside a relative distance of 1e-4 (float rounding is out of scope)"])
sym("C21", E2E, ["Term_manager", "Smt2_term_parser", "Parser_context", "Long_fraction"], "numerals and decimals with symbolic digits (up to 24), zeros and signs; constant quotients and products")
sym("C22", ["h_dimacs.cpp"], ["yaga::Solver", "Bool_theory", "Evsids", "is_satisfying"], "files with up to 9 clauses of up to 4 literals over up to 12 variables; symbolic: literals, signs, blank space, line breaks, comments, problem line layout", ["the file is well formed: problem line before clauses, no more clauses than announced (later ones are not read)", "the front end's main is compiled into the harness and reads a scratch file"])
sym("C23", API, ["Fm_elimination", "Lra_conflict_analysis", "Linear_polynomial"], "pairs and chains of up to 3 constraints over 3 variables, symbolic coefficients in [-3, 3], all predicates", ["implication is decided by exact projection (Fourier-Motzkin over two constraints) instead of a quantified nonlinear query"])
sym("C24", E2E, ["Solver_wrapper", "Yaga", "Solver", "Smt2_parser"], "scripts with up to 4 check-sat commands, symbolic constants and symbolic choice of the assertions between them")
CHECKS["C25"] = dict(units=[dict(flavour="sym", harness=API), dict(flavour="sym", harness=E2E)], technique=TECH, note=NOTE, focus=["yaga::Solver", "Conflict_analysis", "Linear_arithmetic", "Uninterpreted"],
    bounds="Boolean searches over n <= 7 variables: at most 4 (r+1) 2^(n+1) propagation rounds with r <= 3 restarts, symbolic decisions, phases, signs and restart moments; arithmetic searches as in C05: at most 100000 rounds; scripts as in C15 and C01: an answer within 8 s (symbolic) and 20 s (replay) of processor time",
    assumptions=["the round limit of Boolean searches is four times what the progress argument allows; the limit of arithmetic searches is not derived but twenty times the largest count seen"] + A_SYM)
NOT_APPLICABLE = {}
