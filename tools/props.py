P, S, L = "inflation/InflationProblem.py", "inflation/sdp/InflationSDP.py", "inflation/lp/InflationLP.py"
Q, F, U = "inflation/sdp/quantum_tools.py", "inflation/sdp/fast_npa.py", "inflation/utils.py"
SU, LU = "inflation/sdp/sdp_utils.py", "inflation/lp/lp_utils.py"
SW, LW = "inflation/sdp/writer_utils.py", "inflation/lp/writer_utils.py"
NOT_APPLICABLE = {}
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique, level, note, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier={"over": over, "text": text}, why_tests_cant=why,
                      anchors=a, technique=technique, level=level, note=note))


EXH = "exhaustive bounded enumeration of the real implementation against a reference model"

prop("C01", "A scenario description is turned into the right inflation",
     "For every valid scenario (causal graph, cardinalities, copy numbers, party order, classical sources, intermediate "
     "latents) the inflation problem lists exactly the operators (party, one copy index per source reaching it, setting, "
     "outcome) that the definition of the inflation prescribes, with visible parents folded into settings and intermediate "
     "latents replaced by the sources that feed them. A malformed description is rejected instead of silently reinterpreted, "
     "and every accepted form of the same description (list, tuple, set, numpy array) means the same problem.",
     ["configurations", "inputs"],
     "all DAGs, cardinalities, settings, copy numbers, orders, classical/quantum assignments and latents",
     "The tests build about ten hand-picked scenarios; graph x cardinality x order x latents combinations are unlimited.",
     [P], [("InflationProblem.__init__: graph unpacking, network rewriting, latent unpacking, lexorder", f"{P}:37-400")],
     EXH, "exploration",
     "Every scenario of the stated finite family is built with the real class and compared operator by operator with a model "
     "written from the definition. Nothing is claimed beyond the bounds (<=3 parties, <=3 sources, 4 in parts).",
     observe=["InflationProblem attributes and operator list"])

prop("C02", "Operators commute exactly when no common quantum source copy forbids it",
     "Two operators of an inflation are treated as commuting if and only if they share no copy of any quantum source, or else "
     "belong to different parties fed by exactly the same copies (or are the same measurement), with classical sources and "
     "classical intermediate latents never causing non-commutation. The relation is symmetric, and in fully classical problems it is total; the list of non-vanishing commutators is exactly that of the pairs that do not commute.",
     ["configurations"], "every pair of operators of every scenario, with every classical/quantum labelling and latent layout",
     "Tests fix single matrices for a few scenarios; mixed classical/quantum sources and latents multiply the cases.",
     [P, F], [("commutation tables built from the hypergraph and classical flags", f"{P}:__init__"),
              ("commuting / notcomm lookup", f"{F}")],
     EXH, "exploration",
     "All ordered operator pairs of every scenario in the family are compared with the physical rule.")

prop("C03", "Factorisation splits products exactly into independent groups",
     "Every product of operators is split into factors such that operators in different factors share no source copy, no "
     "factor can be split further, no operator is lost, duplicated or reordered inside its factor, and the result does not depend on the order in which products are examined.",
     ["configurations", "inputs"], "every word over the operators of every scenario",
     "Tests factorise three or four words; connectivity through chains of copies needs specific words.",
     [P, S, L], [("factorize_monomial_2d / factorize_monomial_1d", f"{P}:759-858"), ("cache of factorisations", f"{P}")],
     EXH, "exploration",
     "All words up to a length and all operator subsets of small alphabets, for every scenario of the family, against a brute-force connected-component model.")

prop("C04", "Copies of a source are interchangeable, and nothing else is",
     "Relabelling the copies of any source, and only that, leaves every expectation value unchanged: the symmetries used are exactly "
     "the group generated by all independent permutations of copies, and two products of compatible events are the same variable of the "
     "linear program if and only if factor by factor they are related by such a relabelling.",
     ["configurations", "inputs"], "every scenario and every set of mutually compatible events",
     "Tests check the number of symmetries or variables of a few scenarios; a wrong orbit with the right size passes.",
     [P, L], [("discover_lexorder_symmetries / lexorder_symmetries", f"{P}:860-919"), ("orbit discovery of events", f"{L}:1618-1663")],
     EXH, "exploration",
     "Groups compared as sets; orbits compared with a brute-force model on every event of each scenario of the family.")

prop("C05", "Moments are identified exactly by the operator algebra, in any query order",
     "In the semidefinite relaxation two products of operators denote the same moment if and only if they are equal by commutation, "
     "projectivity, orthogonality of outcomes, copy relabelling of independent factors and complex conjugation; products containing two "
     "orthogonal outcomes of one measurement that can be brought together are zero, and only the empty product is one. The answer does not depend on which products were asked about before.",
     ["inputs", "histories", "configurations"], "all pairs of words and all orders in which words are first met",
     "Tests canonicalise a handful of words; identity depends on memoised state, so on every earlier query.",
     [S, F, Q], [("_to_canonical_memoized_1d, _to_inflation_repr_1d, Moment_1d/2d", f"{S}:1363-1660, 2211-2300"),
                 ("to_canonical, nb_mon_to_lexrepr, apply_source_perm", F)],
     "explicit-state exploration of query histories on the real object, against an exhaustive-rewriting model", "model_checking",
     "All words up to length 3-5 and all ordered pairs of short words from a fresh object, on a menu of 22 scenarios; the model closes a word under all rewrites, with no normal-form algorithm of its own.",
     state=[("canonical-form and orbit caches", "filled by each query; must not influence later answers", S)])

prop("C06", "The moment matrix of the SDP is the right one",
     "The moment matrix is indexed by the given monomials, its (i,j) entry is the moment of the adjoint of monomial i times monomial j, "
     "two entries carry the same variable exactly when they are equal moments, zero and one entries are exactly the moments forced to zero "
     "and one, and the classification of moments (zero, one, atomic, hermitian, knowable, physical, commuting) says what the operators imply. "
     "Lower bounds of zero are imposed by default only where every model gives a non-negative value.",
     ["configurations", "inputs"], "all scenarios and all generating sets",
     "Tests compare sizes of matrices or one optimum; a wrongly merged or split entry changes neither in most scenarios.",
     [S, Q, F], [("_build_momentmatrix, momentmatrix symmetrisation", S), ("calculate_momentmatrix", Q), ("MonomialSDP classification", "inflation/sdp/monomial_classes.py")],
     EXH, "exploration",
     "Every entry of the moment matrix of every scenario of a menu with several generating sets is compared with an exhaustive-rewriting model of the operator algebra.")

prop("C07", "Known moments are exactly those readable off the distribution",
     "Giving a probability distribution fixes exactly those moments all of whose independent factors are probabilities of that distribution "
     "(the operators of a factor are measured together in the original scenario, for the copies used, settings and parents' values), each at the probability "
     "of the event it stands for; with no shared randomness products are the product of the factors' probabilities. Moments that the distribution does not "
     "determine are never fixed by it. This holds in the SDP and the LP, for every axis order, visible graph, latents and incomplete sets of parties.",
     ["configurations", "inputs"], "all scenarios, all moments, all distributions",
     "Tests compare a few moments in two or three scenarios; transposed axes or a wrong setting need asymmetric scenarios to show.",
     [P, S, L, Q], [("knowability of atoms: _is_knowable_q_split_node_check and marginals", f"{P}, {S}"),
                 ("compute_marginal", "inflation/sdp/monomial_classes.py, inflation/lp/monomial_classes.py"), ("set_distribution", f"{S}, {L}")],
     EXH, "exploration",
     "Each knowable moment is evaluated on an array of distinct powers so that its value reveals exactly which entries were summed; all scenarios of a family, all words to length 3.")

prop("C08", "Generating sets are what their descriptions say",
     "Each way of specifying the generating monomials (npaN, localN, physicalN, local-products, lists of party blocks, explicit lists of "
     "names, symbols or arrays) gives exactly the set of monomials its documentation defines for that scenario, each operator product once up to "
     "equality, always including the identity where documented, never containing zero products, and equivalent descriptions give the same set.",
     ["configurations", "inputs"], "all scenarios and all column specifications",
     "Tests check lengths of a few lists and the content of fewer.",
     [S, F, Q], [("build_columns, _build_cols_from_specs", S), ("_generate_parties / generate_physical_monomials", S)],
     EXH, "exploration",
     "All descriptions up to stated level for each scenario of a menu against sets enumerated from the documented definition.")

SEM = "exhaustive enumeration of explicit finite models (semantic oracle) executed against the real implementation"
prop("C09", "Nothing that a classical model produces is ever excluded",
     "For every classical causal model of the scenario (sources emitting values, deterministic responses, visible parents and classical latents), the behaviour it "
     "induces on all operators of the inflation satisfies every constraint that the SDP and the LP pass to their solver once its own distribution is set: equal moments are "
     "equal, fixed values agree, linearised polynomial constraints, normalisation, positivity, default bounds and supports hold. "
     "Hence a compatible distribution is never declared infeasible, with or without linearised constraints or shared randomness, in value and in supports problems.",
     ["inputs", "configurations"], "all classical models of all scenarios, all relaxations",
     "Tests solve a few known distributions; an unsound constraint is only seen if a tested model happens to violate it.",
     [P, S, L, Q, F], [("constraints handed to the solver", f"{S}, {L}: _prepare_solver_arguments / _prepare_solver_matrices"),
                       ("set_distribution, set_values, linearised constraints", f"{S}, {L}")],
     SEM, "exploration",
     "All deterministic strategies of a finite family on 22 scenarios; feasibility of the exact point is checked row by row, no solver involved.")

prop("C10", "Nothing that a quantum model produces is ever excluded",
     "For every quantum model of the scenario (states distributed by the sources, projective measurements, quantum or classical latents, mixtures with classical sources) "
     "the moments it induces on the inflation fill the moment matrix (equal cells are equal, it is a Gram matrix) and satisfy every fixed value, linearised constraint, equality, "
     "inequality and bound that is passed to the solver once its own distribution is set, in the SDP and in the non-fanout LP.",
     ["inputs", "configurations"], "all quantum models of all scenarios, all relaxations",
     "Tests use a few classical or GHZ-like correlations; rules that are wrong only for non-commuting operators or complex moments are not exercised.",
     [P, S, L, Q, F], [("commutation, factorisation, symmetries, default lower bounds", f"{P}, {S}"),
                       ("constraints handed to the solver", f"{S}, {L}")],
     SEM, "exploration",
     "All combinations of states and measurements from finite lists on 21 scenarios, as explicit vectors of the whole inflation.")

prop("C11", "The linear program has exactly the right variables and constraints",
     "The variables of the LP are exactly the orbits of compatible events (in Collins-Gisin form where outcomes are redundant), the inequalities are exactly the "
     "probabilities of the maximal compatible events, the equalities span exactly the normalisation of every event over every measurement kept with all outcomes, and "
     "the factorisation conditions relate each product to its independent factors; nothing is missing and nothing else is imposed.",
     ["configurations"], "all scenarios, with and without all outcomes, supports mode and non-fanout",
     "Tests check the number of rows for one scenario; a missing or wrong row in another scenario weakens or falsifies results silently.",
     [L, P, U], [("_raw_monomials, minimal_sparse_equalities, minimal_sparse_inequalities", f"{L}:1270-1420"),
              ("compatible templates (cliques)", f"{P}:405-420, {U}")],
     EXH, "exploration",
     "Row-by-row comparison with the definition for every scenario of the family (about 200 scenarios x 3 modes within the size cap).")

prop("C12", "Normalisation equalities of the SDP are sound and complete",
     "In scenarios with visible edges and in supports problems, the equalities imposed on the moment matrix span exactly the relations 'a product without an operator is the "
     "sum over its outcomes' between columns of the generating set, for every row; no other relation is imposed and none is lost, whatever the generating set.",
     ["configurations", "inputs"], "all scenarios and generating sets",
     "Tests check one list for one generating set; relations that need reordering or several operators per column are lost silently.",
     [S, Q], [("_discover_normalization_eqns", S), ("construct_normalization_eqs", Q)],
     EXH, "exploration",
     "Ranks of implemented and defined relations compared for all generating sets of a family.")

prop("C21", "Names, symbols and arrays of a moment all denote the same moment",
     "The name, the symbolic form and the operator array of any moment, each given back to the library in any documented form (products in any order, powers, "
     "conditional-probability notation with and without settings or parents' values, the numbers 0 and 1), denote that same moment in both the SDP and the LP; two "
     "different moments never share a name, and what cannot be interpreted is rejected rather than read as another moment.",
     ["inputs"], "all moments of all scenarios, in every accepted notation",
     "Tests parse a handful of names; the notation has many variants and scenarios change how names print.",
     [S, L, Q], [("_sanitise_monomial, _interpret_name, _interpret_atomic_string", f"{S}, {L}"), ("to_name, to_symbol, symbol parsing", Q)],
     EXH, "exploration",
     "Round trips of all moments of the menu scenarios in all notation variants; exhaustive over products of two atoms.")

HIST = "bounded explicit-state exploration of operation histories on the real objects (states snapshotted by fork), each state compared with a reference model"
prop("C13", "The SDP solved is the one asked for, whatever the calls made before",
     "After any sequence of set_distribution, set_values, update_values, set_objective, set_bounds, set_extra_equalities/inequalities, reset, solve and generate_relaxation on an "
     "InflationSDP, the problem handed to the solver (fixed values, proportionalities, objective and its sign, equalities, inequalities, bounds) is the one described by the calls "
     "that are still in force; nothing set before and replaced or reset survives, nothing in force is lost, and the result of an earlier solve is not reported for a changed problem.",
     ["histories"], "all sequences of user operations",
     "Tests run a few fixed sequences; state that leaks from one call to another only shows in particular sequences.",
     [S], [("set_values/update_values, _cleanup_after_set_values", f"{S}:640-800, 2030-2070"), ("reset and _reset_*", f"{S}:1290, 2070-2120"),
           ("_update_objective, _update_bounds, _prepare_solver_arguments", f"{S}:2119-2300")],
     HIST, "model_checking",
     "All sequences up to length 2 over 30 operations on 5 scenarios, length 3 over 17 operations (thorough: 3 and 4); the reference model is compared with the implementation after every operation.")
prop("C14", "The LP solved is the one asked for, whatever the calls made before",
     "After any sequence of set_distribution, set_values, update_values, set_objective, set_bounds, set_extra_equalities/inequalities, reset and solve on an InflationLP, the problem "
     "handed to the solver is the one described by the calls that are still in force; nothing set before and replaced or reset survives, nothing in force is lost, and the "
     "result of an earlier solve is not reported for a changed problem.",
     ["histories"], "all sequences of user operations",
     "Tests run a few fixed sequences; state that leaks from one call to another only shows in particular sequences.",
     [L], [("set_values/update_values, _cleanup_after_set_values", f"{L}:376-520, 1709-1732"), ("reset and _reset_*", f"{L}:888, 1734-1795"),
           ("_prepare_solver_matrices, sparse_* properties", f"{L}:1797-1950")],
     HIST, "model_checking",
     "All sequences up to length 2 over 29 operations on 5 scenarios, length 3 over 16 operations (thorough: 3 and 4); the reference model is compared with the implementation after every operation.")
prop("C15", "Values propagate exactly to products of moments",
     "When values are given to moments, every moment of the relaxation whose factors are all known is fixed to the product of their values; with linearised polynomial constraints, "
     "every moment with some known factors is tied to the product of its unknown factors with exactly that coefficient (or fixed to zero when the known part is zero); without them or "
     "with only_specified_values nothing else is fixed; the objective, constraints and bounds are those obtained by substitution. Later values override earlier ones.",
     ["inputs", "histories"], "all sets of moments that can be given values",
     "Tests set one full distribution; partial knowledge, unknowable moments and zero values are not exercised.",
     [S, L, "inflation/sdp/monomial_classes.py", "inflation/lp/monomial_classes.py"],
     [("update_values", f"{S}:661-783, {L}:376-488"), ("CompoundMoment.evaluate", "inflation/lp/monomial_classes.py, inflation/sdp/monomial_classes.py"),
      ("_update_objective", f"{S}:2119")],
     HIST, "model_checking",
     "Every small set of elementary moments (including those outside the relaxation), generic and zero values, three modes, every split in two calls, on 18 SDP/LP objects.")
prop("C16", "Objectives, extra constraints and bounds reach the solver as written",
     "A polynomial given as objective, extra equality or extra inequality, or bounds given on moments, in any accepted notation (dictionaries with names, symbols, arrays or moment objects "
     "as keys, symbolic expressions in any algebraic form), reaches the solver with exactly its coefficients: equal moments add up, constants are kept, known moments are "
     "substituted by their values, 'min' and 'max' have the right sign, and bounds of one type replace earlier ones of that type only.",
     ["inputs"], "all polynomials in all notations",
     "Tests set a couple of objectives; a lost constant or a term overwritten by an equal one changes results without an error.",
     [S, L], [("_sanitise_dict", f"{S}:1614, {L}:1119"), ("set_objective, set_bounds, set_extra_*", f"{S}:439-660, {L}:205-375, 517-552"),
              ("_prepare_solver_arguments", f"{S}:2219, {L}:1901")],
     EXH, "exploration",
     "All sums of up to three terms over a menu of moments in each notation, in four roles, before and after values are known, on 15 SDP/LP objects.")

prop("C17", "The LP solver interface returns the solution of the program it was given",
     "For every linear program handed to the solver interface (objective, known values, equalities, inequalities, bounds, default non-negativity, relaxations, in dictionary "
     "or matrix form, primal or dual), the value, status, variable values and certificate returned are those of that program: variables satisfy all constraints, the value is "
     "the optimum, infeasible programs are reported as such, the arguments are left untouched, and the certificate upper-bounds the objective for every other assignment of the "
     "known values (or is negative only where the program is infeasible).",
     ["inputs"], "all linear programs in all accepted forms",
     "Tests solve a few LPs and need a MOSEK licence; a lost term or a sign only shows in programs that use it.",
     [LU], [("solveLP, solveLP_sparse", f"{LU}:22-560")],
     EXH, "exploration",
     "All programs of stated finite families; the optimiser inside MOSEK is replaced by HiGHS at the level of mosek.Task, everything above is the real code. Expected values from an independent "
     "formulation solved by scipy.")

prop("C18", "The SDP solver interface returns the solution of the program it was given",
     "For every semidefinite program handed to the solver interface (moment matrix masks, objective, known values, proportionality constraints eliminated or kept, equalities, "
     "inequalities, feasibility as optimization, primal or dual), the value, status, variable values, matrix, multipliers and certificate returned are those of that program, and "
     "the certificate upper-bounds the optimum for every other assignment of the known values (or is negative only where the program is infeasible).",
     ["inputs"], "all semidefinite programs in all accepted forms",
     "Tests solve a few SDPs and need a MOSEK licence; a lost term or a sign only shows in programs that use it.",
     [SU], [("solveSDP_MosekFUSION", f"{SU}:17-570")],
     EXH, "exploration",
     "All programs of stated finite families; the optimiser inside MOSEK is replaced by a certifying cone solver at the level of mosek.Task, Fusion and everything above are the real code.")

prop("C22", "Verdicts, optimal values and certificates of solved problems are right",
     "Solving an LP or SDP relaxation gives the right answer to the user's question: distributions that a model of the scenario produces (and those inside the set characterised exactly, "
     "as CHSH, Tsirelson, Pearl) are never declared infeasible, distributions outside are declared infeasible where the relaxation is exact, optimal values of objectives bound those of every "
     "model and equal the known maxima, and the certificate evaluates, in every form offered (dictionary, string, symbolic, evaluate_polynomial, evaluate_distribution), to a negative number on the "
     "infeasible distribution and to non-negative numbers on all feasible ones.",
     ["inputs", "configurations"], "all distributions, objectives, bounds and relaxations",
     "Tests solve a few known cases and need a MOSEK licence; unsound verdicts and certificates only show on other distributions.",
     [S, L, U], [("solve", f"{S}:790-865, {L}:553-637"), ("certificate_as_dict/probs/string, evaluate_polynomial, evaluate_distribution", f"{S}:870-1100, {L}:639-860"),
                 ("clean_coefficients", U)],
     EXH, "exploration",
     "All distributions of finite lists for a menu of SDP/LP objects; the optimiser inside MOSEK is replaced at the level of mosek.Task. Expected verdicts from models of the scenario and from "
     "exact criteria; certificates of every infeasible point are evaluated on every point.")

prop("C23", "The critical parameter found by max_within_feasible is the critical one",
     "Given the dependence of the moments on one parameter, max_within_feasible returns, with either method, the largest value of the parameter for which the program is feasible, "
     "within the precision asked for, whatever form the values take (all known moments, only some, numbers mixed with expressions); the surface it returns vanishes at that value, "
     "is positive before and negative after.",
     ["inputs"], "all one-parameter families of moments",
     "Tests find the visibility of one family (and need a MOSEK licence); certificates with constants or derived moments made the dual method raise.",
     ["inflation/optimization_utils.py", U], [("_maximize_via_bisect, _maximize_via_dual", "inflation/optimization_utils.py:97-330"), ("make_numerical", U)],
     EXH, "exploration",
     "All paths between the feasible and infeasible points of finite lists for ten SDP/LP objects, all combinations of options (thinned by a fixed rule in the quick check).")

prop("C24", "Verbosity and solver parameters change nothing but the output",
     "How much is printed (the verbosity of the problem, of the relaxation and of each call) never changes the inflation, the relaxation, the problem passed to the solver, files written or values "
     "returned, after any sequence of calls, and no verbosity makes a call fail; at verbosity 0 nothing is printed. Parameters given for the solver reach it, and leave everything else as it is.",
     ["configurations"], "all verbosities of every object and call, along all histories",
     "No test solves or exports with a verbosity, and results with and without it are never compared.",
     [P, S, L, "inflation/lp/lp_utils.py", "inflation/sdp/sdp_utils.py", "inflation/optimization_utils.py"],
     [("verbose in generate_relaxation, set_values, solve", f"{S}:318-420, 646-780, 831-870"), ("verbose in the LP", f"{L}:95-180, 1300-1480, 1722-1735"),
      ("solveLP, solveSDP_MosekFUSION", "inflation/lp/lp_utils.py:206-545, inflation/sdp/sdp_utils.py:170-540")],
     EXH, "exploration",
     "Fourteen scenarios (five with LPs), eight histories covering every public method, verbosities 0-3 of problem, relaxation and calls (thorough: all 80 combinations).")

prop("C25", "The sets of jointly measurable measurements are enumerated exactly",
     "The compatible templates of a problem, from which columns of physical relaxations and events and inequalities of linear programs are built, are exactly the sets of measurements of the inflation that are "
     "pairwise compatible, each listed once; with a cutoff, those of at most that size; and the maximal ones reported are exactly those that no other measurement can be added to (with a cutoff, those of "
     "them within it). The same holds for the cliques of any graph.",
     ["configurations", "inputs"], "all compatibility graphs, cutoffs and scenarios",
     "One test enumerates the cliques of one graph; none uses the cutoff, and the templates of the tested scenarios come in a few regular shapes. With a cutoff, what was reported as maximal depended on the order of the vertices.",
     ["inflation/utils.py", P, L], [("all_and_maximal_cliques", "inflation/utils.py:184-232"), ("all_and_maximal_compatible_templates", f"{P}:409-419"),
      ("all_compatible_templates, maximal_compatible_templates", f"{L}:1408-1416")],
     EXH, "exploration",
     "All graphs with up to 5 vertices (thorough 6) and all cutoffs; templates of all scenarios of <=3 parties and <=2 sources with copies in {1,2}.")

prop("C19", "An exported SDP is the SDP that solve() would solve",
     "Each file written by InflationSDP.write_to_file (.dat-s, .csv, .mat) describes the problem that solve() would pass to the solver at that moment: the same moment matrix up to the numbering "
     "of variables, the same known values, objective, extra equalities and inequalities and bounds, after any sequence of set_* calls, and for names with commas, negative values, numpy numbers "
     "and any number of constraints.",
     ["inputs", "configurations"], "all relaxations, values, objectives, constraints and bounds",
     "The tests compare the text of two files of one problem; constraints on known moments, several inequalities and negative values were exported wrongly.",
     ["inflation/sdp/writer_utils.py", S], [("write_to_sdpa, write_to_csv, write_to_mat, convert_to_human_readable", "inflation/sdp/writer_utils.py:20-424"), ("write_to_file", f"{S}:1332-1366")],
     EXH, "exploration",
     "All combinations of a menu of values, objectives, constraints and bounds for a menu of SDP objects; files are parsed back independently and compared, as affine expressions, with the "
     "arguments that solve() hands to the solver.")

prop("C20", "An exported LP is the LP that solve() would solve",
     "Each file written by InflationLP.write_to_file (.lp, .mps, .task through MOSEK) describes the problem that solve() would pass to the solver at that moment: same variables, objective and its "
     "constant, equalities, inequalities, known values, bounds and default bounds, up to redundant rows; converting a .lp file to .mps keeps the problem, and the name of the file decides "
     "its format and place as documented.",
     ["inputs", "configurations"], "all relaxations, values, objectives, constraints and bounds",
     "The tests compare the text of two files of one problem; bounds, constants, free variables and infeasible known values were exported wrongly.",
     ["inflation/lp/writer_utils.py", L], [("write_to_lp, write_to_mps, lp_to_mps, process_arguments, format_constraint_lp", "inflation/lp/writer_utils.py:15-300"),
                 ("write_to_file, _prepare_solver_arguments", f"{L}:919-950, {L}:1949-2015")],
     EXH, "exploration",
     "All combinations of a menu of values, objectives, constraints and bounds for a menu of LP objects; files are read by MOSEK's own reader and compared with the arguments that solve() hands "
     "to the solver.")
