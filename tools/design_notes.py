"""Oracle / notes of each property, for DESIGN.md."""
N = {
"C01": "`ref.Scenario`, written from the definition of inflation and of the network/latent rewriting. 12 s / 2 min.",
"C02": "the physical rule on (source, copy) sets. 13 s / 1 min. Latents that are classical never transmit non-commutation.",
"C03": "brute-force connected components of 'share a source copy'; union of several independent implementations in the library (1D, 2D, cached) and what moments report.",
"C04": "the full group of copy permutations built from the scenario, orbits by brute force.",
"C05": "`alg.Algebra`: words modulo commutation, idempotency, orthogonality, copy relabelling, factorisation and complex conjugation by exhaustive rewriting (closure of the class), no canonical form shared with the library. Order independence: every ordered pair of queries on a fresh object.",
"C06": "`alg.Algebra` applied to reverse(row)+column; default bounds from whether the operator is a square/projector product of commuting events.",
"C07": "exact linear functionals: the distribution array is filled with powers of 4, so every coefficient of every entry is read off one evaluation; the expected marginal is computed from the definition (consistent settings, visible parents).",
"C08": "the documented description of each set of columns, enumerated by brute force.",
"C09": "`models.ClassicalModel`: exact joint behaviour of the whole inflation by summing over the copies of sources; `feasible.py` evaluates every constraint that the library passes to the solver.",
"C10": "`models.QuantumModel`: states and projective measurements contracted as a tensor network over the inflated graph. Probabilities below the rounding noise of the contraction are clipped to 0.",
"C11": "variables, inequalities and equalities listed from the definition; equalities compared as linear spans (exact rank).",
"C12": "relations between columns listed from the definition with `alg.Algebra`. Relations in which a removed word vanishes are optional (they are implied); what is imposed must be in the span of all, and must contain the span of the required ones.",
"C13": "`hist.Model`: a record of what the user has asked for, from which the program is written. After every operation the arguments of `solve()` are compared in normal form. Snapshots of objects by `fork`; the solver call is a recording stub. Convention kept because the test-suite fixes it: setting values drops extra constraints.",
"C14": "as C13, for LPs (supports problems accept only operations on values).",
"C15": "`hist.Model` again; the enumeration is over sets of moments given values, and every way to split them in two calls.",
"C16": "polynomials are built from monomial identities and coefficients known to the generator; the notation is varied.",
"C17": "each program is formulated independently (dense matrices from the generator, not from the dictionaries) and solved by scipy; certificates are evaluated for every other assignment of the known values.",
"C18": "each program is formulated independently and solved by `conic.conelp`. The certificate is an upper bound on the optimum (or on the largest feasibility parameter); problems infeasible in both primal and dual give none. `default_non_negative` together with feasibility as optimisation is left out (a parameter that the library never uses).",
"C19": "every file is parsed back by `c19.py` (its own SDPA/CSV/MAT readers) and both sides are written as affine expressions in the moments. The objective line of SDPA lists the coefficients of the maximised expression (the test-suite fixes this). Bounds on moments tied to others by proportionality, when they follow from other bounds, need not be written.",
"C20": "MOSEK's own `readdata` reads the files; the result is compared with the arguments of `solve()` as polyhedra in normal form. Two quirks of MOSEK's LP reader shaped the fixes and the check: it drops `0.5 <= x` and the sign of constants of objectives (the constant in .lp is therefore parsed from the text and not demanded after lp_to_mps).",
"C21": "`alg.Algebra` names each word independently; different moments must have different names, equal ones equal names.",
"C22": "models of the scenario (never excluded), exact criteria (CHSH inequality, Tsirelson bound, Pearl's instrumental inequality, independence of distant parties) and known optima. Each infeasible point's certificate is evaluated on every point a model produces and in every notation. Not demanded: certificates found with LPI constraints (the documentation says they are not guaranteed; when a factor vanishes they may contain known but non-knowable products and `evaluate_distribution` refuses them); detection of non-factorising marginals by LPs without all outcomes (sound, only weaker); certificates of LPs with user bounds (known finding in C17).",
"C23": "critical value by bisection on the verdict of `solve()` alone (itself checked by C22 and against the exact criteria). Paths that leave the feasible set next to a vertex are left out: the violation grows as v^4 there and cannot be told from the solver's tolerance. Values of one moment: the largest feasible one is its optimum as an objective.",
"C24": "the same history at verbosity 0, in the same process: every snapshot (moments, matrix, values, constraints, task read back from MOSEK, answers, files) is compared with it.",
"C25": "subsets of vertices tested pair by pair; compatibility of measurements from `ref.Scenario.commute`. The order of the lists is free.",
}
