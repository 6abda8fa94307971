"""Which check decides which property."""
CHECKS = {}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C14", "C15"):
    CHECKS[_p] = ("harness.life", "life", "model_checking")

LIFE_TECH = "TLA+ contract of the strategy life cycle; TLC-generated schedules replayed on the real strategies; recorded traces judged by TLC"
LIFE_NOTE = ("Every transition of the abstract state graph of the contract (small constants) gives a schedule of accept/reject/complete/fail/converge"
             "%s events that is replayed on the real SRBF, DYCORS and SOP strategies (EI, LCB and POAP's serial, thread and simulated controllers in seeded runs); "
             "TLC judges every recorded event against the contract. Exhaustive over the abstract schedules in the thorough tier, sampled in the quick tier; "
             "values, points and longer runs are sampled. Trusts TLC, the recorder, and the public attributes of the strategies.")
NOTES = {}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09"):
    NOTES[_p] = (LIFE_TECH, LIFE_NOTE % "")
for _p in ("C14", "C15"):
    NOTES[_p] = (LIFE_TECH, LIFE_NOTE % "/crash (also at every line of pySOT during the writing of a snapshot)")

CHECKS["C22"] = ("harness.randomretry", "check", "model_checking")
NOTES["C22"] = ("TLA+ contract of the random strategy; TLC-generated schedules replayed; recorded traces judged by TLC",
                "One schedule per transition of the abstract state graph for small budgets, plus seeded random ones; termination is checked on the "
                "model under fairness. Points are compared bit for bit. Trusts TLC and the recorder.")

CHECKS["C08"] = ("harness.feasible", "check", "model_checking")
NOTES["C08"] = ("TLC-enumerated configurations replayed on every source of points; every point judged in TLA+ on exact ranks",
                "All combinations of interval kind, variable type and place of the best point for up to two coordinates and 13 sources of points "
                "(sampled in the quick tier), plus sampled ones with more coordinates. Bounds are compared exactly (ranks of floating-point numbers). "
                "Random draws are sampled. Trusts TLC and the recorder.")

CHECKS["C10"] = ("harness.radius", "check", "model_checking")
NOTES["C10"] = ("TLA+ model of the radius control; TLC-generated step histories replayed; recorded radius and convergence judged by TLC",
                "One history for every transition of the abstract state graph (radius, consecutive successes and failures, fresh and stale evaluations in "
                "flight, restarts) for several dimensions and batch sizes, replayed on SRBF and DYCORS, plus seeded random histories; radius and convergence "
                "are compared after every event. Values are integers. Trusts TLC, the recorder and the public attributes.")

CHECKS["C11"] = ("harness.merit", "check", "model_checking")
NOTES["C11"] = ("TLA+ definition of the selection in exact integer arithmetic; TLC-enumerated and sampled selection problems and recorded strategy runs judged by TLC",
                "All selection problems on {0..3} with up to three candidates (sampled in the quick tier) plus sampled larger ones, embedded in one to four "
                "dimensions so that distances are exact; candidate searches and strategy runs (weights in cyclic order, pending points) judged up to rounding. "
                "Trusts TLC and the recorder.")

CHECKS["C12"] = ("harness.candidates", "check", "model_checking")
NOTES["C12"] = ("TLC-enumerated configurations replayed on the candidate generators; statistics of the candidates, and of whole strategy runs, judged in TLA+",
                "All configurations with up to two coordinates (type, range, place of the centre, subset, radius, probability; sampled in the quick tier) and "
                "sampled larger ones. Structure is exact; sizes and frequencies are statistics with wide margins, so that a deviation of less than 10 % of the "
                "size or 6 % of the frequency is not seen. Trusts TLC and the recorder.")

CHECKS["C13"] = ("harness.acquire", "check", "model_checking")
NOTES["C13"] = ("TLA+ definition of merit and search over tabulated improvements; TLC-enumerated and sampled problems and strategy runs replayed and judged by TLC",
                "Merit values to six digits on the grid z = k/4 (LCB exactly); searches on all problems with four points (sampled in the quick tier) and sampled larger "
                "integer domains, where the best admissible point is decided exhaustively; runs of both strategies. Continuous domains only through separation. "
                "Trusts TLC, the table, and the recorder.")

CHECKS["C16"] = ("harness.surrdata", "check", "model_checking")
NOTES["C16"] = ("TLA+ model of the data of a surrogate; TLC-generated operation sequences replayed on every surrogate; recorded data and predictions judged by TLC",
                "All operation sequences (add, predict, reset, too early predictions, callers overwriting their arrays) of bounded length, sampled in the quick "
                "tier, plus longer random ones, on RBF, GP and polynomial surrogates; predictions for the same data must agree to 2e-5 of the range. MARS cannot "
                "run here. Trusts TLC and the recorder.")

CHECKS["C17"] = ("harness.rbf", "check", "model_checking")
NOTES["C17"] = ("TLA+ definition of interpolation, polynomial reproduction, derivative and invariance in integers; TLC-enumerated kinds of models replayed and judged by TLC",
                "Every combination of kernel, tail, transformation, dimension, number of points, box and split into additions on random "
                "integer data, with integer polynomials; numerical agreement to 2e-2 for values up to 100. Ill-conditioned data is out of scope. Trusts TLC and the recorder.")

CHECKS["C18"] = ("harness.designs", "check", "model_checking")
NOTES["C18"] = ("TLA+ definition of the designs on slices, levels and rounded levels; TLC-enumerated configurations replayed and judged by TLC",
                "All combinations of design, up to three coordinates of five kinds, up to nine points and four numbers of iterations (sampled in the quick tier) plus "
                "sampled larger ones. Structure is decided exactly; the choice of the best design is compared with the designs single-iteration calls produce from the "
                "same random state. Random draws are sampled. Trusts TLC, numpy's rank and the recorder.")

CHECKS["C19"] = ("harness.pareto", "check", "model_checking")
NOTES["C19"] = ("TLA+ definition of domination, layers and radius rule; TLC enumerates small sets of points, all replayed and judged by TLC",
                "All sets of points of bounded size and value with one to four objectives (sampled in the quick tier; exhaustive in the thorough tier), sampled larger "
                "real-valued ones through their ranks, and sampled radius problems on a 1/64 grid including exact boundaries. Trusts TLC and the recorder.")

CHECKS["C21"] = ("harness.ga", "check", "model_checking")
NOTES["C21"] = ("TLA+ model of the elitist algorithm checked by TLC; TLC-enumerated configurations replayed; every evaluated population judged by TLC",
                "All configurations with up to two coordinates, five individuals and three generations and eleven kinds of initial population (sampled in the quick "
                "tier), plus sampled larger ones; every evaluated point is judged on exact ranks. Random draws are sampled. Trusts TLC and the recorder.")

CHECKS["C20"] = ("harness.sop", "check", "model_checking")
NOTES["C20"] = ("TLA+ model of the centres and the tabu memory; model-checked on small grids; TLC-generated words of outcomes and seeded schedules replayed; recorded memory judged by TLC",
                "The design model is explored exhaustively for small constants (memory bounds, ownership of points in flight, the best point a centre, tabu tenure). "
                "On recorded runs every event (choice, proposal, withdrawal, completion, failure) is compared with the model: centres, failures, radii, tabu counts, and the "
                "centre and radius of every search. Runs have up to 30 evaluations on integer grids, sampled schedules. Trusts TLC, the recorder and the attributes evals and centers.")

CHECKS["C23"] = ("harness.problems", "check", "model_checking")
NOTES["C23"] = ("TLA+ definitions of the published formulas (modular arithmetic where rational, tables elsewhere); TLC-enumerated lattice points and recorded objects judged by TLC",
                "Every lattice point up to dimension 3 (sampled for dimension 3 in the quick tier) plus sampled ones in more dimensions; every problem in dimensions 1 to 6, 10, 20, 50 "
                "for the declarations. That no smaller value exists is searched for, not proved. Trusts TLC, the tables (30 digits) and the recorder.")

CHECKS["C24"] = ("harness.config", "check", "model_checking")
NOTES["C24"] = ("TLA+ definition of validity; TLC-enumerated configurations, problems and models constructed for real and judged by TLC",
                "Every configuration with at most two (thorough: three) deviations from a default one for all six strategies, every declaration of a problem with up to two "
                "variables over small indices and bounds (sampled in the quick tier), every kernel/tail/GP combination. Arguments outside of these kinds are not tried. "
                "Trusts TLC and the recorder.")

CHECKS["C25"] = ("harness.maps", "check", "model_checking")
NOTES["C25"] = ("TLA+ definition of the maps in integers; TLC-enumerated and sampled inputs replayed and judged by TLC",
                "All vectors on {0..3} up to length 5 for rescaling and capping, all quarters in small boxes for rounding (sampled in the quick tier), fractions of boxes, and "
                "sampled larger inputs with different memory layouts. Trusts TLC and the recorder.")
