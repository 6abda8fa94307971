#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to review)."""
import json, os

S = "pySOT/strategy/surrogate_strategy.py"
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=list(observe), hook_needed=hook)))


prop("C01", "Evaluation budget is respected and fully used",
     "In every run of a surrogate optimization strategy, completed evaluations plus evaluations in flight never exceed the evaluation budget; "
     "known-valued extra points cost nothing, and a rejected or failed evaluation gives its share back. "
     "The strategy proposes termination only when nothing is in flight, and then exactly the budget has been completed, unless the search converged with restarts disabled.",
     ["schedules", "fault_sequences", "configurations", "histories"],
     "every serial/synchronous/asynchronous configuration, every order of accept, reject, completion and failure, including failures among the last evaluations",
     "The tests only run to the end without failures or rejections under the control of the test; a failure while the last evaluations are in flight, or a rejection at the budget boundary, is never produced.",
     [S], [("budget test before each proposal", S + ":check_termination"), ("pending/completed counters", S + ":make_proposal, on_*_completed, on_*_aborted, on_*_rejected")],
     [("num_evals", "completed evaluations", S), ("pending_evals", "evaluations in flight", S), ("max_evals", "budget", S)],
     ["propose_action() return value", "EvalRecord status updates", "num_evals / pending_evals"])

prop("C02", "The evaluation history is an exact ledger",
     "At every moment the strategy's history of points and values is exactly the known-valued extra points followed by the successfully completed evaluations, each once, in completion order, with the evaluated point and the value the objective returned; a failed evaluation contributes nothing to it. "
     "The log of finished evaluations contains every finished evaluation (completed or failed) exactly once in the order they finished, and entries are never altered or removed afterwards, also not by restarts.",
     ["schedules", "fault_sequences", "histories"],
     "every interleaving of completions, failures, rejections and restarts, duplicate points and arbitrary objective values included",
     "The tests compare the history with the record list only after a fault-free run has ended, on continuous problems where no two points coincide.",
     [S], [("append on completion", S + ":on_initial_completed, on_adapt_completed"), ("log on failure", S + ":on_initial_aborted, on_adapt_aborted")],
     [("X, fX", "history of evaluated points and values", S), ("fevals", "finished evaluation records", S)],
     ["strategy.X, strategy.fX, strategy.fevals, strategy.num_evals"])

prop("C03", "Pending points are exactly the evaluations in flight",
     "At every moment the strategy's pending set, as a multiset of points, and its pending count are exactly the proposals that have been made and neither rejected nor finished. "
     "This holds for every order of decisions and completions, when several pending evaluations are at the same point, and across restarts.",
     ["schedules", "fault_sequences", "inputs"],
     "every interleaving of proposals, acceptances, rejections, completions and failures; coinciding points",
     "The tests look at the pending set only after the run has ended, when it is empty, and never propose the same point twice.",
     [S], [("add on proposal, remove on reject/finish", S + ":make_proposal, remove_pending")],
     [("Xpend", "pending points", S), ("pending_evals", "pending count", S)],
     ["strategy.Xpend, strategy.pending_evals after every event"])

prop("C04", "No initial design or extra point is lost or evaluated twice",
     "Every point of the current initial design, and every extra point without a (finite) known value, is put forward for evaluation, again after each rejection or failure, until it has been evaluated successfully, and each is evaluated successfully exactly once. "
     "While such a point is still waiting and the run goes on, no adaptively chosen point is proposed instead.",
     ["schedules", "fault_sequences", "configurations"],
     "every schedule of rejections and failures during the initial phase, several workers, late failures of design points after the adaptive phase began, with and without extra points",
     "No test makes a design evaluation fail or supplies extra points.",
     [S], [("re-queue on rejection and failure", S + ":on_initial_rejected, on_initial_aborted"), ("queue before adaptive proposals", S + ":propose_action"), ("extra points", S + ":sample_initial")],
     [("batch_queue", "points waiting to be proposed", S)],
     ["sequence of proposed points versus the generated design"])

prop("C05", "Synchronous batches are barriers; asynchronous proposals never wait",
     "In synchronous mode new adaptive points are chosen only when nothing is in flight and the previous batch has been used up; each choice yields exactly batch_size points, every one of which is proposed, and proposed again after a rejection, before any new choice is made. "
     "In asynchronous mode each request made while budget is left is answered at once with an evaluation (one fresh point per request in the adaptive phase; only the Pareto strategy may wait, while all its centres are in use), and a rejected adaptive point is withdrawn.",
     ["schedules", "fault_sequences", "configurations"],
     "every batch size, worker count, completion order, rejection and failure pattern",
     "The tests check end-of-run counters only; they never observe when batches are generated or what happens to rejected members.",
     [S], [("barrier", S + ":propose_action"), ("re-queue of rejected batch members", S + ":on_adapt_reject")],
     [], ["generate_evals calls, propose_action() results"])

prop("C06", "A run is never stuck and never crashes",
     "Whenever nothing is in flight, asking a strategy for an action yields an evaluation or termination, and no legal sequence of accept, reject, complete, fail, restart events makes a strategy raise, for every shipped surrogate strategy. "
     "Consequently, under every fair schedule with finitely many rejections and failures the run reaches termination, also when it converges with restarts disabled.",
     ["schedules", "fault_sequences", "configurations"],
     "all shipped strategies, synchronous and asynchronous, more workers than points, rejections and failures at any point, restarts on or off",
     "The tests use quick objectives, so that rejections and long in-flight periods hardly occur, no failures, and restarts always enabled.",
     [S, "pySOT/strategy/srbf_strategy.py", "pySOT/strategy/sop_strategy.py", "pySOT/strategy/ei_strategy.py", "pySOT/strategy/lcb_strategy.py"],
     [("decision cascade", S + ":propose_action")], [], ["propose_action() returning None or raising"])

prop("C07", "The model sees exactly the data of the current run",
     "Whenever a new point is chosen, the surrogate holds exactly the known-valued extra points (before the first restart) and every evaluation that was proposed in the current run and has completed so far, in completion order with its value, and the candidate search uses that same set as the evaluated points. "
     "Evaluations proposed before the last restart that complete later never enter, and nothing proposed since is left out, whatever step-size changes happened in between.",
     ["schedules", "histories", "configurations"],
     "asynchronous completions arriving late around restarts and search-radius changes, extra points, all strategies",
     "No test compares the surrogate's data with the evaluation history.",
     [S, "pySOT/strategy/srbf_strategy.py"], [("event stamps on records", S + ":get_ev, on_*_accepted, on_*_completed"), ("reset", S + ":sample_initial")],
     [("surrogate.X, surrogate.fX", "data in the model", "pySOT/surrogate/surrogate.py"), ("ev_id / ev_last", "event stamps", S)],
     ["surrogate.X/fX after every event", "arguments of the candidate search"])

prop("C08", "Every proposed point is feasible",
     "Every point proposed for evaluation, by any strategy, design or candidate generator, has one coordinate per variable, lies within the bounds of the problem, and has integral values in the integer variables (for integral bounds). "
     "This holds for every box, however small, large, negative or badly scaled, every mix of integer and continuous variables, and every best point, also on the boundary.",
     ["inputs", "configurations", "histories"],
     "boxes with arbitrary float bounds, any subset of integer variables, optimum at the boundary, all strategies and designs",
     "The tests use one symmetric-free continuous box with exactly representable bounds and never an integer variable in a strategy run.",
     ["pySOT/utils.py", "pySOT/auxiliary_problems", "pySOT/experimental_design", "pySOT/strategy"],
     [("rounding and clipping", "pySOT/utils.py:round_vars"), ("truncated normal candidates", "pySOT/auxiliary_problems/candidate_srbf.py, candidate_dycors.py"), ("clipping in the GA", "pySOT/utils.py:GeneticAlgorithm")],
     [], ["arguments of eval proposals", "design and candidate matrices"])

prop("C09", "Restarts begin a fresh run and keep the books",
     "When the search has converged and restarts are enabled, the next request with budget left (in synchronous mode: once nothing is in flight) starts a new run: the surrogate is emptied, exactly one new initial design is generated and its points are proposed, the search radius and progress counters are back at their initial values, and extra points are not added again. "
     "History, budget use and pending evaluations carry over unchanged, and a restart happens only after convergence. "
     "With restarts disabled a converged run proposes nothing further and terminates as soon as nothing is in flight.",
     ["histories", "schedules", "configurations"],
     "every point in a run at which convergence can be reached, with evaluations in flight, several restarts in a row, both convergence sources (step control and acquisition threshold)",
     "No test asserts anything about restarts, and none runs with restarts disabled.",
     [S, "pySOT/strategy/srbf_strategy.py"], [("restart", S + ":sample_restart, propose_action"), ("per-run reset", "pySOT/strategy/srbf_strategy.py:sample_initial")],
     [], ["design generation calls, surrogate resets, propose_action results"])

prop("C10", "Search radius control of SRBF and DYCORS",
     "The relative search radius starts each run at 0.2 and changes only by the documented rule: a step (one completed evaluation when asynchronous, one finished batch when synchronous) succeeds if its best value improves on the best so far by more than 0.1% (or is the first), three successes in a row double the radius up to 0.2, and failtol failures in a row halve it, where failtol is max(d,4), divided by the batch size and rounded up when synchronous. "
     "Only adaptive evaluations proposed after the last change or restart count as steps. "
     "The search converges exactly when the radius has been halved to 0.2/64 or 4*failtol steps in a row have failed.",
     ["histories", "schedules", "configurations"],
     "every history of improving and non-improving values in every completion order, any dimension and batch size",
     "No test looks at the radius; reaching the six-fold halving, the cap or the consecutive-failure rule needs long specific histories.",
     ["pySOT/strategy/srbf_strategy.py"], [("step control", "pySOT/strategy/srbf_strategy.py:adjust_step, on_adapt_completed, sample_initial")],
     [("sampling_radius", "relative radius", "pySOT/strategy/srbf_strategy.py"), ("status / failcount", "consecutive successes/failures", "pySOT/strategy/srbf_strategy.py")],
     ["strategy.sampling_radius, strategy.converged after every completion"])

prop("C11", "Weighted-distance selection picks the best admissible candidate",
     "Each selected point is a candidate that minimises w*(rescaled prediction) + (1-w)*(1 - rescaled distance to the nearest evaluated, pending or just-selected point) among the candidates that are at least the minimum distance away from all of those, whenever such a candidate exists. "
     "No candidate is selected twice in one call while an admissible one remains, the strategies use their weights cyclically without skipping or restarting the cycle, and each call returns exactly the requested number of points.",
     ["inputs", "configurations", "histories"],
     "every candidate set, prediction vector, evaluated and pending set, weight in [0,1] and number of points; ties, constant predictions and constant distances included",
     "The tests only check shapes and bounds of the result.",
     ["pySOT/auxiliary_problems/candidate_srbf.py", "pySOT/strategy/srbf_strategy.py"],
     [("merit", "pySOT/auxiliary_problems/candidate_srbf.py:weighted_distance_merit"), ("weights", "pySOT/strategy/srbf_strategy.py:get_weights"), ("rescaling", "pySOT/utils.py:unit_rescale")],
     [], ["weighted_distance_merit(...) inputs and output", "surrogate.predict(candidates) during a run"])

prop("C12", "Candidate points perturb the centre in the allowed coordinates only",
     "Candidate generators produce exactly the requested number of candidates, and every candidate agrees with the centre (the best evaluated point of the current run, or the given centre) in all coordinates outside the perturbed subset and deviates from it by an amount scaled with the search radius and the box (at least one unit for integer variables). "
     "With dynamic coordinate perturbation each candidate has at least one coordinate chosen for perturbation, every coordinate can be chosen, probability one perturbs all of them, and the strategy's perturbation probability starts at min(20/d,1), never increases as evaluations accumulate and never falls below 1/d.",
     ["inputs", "configurations"],
     "any dimension, subset, integer variables, radius, probability and centre",
     "The tests never pass a subset, an integer variable set together with a centre, or look at the candidates.",
     ["pySOT/auxiliary_problems/candidate_srbf.py", "pySOT/auxiliary_problems/candidate_dycors.py", "pySOT/auxiliary_problems/candidate_uniform.py", "pySOT/strategy/dycors_strategy.py"],
     [("candidate generation", "pySOT/auxiliary_problems/candidate_*.py"), ("perturbation probability", "pySOT/strategy/dycors_strategy.py:generate_evals")],
     [], ["matrix passed to surrogate.predict"])

prop("C13", "Expected improvement and confidence bound selection honour their contract",
     "The merit of a point is the analytic expected improvement over the best value of the run (respectively mean minus kappa standard deviations), and a point closer than the separation distance to an evaluated or pending point has merit zero (respectively infinity). "
     "Points returned by the EI and LCB searches keep the separation distance to all evaluated and pending points and to each other and reach the threshold; if the best point found does not reach it, no point is returned and the strategy treats the run as converged.",
     ["inputs", "configurations", "histories"],
     "every prediction/uncertainty function, evaluated and pending set, separation, threshold, number of points, integer variables",
     "The tests check bounds and shapes for one random data set; thresholds, separation to pending points and convergence are never exercised.",
     ["pySOT/auxiliary_problems/ei_merit.py", "pySOT/auxiliary_problems/ei_ga.py", "pySOT/auxiliary_problems/lcb_merit.py", "pySOT/auxiliary_problems/lcb_ga.py", "pySOT/strategy/ei_strategy.py", "pySOT/strategy/lcb_strategy.py"],
     [("merit functions", "pySOT/auxiliary_problems/ei_merit.py, lcb_merit.py"), ("thresholds", "pySOT/auxiliary_problems/ei_ga.py, lcb_ga.py")],
     [], ["ei_merit/lcb_merit values", "ei_ga/lcb_ga results", "strategy.converged"])

prop("C14", "The checkpoint file is always a complete, fresh snapshot",
     "At every instant of a checkpointed run, including a crash in the middle of writing a snapshot, the checkpoint file either does not exist yet or is a complete loadable snapshot of a state the run passed through, and once an evaluation has completed, failed or the run has ended and control returns to the controller, the snapshot includes that event. "
     "Starting a run never overwrites an existing checkpoint file and resuming without one fails, both with an I/O error, and any file path may be used.",
     ["crash_points", "fault_sequences", "histories", "configurations"],
     "a crash after every file-system operation of every save, every kind of evaluation ending, any path",
     "The test kills one run at one arbitrary time; it does not hit a particular write, nor check what the snapshot contains.",
     ["pySOT/controller/controller.py", S], [("write to temporary file, then rename", S + ":save"), ("save on every ending", "pySOT/controller/controller.py:on_update, on_terminate"), ("refuse to overwrite", "pySOT/controller/controller.py:run")],
     [], ["checkpoint file after every file operation"])

prop("C15", "Resuming after a crash loses nothing and completes the budget",
     "A run resumed from a checkpoint continues with exactly the evaluations contained in the snapshot (points, values, order), treats evaluations that were in flight as not done, and puts initial design points that were waiting or in flight forward again. "
     "It then ends with exactly the original budget of completed evaluations in total, and returns the best record over the time before and after the crash; this holds for repeated crashes, wherever they happen.",
     ["crash_points", "histories", "schedules", "configurations"],
     "a crash after any event of the run (initial phase, phase change, adaptive phase, restart, last evaluations in flight), serial and parallel, repeated crashes",
     "The test resumes once, from a serial run killed in mid-run, and only compares final counters.",
     ["pySOT/controller/controller.py", S], [("resume", S + ":resume"), ("reload", "pySOT/controller/controller.py:resume")],
     [], ["strategy state after resume, proposals and result of the resumed run"])

prop("C16", "Surrogate predictions depend only on the current data",
     "Predictions (values, derivatives, standard deviations where offered) of a surrogate are a function of the points and values added since the last reset alone: they are the same however the data was split into additions, whether or not predictions were made in between, and whatever was in the model before the last reset. "
     "Adding points is visible in the next prediction, predicting changes nothing, the arrays passed in are neither modified nor retained by reference, and the reported data is exactly what was added, in order.",
     ["histories", "inputs", "configurations"],
     "every interleaving of additions of any size, predictions and resets, for RBF (all kernels and tails), GP and polynomial models with and without output transformation",
     "The tests build each model once or twice in a fixed sequence, so that incremental refits are compared with nothing.",
     ["pySOT/surrogate/surrogate.py", "pySOT/surrogate/rbf.py", "pySOT/surrogate/gp.py", "pySOT/surrogate/poly.py"],
     [("staleness flag", "pySOT/surrogate/surrogate.py:add_points, reset"), ("incremental LU update", "pySOT/surrogate/rbf.py:_fit")],
     [("updated", "model is current", "pySOT/surrogate/surrogate.py")], ["predict/predict_deriv/predict_std after every operation"])

prop("C17", "RBF models interpolate, reproduce polynomials and differentiate correctly",
     "An RBF model takes the (transformed) data values at the data points, reproduces data from any polynomial of its tail's degree everywhere, together with its gradient, and its derivative predictions are the derivatives of its predictions in the original coordinates. "
     "Predictions do not depend on the order of the points, or on a rescaling of the domain along with the data, and each prediction has one row per query point.",
     ["inputs", "configurations"],
     "every kernel and tail combination, any box, any well-posed data set, queries at and away from data points",
     "The tests use one data set on one box with loose tolerances.",
     ["pySOT/surrogate/rbf.py", "pySOT/surrogate/kernels", "pySOT/surrogate/tails", "pySOT/surrogate/output_transformations"],
     [("fitting equations", "pySOT/surrogate/rbf.py:_fit"), ("prediction", "pySOT/surrogate/rbf.py:predict, predict_deriv")],
     [], ["predict / predict_deriv"])

prop("C18", "Experimental designs have the promised structure",
     "A Latin hypercube has exactly one point in each of n equal slices of every coordinate; a symmetric Latin hypercube takes each of n equispaced levels once per coordinate and is invariant under reflection at the centre; the two-factorial design is exactly all corners, and designs are mapped affinely to the given box with integer variables rounded. "
     "Every generated Latin design has the requested number of distinct points and full rank, otherwise an error is raised, and it is the most spread-out one (largest minimum distance) of the full-rank designs tried.",
     ["inputs", "configurations"],
     "any dimension and number of points (even, odd, minimal), box, integer variables and number of iterations",
     "The tests check one dimension and point count per design.",
     ["pySOT/experimental_design"], [("designs", "pySOT/experimental_design/lhd.py, slhd.py, two_factorial.py"), ("selection", "pySOT/experimental_design/experimental_design.py:_expdes_dist")],
     [], ["generate_points(...)"])

prop("C19", "Non-dominated sorting and centre spacing rules are exact",
     "Splitting points into dominated and non-dominated ones puts a point among the dominated exactly when some other point is strictly better in every objective; each index appears exactly once. "
     "Non-dominated ranks are the layers obtained by repeatedly removing the non-dominated points, starting at one, with points beyond the requested number left at infinity; and the radius rule accepts a point exactly when it is at least the (failure-halved, scaled) radius away from each of the given centres.",
     ["inputs"],
     "every finite set of objective vectors, ties and duplicates included, any requested number; every arrangement of centres, failure counts and thresholds",
     "The tests use random real vectors, where ties never occur, and check only index counts.",
     ["pySOT/utils.py"], [("sorting", "pySOT/utils.py:domination, nd_add, nd_front, nd_sorting"), ("radius rule", "pySOT/utils.py:check_radius_rule")],
     [], ["nd_front, nd_sorting, check_radius_rule results"])

prop("C20", "SOP manages its centres and tabu memory correctly",
     "The Pareto strategy keeps at most the configured number of centres, proposes at most one point per centre at a time around that centre with that centre's radius, and a centre becomes free again when its point completed, failed or was withdrawn. "
     "A centre whose new point is not on the non-dominated front is charged one failure and its radius halved; a centre with more than three failures is tabu for five updates with radius and failures reset, and centres are chosen by tabu status, rank and value subject to the radius rule, the best point coming first unless it is in use.",
     ["histories", "schedules", "configurations"],
     "every completion order, value history, rejection and failure pattern, batch sizes up to the number of centres, more workers than centres",
     "The tests only check end-of-run counters for quick objectives.",
     ["pySOT/strategy/sop_strategy.py"], [("memory", "pySOT/strategy/sop_strategy.py:adjust_memory"), ("centres", "pySOT/strategy/sop_strategy.py:update_center_list, generate_evals")],
     [], ["strategy.evals, strategy.centers after every event"])

prop("C21", "The genetic algorithm is elitist, feasible and exact about its result",
     "The genetic algorithm evaluates only points inside the bounds, integral in the integer variables, in exactly one population of the configured (even) size per generation plus the initial one. "
     "The point it returns is one it evaluated, the returned value is the objective at that point and no evaluated point has a smaller value; a user-supplied initial population is used if and only if it has the right size and lies inside the bounds.",
     ["inputs", "configurations"],
     "any objective, bounds, integer variables, population size (odd too), number of generations (zero too) and initial population",
     "The test only checks that one integer coordinate is integral.",
     ["pySOT/utils.py"], [("GA", "pySOT/utils.py:GeneticAlgorithm.optimize")], [], ["calls of the objective, result of optimize()"])

prop("C22", "Random sampling evaluates its whole budget despite failures",
     "The random strategy proposes exactly its budget of points, drawn within the bounds before the run; each is proposed again after every rejection or failure until it completed, and none is evaluated successfully twice. "
     "It proposes termination exactly when all have completed, and asks for nothing while the remaining ones are in flight.",
     ["schedules", "fault_sequences"],
     "every interleaving of accept, reject, complete, kill and cancel with any number of workers",
     "The test counts records of one fault-free threaded run.",
     ["pySOT/strategy/random_strategy.py"], [("retry", "pySOT/strategy/random_strategy.py")], [], ["propose_action results"])

prop("C23", "Benchmark problems are well-formed and their optima are right",
     "Every shipped test problem, in every dimension it offers, declares a non-empty box and a partition of its variables, is a deterministic function that neither modifies its argument nor remembers earlier evaluations, and rejects points of the wrong dimension. "
     "Where a minimiser and minimum are declared, the minimiser is in the box and attains the minimum, and no point of the box has a smaller value; every problem equals its published formula.",
     ["inputs", "configurations"],
     "all problems, dimensions and points of the domain",
     "The tests evaluate each problem only at its minimiser in its default dimension.",
     ["pySOT/optimization_problems"], [("problems", "pySOT/optimization_problems/*.py")], [], ["attributes and eval()"])

prop("C24", "Invalid configurations are rejected at construction, valid ones accepted",
     "Constructing a strategy succeeds exactly when its configuration is valid: a budget that is a positive integer not smaller than the design, components of the documented kinds that agree with the problem's dimension, a batch size in synchronous mode (not above the number of centres for the Pareto strategy), extra points of the problem's dimension with one value each if any are given, and weights in [0,1] given as list or array. "
     "A problem is accepted exactly when its bounds have the right size and order and its integer and continuous variables partition its variables; an RBF model when its kernel and tail are of the right kind and fit each other and the dimension. An invalid configuration raises an exception before anything is proposed.",
     ["configurations"],
     "every combination of valid and invalid constructor arguments for all strategies, designs and surrogates",
     "The tests construct valid strategies only.",
     [S, "pySOT/utils.py", "pySOT/strategy"], [("input checks", S + ":check_input"), ("problem check", "pySOT/utils.py:check_opt_prob")], [], ["constructor outcome"])

prop("C25", "Domain maps, rounding and output transformations are exact",
     "Mapping to and from the unit box are mutually inverse affine maps taking the bounds to 0 and 1; rounding moves each integer variable to the nearest integer within its bounds and leaves every other coordinate untouched; unit rescaling maps the minimum to 0 and the maximum to 1 affinely, and a constant vector to ones. "
     "Median capping replaces exactly the values above the median by the median, the identity transformation changes nothing, and none of the maps except in-place rounding alters its argument.",
     ["inputs"],
     "every box, point set and vector, odd and even lengths, ties, half-integers, constant vectors",
     "The tests use a handful of random inputs on one box.",
     ["pySOT/utils.py", "pySOT/surrogate/output_transformations"], [("maps", "pySOT/utils.py:to_unit_box, from_unit_box, unit_rescale, round_vars"), ("capping", "pySOT/surrogate/output_transformations/median_capping.py")],
     [], ["return values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
