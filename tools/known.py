#!/opt/venv/bin/python
"""Writes KNOWN_FINDINGS: the repaired defects, with the commits that repair them (nothing is suppressed by a fixed entry)."""
import os
import subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [  # (start of the subject of the commit, property, what failed)
 ("use the builtin int", "C20", "nd_sorting and SOP raise AttributeError: numpy has no attribute 'int' (numpy >= 1.24)"),
 ("GPRegressor.predict returns", "C16", "GPRegressor.predict returned a flat vector instead of an n x 1 column; weighted-distance search over it broadcast to n x n"),
 ("remove only one of several", "C03", "two equal points in flight: completing one removed both from Xpend"),
 ("a change of the sampling radius", "C07", "evaluations in flight when the radius changed were left out of the surrogate and the run data"),
 ("initial points that fail after", "C04", "async: an initial point that failed after the adaptive phase had begun was proposed as an adaptive one and lost when it was rejected or failed again; resume lost it"),
 ("take the snapshot after", "C14", "the snapshot was taken before the strategy had handled the completion, so the last evaluation was missing"),
 ("the checkpoint file can be in any directory", "C14", "fname with a directory: temp file name 'temp_' + path does not exist"),
 ("a failure among the last", "C01", "a failure among the last evaluations in flight ended the run short of its budget"),
 ("terminate when the run has converged", "C06", "converged with use_restarts=False: propose_action returns None for ever"),
 ("np.inf marks an extra point", "C04", "extra_vals = np.inf was taken for a known value"),
 ("extra points with known values", "C07", "known extra points were in the surrogate but not in the run data used by the candidate search"),
 ("candidate_dycors perturbs", "C12", "candidate_dycors indexed subset as 0..n-1 and never perturbed the last coordinate on its own"),
 ("the genetic algorithm accepts", "C21", "a valid start population was rejected by a wrong comparison, and was modified in place"),
 ("add_points accepts integer", "C16", "add_points raised on an integer value"),
 ("lcb_ga works without a target", "C13", "lcb_ga(lcb_target=None) raised TypeError; a point with merit infinity could be returned"),
 ("ei_ga returns None if no point", "C13", "ei_tol = 0: points closer than dtol (merit 0) were returned"),
 ("do not select the same candidate twice", "C11", "weight 0 and dtol 0: 0 * inf is nan and the same candidate was selected twice"),
 ("random sampling respects integer", "C08", "RandomStrategy proposed non-integral values in integer variables"),
 ("the checks of budget, batch size", "C24", "invalid budgets, batch sizes, dimensions and ncenters were accepted"),
 ("the weights of SRBF and DYCORS", "C24", "weights as numpy array raised; empty weights were accepted"),
 ("check_opt_prob rejects variables", "C24", "a variable listed as both integer and continuous (or twice) was accepted"),
 ("SOP chooses its centers", "C20", "SOP used ranks from before the last evaluations, and IndexError after completions of initial points"),
 ("SOP keeps working when points", "C20", "SOP raised or kept centres in use for ever after rejections, failures, or with all centres in use"),
 ("SOP does not mistake a best point", "C20", "a best point that had been tabu for two updates was mistaken for one in use"),
 ("the perturbation probability is defined", "C12", "max_evals = num_pts + 1: log(1) = 0 makes the perturbation probability nan"),
 ("keep design points inside", "C08", "design points out of the bounds by a rounding error"),
 ("keep the initial population", "C21", "initial population out of the bounds by a rounding error"),
 ("the domain of Branin", "C23", "the declared minimiser of Branin was outside of its declared box"),
 ("extra points of the wrong size", "C24", "extra points of the wrong size were accepted and raised later"),
 ("a synchronous batch whose last", "C10", "a synchronous batch whose last evaluation fails was not processed as a step"),
 ("the Levy function sums", "C23", "the Levy function left the first coordinate out of its sum"),
 ("the Exponential function weights", "C23", "the Exponential function weighted each coordinate by the index of the next one (cyclically)"),
 ("median capping of integers", "C25", "median_capping of an integer vector with a fractional median truncated the median"),
 ("a proposal made before a restart", "C07", "a proposal made before a restart (or a change of the radius) and accepted after it was counted in the new run"),
 ("SOP takes the rest of a batch", "C20", "centres of a batch that a crash interrupted were not charged for their completed points"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
lines = ["# Genuine defects of pySOT found with these checks. 'fixed' entries suppress nothing.",
         "# 'finding: property=<id> key=<key>' entries name defects that are not repaired (none at present)."]
used = set()
for start, prop, what in PROP:
    c = [l.split(" ", 1)[0] for l in log if l.split(" ", 1)[1].startswith("fix: " + start)]
    assert len(c) == 1, (start, c)
    used.add(c[0])
    lines.append("fixed: property=%s %s %s" % (prop, c[0], what))
for l in log:
    if " fix: " in l and l.split()[0] not in used:
        raise SystemExit("not listed: " + l)
open(os.path.join(V, "KNOWN_FINDINGS"), "w").write("\n".join(lines) + "\n")
