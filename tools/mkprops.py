"""Writes /verif/properties.jsonl (kept as code so the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

BO = "GPyOpt/core/bo.py"
p("C01", "Every proposed or evaluated location lies in the declared domain",
  "Every location an optimizer proposes, and every location it passes to the objective (initial design included), has one entry per declared dimension and is a member of the declared domain: continuous entries finite and within their bounds, discrete entries one of the listed values, categorical entries one of the category indices, a bandit row one of the listed arms. This holds for every batch policy, acquisition, local optimizer, surrogate, context and history, and also on the calls that follow (or contain) a surrogate that misbehaves, an objective that fails or an aborted request.",
  ["histories", "configurations", "fault_sequences"],
  "all domains mixing continuous/discrete/categorical variables or made of bandit arms, all batch policies and acquisition optimizers, all interleavings of proposals, evaluations and aborted calls, and all points at which the surrogate returns non-finite or flat predictions or raises",
  "The tests compare a handful of fixed-seed runs with stored outputs; they never let the surrogate misbehave inside the acquisition search, nor follow proposals through failed steps, nor mix variable types, contexts and batch policies.",
  ["GPyOpt/core/task/variables.py", "GPyOpt/core/task/space.py", "GPyOpt/optimization/optimizer.py", "GPyOpt/experiment_design", "GPyOpt/core/evaluators", BO],
  [("rounding of the optimised point to the domain", "Design_space.round_optimum / Variable.round"), ("zip/unzip between objective and model encodings", "Design_space.zip_inputs/unzip_inputs"), ("bounded local search with fallback to the start point", "OptLbfgs.optimize, apply_optimizer"), ("initial designs", "experiment_design/*")],
  ["rows returned by suggest_next_locations", "rows received by the objective"])
p("C02", "Declared constraints hold for every proposed location",
  "When the problem declares constraints and feasible candidates exist, every location proposed or evaluated after random initialisation, and every row of a random initial design, satisfies all of them (each constraint expression at that location is at most zero). This holds for every batch policy, acquisition, output scaling, fixed context, de-duplication setting and history, including steps in which the surrogate is flat, saturated or non-finite over parts of the domain.",
  ["histories", "configurations", "fault_sequences"],
  "all sets of constraints over continuous/discrete variables with non-negligible feasible volume, all policies/acquisitions, with and without context and de-duplication, over whole campaigns with surrogate faults",
  "The constraint tests check two fixed-seed sequences on one easy region; ties, saturated acquisitions, contexts under constraints and batches are never combined with them.",
  ["GPyOpt/core/task/space.py", "GPyOpt/experiment_design/random_design.py", "GPyOpt/optimization/optimizer.py", "GPyOpt/optimization/anchor_points_generator.py", "GPyOpt/acquisitions/base.py"],
  [("feasibility indicator weights the acquisition", "AcquisitionBase.acquisition_function"), ("rejection sampling of starting points", "RandomDesign.get_samples_with_constraints"), ("fallback to the feasible starting point", "apply_optimizer")],
  ["rows returned by suggest_next_locations", "rows received by the objective", "optimizer.X after construction"])
p("C03", "A fixed context is honoured exactly and never outlives its call",
  "When a request or run fixes some variables to given values, every location it proposes or evaluates carries exactly those values in those variables, while the free variables still range over their whole domain. The context applies to that call only: a later call, including one made after a contextual call was aborted by an error, behaves exactly as if the earlier context had never been given, and a context naming an unknown variable is rejected without disturbing the optimizer.",
  ["histories", "configurations", "fault_sequences"],
  "all sequences of contextual, context-free, differently-contextual and aborted calls over mixed domains and batch policies",
  "The tests fix one context per optimizer and call it once; leaks across calls need a sequence of calls and an aborted one, which no test makes.",
  ["GPyOpt/optimization/acquisition_optimizer.py", BO, "GPyOpt/optimization/optimizer.py", "GPyOpt/optimization/anchor_points_generator.py", "GPyOpt/core/evaluators"],
  [("per-call context manager", "BO._compute_next_evaluations, ContextManager"), ("search in the free sub-space and expansion", "OptimizationWithContext, ContextManager._expand_vector")],
  ["rows returned by suggest_next_locations(context=...)", "rows received by the objective"])
p("C04", "With de-duplication on, no location is ever proposed twice",
  "With de-duplication enabled, no proposed location equals one already evaluated, one the caller reports as pending, one the caller reports as ignored, or another member of the same batch, whatever order asynchronous workers finish, fail or are replaced in. While at least one admissible location of a small finite domain is left the optimizer keeps proposing (a batch may only be short when fewer admissible locations than requested are left), and once none is left it reports the domain as fully explored instead of repeating itself.",
  ["schedules", "histories", "fault_sequences"],
  "all schedules of asynchronous workers (start, finish, crash, replace) over small finite and mixed domains, all batch policies, all pending/ignored sets including ones made of zeros",
  "The tests check one pending/ignored set on one domain; the guarantee is about every interleaving of completions, crashes and requests until exhaustion.",
  ["GPyOpt/util/duplicate_manager.py", "GPyOpt/core/evaluators", "GPyOpt/optimization/optimizer.py", "GPyOpt/optimization/anchor_points_generator.py", BO],
  [("set of known configurations", "DuplicateManager"), ("duplicate-free anchors and fallback", "AnchorPointsGenerator.get, apply_optimizer"), ("in-batch exclusion", "SamplingBasedBatchEvaluator.compute_batch, LocalPenalization.compute_batch")],
  ["rows returned by suggest_next_locations(pending_X, ignored_X)"])
p("C05", "The evaluation history stays aligned, append-only and true",
  "At every moment the caller can observe, including after an objective failure, surrogate failure or interruption at any point of a run, the recorded inputs and outputs have the same number of rows, extend the previous record without altering it, and each recorded output is the value (with the sign used for maximisation) the objective returned for exactly the input in its row. A failed step leaves no trace beyond completed steps, the same optimizer can be used again afterwards, and queries, proposals and the caller's own arrays never change the record or are changed by it.",
  ["histories", "fault_sequences", "crash_points"],
  "all sequences of construction, runs, proposals and queries with exceptions raised by the objective (any row), surrogate or clock at any point, then resumed",
  "No test makes an objective or surrogate fail, and none resumes an optimizer after a failure.",
  [BO, "GPyOpt/core/task/objective.py", "GPyOpt/methods/bayesian_optimization.py"],
  [("history update after evaluation", "BO.run_optimization / evaluate_objective"), ("row-by-row evaluation", "SingleObjective._eval_func"), ("sign handling", "BayesianOptimization._sign")],
  ["optimizer.X, optimizer.Y, get_evaluations()", "call log of the objective"])
p("C06", "Runs respect their iteration, time and tolerance budgets exactly",
  "A run performs exactly the requested number of evaluation steps unless it stops earlier because the elapsed time reached the time limit after a completed step, two consecutive locations came within the tolerance, or the surrogate could not be fitted; it never starts another evaluation after one of these conditions holds and never stops without one. The reported number of steps and elapsed time are those actually performed in this run, and every run terminates with results computed.",
  ["schedules", "histories", "fault_sequences"],
  "all budgets, objective/surrogate durations and stalls on a simulated clock, clock steps, surrogate failures and repeated runs on one optimizer",
  "max_time is only tested with a real clock and trivial objectives; the tests cannot control durations, stalls or clock behaviour.",
  [BO],
  [("stopping tests of the main loop", "BO.run_optimization"), ("distance of last two inputs", "BO._distance_last_evaluations")],
  ["objective call log", "num_acquisitions, cum_time, Y_best after run_optimization"])
p("C07", "The reported optimum is always the best evaluation on record",
  "After every run, completed, resumed after a failure or stopped early, the reported best value is the best of all recorded outputs and the reported best location is a recorded input that produced it. The reported best-so-far curve has one entry per recorded evaluation, never worsens, and ends at that best value; with maximisation all of this holds for the negated outputs.",
  ["histories", "fault_sequences"],
  "all histories of runs, failures and resumptions over minimisation and maximisation, ties and multi-row batches",
  "Tests inspect the reported optimum of a few complete runs only; never after failures, resumptions or externally extended data.",
  [BO, "GPyOpt/util/general.py"],
  [("result computation at the end of a run", "BO._compute_results, best_value")],
  ["x_opt, fx_opt, Y_best"])
p("C08", "Parallel evaluation equals sequential evaluation under any worker schedule",
  "Evaluating a set of locations with several workers returns, in the original order, exactly the outputs a one-worker evaluation would return, never uses more workers at once than configured (and uses as many as configured when there is that much work), and is never blocked for ever: it finishes whatever order workers run and finish in, however large their results are, and when workers fail to start, raise, die before, while or after reporting. If workers fail the evaluation falls back to evaluating everything in the calling process, and an error of the objective itself reaches the caller.",
  ["schedules", "fault_sequences", "crash_points"],
  "all schedules of worker processes, all crash points of each worker, bounded pipe capacity, start failures, all batch sizes and worker counts",
  "Tests evaluate tiny functions in real processes with no failures; they cannot control scheduling nor crash a worker between computing and reporting.",
  ["GPyOpt/core/task/objective.py", "GPyOpt/util/general.py", "GPyOpt/methods/bayesian_optimization.py"],
  [("split/merge of rows over workers", "SingleObjective._syncronous_batch_evaluation"), ("fallback to one process", "SingleObjective.evaluate"), ("worker body", "util.general.spawn")],
  ["return value of SingleObjective.evaluate", "process and pipe operations seen by the simulated OS"])
p("C09", "Evaluation-time costs are learned from the durations actually measured",
  "When the cost of an evaluation is to be learned from evaluation time, the data behind the cost estimate after any number of steps is exactly one positive duration per recorded evaluation that the optimizer performed itself (initial design included, evaluated one at a time), each equal to the time that evaluation took on the clock and attached to the input it was measured at. Before any measurement the cost is constant, and durations of zero, or clock steps that make a duration look negative, never make the cost or a proposal non-finite.",
  ["histories", "schedules", "fault_sequences"],
  "all sequences of steps and durations on a simulated clock, batch sizes, mixed domains, clock steps and stalls",
  "Durations are physical time in the tests; a test cannot prescribe them, and no test runs an optimizer with evaluation-time cost for more than its construction.",
  ["GPyOpt/core/task/cost.py", "GPyOpt/core/task/objective.py", BO, "GPyOpt/methods/bayesian_optimization.py"],
  [("duration measurement", "SingleObjective._eval_func"), ("cost model update", "CostModel.update_cost_model"), ("call sites", "BO.evaluate_objective, BayesianOptimization._init_design_chooser")],
  ["training data given to the regression library for the cost surrogate"])
p("C10", "The same seed reproduces the same run",
  "Two runs of the same program with the same global random seed and a deterministic objective propose and evaluate the same sequence of locations, whatever the wall clock, evaluation durations, operating-system entropy or hash randomisation of the process. This holds for every acquisition, surrogate, local optimizer, initial design and batch policy.",
  ["schedules", "configurations"],
  "all clock histories, entropy streams and hash seeds, for every component combination",
  "A test process has one hash seed, one entropy stream and one clock; the fixed-seed tests never vary them and skip the stochastic optimizers.",
  ["GPyOpt/optimization/optimizer.py", "GPyOpt/util/mcmc_sampler.py", "GPyOpt/optimization/anchor_points_generator.py", "GPyOpt/experiment_design", "GPyOpt/models", "GPyOpt/core/evaluators"],
  [("all sampling through the global generator", "np.random.* call sites"), ("order-independent de-duplication", "AnchorPointsGenerator.get (unique=True)")],
  ["sequence of proposed locations"])
p("C11", "Optimizers used side by side do not influence each other",
  "Optimizers for different problems used in the same process, in any interleaving of their calls and in several threads (each with its own random stream), each produce exactly the proposals, histories and results they produce when run alone. No shared module or class state carries data, contexts, constraints, configuration or models from one optimizer to another.",
  ["schedules", "histories"],
  "all interleavings, at call and at statement granularity, of two or three optimizers with different domains, constraints, contexts and models",
  "Tests build one optimizer at a time in one thread.",
  ["GPyOpt/core/task/space.py", BO, "GPyOpt/methods", "GPyOpt/optimization", "GPyOpt/util/arguments_manager.py", "GPyOpt/interface/config_parser.py"],
  [("constraint evaluation", "Design_space.indicator_constraints"), ("per-instance state", "constructors")],
  ["proposals and results of each optimizer vs. its solo run"])
p("C12", "A save that returns has written a complete, exact file; one that fails says so",
  "When saving the evaluations, model parameters or report returns normally, the file holds exactly the current record: one row per evaluation (for model parameters, per iteration of the last run) in order, with values that read back exactly, whatever partial writes the storage made; this also holds for saves repeated over an existing file and for saves requested from a run. When storage fails at any point (open, write, full disk, close) the caller gets an error, the optimizer's state is unchanged and a later save succeeds; an optimizer restarted from a saved evaluations file continues like the original would.",
  ["fault_sequences", "crash_points", "histories"],
  "all storage fault points and short-write patterns, all histories before the save, all optimizer kinds",
  "Tests save once to a healthy disk and only check that a file exists.",
  [BO],
  [("file writers", "BO.save_evaluations/save_models/save_report/_write_csv"), ("parameters per iteration", "BO._save_model_parameter_values")],
  ["bytes of the produced files", "exceptions", "optimizer state"])
p("C13", "Proposals depend only on the recorded data, not on how it was reached",
  "An optimizer's next proposals depend only on its configuration, its recorded evaluations, the arguments of the call and the random stream: a new optimizer restarted from the same record (after a crash, or fed by an external evaluation loop) proposes the same locations as the original one. Earlier aborted calls, failed evaluations, different contexts, queries or ways of splitting the work over runs leave no hidden influence, for surrogates that are determined by their data.",
  ["histories", "crash_points", "fault_sequences"],
  "all histories of calls, aborted calls and crashes after which a restarted twin with the same record and random state is asked the same question",
  "Tests compare one run with one external loop on a fixed seed; equivalence over arbitrary histories and crash points is not reachable by listing cases.",
  [BO, "GPyOpt/core/evaluators", "GPyOpt/acquisitions", "GPyOpt/optimization"],
  [("per-call reset of step state", "BO.suggest_next_locations / run_optimization"), ("penalisation reset after a batch", "LocalPenalization.compute_batch"), ("stateless acquisition search", "AcquisitionOptimizer.optimize")],
  ["proposals of the original vs. the restarted optimizer"])
p("C14", "The surrogate is always fitted to the recorded evaluations",
  "Whenever the surrogate is fitted, its training inputs are all recorded inputs at that moment in their order (categorical variables expanded to indicator columns) and its training outputs are all recorded outputs, standardised to zero mean and unit deviation when output normalisation is on. It is refitted before a proposal on request, and within a run before every proposal whose step number is a multiple of the configured update interval and at no other step.",
  ["histories", "configurations", "fault_sequences"],
  "all histories including failures, resumptions, updates by the caller, batch sizes, intervals and normalisation settings",
  "Tests look at suggested points only, on histories without failures or update intervals.",
  [BO, "GPyOpt/core/task/space.py", "GPyOpt/util/general.py"],
  [("model update", "BO._update_model"), ("encoding", "Design_space.unzip_inputs"), ("normalisation", "util.general.normalize")],
  ["data handed to the surrogate"])
p("C15", "Every step proposes a full batch of the configured size",
  "Without de-duplication every request and every step of a run yields exactly the configured batch size of locations (one for the sequential policy), each of which is evaluated exactly once and recorded, for every batch policy, context, constraint set and history. After a request or step aborted by a surrogate or objective fault the next one is again full-sized, and with the batch penalisation policy its first member is the same as if no earlier batch had been computed.",
  ["histories", "configurations", "fault_sequences"],
  "all batch policies and sizes, contexts and histories, with faults striking between members of a batch",
  "Tests check one step of each policy on one domain with no failure in the middle of building a batch.",
  ["GPyOpt/core/evaluators", "GPyOpt/acquisitions/LP.py", BO],
  [("batch construction", "compute_batch of each evaluator"), ("reset of penalisation", "LocalPenalization.compute_batch")],
  ["rows returned / evaluated per step"])
p("C16", "The progress log records every due iteration with the best so far",
  "The progress output engine gives each saver configured with a positive interval a turn at exactly every interval-th recorded (non-final) iteration, and a saver configured with interval -1 only at the final one; each CSV row written holds that iteration's number, elapsed time, and the best value and its location over all batches recorded so far, under one header line. Storage faults never corrupt rows already written or stop other savers: a log that cannot be opened is skipped, and after closing, everything recorded without a reported error is in the file.",
  ["histories", "fault_sequences"],
  "all sequences of recorded batches, intervals, saver mixes and storage faults",
  "There is no test of the output engine.",
  ["GPyOpt/interface/output.py", "GPyOpt/util/io.py"],
  [("interval counters", "OutputEng.append_iter"), ("row writer", "Logger.save_data"), ("report writer", "Report.save_data")],
  ["bytes of the log files"])
p("C17", "Configuration files drive the run they describe, repeatably",
  "A run started from a configuration uses exactly the options given, and the documented defaults for every option left out at any nesting level: domain, constraints, initial design and its size, surrogate, acquisition, worker count, batch policy, iteration limit, time limit in minutes and tolerance. Reading or running a configuration never alters it or the defaults, so the same configuration can be run again with the same outcome, and an unreadable or malformed file is reported as an error at any point of failure.",
  ["configurations", "histories", "fault_sequences"],
  "all nested partial configurations, repeated and interleaved runs from them, simulated time limits and read faults",
  "There is no test of the configuration interface.",
  ["GPyOpt/interface/config_parser.py", "GPyOpt/interface/driver.py", "GPyOpt/core/task/space.py"],
  [("merge with defaults", "update_config/parser"), ("construction from the configuration", "BODriver")],
  ["parsed options", "evaluations performed by BODriver.run"])
p("C18", "Asking a surrogate for predictions never changes it, even when that fails",
  "Predicting, asking for gradients, the current best value, parameters or covariances leaves a fitted surrogate exactly as it was: the same question asked again, in any order and interleaved with other questions, gets the same answer, and its parameters are unchanged. This also holds when a prediction is aborted by an error at any point, in particular half-way through averaging over sampled hyper-parameters, and a copy of a surrogate shares no state with the original.",
  ["histories", "fault_sequences", "crash_points"],
  "all sequences of queries with numerical failures or interrupts at any inner step, over all available surrogate kinds",
  "Tests call predict once per fitted model and never make it fail.",
  ["GPyOpt/models/gpmodel.py", "GPyOpt/models/warpedgpmodel.py", "GPyOpt/models/input_warped_gpmodel.py"],
  [("save/restore of parameters around sampled predictions", "GPModel_MCMC.predict*, get_fmin")],
  ["repeated predictions and parameter vectors"])
p("C24", "Proposals optimise the acquisition",
  "Where the variables that are not fixed by a context are all continuous and local searches are done by L-BFGS, the first location of every batch (sequential, random or local-penalisation policy) has an acquisition value, per unit of evaluation cost and by the acquisition's published formula for the surrogate's predictions, at least as high as every admissible location the search scored before it started refining; and where the surrogate is linear in its inputs with constant deviation, so that the confidence bound points to one corner of the (numeric) domain or of its part not fixed by the context, that corner is what is proposed. Both hold at every step of any history: within runs and requests, with contexts, constraints, pending locations and earlier calls that were aborted by an error, and when single local searches break down.",
  ["histories", "fault_sequences", "inputs"],
  "all histories of requests and runs with aborted calls, contexts and broken local searches over domains with continuous free variables",
  "Tests check that some proposal comes out of healthy first requests, at a few literal domains.",
  ["GPyOpt/optimization/acquisition_optimizer.py", "GPyOpt/optimization/optimizer.py", "GPyOpt/optimization/anchor_points_generator.py", "GPyOpt/acquisitions/base.py", "GPyOpt/core/evaluators"],
  [("choice of starting points and of the best refined one", "AcquisitionOptimizer.optimize, AnchorPointsGenerator.get, apply_optimizer"), ("reset of the penalisation", "LocalPenalization.compute_batch")],
  ["acquisition of the first proposed location against the scored candidates"])
p("C25", "What a caller hands over is never altered",
  "Nothing a caller passes in is altered: the declaration of the domain and of the constraints, initial inputs and outputs, contexts, pending and ignored locations, arrays of locations put to a surrogate, an acquisition or the design space, and the arrays an evaluation-cost function returns keep their types, order and contents (read-only arrays, arrays of integers and strided views are accepted), whether the call succeeds or is aborted by an error or an interrupt at any point, for every optimizer that was given the same objects and after any history.",
  ["histories", "fault_sequences", "crash_points"],
  "all histories of calls on optimizers that share declarations and data, with failures at any inner step",
  "Tests never look at their arguments again after a call, still less after one that failed.",
  ["GPyOpt/core/bo.py", "GPyOpt/core/task/space.py", "GPyOpt/core/task/variables.py", "GPyOpt/acquisitions/base.py", "GPyOpt/util/duplicate_manager.py", "GPyOpt/util/general.py", "GPyOpt/optimization/acquisition_optimizer.py"],
  [("copies taken of declarations, contexts and data", "Design_space.__init__, BO.suggest_next_locations, ContextManager, DuplicateManager, normalize")],
  ["fingerprints of the objects handed over, before and after each call"])
# ---- pure functions: not targets for this technique
pure = "a pure function of its input: no schedule, time, I/O, fault or history enters it"
p("C19", "Acquisition gradients match the acquisition value",
  "For every acquisition with analytical gradients the reported gradient is the derivative of the reported value wherever that is differentiable.",
  ["inputs"], "all surrogates and points", "Tests check a few points with finite differences.",
  ["GPyOpt/acquisitions"], [("analytic gradients", "*_compute_acq_withGradients")])
p("C20", "Encoding and rounding are inverse on the domain",
  "Translating a domain member to the surrogate's encoding and back returns it unchanged, and rounding any point returns the nearest domain member and leaves members fixed.",
  ["inputs"], "all domains and points", "Tests use a few literal spaces.",
  ["GPyOpt/core/task/space.py", "GPyOpt/core/task/variables.py"], [("zip/unzip/round", "Design_space, Variable")])
p("C21", "Structured initial designs have their defining structure",
  "A Latin design has one point per stratum and dimension, a grid design is the full lattice of the stated size, and a Sobol design follows the sequence scaled to the bounds.",
  ["inputs"], "all domains and sizes", "Tests check shapes and bounds only.",
  ["GPyOpt/experiment_design"], [("designs", "experiment_design/*")])
p("C22", "Acquisition values follow their published formulas",
  "Expected improvement, probability of improvement, confidence bound and their integrated forms equal their closed-form definitions for the surrogate's mean and deviation, divided by the evaluation cost.",
  ["inputs"], "all means, deviations and costs", "Tests compare a few literals.",
  ["GPyOpt/acquisitions", "GPyOpt/util/general.py"], [("formulas", "_compute_acq, get_quantiles")])
p("C23", "Plots draw the data they are given",
  "The acquisition and convergence plots show exactly the surrogate, acquisition, evaluations and best-so-far curve of the optimizer.",
  ["inputs"], "all one- and two-dimensional problems", "Plots are not tested.",
  ["GPyOpt/plotting/plots_bo.py"], [("figures", "plot_acquisition, plot_convergence")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
