#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

A, T, S, G, ST, H, EV, U, GU = ["qtune/%s.py" % x for x in
    "autotuner parameter_tuner solver gradient storage history evaluator util gui".split()]

p("C01", "A NaN voltage is never sent to the experiment",
  "Before the tuning loop applies pending voltages to the experiment it verifies that none of them is NaN. If any is NaN the iteration raises an error and neither the gates nor the tuner's progress (position in the hierarchy, pending voltages, evaluation flag) nor the saved state change.",
  ["inputs", "histories"], "every pending voltage vector, however it was computed or loaded, at every iteration",
  "No stable test drives the tuning loop at all; the guarantee is about every path to the hardware call.",
  [A], [("NaN guard before the gates are set", "Autotuner.iterate")], ["Experiment.set_gate_voltages"])
p("C02", "One iteration performs exactly one action",
  "An iteration either applies the pending voltages, or evaluates the current parameter group, or computes the next voltages: pending voltages take priority, and voltages are computed only for a group that was evaluated and found not tuned. An iteration that is not coherent with the experiment's gates or whose tuning is already complete raises before any of these actions and before any state is changed or saved.",
  ["histories", "configurations"], "every state of the tuning loop (pending voltages or not, evaluated or not, any position in the hierarchy)",
  "The loop has no stable test; the claim ranges over all combinations of loop state.",
  [A], [("dispatch on pending voltages / evaluation flag", "Autotuner.iterate"), ("readiness and completion guards", "Autotuner.iterate")])
p("C03", "The tuning loop follows its state machine",
  "Applying voltages sends exactly the pending vector to the experiment, forgets it and returns to the bottom of the hierarchy; a tuned group moves the position up by exactly one and leaves the evaluation flag unset; an untuned group sets the flag and keeps the position; computing stores the current group's suggestion as pending, clears the flag and keeps the position. An action that raises leaves position, pending voltages and flag as they were. Tuning counts as complete exactly when the position has passed the last group.",
  ["histories"], "every transition of the loop from every state",
  "No stable test executes a transition; a wrong successor state shows only after several iterations.",
  [A], [("state updates per branch", "Autotuner.iterate"), ("completion test", "Autotuner.is_tuning_complete")],
  state=[("position", "index into the hierarchy", "Autotuner"), ("pending voltages", "computed, not yet applied", "Autotuner"), ("evaluation flag", "current group was evaluated and is not tuned", "Autotuner")])
p("C04", "Restart and target changes begin from a clean state with fresh voltages",
  "Restarting, and changing the targets, returns to the bottom of the hierarchy, drops pending voltages and forgets that a group was evaluated. Restart reads the present gate voltages and hands them to every group, which passes them to its solver and, for gradient-based solvers, to every gradient estimator; each of them thereby moves its recorded position to the new voltages of the gates it knows.",
  ["histories", "configurations"], "every restart or target change at any point of a tuning run, for every hierarchy",
  "No test restarts anything; the defect of a member keeping its old position only shows in later steps.",
  [A, T, S, G], [("reset", "Autotuner.restart / change_targets"), ("propagation", "ParameterTuner.restart, Solver.restart, NewtonSolver.restart, GradientEstimator.restart"), ("position setters", "last_voltages, current_position")])
p("C05", "Every completed iteration is saved, last and to a fresh file",
  "If a storage path is configured, every iteration that does not raise ends by handing the complete autotuner to the storage writer after the last change of its state. The target file lies in the configured directory, which is created if missing, is named after the current high-resolution time, and is recorded as the latest save file before the state is handed over.",
  ["histories", "crash_points"], "every iteration of every run with storage configured; a crash between iterations loses at most the running one",
  "Tests never iterate an autotuner with storage; the order of mutation and save is invisible to a single sample.",
  [A, U], [("save at the end of the iteration", "Autotuner.iterate"), ("save routine", "Autotuner.save_current_status"), ("time based names", "util.time_string")])
p("C06", "Asynchronous storage takes snapshots and always terminates",
  "A write request enqueues a deep copy made at the time of the call (object and reserved objects copied together), so later changes do not reach the file, and a request to a stopped writer is refused with an error. The worker reports every task it takes as done, whether or not writing it raised, lets no error pass unlogged, and stops on the stop marker. Joining a writer always sends the marker to a live worker and waits for the worker itself to end, never for a queue that a dead worker can no longer drain.",
  ["schedules", "fault_sequences"], "all interleavings of producer and worker and all failures while writing",
  "Interleavings and failing writes cannot be enumerated by sampling; no stable test uses the asynchronous writer.",
  [ST], [("deepcopy before enqueue", "AsynchronousHDF5Writer.write"), ("task_done in finally", "_writer_target"), ("join protocol", "AsynchronousHDF5Writer.join")])
p("C07", "Saved objects carry everything their constructors need",
  "For every serialisable class, each entry it exports for storage is accepted by its constructor under the same name, and every mandatory constructor argument is exported. Each exported entry is the present value of the state that the constructor initialises from that argument, so saving and reloading reproduces the state; no argument whose value the object goes on using is left out.",
  ["programs", "inputs"], "all serialisable classes of the package and all values of their attributes",
  "The tests reload a few default-constructed objects; an attribute that is dropped or exchanged is only visible when it was changed before saving.",
  ["qtune/*.py"], [("to_hdf5 versus __init__", "all HDF5Serializable classes")])
p("C08", "The storage writer and reader agree",
  "Every kind of object the storage writer accepts is tagged such that the reader rebuilds the same kind (text as text, tables and series with their labels, sequences in order, None as None); anything else is rejected with an error rather than dropped. Objects that occur several times are stored once and come back as one object, and an object is only ever stored as a reference to itself: the table of already stored objects keeps them alive for as long as it is used.",
  ["inputs", "programs"], "all object graphs built from supported types",
  "Tests round-trip a handful of small graphs; identity confusion needs a particular allocation pattern.",
  [ST], [("tagging", "_to_hdf5"), ("dispatch on tags", "_from_hdf5"), ("memo", "to_hdf5")])
p("C09", "The experiment itself is never stored and always substituted on load",
  "Objects declared as reserved are written only as named placeholders, registered before anything else is written, and on loading every placeholder is replaced by the object supplied under that name before the rest is rebuilt; everyone who loads a stored autotuner hands on the objects it was given for this, or the live experiment. The autotuner declares its live experiment as reserved, under the name its own export uses, for every save.",
  ["inputs", "programs"], "every save and load of an autotuner and every reserved object",
  "The single reserved-object path is exercised by one sample at most; leaking the experiment depends on the object graph.",
  [ST, A, "qtune/experiment.py"], [("placeholders", "to_hdf5 / from_hdf5"), ("reserved experiment", "Autotuner.asynchrone_writer, Autotuner.reserved"), ("opaque copy", "Experiment.__deepcopy__")])
p("C10", "A failed evaluation never reaches the solver and triggers recovery",
  "If any relevant parameter evaluates to NaN the group is reported as not tuned and marked as failed, the solver is not updated, and the voltages are recorded neither as evaluatable nor as tuned; an evaluation without NaN clears the mark. Once good voltages are known, the next suggestion after a failed evaluation is the midpoint between the failed voltages and the most recent good ones, obtained without consulting the solver.",
  ["inputs", "histories", "fault_sequences"], "every evaluation result of every parameter group",
  "Tests cover one failing sample per class; the claim is about every path through the evaluation.",
  [T], [("NaN check before the solver update", "SubsetTuner.is_tuned, SensingDotTuner.is_tuned"), ("midpoint recovery", "get_next_voltages")])
p("C11", "The tuned verdict means every target is met strictly within tolerance",
  "A subset of gates counts as tuned exactly when, for every parameter, the distance between target and measured value is strictly smaller than the (positive) tolerance, where parameters without target or without tolerance do not count; the voltages are then recorded as tuned and otherwise are not. A sensing dot counts as tuned exactly when no measured value is at or below its minimum; otherwise the solver is updated, and the expensive measurement is made exactly when some value is at or below its cost threshold.",
  ["inputs"], "all measured values, targets, tolerances, minima and thresholds, including NaN and exact ties",
  "Tests use a few comfortable values; ties, signs and NaN are not sampled.",
  [T], [("tolerance comparison", "SubsetTuner.is_tuned"), ("minimum and cost threshold", "SensingDotTuner.is_tuned")])
p("C12", "A voltage step never exceeds the maximal step size and queued steps run out",
  "Each suggestion of the step-limited tuner differs from the last voltages by at most the maximal step size in Euclidean norm, keeps the direction the solver asked for, and leaves gates the solver does not mention unchanged. Steps still to be taken are counted down by one per suggestion, never exceed the configured maximum, and are dropped as soon as the remaining step fits; while steps are queued no measurement is made and only the solver's position is updated.",
  ["inputs", "histories"], "all solver suggestions, step limits and queue lengths",
  "One test looks at one suggestion; the countdown is a property of sequences.",
  [T], [("slicing of the step", "SubsetTuner.get_next_voltages"), ("skipping evaluation while queued", "SubsetTuner.is_tuned")])
p("C13", "Parameters are rescaled exactly once, variances with the squared factor",
  "Every evaluation result is divided by its rescaling factor exactly once before it is stored, compared or given to the solver, and variances are divided by the squared factor; descaling is the exact inverse; parameters without a factor are left alone. A solver that needs original units descales its own copy, so values handed to a solver are not changed by it.",
  ["inputs"], "all parameter values, variances and rescaling factors, for every tuner and solver",
  "Default factors of one hide every scaling error in the tests.",
  [T, S], [("rescale / descale", "Solver.rescale_values, Solver.descale_values"), ("use before comparison", "is_tuned of both tuners"), ("forwarding in original units", "ForwardingSolver.update_after_step")])
p("C14", "The Newton step uses the right data and asks for measurements first",
  "Each gradient estimator is updated with the value and variance of its own parameter, matched by name, and only if that parameter has a target; position and values are taken over after every step. A suggestion first returns the measurement requested by the first estimator (in order, among parameters with a target) that requests one; only otherwise it returns the current position plus the least-squares solution of the jacobian for target minus current value, where parameters without a target are required to keep their value.",
  ["inputs", "configurations"], "all targets (including NaN), value orders, estimator sets and positions",
  "Tests use ordered labels and complete targets; mismatched orders and NaN targets are not sampled.",
  [S], [("estimator update", "NewtonSolver.update_after_step"), ("suggestion", "NewtonSolver.suggest_next_position")])
p("C16", "The Kalman estimator learns from displacements; restart drops its reference",
  "The Kalman estimator feeds its filter the differences of position and value relative to its reference point, together with the measurement variance; without a reference value it only records one and does not touch the filter; without a displacement it does not update the filter. The reference moves only when the measurement is declared a new position, and a restart discards the reference value and moves the position. The self-initialising estimator hands every measurement to its active estimator, and starts the Kalman estimator from the finite-difference gradient and covariance and the present position and value as soon as the gradient is known.",
  ["inputs", "histories"], "all sequences of updates and restarts",
  "Tests look at single updates; the reference is history-dependent.",
  [G], [("update", "KalmanGradientEstimator.update"), ("restart", "KalmanGradientEstimator.restart")])
p("C17", "Finite differences request measurements only while the gradient is unknown",
  "The finite-difference estimator requests measurements exactly as long as it has no estimate, refuses to do so before it has a position, and stores every measurement it receives in the meantime, except the first of a symmetric estimator, which only fixes the position. Each new direction it requests is orthogonal to the measurements stored so far, and the second of a symmetric pair mirrors the first. It computes its estimate exactly when twice the dimension (symmetric) or the dimension plus one (asymmetric) measurements are stored, from all of them with their values and variances in matching order, labelled by the gates; once the estimate exists it is not changed by updates.",
  ["inputs", "histories"], "all dimensions, both modes and all measurement sequences",
  "Tests run two small sequences; the protocol is a property of all of them.",
  [G], [("request", "FiniteDifferencesGradientEstimator.require_measurement"), ("update", "FiniteDifferencesGradientEstimator.update")])
p("C18", "Rows, reload paths and raw data of the history stay in lockstep",
  "Every autotuner appended to the history either stays in the last row, replacing that row's reload path, or opens exactly one new row together with one new reload path and one new entry of evaluator data, also when nothing was evaluated; it stays in the row exactly when the recorded gate voltages equal those of the last row. The row number used to look up a reload path therefore always belongs to the same state as the plotted row.",
  ["histories"], "all sequences of appended autotuner states",
  "The history has no test at all; lockstep is a property of sequences.",
  [H], [("append", "History.append_autotuner"), ("lookup", "History.get_reload_path")])
p("C19", "Histories load in chronological order and merge only evaluated groups",
  "Loading a directory appends every file exactly once, in the order of its time-stamped name, with its own path; the time stamps sort as text in the order of time. From an autotuner only the groups evaluated since the row was opened contribute values: those from the row's recorded position up to the current one, including the current group when it was just evaluated or has produced pending voltages.",
  ["histories", "inputs"], "all directories and all appended states",
  "No test loads a directory; order and merging are properties of whole runs.",
  [H, U], [("sorted directory content", "History.load_directory"), ("time strings", "util.time_string"), ("evaluated range", "History.append_autotuner")])
p("C20", "History columns are found under the names they were written with",
  "Variances, gradients and gradient covariances are read back from exactly the columns written for the requested parameter: the accessors use the same name templates as the writer, match whole column names and treat parameter names literally, so no column of another parameter is returned. For names without '#', the separator of the column names, different parameters and gates never share a column for variances, gradients or gradient covariances, and every value is filed under its own parameter and gate names.",
  ["inputs", "configurations"], "all parameter and gate names",
  "The history has no test; collisions depend on names.",
  [H], [("name templates", "History._*_name"), ("accessors", "History.get_gradients, get_gradient_covariances, get_gradient_variances, get_parameter_std")])
p("C21", "Analysing or plotting data never changes it",
  "The analysis and plotting helpers, the solvers' and estimators' suggestion and query functions, and the history's read functions never modify the arrays, series, lists or tables passed to them by their callers. Functions documented to work in place are the only exception. Raw data an evaluator has stored is not modified by its analysis, and answering a question leaves the recorded history and the state of the asked object as they are.",
  ["inputs"], "all inputs of the helper and query functions",
  "Tests compare results, not arguments; a mutated argument corrupts stored raw data or a later step.",
  [U, H, EV, S, G], [("copy before modification", "find_lead_transition and siblings")])
p("C22", "Every evaluator returns one value and one variance per parameter",
  "Each evaluator returns a pair of series, values first and variances second, both labelled with the same parameter names on every path; where the names are fixed they are the ones its constructor declares. Every value comes from the measurement (or is NaN), and no variance is reported for another parameter. A fit that does not converge, at whichever of the fits of an evaluation, gives NaN for value and variance instead of raising, so that the tuner can recover. Fitted parameters are labelled with the names of the fit function's arguments in their order. The averaging evaluator reports the mean of the repetitions that succeeded and the variance of that mean.",
  ["inputs", "fault_sequences"], "all measurement data, including data no fit converges on",
  "No test evaluates a real evaluator; failing fits need particular data.",
  [EV, "qtune/sm_tune_qqd.py"], [("returned series", "evaluate of all Evaluators"), ("fit failure handling", "evaluate of the fitting evaluators")])
p("C23", "Gates shifted for a measurement are put back on every exit",
  "An evaluator that shifts gate voltages for a measurement restores the voltages it read beforehand on every exit, also when the measurement or the analysis raises. It shifts relative to the voltages it read, and each measurement is made while its own shift, and no shift of an earlier one, is in place.",
  ["fault_sequences", "crash_points"], "every failure inside a shifted measurement, for every number of shifted gates",
  "No test injects a failing measurement.",
  [EV], [("restore after the shifted measurement", "LeadTransition.evaluate")])
p("C24", "Only the tuning loop, user reload and shifted measurements set gate voltages",
  "Gate voltages are set only by the tuning loop when it applies pending voltages, by an evaluator that restores them afterwards, and by the user's explicit reload of recorded voltages, which restarts the autotuner immediately after setting them. Tuners, solvers, gradient estimators, storage and history never set gate voltages or start measurements; measurements are started only by evaluators, experiments and functions the user calls.",
  ["programs"], "all code of the package",
  "Tests observe calls on a mock in a few places; absence of any other writer is a whole-program statement.",
  ["qtune/*.py"], [("single writer", "Autotuner.iterate"), ("reload", "ReloadWidget.reload_voltages")])
p("C25", "The GUI worker stops when asked and survives errors",
  "The worker thread runs iterations only while continuous mode or a single step is requested and no stop is requested, and ends once stop is requested, so closing the window cannot hang. A single step performs one iteration; completion of the tuning, a missing autotuner and any exception end the run by pausing instead of repeating or killing the worker; every iteration that succeeded is appended to the history. A requested run or step restarts a worker that ended, pause withdraws a pending step, and the request flags are defined before a worker starts.",
  ["schedules", "fault_sequences"], "all interleavings of button presses with the worker and all failures of an iteration",
  "The GUI has no tests; interleavings cannot be sampled.",
  [GU], [("worker loop", "GUI._work"), ("start/step/pause/close", "GUI")])
p("C26", "Implementations of an interface can be used interchangeably",
  "Every solver, gradient estimator, tuner, evaluator and experiment accepts the calls the rest of the package makes through its base interface: same methods, callable with the same positional and keyword arguments in the same order, properties staying properties and assignable ones assignable. Every concrete one implements the operations its base leaves open and the package uses.",
  ["programs", "configurations"], "all pairs of interface and implementation in the package",
  "Tests combine few implementations; a wrong signature fails only in the untested combination.",
  ["qtune/*.py"], [("overriding methods", "Solver, GradientEstimator, ParameterTuner, Evaluator, Experiment")])
p("C27", "The Nelder-Mead solver walks its protocol without dead ends",
  "Whatever cost the next point has, each phase (build-up, reflect, expand, contract, shrink) has a successor whose suggestion is defined, and once a point has been accepted into the simplex or a shrink is finished the solver begins a new iteration. A reflected point better than the best one leads to an expansion, one between the best and the second worst is accepted, one between the second worst and the worst to a contraction outside, a worse one to a contraction inside; expanded and outside-contracted points compete with the reflected one, an inside-contracted one with the worst, and a contraction that does not improve leads to a shrink; accepted points replace the worst. The suggested points are 2m-w, 3m-2w, 1.5m-0.5w, 0.5m+0.5w and the means with the best point (m the centroid, w the worst). The simplex never changes size after build-up, the state it exports can be read back, and the reported cost is the value of the cost function in use.",
  ["inputs", "histories"], "all sequences of costs and all dimensions",
  "No stable test runs the solver; each phase needs a particular order of costs.",
  [S], [("phases", "NelderMeadSolver.update_after_step / suggest_next_position"), ("serialised state", "NelderMeadSolver.to_hdf5")])
p("C29", "Every name and attribute used exists, in every module",
  "Every function, class, module attribute and object attribute that the package's code refers to is defined, and every call of the package's own functions passes arguments they accept, also in code that tests never import (the GUI, the MATLAB backend, plotting). Results of operations that work in place and return nothing are not used as values.",
  ["programs", "inputs"], "all code paths of all modules",
  "Large parts are not importable in the test environment (GUI, MATLAB) and have no tests.",
  ["qtune/*.py"], [("name resolution", "all modules")])
p("C30", "The readiness check reports every incoherent gate name",
  "The readiness check looks at every parameter group and, for gradient-based solvers, at every estimator, and fails if pending voltages, a group's last voltages, its solver's position or an estimator's position name a gate the experiment does not know, or if a step-limited group tunes a gate its estimator does not know. Once one incoherence was found no later finding turns the verdict positive, and the check passes only if none was found; it changes nothing.",
  ["configurations"], "all hierarchies and gate names",
  "No test calls the readiness check.",
  [A], [("subset checks", "Autotuner.ready_to_tune")])
p("C31", "Only strictly lower groups count as already tuned",
  "When voltages are computed, the parameters reported as tuned are exactly those of the groups strictly below the current position whose target is complete; the current group's and higher groups' parameters are not among them. The solver receives this set, and Newton-type solvers hand the gradients of exactly these parameters to their estimators.",
  ["configurations", "histories"], "all hierarchies and positions",
  "No stable test computes voltages through a hierarchy.",
  [A, T, S], [("tuned parameters", "Autotuner.tuned_parameters"), ("forwarding", "get_next_voltages of both tuners, NewtonSolver.suggest_next_position")])
p("C33", "Targets are aligned by name and changed only where named",
  "A target table takes every column (desired, minimum, maximum, tolerance, cost threshold, rescaling factor) from the argument of that name, aligned by parameter, with missing limits as NaN and missing rescaling as one; it refuses to guess if no argument names the parameters. Changing a target assigns, for each named category, exactly the given entries and leaves all other entries and categories as they were, and the i-th change goes to the i-th group.",
  ["inputs"], "all target arguments and target changes",
  "No test builds partial targets or changes one.",
  [S, A], [("construction", "make_target"), ("changes", "Solver.target setter, Autotuner.change_targets")])
p("C34", "Setting some gates leaves the others unchanged",
  "Every experiment backend, given new voltages for some gates, sets exactly these gates to the given values and leaves all other gates at their present voltage. Reading the voltages returns every gate under its name in sorted order, as a copy the caller may change without changing a voltage.",
  ["inputs"], "all backends and all subsets of gates",
  "Two of three backends need MATLAB and cannot run in the test environment.",
  ["qtune/basic_dqd.py", "qtune/sm.py", "qtune/sm_tune_qqd.py"], [("partial update", "set_gate_voltages of all experiments")])
p("C35", "The history records what the tuner knew, under the right names",
  "What an autotuner's state contributes to a history row is the first group's last voltages; for every group, the value of each of its parameters from its last evaluation together with the variance of the same parameter, where a subset tuner contributes exactly the parameters with a target; and for every Newton-type group the gradient and the gradient covariance of its i-th estimator under the name of the i-th parameter of its target, whenever the estimator knows them. Values are never exchanged with variances, nor gradients with covariances. Every evaluator of the groups read that has raw data contributes its export as the record under its own name - in a sensing dot group that was evaluated only cheaply the cheap evaluators do -, and no record that has raw data is blanked.",
  ["histories", "configurations"], "all hierarchies and all states of their estimators",
  "The history has no test; misattributed values look plausible in every plot.",
  [H], [("extraction", "extract_voltages_from_hierarchy, extract_parameters_from_hierarchy, extract_gradients_from_hierarchy"), ("raw data", "read_evaluator_data_from_autotuner, History.append_autotuner")])
p("C36", "Everything recorded can be drawn, with its own fit, marks and error bars",
  "For every evaluator with an entry in the table of plot functions, drawing a stored record uses only entries this evaluator stores, draws its raw data, draws the fit with the stored fit results through the very function that was fitted (its arguments are the names of the fit results), and labels each panel of a transition scan with the parameter whose position is marked in it; it works on a single axes, a list and an array of axes. Parameters without an entry in the table of names and units can be drawn, too. Error bars are the square roots of the recorded variances of the same parameter (and gate), in the live plots two of them high, because these draw half the height to each side.",
  ["inputs", "configurations"], "all evaluators, records and layouts of axes",
  "No test draws a stored record; a wrong fit function or a variance drawn as error is no crash.",
  [H, U, "qtune/gui.py"], [("plot functions", "plot_function_matching"), ("fit curves", "util.plot_raw_data_fit"), ("error bars", "plot_parameters, plot_gradients, PlotOrganizer.refresh")])
p("C37", "The Kalman estimator asks for a measurement exactly where it is too uncertain",
  "Asked for the gates of its solver, the Kalman estimator requests a measurement exactly if the uncertainty along some direction of these gates exceeds the maximum covariance, and otherwise nothing. The request is its current position displaced by epsilon times the direction for which the compared uncertainty is largest; given the jacobian of parameters that are already tuned, only directions that leave these parameters unchanged are considered. Asking changes nothing. The estimate and covariance it reports are those of its filter, labelled by its gates, and the filter starts from exactly the values it is given.",
  ["inputs", "histories"], "all covariances, limits, step widths, gate subsets and jacobians",
  "Tests ask for a measurement in one or two concrete states; a wrong direction or limit only costs precision there.",
  [G, "qtune/kalman_gradient.py"], [("request", "KalmanGradientEstimator.require_measurement"), ("reported values", "KalmanGradientEstimator.estimate / covariance"), ("start values", "KalmanGradient.__init__")])
p("C38", "The finite-difference gradient relates the same measurements on both sides",
  "The gradient and its covariance are computed from displacements, differences of values and variances that belong to the same pairs of measurements: with one more measurement than gates every other one is paired with the base point, with two measurements per gate consecutive ones are paired, and no measurement is left out. The variances of a pair are added, the inverse displacements enter gradient and covariance in the matching orientation, a covariance is returned exactly if variances are given, and any other number of measurements is refused.",
  ["inputs"], "all numbers of gates, positions, values and variances",
  "Tests use isotropic or symmetric samples for which a wrong pairing of variances or a transposed matrix goes unnoticed.",
  [U], [("pairing and matrix product", "calculate_gradient_non_orthogonal, gradient_min_evaluations")])
p("C39", "Values outside an evaluator's limits are reported as NaN",
  "The QQD evaluators with stated limits (QQDLine, QQDLead: minimal_value and maximal_value of their value; QQDResp: min_position and max_position per transition and min_transition_height of its visibility) report NaN exactly for the values that lie outside, each position being judged by its own limits and its own visibility; a value on or within its limits is reported as measured whatever the other ones are. A limit that is not stated does not exist.",
  ["inputs"], "all measured values and limits (every order type of each value relative to its limits)",
  "No test of the package runs these evaluators, and a limit of the wrong position or an inclusive comparison shows for particular values only.",
  ["qtune/sm_tune_qqd.py"], [("limits", "QQDLine.process_raw_data, QQDLead.process_raw_data"), ("limits per position", "QQDResp.evaluate / process_raw_data"), ("defaults", "QQDResp.__init__")])
p("C40", "Gradients are numerically correct",
  "The gradient computed from finite differences equals the true gradient of a linear function up to rounding, and its covariance is the propagated measurement variance.",
  ["inputs"], "all positions in general position and all linear functions",
  "Tests use a few random matrices.", [U, G], [("linear algebra", "calculate_gradient_non_orthogonal")])
p("C41", "Tuning converges for smooth responses",
  "For a smooth, monotone response with accurate gradients, repeated iterations reach the targets within their tolerances.",
  ["inputs", "histories"], "all smooth response functions", "Convergence over all responses cannot be sampled.",
  [A, S, G], [("Newton iteration", "NewtonSolver"), ("Kalman filter", "KalmanGradient")])
p("C42", "Fits extract the physical quantity",
  "Each fitting evaluator recovers the tunnel coupling, reload time or transition position underlying the measured curve within its reported variance.",
  ["inputs"], "all noise realisations", "Fits depend on data and optimiser.", [EV], [("curve fits", "process_raw_data of the evaluators")])
p("C43", "A loaded autotuner continues exactly like the saved one",
  "After saving and reloading, every further iteration produces bit-identical voltages and records to the run that was not interrupted.",
  ["histories", "crash_points"], "all runs and save points", "Equality of whole runs cannot be sampled.",
  [ST, A], [("complete export", "to_hdf5")])
p("C44", "The self-initialising estimator answers with its Kalman estimator",
  "As long as no Kalman estimator exists, estimate, covariance, request for measurements and position are those of the finite differences; from the moment it exists they are those of the Kalman estimator, and the arguments of a request are passed on unchanged. A new position, a position change and a restart reach the estimator that answers. The Kalman estimator is made at most once, never replaced by an update, for the gates of the gradient only, with the stored arguments; building the estimator from scratch hands every argument to the part that uses it.",
  ["histories"], "all sequences of updates, requests, position changes and restarts before and after the Kalman estimator exists",
  "No test of the package runs this estimator past its initialisation; a stale answer shows only in later updates.",
  [G], [("answering estimator", "SelfInitializingKalmanEstimator.active_estimator"), ("creation", "SelfInitializingKalmanEstimator.update"), ("propagation", "current_position, change_position, restart")])

p("C45", "An experiment conducts the measurement that was asked for",
  "A test experiment asks the simulator that is registered for that very measurement (not for one of equal name) with all present gate voltages and that measurement and returns its answer; a simulator hands voltages, measurement and its own options to its function; a measurement without simulator is refused at construction. SMTuneQQD refuses unknown names before anything is conducted; a known one is conducted by tune.tune with the measurement's name, its index and every other option as name and value, and the result is returned whole, except for 'stp' and 'tl' where it is the position STp_x, STp_y resp. Tp_x, Tp_y. LegacyDQDRefactored conducts each name by its MATLAB routine, with the measurement's own options plus a fresh file name and every field the routine reads; other names are refused. Conducting a measurement does not change it, apart from numpy scalars replaced by the equal number.",
  ["inputs"], "all measurements, options and voltages",
  "Two of three back ends need MATLAB and cannot run in the test environment; a lost or foreign option only yields other data.",
  ["qtune/experiment.py", "qtune/basic_dqd.py", "qtune/sm_tune_qqd.py", "qtune/sm.py"], [("choice of simulator", "TestExperiment.measure"), ("QQD measurements", "SMTuneQQD.measure"), ("DQD measurements", "LegacyDQDRefactored.measure")])
p("C46", "The forwarding solver moves each gate to the value measured for it",
  "After an update of the forwarding solver, its next position holds, for every gate of the solver to which the mapping assigns a measured value, that value in its original scale (multiplied with its rescaling factor, where one is given), for every other gate of the evaluated position the evaluated voltage, and for the rest the voltage planned before; its current position holds the evaluated voltages of its own gates. Gates that the solver does not own, values without a gate and mappings without a value change nothing, and the order in which gates or values are listed is irrelevant. The suggested position is the next position. At construction the next position is the given one for the gates of the solver, and otherwise a copy of the current one.",
  ["inputs", "histories"], "all gates, positions, values, mappings and rescaling factors, in any order",
  "The test uses one complete position in the solver's own order, with factors 1.",
  [S], [("update", "ForwardingSolver.update_after_step"), ("suggestion", "ForwardingSolver.suggest_next_position"), ("start", "ForwardingSolver.__init__")])

p("C47", "Voltages and parameters keep their labels",
  "Wherever voltages, parameters, variances, targets, rescaling factors or step sizes are stored, combined, returned or handed on by the solvers, gradient estimators, tuners, the autotuner and the experiments, each value stays under the gate or parameter name it was given for, whatever the order in which the inputs list the names. Whatever a solver or an estimator keeps per gate (position, step sizes, covariance limits) keeps the names and the order of its own gates, in which the arrays of its gradient are written.",
  ["inputs", "histories"], "all series and frames of voltages, parameters and their companions, in any order of labels",
  "Tests list gates and parameters in the same, mostly alphabetical order everywhere, in which a value taken by position is the value taken by name.",
  [S, G, T, A], [("solver", "NewtonSolver.suggest_next_position"), ("estimator", "KalmanGradientEstimator.update"), ("tuner", "SubsetTuner.is_tuned"), ("scaling", "Solver.rescale_values")])

p("C48", "Accessors report the state they are named after",
  "What an object reports about itself is the state that the accessor is named after: tuners, solvers, gradient estimators, evaluators and the autotuner report the values they were constructed with (and, as the other properties say, what replaced them), both groups of evaluators of a sensing dot tuner are among its evaluators, the Jacobian of the Newton solver holds for every target parameter and gate the estimated derivative of this parameter by this gate, and its state names each of them d<parameter>/d<gate>. The autotuner says that all estimators are ready exactly if none requires a measurement, and counts as tuned the parameters of exactly the tuners below the current one. An experiment names the gates whose voltages it reads, and the history returns a stored column unchanged.",
  ["inputs", "histories"], "all objects, however constructed, and all orders of gates and parameters",
  "The tests read few accessors, and where names and values are listed separately they use one gate, one parameter or one order.",
  [S, T, A, G, EV, H], [("state", "NewtonSolver.state"), ("Jacobian", "NewtonSolver.jacobian"), ("values", "ParameterTuner.last_parameters_and_variances"), ("readiness", "Autotuner.all_estimators_ready"), ("tuned parameters", "Autotuner.tuned_parameters")])

p("C49", "What may be left out may be left out",
  "Every constructor, method and function works when any or all of the arguments that default to None are left out: a missing value is replaced by a start value, or the step that needs it is skipped, and it is never used as if it was there. The same holds for what the objects do not have yet (no voltages, no evaluation, no estimate, no raw data, no file): wherever a method has found a value to be missing it does not go on to use it.",
  ["inputs", "histories"], "all functions, all subsets of one or all optional arguments, all states in which something is missing",
  "Tests give nearly all arguments; the crash on a missing one comes late, when the first measurement is stored or drawn.",
  [A, T, S, G, EV, H, ST, U], [("construction", "constructors of all classes"), ("drawing", "History.plot_evaluator_data"), ("requests", "GradientEstimator.require_measurement")])

p("C50", "A position read off a scan is a point of that scan",
  "The axis an evaluator builds for a scan runs from the centre of that very measurement by its range to either side, with as many points as were measured, also when it asks for several scans; data and axes are recorded pairwise. A position is read off this axis at the place that the analysis found: an index found in a part of the data is counted from where this part begins. The position is reported as that of the gate which was swept to find it.",
  ["inputs"], "all scans an evaluator is given, whatever their centres, ranges and numbers of points, and all measured data",
  "No test evaluates a scan; the evaluators' own defaults give all scans of an evaluator the same range and centre, where an axis taken from the wrong one looks right.",
  [EV], [("line scans", "LeadTransition.process_raw_data"), ("sensing dot", "SensingDot1D.process_raw_data"), ("two-dimensional scan", "SensingDot2D.evaluate"), ("detuning scan", "InterDotTCByLineScan.evaluate")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
