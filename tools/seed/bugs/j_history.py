H_ = "qtune/history.py"

FAKE = '''
from support import *
from qtune.history import History
import qtune.history


class E_:
    def __init__(self, name, raw=None):
        self.name, self.raw_data = name, raw

    def to_hdf5(self):
        return {"name": self.name, "raw_y_data": self.raw_data, "raw_x_data": None}


def group(volts, par, var, evs=(), desired=None, solver=None, cls=types.SimpleNamespace):
    g = cls()
    g.last_voltages, g.last_parameters_and_variances, g.evaluators = volts, (par, var), list(evs)
    g.solver = solver
    return g


def auto(groups, index=0, pending=None, status=False, saved="saved"):
    return types.SimpleNamespace(tuning_hierarchy=groups, current_tuner_index=index, voltages_to_set=pending,
                                 current_tuner_status=status, last_save_file=saved)


def counts(h):
    return h.number_of_stored_iterations, len(h._paths_for_reload), len(h.get_evaluator_data().index)
'''

BUG("c18-fine-steps", "C18", (H_, [("        if voltages.equals(self._data_frame[sorted(self.gate_names)].iloc[-1]):\n", "        if np.allclose(voltages.astype(float), self._data_frame[sorted(self.gate_names)].iloc[-1].astype(float)):\n")]),
    "a tuning step of some nV on a gate at 1 V", "a step with new voltages overwrites the row of the step before it", FAKE + '''
h = History(None)
h.append_autotuner(auto([group(S(A=1.), S(x=1.), S(x=.1), [E_("e", 1)])]), "one")
h.append_autotuner(auto([group(S(A=1. + 4e-9), S(x=2.), S(x=.1), [E_("e", 2)])]), "two")
check(counts(h) == (2, 2, 2), "rows, paths, raw data: %s" % (counts(h),))
''')

BUG("c18-reload-path-of-save", "C18", (H_, [("            # stay in the row\n            self._paths_for_reload[-1] = path\n", "            # stay in the row\n            if autotuner.last_save_file is not None:\n                self._paths_for_reload[-1] = autotuner.last_save_file\n")]),
    "a directory that was copied is loaded, and a row consists of several files", "the row refers to a file of the place where the run was recorded", FAKE + '''
h = History(None)
g = group(S(A=1.), S(x=1.), S(x=.1), [E_("e", 1)])
h.append_autotuner(auto([g], status=False, saved="/old/one"), "/new/one")
h.append_autotuner(auto([g], status=True, saved="/old/two"), "/new/two")
check(h.get_reload_path(0) == "/new/two", "row 0 is reloaded from %s" % h.get_reload_path(0))
''')

BUG("c18-first-gates", "C18", (H_, [("        voltages = extract_voltages_from_hierarchy(autotuner.tuning_hierarchy).sort_index()\n", "        voltages = extract_voltages_from_hierarchy(autotuner.tuning_hierarchy)\n")]),
    "an experiment whose gates are not in alphabetical order", "every saved state opens a row of its own although the voltages did not change", FAKE + '''
h = History(None)
for n in range(3):
    h.append_autotuner(auto([group(pd.Series([1., 2.], ["B", "A"]), S(x=1.), S(x=.1), [E_("e", 1)])], status=n > 0), str(n))
check(counts(h) == (1, 1, 1), "rows, paths, raw data: %s" % (counts(h),))
''')

BUG("c18-raw-only-new", "C18", (H_, [("            new_evaluator_data = read_evaluator_data_from_autotuner(autotuner, end=evaluated_tuner_index)\n            self._evaluator_data = self._evaluator_data.append(new_evaluator_data, ignore_index=True, sort=True)\n", "            new_evaluator_data = read_evaluator_data_from_autotuner(autotuner, end=evaluated_tuner_index)\n            if evaluated_tuner_index:\n                self._evaluator_data = self._evaluator_data.append(new_evaluator_data, ignore_index=True, sort=True)\n")]),
    "a state is saved after the voltages were set and before the first evaluation", "raw data and rows get out of step", FAKE + '''
h = History(None)
for n in range(3):
    h.append_autotuner(auto([group(S(A=float(n)), S(x=1.), S(x=.1), [E_("e", n)])], status=False), str(n))
check(len(set(counts(h))) == 1, "rows, paths, raw data: %s" % (counts(h),))
''')

BUG("c19-pending-forgotten", "C19", (H_, [("        if autotuner.voltages_to_set is not None or autotuner.current_tuner_status:\n", "        if autotuner.current_tuner_status:\n")]),
    "a state is saved while a step is pending", "the evaluation that led to the step is missing in its row", FAKE + '''
h = History(None)
a = lambda v, x: [group(S(A=v), S(x=x), S(x=.1), [E_("e", x)])]
h.append_autotuner(auto(a(0., 1.), pending=S(A=1.)), "0")
h.append_autotuner(auto(a(1., 2.)), "1")
h.append_autotuner(auto(a(1., 3.), pending=S(A=2.)), "2")
check(h.get_parameter_values("x").iloc[-1] == 3., "parameters: %s" % h.get_parameter_values("x").tolist())
''')

BUG("c19-start-from-current", "C19", (H_, [("            start = self._data_frame['tuner_index'].iloc[-1]\n", "            start = autotuner.current_tuner_index\n")]),
    "two groups are evaluated between two saved states of one row", "the evaluation of the first of them is missing", FAKE + '''
h = History(None)
def hier(x, y):
    return [group(S(A=1.), S(x=x), S(x=.1), [E_("e", x)]), group(S(A=1.), S(y=y), S(y=.1), [E_("f", y)])]
h.append_autotuner(auto(hier(1., 1.)), "0")
h.append_autotuner(auto(hier(2., 2.), index=1, status=True), "1")
got = h.get_parameter_values("x").iloc[-1], h.get_parameter_values("y").iloc[-1]
check(got == (2., 2.), "parameters: %s" % (got,))
''')

BUG("c19-unsorted-directory", "C19", (H_, [("                                 for file in sorted(os.listdir(path))]\n", "                                 for file in sorted(os.listdir(path), key=lambda file: file.rsplit('_', 1)[0])]\n")]),
    "two states saved on the same day (the key drops the time)", "steps of a day are loaded in the directory's order", FAKE + '''
import contextlib, qtune.storage
names = ["20200101_1200%02d.hdf5" % i for i in range(6)]
seen = []
class Reader:
    def __init__(self, *a, **k):
        pass
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return False
    def read_iter(self, files):
        return iter([{"autotuner": f} for f in files])
qtune.storage.ParallelHDF5Reader = Reader
listing = [names[i] for i in (3, 0, 5, 1, 4, 2)]
import os
class OS:
    path = os.path
    @staticmethod
    def listdir(p):
        return list(listing)
qtune.history.os = OS
h = History(None)
h.append_autotuner = lambda a, p=None: seen.append(os.path.basename(p))
h.load_directory("x")
check(seen == names, "loaded as %s" % seen)
''')

BUG("c19-end-of-sensing", "C19", (H_, [("            if not par_tuner.cheap_evaluation_only:\n", "            if not par_tuner.cheap_evaluation_only or not par_tuner.cheap_evaluators:\n")]),
    "a sensing dot group without cheap evaluators that was set to skip the expensive ones", "stale raw data of an earlier evaluation is recorded", FAKE + '''
from qtune.history import read_evaluator_data_from_autotuner as read
t = SensingDotTuner.__new__(SensingDotTuner)
class T(SensingDotTuner):
    def to_hdf5(self):
        return {}
    cheap_evaluators = property(lambda self: [])
    expensive_evaluators = property(lambda self: [E_("big", 1)])
    cheap_evaluation_only = property(lambda self: True)
t.__class__ = T
d = read(auto([t]))
check("big" not in d.columns, "recorded: %s" % list(d.columns))
''')

BUG("c20-variance-suffix", "C20", (H_, [("    _parameter_variance_name = '{parameter_name}#var'\n", "    _parameter_variance_name = '{parameter_name}_var'\n")]),
    "one parameter is named like the variance of another (signal, signal_var)", "the variance of one overwrites the value of the other", FAKE + '''
h = History(None)
h.append_autotuner(auto([group(S(A=1.), S(s=1., s_var=5.), S(s=.25, s_var=.5), [E_("e", 1)])]), "0")
check(h.get_parameter_values("s_var").iloc[-1] == 5., "s_var is %s" % h.get_parameter_values("s_var").tolist())
check(h.get_parameter_std("s").iloc[-1] == .5, "std of s")
''')

BUG("c20-two-part-names", "C20", (H_, [("    _gradient_covariance_name = '{parameter_name}#{gate_name_1}#{gate_name_2}#cov'\n", "    _gradient_covariance_name = '{parameter_name}#{gate_name_1}{gate_name_2}#cov'\n")]),
    "gates named A, AB, B, BB", "covariances of different pairs of gates share a column", FAKE + '''
m = pd.DataFrame(np.arange(9.).reshape(3, 3), index=["A", "AA", "AAA"], columns=["A", "AA", "AAA"])
cols = History._unravel_gradient_covariance_matrix("x", m)
check(len(cols) == 9, "%d columns for 9 entries" % len(cols))
''')

BUG("c20-column-only-upper", "C20", (H_, [("            cls._gradient_covariance_name.format(parameter_name=parameter_name,\n                                                 gate_name_1=gate_1,\n                                                 gate_name_2=gate_2): cov_entry\n", "            cls._gradient_covariance_name.format(parameter_name=parameter_name,\n                                                 gate_name_1=min(gate_1, gate_2),\n                                                 gate_name_2=max(gate_1, gate_2)): cov_entry\n")]),
    "a covariance between two gates is looked up in both orders", "the lower half of the covariance matrix is missing in the history", FAKE + '''
h = History(None)
m = pd.DataFrame([[1., .5], [.5, 2.]], index=["A", "B"], columns=["A", "B"])
row = History._unravel_gradient_covariance_matrix("x", m)
h._data_frame = pd.DataFrame(row, index=[0])
c = h.get_gradient_covariances("x")
check(("B", "A") in c.columns and c[("B", "A")].iloc[0] == .5, "columns %s" % list(c.columns))
''')

BUG("c35-variance-of-all", "C35", (H_, [("            variances = variances.append(variance[relevant_parameters])\n", "            variances = variances.append(variance)\n")]),
    "two subset groups share their evaluators, the first tunes x, the second y", "the variance of x is taken from the group that does not tune it", FAKE + '''
from qtune.history import extract_parameters_from_hierarchy as extract
def sub(par, var, want):
    g = SubsetTuner.__new__(SubsetTuner)
    class G(SubsetTuner):
        def to_hdf5(self):
            return {}
        last_parameters_and_variances = property(lambda self: (par, var))
        solver = property(lambda self: types.SimpleNamespace(target=types.SimpleNamespace(desired=want)))
    g.__class__ = G
    return g
p, v = extract([sub(S(x=1., y=2.), S(x=.1, y=.2), S(x=0., y=np.nan)), sub(S(x=3., y=4.), S(x=.3, y=.4), S(x=np.nan, y=0.))])
check(sorted(v.index) == ["x", "y"] and dict(v) == {"x": .1, "y": .4}, "variances %s" % list(v.items()))
''')

BUG("c35-gradient-shift", "C35", (H_, [("            for i, grad_est in enumerate(tuner.solver.gradient_estimators):\n", "            for i, grad_est in enumerate(est for est in tuner.solver.gradient_estimators if est.estimate() is not None):\n")]),
    "the gradient of the first parameter is not known yet, that of the second is", "the gradient of the second parameter is filed under the first", FAKE + '''
from qtune.history import extract_gradients_from_hierarchy as extract
est = lambda g: types.SimpleNamespace(estimate=lambda: g, covariance=lambda: None)
s = NewtonSolver.__new__(NewtonSolver)
s._target = make_target(desired=S(x=1., y=2.))
s._gradient_estimators = [est(None), est(S(A=3.))]
g, c = extract([types.SimpleNamespace(solver=s)])
check(dict(g.get("y", {})) == {"A": 3.} and not len(g["x"]), "gradients %s" % {k: dict(v) for k, v in g.items()})
''')

BUG("c35-gradient-by-parameter", "C35", (H_, [("                    gradients[tuner.solver.target.index[i]] = grad_est.estimate()\n", "                    gradients[sorted(tuner.solver.target.index)[i]] = grad_est.estimate()\n")]),
    "a target whose parameters are not in alphabetical order", "gradients are filed under each other's parameter", FAKE + '''
from qtune.history import extract_gradients_from_hierarchy as extract
est = lambda g: types.SimpleNamespace(estimate=lambda: g, covariance=lambda: None)
s = NewtonSolver.__new__(NewtonSolver)
t = pd.DataFrame({"desired": [1., 2.]}, index=["y", "x"])
s._target = t
s._gradient_estimators = [est(S(A=3.)), est(S(A=4.))]
g, c = extract([types.SimpleNamespace(solver=s)])
check(dict(g["y"]) == {"A": 3.}, "gradient of y is %s" % dict(g["y"]))
''')

BUG("c36-bars-twice", "C36", (H_, [("        return self._data_frame[self._parameter_variance_name.format(parameter_name=parameter_name)].apply(np.sqrt)\n", "        return self._data_frame[self._parameter_variance_name.format(parameter_name=parameter_name)]\n")]),
    "a history is plotted with parameter errors", "the error bars show the variances", FAKE + '''
h = History(None)
h.append_autotuner(auto([group(S(A=1.), S(x=1.), S(x=.25), [E_("e", 1)])]), "0")
check(h.get_parameter_std("x").iloc[0] == .5, "std %s" % h.get_parameter_std("x").tolist())
''')

BUG("c36-load-fit", "C36", (H_, [("                                 fit_function=qtune.evaluator.func_load_time,\n", "                                 fit_function=qtune.evaluator.func_lead_times_v1,\n")]),
    "the raw data of a load time measurement is plotted with its fit", "the plot is computed with the function of another fit", FAKE + '''
import matplotlib.pyplot as plt
from qtune.history import plot_load_time
x = np.linspace(1., 10., 10)
fig, ax = plt.subplots()
try:
    plot_load_time([ax], {"raw_x_data": x, "raw_y_data": x, "fit_results": S(offset=1., height=2., curvature=3.),
                          "initial_fit_arguments": S(offset=1., height=2., curvature=3.)})
except TypeError as err:
    check(False, "drawing fails: %s" % err)
check(len(ax.lines) >= 3, "%d curves" % len(ax.lines))
''')

BUG("c36-mark-first", "C36", (H_, [("                                                marking_position=evaluator_hdf5['transition_positions'][i],\n", "                                                marking_position=evaluator_hdf5['transition_positions'][0],\n")]),
    "a transition evaluator with two scans is plotted", "the mark of the first scan is drawn in every panel", FAKE + '''
import matplotlib.pyplot as plt
from qtune.history import plot_transition
import qtune.util
marks = []
qtune.util.plot_raw_data_vertical_marks = lambda **k: marks.append(float(np.ravel(k["marking_position"])[0]))
fig, ax = plt.subplots(2)
plot_transition(ax, {"raw_x_data": [np.arange(5.), np.arange(5.)], "raw_y_data": [np.arange(5.), np.arange(5.)],
                     "transition_positions": S(RFA=1., RFB=2.)})
check(marks == [1., 2.], "marks %s" % marks)
''')
