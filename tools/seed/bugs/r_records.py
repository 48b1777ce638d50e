H_ = "qtune/history.py"
G_ = "qtune/gradient.py"
SD = '''
from support import *
from qtune import history
class Rec(Eva):
    def __init__(self, name, raw=1., **kw):
        super().__init__(lambda: (pd.Series({"p_" + name: 1.}), pd.Series({"p_" + name: .1})), ["p_" + name], name=name)
        if raw is not None:
            self._raw_x_data, self._raw_y_data = (np.arange(3.),), (np.arange(3.) * raw,)
    def to_hdf5(self):
        return dict(name=self.name, raw_y_data=self._raw_y_data, raw_x_data=self._raw_x_data)
def dot(cheap_only, *evas):
    t = SensingDotTuner(cheap_evaluators=[evas[0]], expensive_evaluators=list(evas[1:]), gates=["s"], cheap_evaluation_only=cheap_only,
                        last_parameter_values=S(p=1.), last_parameters_variances=S(p=1.), solver=ForwardingSolver(target=make_target(desired=pd.Series(0., ["p"])), values_to_position=pd.Series(["s"], ["p"]), current_position=S(s=0.)), last_voltage=S(s=0.))
    return t
class A:
    def __init__(self, *ts): self.tuning_hierarchy = list(ts)
def read(*ts): return sorted(history.read_evaluator_data_from_autotuner(A(*ts)).columns)
'''
BUG("c35-cheap-only", "C35", (H_, [("            if not par_tuner.cheap_evaluation_only:\n                relevant_evaluators += ",
                                    "            if not any(t.cheap_evaluation_only for t in relevant_tuner\n                       if isinstance(t, qtune.parameter_tuner.SensingDotTuner)):\n                relevant_evaluators += ")]),
    "two sensing dot groups, one of which was evaluated only cheaply", "the expensive measurement of the other is not recorded", SD + '''
got = read(dot(True, Rec("a"), Rec("b")), dot(False, Rec("c"), Rec("d")))
check(got == ["a", "c", "d"], "recorded are %s" % got)
''')
BUG("c35-blanked", "C35", (H_, [("                if new_evaluator_data.loc[new_evaluator_data.index[0], evaluator_name]['raw_y_data'] is None:\n",
                                 "                if not new_evaluator_data.loc[new_evaluator_data.index[0], evaluator_name].get('measurements'):\n")]),
    "the first autotuner appended, with an averaging evaluator (whose export has no list of measurements)", "its raw data is blanked", SD + '''
ex = Exp(S(a=0.))
t = newton_tuner("a", "x", lambda: (S(x=3.), S(x=.1)))
t._evaluators = [Rec("r")]
a = Autotuner(ex, tuning_hierarchy=[t])
a._current_tuner_index = 1
h = history.History(None)
h.append_autotuner(a, "p")
v = h._evaluator_data["r"].iloc[0]
check(isinstance(v, dict), "the record is %s" % (v,))
''')
KAL = '''
from support import *
def est(gates, cov, maxcov, eps=.1):
    n = len(gates)
    kg = KalmanGradient(n_pos_dim=n, n_values=1, initial_gradient=np.ones((1, n)), initial_covariance_matrix=np.array(cov, dtype=float))
    return KalmanGradientEstimator(kg, current_position=pd.Series(0., index=list(gates)), maximum_covariance=maxcov, epsilon=eps)
'''
BUG("c37-length-inverse", "C37", (G_, [("/ self._maximum_covariance[gates].values[:, np.newaxis]", "* self._maximum_covariance[gates].values[:, np.newaxis]")]),
    "a maximum covariance other than one", "a large limit makes measurements more likely instead of less", KAL + '''
check(est("AB", [[.5, 0.], [0., .5]], S(A=4., B=4.)).require_measurement() is None, "measured although the covariance is below the limit")
check(est("AB", [[.5, 0.], [0., .5]], S(A=.1, B=.1)).require_measurement() is not None, "not measured although the covariance exceeds the limit")
''')
BUG("c09-gui-reload", "C09", ("qtune/gui.py", [("reserved=self.auto_tuner.reserved)", "reserved={'experiment': getattr(self.history, 'experiment', None)})")]),
    "a stored state is loaded again from the window, while the history has no experiment", "the loaded autotuner has no experiment", '''
from support import *
os.environ["QT_QPA_PLATFORM"] = "offscreen"
import IPython; IPython.get_ipython = lambda: types.SimpleNamespace(run_line_magic=lambda *a: None, magic=lambda *a: None)
import qtune.autotuner as qa
seen = []
class New:
    def restart(self): pass
qa.load_auto_tuner = lambda file, reserved: (seen.append(reserved), New())[1]
from qtune import gui
from qtune.history import History
ex = Exp(S(a=0.))
old = types.SimpleNamespace(reserved={"experiment": ex})
h = History(None)
h.get_reload_path = lambda i: "file"
me = types.SimpleNamespace(auto_tuner=old, history=h, tune_run_number=0, logger=logging.getLogger("qtune"),
                           gui_get_auto_tuner=types.SimpleNamespace(emit=lambda: None))
c = next(c for c in vars(gui).values() if isinstance(c, type) and "reload_autotuner" in vars(c))
c.reload_autotuner(me)
check(seen and seen[0].get("experiment") is ex, "substituted is %s" % seen)
''')
