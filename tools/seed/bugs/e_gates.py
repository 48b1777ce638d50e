A_, G_, E_, M_, B_, Q_ = "qtune/autotuner.py", "qtune/gradient.py", "qtune/evaluator.py", "qtune/sm.py", "qtune/basic_dqd.py", "qtune/sm_tune_qqd.py"

READY = '''
from support import *
def auto(bad_group=None, bad_est=None, subset_gate=None):
    ts = []
    for n, (g, q) in enumerate([(["A"], "pa"), (["B"], "pb"), (["C"], "pc")]):
        gates = list(g)
        t = newton_tuner(gates, [q], lambda q=q: (pd.Series([1.], [q]), pd.Series([1.], [q])))
        ts.append(t)
    e = Exp(S(A=0, B=0, C=0))
    return Autotuner(e, tuning_hierarchy=ts), ts
'''

BUG("c30-last-group-decides", "C30", (A_, [("            solver = par_tuner.solver\n            if par_tuner.last_voltages", "            solver, naming_coherent = par_tuner.solver, True\n            if par_tuner.last_voltages")]),
    "an incoherent group that is not the last one of the hierarchy", "the tuning starts although an earlier group tunes an unknown gate", READY + '''
at, ts = auto()
check(at.ready_to_tune(), "coherent names refused")
for k in range(3):
    at, ts = auto()
    ts[k].solver._current_position = S(X=0)
    check(not at.ready_to_tune(), "group %d with an unknown gate passes" % k)
''')

BUG("c30-estimators-of-subset-tuners", "C30", (A_, [("                    if gradient_estimator.current_position is not None:", "                    if gradient_estimator.current_position is not None and isinstance(par_tuner, SubsetTuner):")]),
    "a gradient based group that is no SubsetTuner whose estimator names an unknown gate", "the estimator's unknown gate passes the check", READY + '''
class T(ParameterTuner):
    def to_hdf5(self): return dict()
at, ts = auto()
t = T(solver=ts[1].solver, evaluators=ts[1].evaluators)
t.solver.gradient_estimators[0]._current_position = S(B=0, X=0)
at = Autotuner(Exp(S(A=0, B=0, C=0)), tuning_hierarchy=[ts[0], t])
check(not at.ready_to_tune(), "unknown gate X of an estimator passes")
''')

BUG("c30-only-upcoming-groups", "C30", (A_, [("        for tuner_number, par_tuner in enumerate(self._tuning_hierarchy):\n            solver =", "        for tuner_number, par_tuner in list(enumerate(self._tuning_hierarchy))[self._current_tuner_index:]:\n            solver =")]),
    "an incoherent group below the group the tuning resumes at", "the check passes although a lower group, which is evaluated after the next step, names an unknown gate", READY + '''
for k in range(3):
    at, ts = auto()
    at._current_tuner_index = 2
    ts[k].solver._current_position = S(X=0)
    check(not at.ready_to_tune(), "group %d with an unknown gate passes" % k)
''')

BUG("c30-overlap-enough", "C30", (A_, [("                if not set(par_tuner.last_voltages.index).issubset(all_gates):", "                if all_gates.isdisjoint(par_tuner.last_voltages.index):")]),
    "last voltages that name one known and one unknown gate", "partly unknown gates pass the readiness check", READY + '''
at, ts = auto()
ts[1]._last_voltage = S(B=0, X=0)
check(not at.ready_to_tune(), "unknown gate X in the last voltages passes")
''')

BUG("c34-test-order", "C34", (B_, [("        for gate in new_gate_voltages.index:\n            self._gate_voltages[gate] = new_gate_voltages[gate]\n", "        self._gate_voltages[self._gate_voltages.index.isin(new_gate_voltages.index)] = new_gate_voltages.values\n")]),
    "new voltages that list the gates in another order than the experiment", "the values land on the wrong gates", '''
from support import *
from qtune.basic_dqd import TestExperiment
e = TestExperiment(S(B=1, A=2, C=3), [], {})
e.set_gate_voltages(S(A=5, B=6))
check(e.read_gate_voltages().to_dict() == dict(A=5., B=6., C=3.), "voltages %s" % e.read_gate_voltages().to_dict())
''')

BUG("c34-legacy-zero", "C34", (M_, [("        current_gate_voltages[new_gate_voltages.index] = new_gate_voltages[new_gate_voltages.index]\n", "        current_gate_voltages = new_gate_voltages.reindex(current_gate_voltages.index, fill_value=0.)\n")]),
    "voltages for only some of the gates", "the gates that are not named are set to zero", '''
from support import *
stub_matlab()
from qtune.sm import LegacyDQDRefactored
got = []
class M:
    engine = types.SimpleNamespace(qtune=types.SimpleNamespace(read_gate_voltages=lambda: {"B": 1., "A": 2.}, set_gates_v_pretuned=lambda v: got.append(v) or v))
    @staticmethod
    def to_matlab(x): return dict(x)
LegacyDQDRefactored(M).set_gate_voltages(S(A=7))
check(got == [{"A": 7., "B": 1.}], "set to %s" % got)
''')

BUG("c34-qqd-resolution", "C34", (Q_, [("        for key, value in gate_voltages_to_matlab.items():\n            gate_voltages_to_matlab[key] = float(value)\n", "        for key, value in gate_voltages_to_matlab.items():\n            gate_voltages_to_matlab[key] = float(round(value, 4))\n")]),
    "a voltage with more digits than the rounding keeps, on a gate that is not being set", "setting one gate moves the others and sets its own gate inexactly", '''
from support import *
stub_matlab()
from qtune.sm_tune_qqd import SMTuneQQD
got = []
class M:
    engine = types.SimpleNamespace(qtune=types.SimpleNamespace(read_qqd_gate_voltages=lambda: {"B": -1.23456, "A": 2.}, set_qqd_gate_voltages=lambda v: got.append(v)))
e = SMTuneQQD.__new__(SMTuneQQD)
e._matlab = M
e.set_gate_voltages(S(A=7.00007))
check(got == [{"A": 7.00007, "B": -1.23456}], "set to %s" % got)
''')
