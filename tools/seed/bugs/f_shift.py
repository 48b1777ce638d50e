A_, E_, P_, U_ = "qtune/autotuner.py", "qtune/evaluator.py", "qtune/parameter_tuner.py", "qtune/gui.py"

LEAD = '''
from support import *
from qtune.evaluator import LeadTransition
def lead(exp, n=2):
    ms = [Measurement("line_scan", center=0., range=4e-3, N_points=64, gate=g) for g in ("A", "B")][:n]
    return LeadTransition(exp, shifting_gates=("A", "B")[:n], charge_diagram_width=4., measurements=ms, parameters=("position_A", "position_B")[:n])
class E(Exp):
    pass
'''

BUG("c23-undo-by-hand", "C23", (E_, [("        # TODO: this should be obsolete\n        self.experiment.set_gate_voltages(current_gate_voltages)\n", "        # TODO: this should be obsolete\n        self.experiment.set_gate_voltages(self.experiment.read_gate_voltages().sub(shift, fill_value=0.))\n")]),
    "a successful evaluation: the last shift is taken back a second time", "the last shifted gate ends one charge diagram width away", LEAD + '''
e = E(S(A=1, B=2, C=3)); e.measure_hook = lambda m: np.arange(64.) ** 2
lead(e).evaluate()
check(e.volts.to_dict() == dict(A=1., B=2., C=3.), "voltages afterwards %s" % e.volts.to_dict())
''')

BUG("c23-shift-in-place", "C23", (E_, [("            shift = pd.Series(-1. * self._charge_diagram_width, [shift_gate])\n            try:\n", "            shift = pd.Series(0., [shift_gate])\n            current_gate_voltages[shift_gate] -= self._charge_diagram_width\n            try:\n")]),
    "any evaluation: the table that is restored is the one that was shifted", "the gates stay shifted after the evaluation", LEAD + '''
e = E(S(A=1, B=2, C=3)); e.measure_hook = lambda m: np.arange(64.) ** 2
lead(e).evaluate()
check(e.volts.to_dict() == dict(A=1., B=2., C=3.), "voltages afterwards %s" % e.volts.to_dict())
''')

BUG("c23-shifts-add-up", "C23", (E_, [("        raw_data = []\n        for measurement, shift_gate in zip(self.measurements, self._shifting_gates):\n            shift = pd.Series(-1. * self._charge_diagram_width, [shift_gate])\n",
                                       "        raw_data = []\n        shift = pd.Series(0., [self._shifting_gates[0]])\n        for measurement, shift_gate in zip(self.measurements, self._shifting_gates):\n            shift = shift.add(pd.Series(-1. * self._charge_diagram_width, [shift_gate]), fill_value=0.)\n")]),
    "an evaluation with more than one shifted gate", "the second measurement is made while the first gate is shifted as well", LEAD + '''
e = E(S(A=1, B=2, C=3)); seen = []
def hook(m):
    seen.append(e.volts.to_dict()); return np.arange(64.) ** 2
e.measure_hook = hook
lead(e).evaluate()
check(seen == [dict(A=-3., B=2., C=3.), dict(A=1., B=-2., C=3.)], "measured at %s" % seen)
''')

BUG("c23-wrong-gate", "C23", (E_, [("        for measurement, shift_gate in zip(self.measurements, self._shifting_gates):\n", "        for measurement, shift_gate in zip(self.measurements, sorted(self._shifting_gates)):\n")]),
    "shifting gates that are not listed alphabetically", "each measurement is made with the shift of the other gate", LEAD + '''
e = E(S(A=1, B=2, C=3)); seen = []
def hook(m):
    seen.append((m.options["gate"], e.volts.to_dict())); return np.arange(64.) ** 2
e.measure_hook = hook
ms = [Measurement("line_scan", center=0., range=4e-3, N_points=64, gate=g) for g in ("first", "second")]
LeadTransition(e, shifting_gates=("B", "A"), charge_diagram_width=4., measurements=ms, parameters=("position_B", "position_A")).evaluate()
check(seen == [("first", dict(A=1., B=-2., C=3.)), ("second", dict(A=-3., B=2., C=3.))], "measured at %s" % seen)
''')

BUG("c24-restart-applies-pending", "C24", (A_, [("        self._current_tuner_status = False\n        self._voltages_to_set = None\n        current_voltages", "        self._current_tuner_status = False\n        if self._voltages_to_set is not None:\n            self._experiment.set_gate_voltages(self._voltages_to_set)\n        self._voltages_to_set = None\n        current_voltages")]),
    "a restart while voltages are pending", "the restart overwrites the voltages the user configured by hand", '''
from support import *
e = Exp(S(A=0))
t = newton_tuner(["A"], ["p"], lambda: (pd.Series([5.], ["p"]), pd.Series([1.], ["p"])))
at = Autotuner(e, tuning_hierarchy=[t], voltage_to_set=S(A=9))
e.volts["A"] = 3.
at.restart()
check(e.sets == [] and e.volts["A"] == 3., "the restart set %s" % e.sets)
''')

BUG("c24-reload-guarded-restart", "C24", (U_, [("            self.auto_tuner._experiment.set_gate_voltages(new_gate_voltages=voltages)\n            self.auto_tuner.restart()\n", "            self.auto_tuner._experiment.set_gate_voltages(new_gate_voltages=voltages)\n            if not self.auto_tuner.is_tuning_complete():\n                self.auto_tuner.restart()\n")]),
    "a reload of voltages after the tuning was completed", "the autotuner keeps believing in the tuned state although other voltages are set", '''
import os
os.environ["QT_QPA_PLATFORM"] = "offscreen"
from support import *
import IPython; IPython.get_ipython = lambda: types.SimpleNamespace(run_line_magic=lambda *a: None, magic=lambda *a: None)
import qtune.gui as gui
calls = []
class X:
    def set_gate_voltages(self, new_gate_voltages): calls.append("set")
class AT:
    _experiment = X(); voltages_to_set = None; current_tuner_index = 1
    def restart(self): calls.append("restart")
    def is_tuning_complete(self): return True
h = types.SimpleNamespace(gate_names=["A"], get_gate_values=lambda i: pd.DataFrame({"A": [1., 2.]}))
ns = types.SimpleNamespace(history=h, auto_tuner=AT(), tune_run_number=1, logger=logging.getLogger("x"))
gui.ReloadWidget.reload_voltages(ns)
check(calls == ["set", "restart"], "calls %s" % calls)
''')

BUG("c24-tuner-returns-to-good-voltages", "C24", (P_, [("        if self._last_parameter_values[current_parameter.index].isnull().values.any():\n            self._last_evaluation_failed = True\n            return False\n", "        if self._last_parameter_values[current_parameter.index].isnull().values.any():\n            self._last_evaluation_failed = True\n            if len(self._tuned_voltages) and self._cheap_evaluators[0].experiment is not None:\n                self._cheap_evaluators[0].experiment.set_gate_voltages(self._tuned_voltages[-1])\n            return False\n")]),
    "a failed cheap evaluation of the sensing dot after a successful one", "a parameter tuner sets gate voltages itself, behind the back of the tuning loop", '''
from support import *
e = Exp(S(A=0)); val = [5.]
ev = Eva(lambda: (pd.Series([val[0]], ["p"]), pd.Series([1.], ["p"])), ["p"], experiment=e)
tgt = make_target(minimum=pd.Series([1.], ["p"]), cost_threshold=pd.Series([.5], ["p"]))
from qtune.solver import ForwardingSolver
t = SensingDotTuner(cheap_evaluators=[ev], expensive_evaluators=[ev], gates=["A"], solver=ForwardingSolver(target=tgt, values_to_position=pd.Series(["A"], ["p"]), current_position=S(A=0)))
t.is_tuned(S(A=0)); val[0] = np.nan; t.is_tuned(S(A=4))
check(e.sets == [], "the tuner set %s" % e.sets)
''')
