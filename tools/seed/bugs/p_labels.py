G_ = "qtune/gradient.py"
P_ = "qtune/parameter_tuner.py"
S_ = "qtune/solver.py"
SM_ = "qtune/sm.py"
TWO = '''
from support import *
vals, var = S(x=3., y=5.), S(x=.3, y=.5)
'''
BUG("c47-variances", "C47", (P_, [("        self._last_parameters_variances = current_variances[self._last_parameter_values.index]", "        self._last_parameters_variances = pd.Series(current_variances.values, index=self._last_parameter_values.index)")]),
    "the stored parameter values stand in another order than the target's", "the variances of two parameters are exchanged", TWO + '''
t = newton_tuner("ab", "xy", lambda: (vals, var), desired=S(x=0., y=0.), tolerance=S(y=1., x=1.),
                 last_parameter_values=pd.Series(index=["y", "x"], dtype=float))
t.is_tuned(S(a=0., b=0.))
v, s = t.last_parameters_and_variances
check(s["x"] == .3 and s["y"] == .5 and v["x"] == 3., "variances are %s" % dict(s))
''')
BUG("c47-factor", "C47", (S_, [("        values /= rescaling_factor[values.index]\n", "        values /= rescaling_factor.values[:len(values)]\n")]),
    "the target lists the parameters in another order than the values", "values are scaled with the factor of another parameter", TWO + '''
t = newton_tuner("ab", "yx", lambda: (vals, var), desired=S(y=0., x=0.), tolerance=S(y=1., x=1.), rescaling=S(y=10., x=2.))
v, s = S(x=4., y=20.), S(x=4., y=100.)
t.solver.rescale_values(v, s)
check(v["x"] == 2. and v["y"] == 2., "scaled values are %s" % dict(v))
''')
BUG("c47-estimator", "C47", (G_, [("            self._current_value = value\n            self._current_position = position\n            return", "            self._current_value = value\n            self._current_position = position.sort_index()\n            return")]),
    "the gates of a Kalman estimator are not listed in alphabetical order", "after its first value the gradient entries belong to the wrong gates", '''
from support import *
e = kalman("ba", [7., 1.])
e.update(S(a=0., b=0.), 1., .1, True)
check(e.estimate()["b"] == 7., "estimate is %s" % dict(e.estimate()))
''')
BUG("c47-restart", "C47", (G_, [("        self._current_position = new_position[self._current_position.index]\n\n    def estimate", "        self._current_position = new_position\n\n    def estimate")]),
    "the new position lists the gates in another order", "the gradient entries belong to the wrong gates", '''
from support import *
e = kalman("ba", [7., 1.])
e.change_position(S(a=0., b=0.))
check(e.estimate()["b"] == 7., "estimate is %s" % dict(e.estimate()))
''')
BUG("c37-maxcov", "C37", (G_, [("self._maximum_covariance[gates].values[:, np.newaxis]", "self._maximum_covariance.values[:len(gates), np.newaxis]")]),
    "a measurement is required for some of the gates, in another order than the estimator's", "the covariance is compared with the limit of another gate", '''
from support import *
e = kalman("ba", maximum_covariance=S(b=.01, a=100.))
check(e.require_measurement(["a"]) is None, "a measurement for a is required")
check(e.require_measurement(["b"]) is not None, "no measurement for b is required")
''')
BUG("c47-gates", "C47", (SM_, [("        current_gate_voltages[new_gate_voltages.index] = new_gate_voltages[new_gate_voltages.index]\n        current_gate_voltages = self._matlab.to_matlab(current_gate_voltages)\n        return pd.Series(self._matlab.engine.qtune.set_gates_v_pretuned",
                             "        current_gate_voltages[current_gate_voltages.index.isin(new_gate_voltages.index)] = new_gate_voltages.values\n        current_gate_voltages = self._matlab.to_matlab(current_gate_voltages)\n        return pd.Series(self._matlab.engine.qtune.set_gates_v_pretuned")]),
    "voltages are set for gates that are not listed alphabetically", "the gates of the backend get each other's voltage", '''
from support import *
stub_matlab()
from qtune import sm
class Engine:
    def __init__(self): self.sent = None
    def read_gate_voltages(self): return dict(a=0., b=0., c=0.)
    def set_gates_v_pretuned(self, v): self.sent = v; return dict(v)
class M: pass
m, q, e = M(), M(), Engine()
m.engine, q.qtune = q, e
m.to_matlab = lambda v: v.to_dict()
d = sm.LegacyDQDRefactored(m)
d.set_gate_voltages(S(c=3., a=1.))
check(e.sent == dict(a=1., b=0., c=3.), "sent %s" % e.sent)
''')
BUG("c47-fd", "C47", (G_, [("        self._epsilon = epsilon[self._current_position.index]\n\n        self._current_estimate", "        self._epsilon = pd.Series(epsilon.values, index=self._current_position.index)\n\n        self._current_estimate")]),
    "the step sizes list the gates in another order than the position", "the steps of two gates are exchanged", '''
from support import *
e = FiniteDifferencesGradientEstimator(current_position=S(b=0., a=0.), epsilon=S(a=1., b=5.))
check(e.epsilon["a"] == 1. and e.epsilon["b"] == 5., "epsilon is %s" % dict(e.epsilon))
''')
