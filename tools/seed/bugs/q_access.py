P_ = "qtune/parameter_tuner.py"
S_ = "qtune/solver.py"
A_ = "qtune/autotuner.py"
G_ = "qtune/gradient.py"
SM_ = "qtune/sm.py"
H_ = "qtune/history.py"
NS = '''
from support import *
target = make_target(desired=S(y=0., x=0.), tolerance=S(y=1., x=1.))
est = [kalman("ba", [1., 2.]), kalman("ba", [3., 4.])]
s = NewtonSolver(target, est, S(b=0., a=0.))
want = {"d%s/d%s" % (p, g): e.estimate()[g] for p, e in zip(target.index, est) for g in "ab"}
'''
BUG("c48-state-order", "C48", (S_, [("            for gate in jacobian.columns:", "            for gate in sorted(jacobian.columns):")]),
    "the gates of the solver are not listed alphabetically", "the derivatives are reported under each other's names", NS + '''
check(dict(s.state) == want, "state is %s" % dict(s.state))
''')
BUG("c48-state-own-order", "C48", (S_, [("        jacobian = self.jacobian[self._current_position.index]\n        index = []\n        for param in jacobian.index:\n            for gate in jacobian.columns:",
                                       "        jacobian = self.jacobian\n        index = []\n        for param in jacobian.index:\n            for gate in self._current_position.index:")]),
    "the estimators list the gates in another order than the solver", "the derivatives are reported under each other's names", NS.replace('S(b=0., a=0.)', 'S(a=0., b=0.)') + '''
check(dict(s.state) == want, "state is %s" % dict(s.state))
''')
BUG("c48-jacobian-keys", "C48", (S_, [("        return pd.concat(gradients, axis=1, keys=self._target.index).T", "        return pd.concat(gradients, axis=1, keys=sorted(self._target.index)).T")]),
    "the target does not list its parameters alphabetically", "the gradients of two parameters are exchanged", NS + '''
check(s.jacobian.loc["y", "b"] == want["dy/db"], "jacobian is %s" % s.jacobian)
''')
BUG("c48-tuned-below", "C48", (A_, [("        for i in range(0, self.current_tuner_index):", "        for i in range(0, max(self.current_tuner_index, 1)):")]),
    "the lowest tuner is tuned for the first time", "its own parameters count as tuned, so its steps are orthogonal to their gradients", '''
from support import *
t = newton_tuner("ab", "x", lambda: (S(x=3.), S(x=.1)))
a = Autotuner(Exp(S(a=0., b=0.)), tuning_hierarchy=[t])
check(not a.tuned_parameters, "tuned parameters are %s" % a.tuned_parameters)
''')
BUG("c48-ready", "C48", (A_, [("                        if not grad_est.require_measurement(solver.current_position.index).empty:\n                            return False\n        return True",
                             "                        if not grad_est.require_measurement(solver.current_position.index).empty:\n                            return False\n                return True\n        return True")]),
    "the second tuner of the hierarchy has an estimator that needs a measurement", "all estimators are reported as ready", '''
from support import *
def tuner(p, cov):
    t = newton_tuner("ab", p, lambda: (pd.Series({p: 3.}), pd.Series({p: .1})))
    t.solver.gradient_estimators[0]._maximum_covariance[:] = cov
    return t
a = Autotuner(Exp(S(a=0., b=0.)), tuning_hierarchy=[tuner("x", np.inf), tuner("y", .01)])
check(not a.all_estimators_ready, "ready")
''')
BUG("c48-expensive", "C48", (P_, [("        return tuple(self._cheap_evaluators) + tuple(self._expensive_evaluators)", "        return tuple(self._cheap_evaluators) + tuple(e for e in self._expensive_evaluators if e in self._cheap_evaluators)")]),
    "a sensing dot tuner with expensive evaluators", "their measurements do not appear in the history", '''
from support import *
target = make_target(minimum=S(s=1.), cost_threshold=S(s=.5))
sol = ForwardingSolver(target, pd.Series({"x": "A"}), S(A=0.))
cheap, dear = Eva(lambda: (S(s=1.), S(s=.1)), ["s"], name="c"), Eva(lambda: (S(x=1.), S(x=.1)), ["x"], name="e")
t = SensingDotTuner([cheap], [dear], ["A"], solver=sol, last_voltage=S(A=0.))
check(set(t.evaluators) == {cheap, dear}, "evaluators are %s" % [e.name for e in t.evaluators])
''')
BUG("c48-tuned-voltages", "C48", (P_, [("        self._tuned_voltages = tuned_voltages or []\n", "        self._tuned_voltages = (tuned_voltages and evaluatable_voltages) or tuned_voltages or []\n")]),
    "a tuner is loaded that has both tuned and evaluable voltages", "voltages that were only evaluable are reported as tuned", '''
from support import *
t = newton_tuner("ab", "x", lambda: (S(x=3.), S(x=.1)), tuned_voltages=[S(a=1., b=1.)], evaluatable_voltages=[S(a=2., b=2.), S(a=1., b=1.)])
check(len(t.tuned_voltages) == 1, "tuned voltages are %s" % t.tuned_voltages)
''')
BUG("c48-history-column", "C48", (H_, [("        return self._data_frame[parameter_name]\n", "        return self._data_frame[parameter_name].interpolate()\n")]),
    "a parameter could not be evaluated in one iteration", "an invented value stands in the history", '''
from support import *
from qtune.history import History
h = History(None)
h._data_frame = pd.DataFrame({"x": [1., np.nan, 3.]})
check(h.get_parameter_values("x").isna()[1], "values are %s" % list(h.get_parameter_values("x")))
''')
