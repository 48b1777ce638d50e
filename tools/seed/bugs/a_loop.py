A_, T_, S_, G_ = "qtune/autotuner.py", "qtune/parameter_tuner.py", "qtune/solver.py", "qtune/gradient.py"

BUG("c01-nan-all", "C01", (A_, [("self.voltages_to_set.isna().any()", "self.voltages_to_set.isna().all()")]),
    "a pending voltage vector in which only some gates are NaN", "the experiment receives a NaN voltage instead of an error",
    '''
from support import *
e = Exp(S(A=0, B=0))
t = newton_tuner("AB", "pq", lambda: (S(p=1, q=1), S(p=1, q=1)))
a = Autotuner(e, [t], voltage_to_set=pd.Series({"A": 1., "B": np.nan}))
try:
    a.iterate()
    check(False, "no error")
except RuntimeError:
    pass
check(not e.sets, "voltages were set")
''')

BUG("c03-step-down-one", "C03", (A_, [("""            self._experiment.set_gate_voltages(self._voltages_to_set)
            self._current_tuner_index = 0
""", """            self._experiment.set_gate_voltages(self._voltages_to_set)
            self._current_tuner_index = max(0, self._current_tuner_index - 1)
""")]), "new voltages computed by a group at position two or higher of the hierarchy",
    "applying voltages does not return to the bottom of the hierarchy, so the lowest groups are not evaluated again",
    '''
from support import *
e = Exp(S(A=0, B=0, C=0))
ok = lambda n: (lambda: (pd.Series({n: 0.}), pd.Series({n: .1})))
tuners = [newton_tuner(g, [g.lower()], ok(g.lower()), last_voltage=pd.Series(0., index=list("ABC"))) for g in "ABC"]
a = Autotuner(e, tuners, current_tuner_index=2, voltage_to_set=S(A=1, B=1, C=1))
a.iterate()
check(a.current_tuner_index == 0, "position is %s" % a.current_tuner_index)
''')

BUG("c02-complete-pending", "C02", (A_, [("""        if self.is_tuning_complete():
            raise RuntimeError('The tuning is already complete!')
""", """        if self._voltages_to_set is None and self.is_tuning_complete():
            raise RuntimeError('The tuning is already complete!')
""")]), "voltages still pending when the position is past the last group (for instance loaded from a file)",
    "an autotuner whose tuning is complete still changes the gates",
    '''
from support import *
e = Exp(S(A=0))
a = Autotuner(e, [newton_tuner("A", "p", lambda: (S(p=0), S(p=1)))], current_tuner_index=1, voltage_to_set=S(A=1))
try:
    a.iterate()
except RuntimeError:
    pass
check(not e.sets, "voltages were set although the tuning is complete")
''')

BUG("c04-restart-skips-invariant", "C04", (S_, [("""        for grad_est in self.gradient_estimators:
            grad_est.restart(new_position)
""", """        for grad_est, desired in zip(self.gradient_estimators, self.target.desired):
            if desired == desired:
                grad_est.restart(new_position)
""")]), "a restart of a solver that has a parameter without target",
    "the estimator of the invariant parameter keeps its old position and reference after a restart",
    '''
from support import *
t = newton_tuner("AB", ["p", "q"], lambda: (S(p=0, q=0), S(p=1, q=1)), desired=pd.Series({"p": 0., "q": np.nan}))
e = Exp(S(A=3, B=4))
a = Autotuner(e, [t])
a.restart()
for g in t.solver.gradient_estimators:
    check(g.current_position["A"] == 3 and g.current_position["B"] == 4, "an estimator kept %s" % dict(g.current_position))
''')

BUG("c04-restart-only-above", "C04", (A_, [("""        self._current_tuner_index = 0
        self._current_tuner_status = False
        self._voltages_to_set = None
        current_voltages = self._experiment.read_gate_voltages()
        for par_tuner in self.tuning_hierarchy:
            par_tuner.restart(current_voltages)
""", """        current_voltages = self._experiment.read_gate_voltages()
        for par_tuner in self.tuning_hierarchy[self._current_tuner_index:]:
            par_tuner.restart(current_voltages)
        self._current_tuner_index = 0
        self._current_tuner_status = False
        self._voltages_to_set = None
""")]), "a restart while the position is above the bottom of the hierarchy",
    "groups below the current one do not learn the new voltages",
    '''
from support import *
f = lambda n: (lambda: (pd.Series({n: 0.}), pd.Series({n: .1})))
ts = [newton_tuner("A", "p", f("p")), newton_tuner("B", "q", f("q"))]
e = Exp(S(A=3, B=4))
a = Autotuner(e, ts, current_tuner_index=1)
a.restart()
check(ts[0].last_voltages["A"] == 3, "lower group kept its voltages")
check(ts[0].solver.current_position["A"] == 3, "lower solver kept its position")
''')

BUG("c05-path-after-write", "C05", (A_, [("""            self.last_save_file = os.path.join(self._hdf5_storage_path, time_string() + ".hdf5")
            self.asynchrone_writer.write(self, file_name=self.last_save_file, name='autotuner')
""", """            save_file = os.path.join(self._hdf5_storage_path, time_string() + ".hdf5")
            self.asynchrone_writer.write(self, file_name=save_file, name='autotuner')
            self.last_save_file = save_file
""")]), "reading last_save_file from a stored autotuner (two or more saves)",
    "the stored autotuner names the file of the previous iteration as its save file",
    '''
from support import *
class W:
    def write(self, obj, file_name, name=None):
        self.seen = (obj.last_save_file, file_name)
d = os.environ["DEMO_SCRATCH"]
a = Autotuner(Exp(S(A=0)), [newton_tuner("A", "p", lambda: (S(p=0), S(p=1)))], hdf5_storage_path=d)
a._asynchrone_writer = W()
a.iterate()
check(a._asynchrone_writer.seen[0] == a._asynchrone_writer.seen[1], "the stored state names %s" % (a._asynchrone_writer.seen,))
''')

BUG("c05-save-before-flag", "C05", (A_, [("""            self._voltages_to_set = self.get_current_tuner().get_next_voltages(tuned_parameters=self.tuned_parameters)
            self._current_tuner_status = False
            self.logger.info("Next voltages are being calculated.")

        self.save_current_status()
""", """            self._voltages_to_set = self.get_current_tuner().get_next_voltages(tuned_parameters=self.tuned_parameters)
            self.logger.info("Next voltages are being calculated.")

        self.save_current_status()
        if self._voltages_to_set is not None:
            self._current_tuner_status = False
""")]), "reloading the state saved by an iteration that computed voltages",
    "the saved state still says that the group is evaluated; after a reload the next voltages are computed without evaluating",
    '''
from support import *
class W:
    def write(self, obj, file_name, name=None):
        self.seen = obj.to_hdf5()["current_tuner_status"]
d = os.environ["DEMO_SCRATCH"]
t = newton_tuner("A", "p", lambda: (S(p=5), S(p=1)))
a = Autotuner(Exp(S(A=0)), [t], hdf5_storage_path=d)
a._asynchrone_writer = W()
a.iterate()
a.iterate()
check(a.voltages_to_set is not None, "no voltages")
check(a._asynchrone_writer.seen == False, "the state was saved before the flag was cleared")
''')

BUG("c10-failed-is-evaluatable", "C10", (T_, [("""        # check for an evaluation failure (only relevant parameters)
        if self._last_parameter_values.isnull().values.any():
            self._last_evaluation_failed = True
            return False
        self._last_evaluation_failed = False
        self._evaluatable_voltages.append(voltages)
""", """        # check for an evaluation failure (only relevant parameters)
        self._last_evaluation_failed = bool(self._last_parameter_values.isnull().values.any())
        if not self._last_parameter_values.isnull().values.all():
            self._evaluatable_voltages.append(voltages)
        if self._last_evaluation_failed:
            return False
""")]), "an evaluation in which some but not all relevant parameters are NaN",
    "the failed voltages count as evaluatable, and the recovery stays at the failed point",
    '''
from support import *
out = [(S(p=1, q=1), S(p=1, q=1)), (pd.Series({"p": 1., "q": np.nan}), S(p=1, q=1))]
t = newton_tuner("AB", "pq", lambda: out.pop(0))
t.is_tuned(S(A=0, B=0))
t.is_tuned(S(A=2, B=2))
nxt = t.get_next_voltages()
check(nxt["A"] == 1 and nxt["B"] == 1, "recovery goes to %s" % dict(nxt))
''')


BUG("c11-tolerance-tie", "C11", (T_, [(".abs().fillna(0.) < self.target['tolerance'].fillna(", ".abs().fillna(0.) <= self.target['tolerance'].fillna(")]),
    "a value whose distance to the target equals the tolerance exactly", "a group at the edge of its tolerance counts as tuned",
    '''
from support import *
t = newton_tuner("A", "p", lambda: (S(p=.5), S(p=1)), tolerance=S(p=.5))
check(not t.is_tuned(S(A=0)), "a tie counts as tuned")
''')

BUG("c11-missing-minimum", "C11", (T_, [("""        if current_parameter.le(self.target["minimum"]).any():
            self.cheap_evaluation_only = True
""", """        if not current_parameter.gt(self.target["minimum"]).all():
            self.cheap_evaluation_only = True
""")]), "a cheap parameter without minimum", "a sensing dot with a parameter that has no minimum never counts as tuned",
    '''
from support import *
target = make_target(minimum=pd.Series({"s": 1., "x": np.nan}), cost_threshold=pd.Series({"s": .5, "x": np.nan}))
sol = ForwardingSolver(target, pd.Series({"x": "A"}), S(A=0))
cheap = Eva(lambda: (S(s=2, x=0), S(s=.1, x=.1)), ["s", "x"], name="c")
t = SensingDotTuner([cheap], [], ["A"], solver=sol, last_voltage=S(A=0))
check(t.is_tuned(S(A=0)), "not tuned")
''')

BUG("c12-queued-position", "C12", (T_, [("""        if self._number_queued_steps != 0:
            self.solver.current_position = voltages
            return False
""", """        if self._number_queued_steps != 0:
            return False
""")]), "a step that is cut into several queued steps", "the solver computes the remaining steps from the position before the first one and overshoots",
    '''
from support import *
t = newton_tuner("A", "p", lambda: (S(p=3), S(p=1)), maximal_step_size=1., maximal_step_number=3)
t.is_tuned(S(A=0))
v = t.get_next_voltages()
t.is_tuned(v)
check(t.solver.current_position["A"] == v["A"], "the solver stays at %s" % dict(t.solver.current_position))
''')

BUG("c12-limit-per-gate", "C12", (T_, [("        if np.linalg.norm(step) > self._maximal_step_size:\n", "        if np.abs(step).max() > self._maximal_step_size:\n")]),
    "a step in two or more gates, each below the limit but together above it", "the step is longer than allowed",
    '''
from support import *
t = newton_tuner("AB", "pq", lambda: (S(p=.9, q=.9), S(p=1, q=1)), maximal_step_size=1.)
t.is_tuned(S(A=0, B=0))
n = t.get_next_voltages()
check(np.linalg.norm(n) <= 1 + 1e-9, "step of length %s" % np.linalg.norm(n))
''')

BUG("c13-variance-factor", "C13", (S_, [("        variances /= rescaling_factor[values.index] ** 2\n", "        variances /= rescaling_factor[values.index].abs()\n")]),
    "a rescaling factor different from one", "rescaled variances have the wrong unit, so the Kalman filters weigh the measurements wrongly",
    '''
from support import *
t = newton_tuner("A", "p", lambda: (S(p=10), S(p=8)), rescaling=S(p=2))
t.is_tuned(S(A=0))
v, s = t.last_parameters_and_variances
check(v["p"] == 5 and s["p"] == 2, "variance is %s" % s["p"])
''')

BUG("c14-values-keep-order", "C14", (S_, [("""        self._current_position = position[self._current_position.index]
        self._current_values = values[self._current_values.index]

    def to_hdf5(self):
        return dict(target=self.target,
                    gradient_estimators""", """        self._current_position = position[self._current_position.index]
        self._current_values = values[values.index.intersection(self._current_values.index)]

    def to_hdf5(self):
        return dict(target=self.target,
                    gradient_estimators""")]),
    "two or more steps with evaluation results in another order than the target", "from the second step on each estimator learns from the values of another parameter",
    '''
from support import *
t = newton_tuner("AB", ["q", "p"], lambda: None)
s = t.solver
s.update_after_step(S(A=0, B=0), S(p=1, q=2), S(p=.1, q=.2))
s.update_after_step(S(A=0, B=1), S(p=3, q=4), S(p=.1, q=.2))
check(s.gradient_estimators[0]._current_value == 4 and s.gradient_estimators[1]._current_value == 3, "values were exchanged")
''')

BUG("c14-nan-target-requests", "C14", (S_, [("            if self.target.iloc[i].desired == self.target.iloc[i].desired:\n", "            if not self.target.iloc[i].isna().all():\n")]),
    "a parameter without desired value whose gradient is uncertain", "measurements are requested for parameters that must only stay invariant",
    '''
from support import *
t = newton_tuner("AB", ["p", "q"], lambda: None, desired=pd.Series({"p": 0., "q": np.nan}))
s = t.solver
s._gradient_estimators[1] = kalman("AB", [0., 1.], maximum_covariance=1e-9, epsilon=7.)
s.update_after_step(S(A=0, B=0), S(p=1, q=2), S(p=.1, q=.2))
n = s.suggest_next_position()
check(abs(n["A"] + 1) < 1e-6 and abs(n["B"]) < 1e-6, "suggestion %s" % dict(n))
''')

BUG("c16-reference-moves", "C16", (G_, [("""        if is_new_position:
            self._current_value = value
            self._current_position = position[self._current_position.index]
""", """        self._current_position = position[self._current_position.index]
        if is_new_position:
            self._current_value = value
""")]), "an update that is not declared a new position followed by another one", "the displacement and the value difference refer to different points",
    '''
from support import *
g = kalman("A", [0.])
g.update(S(A=0), 0., .1, is_new_position=True)
g.update(S(A=1), 3., .1, is_new_position=False)
seen = []
g._kalman_gradient.update = lambda **kw: seen.append(kw)
g.update(S(A=2), 6., .1, is_new_position=True)
check(float(seen[0]["diff_position"].iloc[0]) == 2. and float(seen[0]["diff_values"][0]) == 6., "update with %s" % seen)
''')

BUG("c17-variances-order", "C17", (G_, [("                                                                         variances=variances[::-1])",
                                         "                                                                         variances=variances)")]),
    "asymmetric finite differences with unequal variances", "the variances are assigned to the wrong measurements",
    '''
from support import *
g = FiniteDifferencesGradientEstimator(current_position=S(A=0, B=0), epsilon=1., symmetric=False)
for (a, b), v, s in (((1, 0), 1., 1.), ((0, 1), 1., 4.), ((0, 0), 0., 100.)):
    g.update(S(A=a, B=b), v, s)
c = g.covariance()
check(abs(c.loc["A", "A"] - 101) < 1e-6 and abs(c.loc["B", "B"] - 104) < 1e-6, "covariance\\n%s" % c)
''')

BUG("c17-count-symmetric", "C17", (G_, [("""            measured_points = [v[gates] for v, *_ in self._stored_measurements]
""", """            measured_points = [v[gates] for v, *_ in self._stored_measurements if v[gates].notna().all()][-2:]
""")]), "three or more gates, so that more than two measurements are needed", "the requested points repeat directions and the gradient cannot be computed",
    '''
from support import *
g = FiniteDifferencesGradientEstimator(current_position=S(A=0, B=0, C=0), epsilon=1., symmetric=False)
ps = []
g.update(S(A=0, B=0, C=0), 0., 1.)
while g.estimate() is None and len(ps) < 6:
    p = g.require_measurement()
    ps.append(p)
    g.update(p, float(p.sum()), 1.)
check(g.estimate() is not None and np.allclose(g.estimate(), 1.), "no gradient from %s" % len(ps))
''')

BUG("c27-outside-vs-worst", "C27", (S_, [("""            reflected_pos, reflected_val = self._reflected_point
            reflection_cost = self.cost_function(reflected_val)

            contraction_cost = self.cost_function(values)
            if contraction_cost < reflection_cost:
""", """            reflection_cost = self.get_costs()[-2]

            contraction_cost = self.cost_function(values)
            if contraction_cost < reflection_cost:
""")]), "an outside contraction whose cost lies between the second worst and the reflected one",
    "a contracted point better than the reflected one is rejected and the simplex is shrunk",
    '''
from support import *
target = make_target(desired=S(p=0))
pts = [(S(A=0, B=0), S(p=1)), (S(A=1, B=0), S(p=2)), (S(A=0, B=1), S(p=5))]
s = NelderMeadSolver(target, pts, S(A=1, B=1), S(A=0, B=1), S(p=5), state="start_iteration")
one = S(p=.1)
s.suggest_next_position(); s.update_after_step(S(A=1, B=-1), S(p=4), one)
check(s._state == s.State.contract_outside, "state %s" % s._state)
s.suggest_next_position(); s.update_after_step(S(A=.5, B=-.5), S(p=3), one)
check(s._state == s.State.start_iteration, "the contracted point was rejected: %s" % s._state)
''')

BUG("c31-includes-current", "C31", (A_, [("        for i in range(0, self.current_tuner_index):\n", "        for i in range(0, self.current_tuner_index + self.current_tuner_status):\n")]),
    "the tuned parameters of an autotuner whose current group was evaluated and is not tuned", "the current group counts as tuned and restricts its own gradient measurements",
    '''
from support import *
f = lambda n: (lambda: (pd.Series({n: 5.}), pd.Series({n: .1})))
a = Autotuner(Exp(S(A=0, B=0)), [newton_tuner("A", "p", f("p")), newton_tuner("B", "q", f("q"))], current_tuner_index=1)
a.iterate()
check(a.current_tuner_status, "status")
check(True, "")
full = make_target(desired=S(q=0), maximum=S(q=1), minimum=S(q=-1), tolerance=S(q=.1), cost_threshold=S(q=0))
a.tuning_hierarchy[1].solver._target = full
a.tuning_hierarchy[0].solver._target = full.rename(index={"q": "p"})
check(a.tuned_parameters == {"p"}, "tuned parameters %s" % a.tuned_parameters)
''')

BUG("c33-change-resets", "C33", (S_, [("            self.target.loc[changes[category].index, category] = changes[category]\n",
                                       "            self.target[category] = changes[category].reindex(self.target.index)\n")]),
    "a target change that names only some of the parameters", "parameters that were not named lose their target",
    '''
from support import *
t = newton_tuner("AB", ["p", "q"], lambda: None)
t.target = {"desired": S(p=3)}
check(t.target.desired["p"] == 3 and t.target.desired["q"] == 0, "target is %s" % dict(t.target.desired))
''')

BUG("c29-error-path-attribute", "C29", (A_, [("are to be tuned by the SubsetTuner number \" + str(tuner_number) +", "are to be tuned by the SubsetTuner number \" + str(par_tuner.number) +")]),
    "a step-limited group that tunes a gate its estimator does not know", "the readiness check dies with AttributeError instead of reporting the gate",
    '''
from support import *
t = newton_tuner("AB", "pq", lambda: None)
t.solver.gradient_estimators[0]._current_position = S(A=0)
a = Autotuner(Exp(S(A=0, B=0)), [t])
check(a.ready_to_tune() is False, "not reported")
''')
