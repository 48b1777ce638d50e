S_, G_, E_, T_, K_ = "qtune/solver.py", "qtune/gradient.py", "qtune/evaluator.py", "qtune/parameter_tuner.py", "qtune/kalman_gradient.py"

BUG("c07-queued-steps", "C07", (T_, [("                    maximal_step_number=self._maximal_step_number,\n                    number_queued_steps=self._number_queued_steps)",
                                      "                    maximal_step_number=self._maximal_step_number)")]),
    "an autotuner saved while steps are queued", "after reloading the queued steps are forgotten and a measurement is made instead", '''
from support import *
from qtune.storage import to_hdf5, from_hdf5
f = os.path.join(os.environ["DEMO_SCRATCH"], "a.hdf5")
t = newton_tuner("A", "p", lambda: None)
d = t.to_hdf5()
t2 = type(t)(**dict(d, number_queued_steps=2, maximal_step_size=1., maximal_step_number=3))
t3 = type(t2)(**t2.to_hdf5())
check(t3._number_queued_steps == 2, "queued %s" % t3._number_queued_steps)
''')

BUG("c07-nm-reflected", "C07", (S_, [("                    reflected_point=self._reflected_point,\n", "                    reflected_point=self._reflected_point if self._state == self.State.reflect else None,\n")]),
    "a Nelder-Mead solver saved while it waits for an expanded or contracted point", "the reflected point is lost, and continuing after a reload fails", '''
from support import *
tgt = make_target(desired=S(p=0, q=0))
pts = [(S(A=i, B=i * i), S(p=i, q=1)) for i in range(3)]
s = NelderMeadSolver(target=tgt, simplex=pts, span=S(A=1, B=1), current_position=S(A=0, B=0), current_values=S(p=0, q=0), reflected_point=(S(A=1, B=2), S(p=1, q=1)), state="expand")
s2 = NelderMeadSolver(**s.to_hdf5())
check(s2._reflected_point is not None, "the reflected point is lost")
''')

BUG("c07-step-init", "C07", (T_, [("        self._number_queued_steps = number_queued_steps\n", "        self._number_queued_steps = max(number_queued_steps - 1, 0)\n")]),
    "an autotuner saved while steps are queued and loaded again", "every reload drops one queued step", '''
from support import *
t = newton_tuner("A", "p", lambda: None)
t2 = type(t)(**dict(t.to_hdf5(), maximal_step_size=1., maximal_step_number=3))
t2._number_queued_steps = 2
t3 = type(t2)(**t2.to_hdf5())
check(t3._number_queued_steps == 2, "queued %s" % t3._number_queued_steps)
''')

BUG("c07-subset-state", "C07", (T_, [("                    last_evaluation_failed=self._last_evaluation_failed,\n                    evaluatable_voltages=self._evaluatable_voltages)",
                                      "                    last_evaluation_failed=self._last_evaluation_failed,\n                    evaluatable_voltages=self._tuned_voltages)")]),
    "a group saved after evaluations that succeeded without meeting the target", "the recovery after a failed evaluation has no or wrong good voltages after a reload", '''
from support import *
t = newton_tuner("A", "p", lambda: (S(p=5), S(p=1)))
t.is_tuned(S(A=1))
t2 = type(t)(**t.to_hdf5())
check(len(t2._evaluatable_voltages) == 1, "good voltages %s" % t2._evaluatable_voltages)
''')

