S_, G_, E_, M_, B_ = "qtune/solver.py", "qtune/gradient.py", "qtune/evaluator.py", "qtune/sm.py", "qtune/basic_dqd.py"

BUG("c26-fd-needs-flag", "C26", (G_, [("    def update(self, position: pd.Series, value: float, variance: float, is_new_position=False):\n", "    def update(self, position: pd.Series, value: float, variance: float, is_new_position):\n")]),
    "a caller that leaves out the optional flag of the estimator interface", "the finite difference estimator refuses an update every other estimator accepts", '''
from support import *
for est in (kalman("A"), FiniteDifferencesGradientEstimator(current_position=S(A=0), epsilon=S(A=1), symmetric=False)):
    est.update(S(A=1), 1., 1.)
''')

BUG("c26-selfinit-order", "C26", (G_, [("    def update(self, position: pd.Series, value: float, covariance: float, is_new_position=False):\n        self.finite_difference_estimator.update(",
                                        "    def update(self, position: pd.Series, value: float, is_new_position=False, covariance: float=1.):\n        self.finite_difference_estimator.update(")]),
    "an update of the self-initialising estimator with the positional variance the solvers pass", "the variance is taken for the flag and lost", '''
from support import *
from qtune.gradient import SelfInitializingKalmanEstimator
got = []
for cls in (FiniteDifferencesGradientEstimator, SelfInitializingKalmanEstimator):
    fd = FiniteDifferencesGradientEstimator(current_position=S(A=0), epsilon=S(A=1), symmetric=True)
    e = fd if cls is FiniteDifferencesGradientEstimator else SelfInitializingKalmanEstimator(fd, kalman_arguments=dict(maximum_covariance=1., epsilon=S(A=1)))
    for _ in range(2):
        p = fd.require_measurement()
        e.update(p, float(p["A"]), .25)
    got.append(np.asarray(fd.covariance(), dtype=float).ravel()[0])
check(abs(got[0] - got[1]) < 1e-12, "covariances %s" % got)
''')

BUG("c26-voltage-names-method", "C26", (M_, [("    @property\n    def gate_voltage_names(self)", "    def gate_voltage_names(self)")]),
    "reading the gate names of the MATLAB experiment through the common interface", "a bound method comes back instead of the names", '''
from support import *
stub_matlab()
from qtune.sm import LegacyDQDRefactored
class M:
    engine = types.SimpleNamespace(qtune=types.SimpleNamespace(read_gate_voltages=lambda: {"B": 1., "A": 2.}))
e = LegacyDQDRefactored(M)
check(tuple(e.gate_voltage_names) == ("A", "B"), "names %r" % (e.gate_voltage_names,))
''')
