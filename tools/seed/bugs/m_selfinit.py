G_ = "qtune/gradient.py"
SI = '''
from support import *
from qtune.gradient import SelfInitializingKalmanEstimator
def make(gates="ab"):
    fd = FiniteDifferencesGradientEstimator(current_position=S(**{g: 0. for g in gates}), epsilon=S(**{g: 1. for g in gates}))
    return SelfInitializingKalmanEstimator(fd, kalman_arguments=dict(epsilon=S(**{g: 1. for g in gates}), maximum_covariance=100.))
def f(p):
    return 2. * p["a"] + 3. * p["b"]
def feed(e, extra=(), n=6):
    e.change_position(S(a=0., b=0.)) if False else None
    pos = S(a=0., b=0., **dict(extra))
    e.update(pos, f(pos), .1, is_new_position=True)
    for _ in range(n):
        if e.kalman_estimator:
            break
        r = e.require_measurement()
        p = pos.copy()
        p[r.index] = r
        e.update(p, f(p), .1, is_new_position=False)
    return e
'''
BUG("c44-stale-covariance", "C44", (G_, [("    def covariance(self):\n        return self.active_estimator.covariance()", "    def covariance(self):\n        return self.finite_difference_estimator.covariance()")]),
    "further updates after the Kalman estimator was made", "the covariance stays that of the finite differences", SI + '''
e = feed(make())
e.update(S(a=1., b=0.5), f(S(a=1., b=0.5)), .1, is_new_position=True)
check(np.allclose(e.covariance(), e.kalman_estimator.covariance()), "covariance of the finite differences")
''')
BUG("c44-active-until-complete", "C44", (G_, [("        return self._kalman_estimator or self._finite_difference_estimator", "        return self._finite_difference_estimator if self._finite_difference_estimator.estimate() is not None else self._kalman_estimator or self._finite_difference_estimator")]),
    "an update after the Kalman estimator was made", "the estimate never changes again", SI + '''
e = feed(make())
e.update(S(a=1., b=0.5), 10., .1, is_new_position=True)
check(np.allclose(e.estimate(), e.kalman_estimator.estimate()), "estimate of the finite differences")
''')
BUG("c44-change-active-only", "C44", (G_, [("        self._finite_difference_estimator.change_position(new_position)\n        if self.kalman_estimator:\n            self.kalman_estimator.change_position(new_position)",
                                         "        if not self.kalman_estimator:\n            self._finite_difference_estimator.change_position(new_position)")]),
    "the position is changed after the Kalman estimator was made", "the Kalman estimator stays at its old position", SI + '''
e = feed(make())
e.change_position(S(a=5., b=6.))
check(list(e.current_position) == [5., 6.], "position is %s" % list(e.current_position))
''')
BUG("c44-all-gates", "C44", (G_, [("current_position=position[initial_estimate.index],", "current_position=position,")]),
    "a position with more gates than the gradient has", "the Kalman estimator is made for gates which the gradient does not know", SI + '''
e = feed(make(), dict(z=9.))
check(list(e.current_position.index) == ["a", "b"], "gates %s" % list(e.current_position.index))
''')
BUG("c44-renewed", "C44", (G_, [("        if self.kalman_estimator:\n            self.kalman_estimator.update(position, value, covariance, is_new_position)\n\n        elif", "        if self.kalman_estimator:\n            self.kalman_estimator.update(position, value, covariance, is_new_position)\n\n        if")]),
    "an update after the Kalman estimator was made", "the Kalman estimator is replaced and what it learned is lost", SI + '''
e = feed(make())
k = e.kalman_estimator
e.update(S(a=1., b=0.5), 10., .1, is_new_position=True)
check(e.kalman_estimator is k, "another Kalman estimator")
''')
