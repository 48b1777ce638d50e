K_, KG_, KU_ = "qtune/gradient.py", "qtune/kalman_gradient.py", "qtune/util.py"
KAL = '''
from support import *
def est(gates, P, limit, **kw):
    n = len(gates)
    kg = KalmanGradient(n_pos_dim=n, n_values=1, initial_gradient=np.ones((1, n)), initial_covariance_matrix=np.array(P, dtype=float))
    return KalmanGradientEstimator(kg, current_position=pd.Series(0., index=list(gates)), maximum_covariance=limit, epsilon=.1, **kw)
'''
BUG("c37-largest-eigenvalue", "C37", (K_, [("                return self._current_position.add(self._epsilon[gates] * eigenvectors[:, np.argmax(lengths)],",
                                            "                return self._current_position.add(self._epsilon[gates] * eigenvectors[:, np.argmax(eigenvalues)],")]),
    "gates with different maximum covariances of which only the less uncertain one exceeds its limit",
    "the measurement is requested along a gate whose uncertainty is allowed", KAL + '''
e = est("AB", [[4., 0.], [0., 1.]], S(A=10., B=.1))
r = e.require_measurement()
check(r is not None and abs(r["B"]) > 0.05 and abs(r["A"]) < 1e-9, "requested %s" % (None if r is None else dict(r)))
''')
BUG("c37-other-limits", "C37", (K_, [("self._maximum_covariance[gates].values[:, np.newaxis]", "self._maximum_covariance.values[:len(gates), np.newaxis]")]),
    "a request for a subset of the gates that are not the first ones, with different limits", "the limits of other gates decide", KAL + '''
e = est("ABC", np.diag([.1, .5, .5]), S(A=.1, B=1., C=1.))
check(e.require_measurement(gates=["B", "C"]) is None, "a measurement is requested although B and C are known well enough")
''')
BUG("c37-tuned-limit", "C37", (K_, [("            if np.any(np.array(directional_covariances) > max_covariance):",
                                     "            if np.all(np.array(directional_covariances) > max_covariance):")]),
    "two free directions of which one is still uncertain, beside an already tuned parameter", "no measurement is requested", KAL + '''
e = est("ABC", np.diag([1., 5., .1]), 1.5)
jac = pd.DataFrame([[1., 0., 0.]], columns=list("ABC"))
r = e.require_measurement(tuned_jacobian=jac)
check(r is not None and abs(r["B"]) > .05, "requested %s" % r)
''')
BUG("c37-tuned-first", "C37", (K_, [("""                    self._epsilon * np.squeeze(
                        np.array(filled_nullvectors[np.argmax(directional_covariances)]).astype(float)), fill_value=0.)""",
"""                    self._epsilon * np.squeeze(
                        np.array(filled_nullvectors[-1]).astype(float)), fill_value=0.)""")]),
    "several free directions, the last of which is well known", "the measurement is taken along a direction that is known", KAL + '''
e = est("ABC", np.diag([1., 5., .1]), 1.5)
jac = pd.DataFrame([[1., 0., 0.]], columns=list("ABC"))
r = e.require_measurement(tuned_jacobian=jac)
check(r is not None and abs(r["B"]) > .05 and abs(r["C"]) < 1e-9, "requested %s" % r)
''')
BUG("c38-variance-pairs", "C38", (KU_, [("            diff_variances = np.stack(variances[1::2]) + np.stack(variances[::2])",
                                         "            diff_variances = np.stack(variances[:n_dim]) + np.stack(variances[n_dim:])")]),
    "symmetric finite differences in two dimensions with different variances per pair", "variances are attributed to other directions", '''
from support import *
from qtune.util import calculate_gradient_non_orthogonal as f
pos = [np.array([1., 0.]), np.array([-1., 0.]), np.array([0., 1.]), np.array([0., -1.])]
g, c = f(pos, [1., -1., 2., -2.], [1., 1., 3., 3.])
check(np.allclose(np.diag(c), [.5, 1.5]), "covariance %s" % c)
''')
BUG("c38-covariance-transposed", "C38", (KU_, [("        gradient_covariance = inverted_volt_diffs.T @ np.diag(diff_variances) @ inverted_volt_diffs",
                                                "        gradient_covariance = inverted_volt_diffs @ np.diag(diff_variances) @ inverted_volt_diffs.T")]),
    "measurements in directions that are not the gate axes", "the covariance of the gradient is wrong", '''
from support import *
from qtune.util import calculate_gradient_non_orthogonal as f
pos = [np.array([0., 0.]), np.array([1., 0.]), np.array([1., 1.])]
g, c = f(pos, [0., 1., 3.], [0., 1., 1.])
D = np.array([[1., 0.], [1., 1.]])
want = np.linalg.inv(D) @ np.linalg.inv(D).T
check(np.allclose(g, [1., 2.]), "gradient %s" % g)
check(np.allclose(c, want), "covariance %s, expected %s" % (c, want))
''')
BUG("c38-base-variance", "C38", (KU_, [("            diff_variances = np.stack(variances[1:]) + variances[0]", "            diff_variances = np.stack(variances[1:]) + variances[-1]")]),
    "a base point measured with another variance than the last point", "the variance of the base point is not propagated", '''
from support import *
from qtune.util import calculate_gradient_non_orthogonal as f
pos = [np.array([0., 0.]), np.array([1., 0.]), np.array([0., 1.])]
g, c = f(pos, [0., 1., 2.], [4., 1., 2.])
check(np.allclose(np.diag(c), [5., 6.]), "covariance %s" % c)
''')
