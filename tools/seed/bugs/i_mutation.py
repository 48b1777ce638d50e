E_, U_, H_, S_, G_ = "qtune/evaluator.py", "qtune/util.py", "qtune/history.py", "qtune/solver.py", "qtune/gradient.py"

BUG("c21-load-baseline", "C21", (E_, [("        y_data = raw_data[0, :]\n        initial_curvature = self.initial_curvature\n", "        y_data = raw_data[0, :]\n        y_data -= np.nanmin(y_data) * (np.nanmin(y_data) < 0.)\n        initial_curvature = self.initial_curvature\n")]),
    "a load scan with negative signals", "the analysis shifts the measured data it was given", '''
from support import *
from qtune.evaluator import NewLoadTime
e = Exp(S(A=1))
x = np.linspace(1, 100, 50)
data = np.array([-3. + 2. * np.exp(-x / 20.) + 1e-3 * np.cos(x), x])
t = NewLoadTime(e)
given = data.copy()
t.process_raw_data(data)
check((given == data).all(), "raw data changed by up to %g" % abs(given - data).max())
''')

BUG("c21-dot-outliers", "C21", (E_, [("        raw_y_data = np.squeeze(raw_data[1])\n        coef", "        raw_y_data = np.squeeze(raw_data[1])\n        raw_y_data[np.isinf(raw_y_data)] = np.nanmean(raw_y_data[np.isfinite(raw_y_data)])\n        coef")]),
    "a scan with an overflowing point", "the stored raw data is edited by the analysis", '''
from support import *
from qtune.evaluator import SensingDot1D
e = Exp(S(SDB2=0.1))
y = np.tanh(np.linspace(-3, 3, 1280))
y[100] = np.inf
given = y.copy()
e.measure_hook = lambda m: y
t = SensingDot1D(e)
try:
    t.evaluate()
except Exception:
    pass
check((given == y).all() and (t._raw_y_data == given).all(), "raw data changed")
''')

BUG("c21-plot-offset", "C21", (U_, [("    if isinstance(function_args, pd.Series):\n        function_args = dict(function_args)\n", "    if isinstance(function_args, pd.Series):\n        function_args = dict(function_args)\n    elif function_args:\n        for name in [name for name, value in function_args.items() if value != value]:\n            function_args.pop(name)\n")]),
    "a failed fit with NaN results is plotted", "plotting removes entries from the fit results of its caller", '''
from support import *
import qtune.util
fit = {"offset": 1., "height": np.nan, "curvature": 3.}
try:
    qtune.util.plot_raw_data_fit(np.arange(10.), np.arange(10.), lambda x, **k: 0 * x, fit)
except Exception:
    pass
check(sorted(fit) == ["curvature", "height", "offset"], "entries left: %s" % sorted(fit))
''')

BUG("c21-gradient-diffs", "C21", (U_, [("    elif n_points == 2 * n_dim:\n        voltage_diff = (np.stack(positions[1::2]) - np.stack(positions[::2])).T\n        parameter_diff = (np.stack(values[1::2]) - np.stack(values[::2])).T\n    else:\n        raise RuntimeError(\"Invalid number of points\", positions, values)",
     "    elif n_points == 2 * n_dim:\n        for upper, lower in zip(positions[1::2], positions[::2]):\n            upper -= lower\n        voltage_diff = np.stack(positions[1::2]).T\n        parameter_diff = (np.stack(values[1::2]) - np.stack(values[::2])).T\n    else:\n        raise RuntimeError(\"Invalid number of points\", positions, values)")]),
    "a gradient from symmetric pairs", "the measured positions are overwritten with differences", '''
from support import *
from qtune.util import calculate_gradient_non_orthogonal as grad
pos = [np.array(p) for p in ([0., 1.], [0., 3.], [1., 0.], [4., 0.])]
kept = [p.copy() for p in pos]
grad(pos, [1., 2., 3., 4.], [1., 1., 1., 1.])
check(all((a == b).all() for a, b in zip(pos, kept)), "positions changed to %s" % pos)
''')

BUG("c21-history-diagonal", "C21", (H_, [("    gradients = dict()\n    covariances = dict()\n    for tuner in tuning_hierarchy:\n        if isinstance(tuner.solver, qtune.solver.NewtonSolver):\n            for i, grad_est in enumerate(tuner.solver.gradient_estimators):\n                if grad_est.estimate() is None:\n",
     "    gradients = dict()\n    covariances = dict()\n    for tuner in tuning_hierarchy:\n        if isinstance(tuner.solver, qtune.solver.NewtonSolver):\n            for i, grad_est in enumerate(tuner.solver.gradient_estimators):\n                if grad_est.estimate() is not None:\n                    grad_est.estimate().fillna(0., inplace=True)\n                if grad_est.estimate() is None:\n")]),
    "a finite-difference gradient with an undefined entry is recorded", "recording the state changes the gradient in the estimator", '''
from support import *
from qtune.history import extract_gradients_from_hierarchy
g = S(A=1., B=np.nan)
fd = types.SimpleNamespace(estimate=lambda: g, covariance=lambda: None)
s = NewtonSolver.__new__(NewtonSolver)
s._target = make_target(desired=S(x=1.))
s._gradient_estimators = [fd]
extract_gradients_from_hierarchy([types.SimpleNamespace(solver=s)])
check(bool(np.isnan(g["B"])), "the gradient of the estimator became %s" % g.to_dict())
''')


BUG("c21-transition-average", "C21", (U_, [("    data = data.copy().squeeze()\n    for i in range(0, len(data)-width_in_index_points-1):", "    data = np.asarray(data, dtype=float).squeeze()\n    for i in range(0, len(data)-width_in_index_points-1):")]),
    "a transition scan given as a float array", "the scan itself is replaced by its differences", '''
from support import *
from qtune.util import new_find_lead_transition_index as find
y = np.tanh(np.linspace(-3, 3, 60))
kept = y.copy()
find(y, 4)
check((y == kept).all(), "the data changed")
''')
