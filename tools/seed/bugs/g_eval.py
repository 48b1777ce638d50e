E_, Q_ = "qtune/evaluator.py", "qtune/sm_tune_qqd.py"

PRE = '''
from support import *
from qtune import evaluator as ev
from qtune.evaluator import InterDotTCByLineScan, NewLoadTime, AveragingEvaluator
real = ev.optimize.curve_fit
def fail_at(*turns):
    """the fits numbered in turns do not converge"""
    state = {"n": 0}
    def fit(*a, **k):
        state["n"] += 1
        if state["n"] in turns:
            raise RuntimeError("Optimal parameters not found")
        return real(*a, **k)
    ev.optimize.curve_fit = fit
def tc(options=None):
    e = Exp(S(A=1))
    x = np.linspace(-2e-3, 2e-3, 100)
    e.measure_hook = lambda m: 1e-3 * np.tanh(x / 2e-4) + 1e-5 * np.cos(9e3 * x)
    return InterDotTCByLineScan(e), e
def load():
    e = Exp(S(A=1))
    x = np.linspace(0, 100, 50)
    e.measure_hook = lambda m: np.array([1. + 2. * np.exp(-x / 20.), x])
    return NewLoadTime(e), e
def lost(pair, name):
    v, s = pair
    check(list(v.index) == [name] and list(s.index) == [name], "labels %s, %s" % (list(v.index), list(s.index)))
    check(v.isna().all() and s.isna().all(), "value %s, variance %s" % (v.to_dict(), s.to_dict()))
'''

BUG("c22-last-good-fit", "C22", (E_, [("            fitresult = pd.Series(data=np.nan, index=['offset', 'height', 'curvature'])\n            residual = np.nan\n", "            fitresult = self._fit_results\n            if fitresult is None:\n                fitresult = pd.Series(data=np.nan, index=['offset', 'height', 'curvature'])\n            residual = np.nan\n")]),
    "a fit that does not converge after an earlier one did", "the failed evaluation reports the previous value instead of NaN", PRE + '''
l, e = load()
l.evaluate()
fail_at(1)
lost(l.evaluate(), "parameter_time_load")
''')

BUG("c22-refit-uncaught", "C22", (E_, [("        popt, pcov = optimize.curve_fit(f=func_inter_dot_coupling, p0=initial_parameters, xdata=x_data, ydata=y_data)\n", "        try:\n            popt, pcov = optimize.curve_fit(f=func_inter_dot_coupling, p0=initial_parameters, xdata=x_data, ydata=y_data)\n        except RuntimeError:\n            return pd.Series(data=np.nan, index=['offset', 'slope', 'height', 'position', 'width']), np.nan\n"),
     ("        try:\n            fitresult, residual = self.process_raw_data((self._raw_x_data, self._raw_y_data))\n        except RuntimeError:\n            self.logger.error('The following evaluator could not evaluate its data: ' + str(self))\n            self._fit_results = pd.Series(data=np.nan, index=['offset', 'slope', 'height', 'position', 'width'])\n            return pd.Series([np.nan], [\"parameter_tunnel_coupling\"]), pd.Series([np.nan],\n                                                                                 [\"parameter_tunnel_coupling\"])\n        self._fit_results = fitresult\n        tc_in", "        fitresult, residual = self.process_raw_data((self._raw_x_data, self._raw_y_data))\n        self._fit_results = fitresult\n        tc_in")]),
    "the first fit converges and the weighted one does not", "the evaluator raises instead of reporting NaN", PRE + '''
t, e = tc()
fail_at(1)
lost(t.evaluate(), "parameter_tunnel_coupling")
fail_at(2)
lost(t.evaluate(), "parameter_tunnel_coupling")
''')

BUG("c22-invalid-data-label", "C22", (E_, [("            self.logger.error('The Evaluator' + str(self) + 'received measurement data of an invalid dimension.')\n            return pd.Series([np.nan], [\"parameter_tunnel_coupling\"]), pd.Series([np.nan],\n                                                                                 [\"parameter_tunnel_coupling\"])\n", "            self.logger.error('The Evaluator' + str(self) + 'received measurement data of an invalid dimension.')\n            return self._fit_results[['width']], self._fit_results[['width']]\n")]),
    "measurement data of an invalid dimension", "the NaN results carry another label than the parameter", PRE + '''
t, e = tc()
e.measure_hook = lambda m: np.ones((2, 3, 4))
lost(t.evaluate(), "parameter_tunnel_coupling")
''')

BUG("c22-average-all-repetitions", "C22", (E_, [("            outer_error[parameter] = np.nanvar(par_list) / np.count_nonzero(~np.isnan(par_list))", "            outer_error[parameter] = np.nanvar(par_list) / len(par_list)")]),
    "a repetition whose evaluation failed", "the variance of the mean is too small", PRE + '''
vals = [1., np.nan, 3., np.nan]
a = AveragingEvaluator(Eva(lambda: (pd.Series([vals.pop(0)], ["p"]), pd.Series([1.], ["p"])), ["p"], experiment=Exp(S(A=1))), 4)
v, s = a.evaluate()
check(v["p"] == 2. and s["p"] == .5, "mean %s variance %s" % (v["p"], s["p"]))
''')

BUG("c22-variance-of-last", "C22", (E_, [("        values[\"current_signal\"] = current_signal\n        error[\"current_signal\"] = current_signal / 5\n        values[\"optimal_signal\"] = optimal_signal\n        error[\"optimal_signal\"] = optimal_signal / 5\n", "        for signal, value in ((\"current_signal\", current_signal), (\"optimal_signal\", optimal_signal)):\n            values[signal] = value\n            error[signal] = optimal_signal / 5\n")]),
    "a scan whose present slope is not the steepest", "the variance of the current signal is that of the optimal signal", PRE + '''
from qtune.evaluator import SensingDot1D
e = Exp(pd.Series([0.], ["SDB2"])); x = np.linspace(-4e-3, 4e-3, 1280)
e.measure_hook = lambda m: np.exp(-((x - 1e-3) / 1e-3) ** 2)
v, s = SensingDot1D(e).evaluate()
check(np.isclose(s["current_signal"], v["current_signal"] / 5) and np.isclose(s["optimal_signal"], v["optimal_signal"] / 5), "%s %s" % (v.to_dict(), s.to_dict()))
''')

BUG("c22-qqd-nan-is-error", "C22", (Q_, [("        if value < self._minimal_value or value > self._maximal_value:\n            value = np.nan\n        return value, self._error * sum_residuals / self._reference_residual_sum", "        if value < self._minimal_value or value > self._maximal_value:\n            return np.nan\n        return value, self._error * sum_residuals / self._reference_residual_sum")]),
    "a value outside the permitted range", "the evaluator raises instead of reporting NaN", '''
import sys
from support import *
stub_matlab()
from types import SimpleNamespace as N
from qtune.sm_tune_qqd import QQDLead
e = Exp(S(A=1))
e.measure_hook = lambda m: {"data": N(ana=N(fitParams=[None, [0, 0, 0, 99.]], sumResiduals=2.), args=N(fullFile="f"))}
q = QQDLead(e, [Measurement("lead")], ["p"], "n", maximal_value=5.)
try:
    v, s = q.evaluate()
except Exception as err:
    check(False, "%s: %s" % (type(err).__name__, err))
check(v.index.tolist() == ["p"] == s.index.tolist() and np.isnan(v["p"]), "%s" % v)
''')
