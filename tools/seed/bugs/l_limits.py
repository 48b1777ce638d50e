LQ_ = "qtune/sm_tune_qqd.py"
QQ = '''
from support import *
stub_matlab()
from types import SimpleNamespace as N
from qtune.sm_tune_qqd import QQDLine, QQDLead, QQDResp
class E:
    def __init__(self, ana):
        self.data = pd.Series({"data": N(ana=ana, args=N(fullFile="f"))})
    def measure(self, m):
        return self.data
def resp(pos, vis, **kw):
    e = E([N(position=p, visiblity=v) for p, v in zip(pos, vis)])
    return list(QQDResp(e, [Measurement("resp")], ["a", "b"], "r", **kw).evaluate()[0])
def line(widths, **kw):
    return float(QQDLine(E([N(width=w) for w in widths]), [Measurement("line")], ["a"], "l", **kw).evaluate()[0]["a"])
def lead(v, **kw):
    return float(QQDLead(E(N(fitParams=[[0, 0, 0, 0], [0, 0, 0, v]], sumResiduals=1.)), [Measurement("lead")], ["a"], "l", **kw).evaluate()[0]["a"])
def same(a, b):
    return len(a) == len(b) and all((x != x and y != y) or x == y for x, y in zip(a, b))
nan = np.nan
'''
BUG("c39-other-limit", "C39", (LQ_, [("positions[i] > self._max_position.iloc[i]:", "positions[i] > self._max_position.max():")]),
    "transitions with different upper limits, one of them above its own but below the largest", "a position outside its limits is reported", QQ + '''
check(same(resp([5., 5.], [1., 1.], max_position=S(a=3., b=9.)), [nan, 5.]), "limit of the other transition")
''')
BUG("c39-visibility-of-first", "C39", (LQ_, [("            if raw_data['data'].ana[i].visiblity < self._min_transition_height:", "            if min(a.visiblity for a in raw_data['data'].ana) < self._min_transition_height:")]),
    "one transition too low, the other one high", "a good position is discarded because the other transition is not visible", QQ + '''
check(same(resp([5., 6.], [1., 3.], min_transition_height=2.), [nan, 6.]), "good position lost: %s" % resp([5., 6.], [1., 3.], min_transition_height=2.))
''')
BUG("c39-stops-after-first", "C39", (LQ_, [("            if positions[i] < self._min_position.iloc[i] or positions[i] > self._max_position.iloc[i]:\n                positions[i] = np.nan\n",
                                            "            if positions[i] < self._min_position.iloc[i] or positions[i] > self._max_position.iloc[i]:\n                positions[i] = np.nan\n                break\n")]),
    "both transitions outside their limits at once", "the second one is reported", QQ + '''
check(same(resp([5., 6.], [1., 1.], max_position=4.), [nan, nan]), "second position reported")
''')
BUG("c39-magnitude", "C39", (LQ_, [("        value = raw_data['data'].ana.fitParams[1][3]\n        sum_residuals = raw_data['data'].ana.sumResiduals\n        self._last_file_names = raw_data['data'].args.fullFile\n        if value < self._minimal_value or value > self._maximal_value:",
                                   "        value = raw_data['data'].ana.fitParams[1][3]\n        sum_residuals = raw_data['data'].ana.sumResiduals\n        self._last_file_names = raw_data['data'].args.fullFile\n        if abs(value) < self._minimal_value or abs(value) > self._maximal_value:")]),
    "a fit that yields a negative tunnelling time", "a value below the minimum is reported", QQ + '''
check(same([lead(-3., minimal_value=1., maximal_value=9.)], [nan]), "negative value reported")
''')
BUG("c39-single-line", "C39", (LQ_, [("        value = np.mean(width)\n        variance = np.var(width) / len(raw_data['data'].ana)\n        self._last_file_names = raw_data['data'].args.fullFile\n        if value < self._minimal_value or value > self._maximal_value:",
                                     "        value = np.mean(width)\n        variance = np.var(width) / len(raw_data['data'].ana)\n        self._last_file_names = raw_data['data'].args.fullFile\n        if np.min(width) < self._minimal_value or np.max(width) > self._maximal_value:")]),
    "several lines of which one lies outside while the mean does not", "a value within the limits is reported as NaN", QQ + '''
check(same([line([1., 3.], maximal_value=2.5)], [2.]), "mean within the limits is NaN")
''')
