E_ = "qtune/evaluator.py"
X = '''
from support import *
from qtune.evaluator import *
from qtune.experiment import Measurement
class Scan(Exp):
    pos = {}
    at = {}
    def __init__(self, **at):
        super().__init__(S(**at)); self.at = at
    def read_gate_voltages(self): return S(**self.at)
    def set_gate_voltages(self, v): return v
    def measure(self, m): return self.data(m)
'''
BUG("c50-mirrored-shift", "C50", (E_, [("self.optimal_position = raw_x_data[steepest_point + cutoff]", "self.optimal_position = raw_x_data[cutoff:][steepest_point if self._rising_flank else steepest_point + cutoff]")]),
    "a sensing dot tuned to the falling flank", "the position is off by a sixteenth of the scan", X + '''
def data(m):
    x = np.linspace(m.options["center"] - m.options["range"], m.options["center"] + m.options["range"], m.options["N_points"])
    w = m.options["range"]
    return -np.tanh((x - m.options["center"] - .2 * w) / (.3 * w))
e = Scan(SDB2=.1); e.data = data
for rising in (True, False):
    s = SensingDot1D(e, rising_flank=rising)
    if rising: e.data = lambda m: -data(m)
    else: e.data = data
    v, _ = s.evaluate()
    r = s.measurements[0].options["range"]
    check(abs(v["position_SDB2"] - .1 - .2 * r) < .08 * r, "read off at %s of the range" % ((v["position_SDB2"] - .1) / r))
''')
BUG("c50-square-scan", "C50", (E_, [("                                                self._raw_y_data.shape[i]))", "                                                max(self._raw_y_data.shape)))")]),
    "a two-dimensional scan with fewer lines than points and a peak away from the first lines", "the position along the lines is read off an axis that is too long", X + '''
e = Scan(SDB1=0., SDB2=0.)
def data(m):
    y, x = np.mgrid[-1:1:20j, -1:1:104j]
    return -(1 + np.tanh((x - .1) / .2)) * np.exp(-((y - .47) / .3) ** 2)
e.data = data
s = SensingDot2D(e)
v, _ = s.evaluate()
r = s.measurements[0].options["range"]
check(abs(v["position_SDB1"] - .47 * r) < .1 * r, "position_SDB1 at %s of the range" % (v["position_SDB1"] / r))
check(len(s._raw_x_data[0]) == 20, "axis of %d points" % len(s._raw_x_data[0]))
''')
BUG("c50-detuning-centre", "C50", (E_, [("        self._raw_x_data = np.linspace(self.measurements[0].options['center'] - self.measurements[0].options['range'],\n                                       self.measurements[0].options['center'] + self.measurements[0].options['range'],",
    "        self._raw_x_data = np.linspace(-self.measurements[0].options['range'],\n                                       self.measurements[0].options['range'],")]),
    "a detuning scan that is not centred at zero", "the recorded axis and the fitted position are those of a scan around zero", X + '''
e = Scan(A=0.)
e.data = lambda m: func_inter_dot_coupling(np.linspace(1e-3, 5e-3, 100), 0., 0., 1., 3e-3, 1.5e-4)
s = InterDotTCByLineScan(e, measurements=(Measurement("detune_scan", center=3e-3, range=2e-3, N_points=100),))
s.evaluate()
check(abs(s._raw_x_data[0] - 1e-3) < 1e-9 and abs(s._raw_x_data[-1] - 5e-3) < 1e-9, "axis from %s to %s" % (s._raw_x_data[0], s._raw_x_data[-1]))
''')
BUG("c50-centre-after", "C50", (E_, [('        sensing_dot_measurement.options["center"] = self.experiment.read_gate_voltages()[gate]\n\n        data = self.experiment.measure(sensing_dot_measurement)\n',
  '        data = self.experiment.measure(sensing_dot_measurement)\n        sensing_dot_measurement.options["center"] = self.experiment.read_gate_voltages()[gate]\n')]),
    "the sensing dot gate moved since the last scan", "the scan is made around the old voltage, the axis is drawn around the new one", X + '''
e = Scan(SDB2=0.); seen = []
def data(m):
    seen.append(m.options["center"])
    return np.tanh(np.linspace(-2, 2, m.options["N_points"]))
e.data = data
s = SensingDot1D(e, measurements=(Measurement("line_scan", center=0., range=5e-3, gate="SDB2", N_points=1280),))
s.evaluate(); e.at["SDB2"] = .2; s.evaluate()
check(seen == [0., .2], "scans around %s" % seen)
''')
