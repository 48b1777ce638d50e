B_, Q_, M_ = "qtune/basic_dqd.py", "qtune/sm_tune_qqd.py", "qtune/sm.py"
DI = '''
from support import *
stub_matlab()
import copy
from types import SimpleNamespace as N
import qtune.sm_tune_qqd as QM
from qtune.sm_tune_qqd import SMTuneQQD
from qtune.sm import LegacyDQDRefactored
from qtune.basic_dqd import TestExperiment, Simulator
CALLS = []
class View:
    def __init__(self, engine, name):
        self.name = name
    def __call__(self, *a):
        CALLS.append((self.name, a))
        return N(ana=N(STp_x=1, STp_y=2, Tp_x=3, Tp_y=4))
QM.mat2py = N(MATLABFunctionView=View)
class Q:
    def __getattr__(self, n):
        return lambda *a: CALLS.append((n, a)) or [1., 2.]
def qqd():
    return SMTuneQQD(N(engine=N(qtune=Q()), to_matlab=float))
def dqd():
    return LegacyDQDRefactored(N(engine=N(qtune=Q()), to_matlab=float))
'''
BUG("c45-by-name", "C45", (B_, [("        self._simulator_dict = simulator_dict\n", "        self._simulator_dict = simulator_dict\n        self._simulators = {m.name: simulator_dict.get(id(m)) for m in measurements}\n"),
                                ("        simulator = self.simulator_dict[id(measurement)]\n", "        simulator = self._simulators[measurement.name]\n")]),
    "two measurements with the same name and different options", "the first one is answered by the simulator of the second one", DI + '''
a, b = Measurement("scan", gate="A"), Measurement("scan", gate="B")
sims = {id(m): Simulator(lambda v, m, o: o["tag"], tag=m.options["gate"]) for m in (a, b)}
e = TestExperiment(S(A=0., B=0.), [a, b], sims)
check([e.measure(a), e.measure(b)] == ["A", "B"], "wrong simulator")
''')
BUG("c45-index-lost", "C45", (Q_, [("        options = dict(measurement.options)\n        index = options['index']\n", "        options = measurement.options\n        index = options['index']\n")]),
    "the same measurement conducted twice", "the second time it has no index any more", DI + '''
m = Measurement("line", index=2., range=3.)
e = qqd()
for _ in range(2):
    e.measure(m)
check(m.options == dict(index=2., range=3.), "options are %s" % m.options)
''')
BUG("c45-file-name-stays", "C45", (M_, [("            parameters = measurement.options.copy()\n            parameters['file_name'] = \"detune_scan_\"", "            parameters = measurement.options\n            parameters['file_name'] = \"detune_scan_\"")]),
    "a detune scan that is conducted and then saved or shared", "the measurement keeps the file name of one run as an option", DI + '''
m = Measurement("detune_scan", center=0., range=1., N_points=3, ramptime=1., N_average=2, AWGorDecaDAC="AWG")
before = copy.deepcopy(m.options)
dqd().measure(m)
check(m.options == before, "options are %s" % m.options)
''')
BUG("c45-zero-option", "C45", (Q_, [("            keys = list(options.keys())\n            vals = list(options.values())\n", "            keys = [key for key, value in options.items() if value]\n            vals = [value for value in options.values() if value]\n")]),
    "an option whose value is zero", "the option is not passed on and the default of the instrument is used", DI + '''
qqd().measure(Measurement("line", index=1, offset=0., range=2.))
check(list(CALLS[-1][1]) == ["line", 1., "offset", 0., "range", 2.], "conducted with %s" % (CALLS[-1][1],))
''')
BUG("c45-tl-of-stp", "C45", (Q_, [("            ret = np.array([result['data'].ana.STp_x, result['data'].ana.STp_y])\n        elif measurement.name == 'tl':\n            ret = np.array([result['data'].ana.Tp_x, result['data'].ana.Tp_y])",
                                  "            ret = np.array([result['data'].ana.STp_x, result['data'].ana.STp_y])\n        elif measurement.name == 'tl':\n            ret = np.array([result['data'].ana.Tp_x, result['data'].ana.STp_y])")]),
    "a triple point whose height differs from that of the ST+ crossing", "the height of another point is returned", DI + '''
check(list(qqd().measure(Measurement("tl", index=1))) == [3, 4], "position of another point")
''')
