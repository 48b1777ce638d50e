"""Stand-ins for an experiment and evaluators; nothing outside the process is touched."""
import logging, os, sys, types, tempfile, warnings
warnings.simplefilter("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")
logging.getLogger("qtune").setLevel(logging.CRITICAL)
logging.getLogger("qtune").addHandler(logging.NullHandler())
import numpy as np
import pandas as pd


def stub_matlab():
    m, e = types.ModuleType("matlab"), types.ModuleType("matlab.engine")
    m.engine = e
    class MatlabExecutionError(Exception):
        pass
    class MatlabEngine:
        pass
    e.MatlabExecutionError, e.MatlabEngine = MatlabExecutionError, MatlabEngine
    m.double = list
    sys.modules["matlab"], sys.modules["matlab.engine"] = m, e


from qtune.experiment import Experiment, Measurement
from qtune.evaluator import Evaluator
from qtune.parameter_tuner import SubsetTuner, SensingDotTuner, ParameterTuner
from qtune.solver import NewtonSolver, ForwardingSolver, NelderMeadSolver, make_target
from qtune.gradient import FiniteDifferencesGradientEstimator, KalmanGradientEstimator
from qtune.kalman_gradient import KalmanGradient
from qtune.autotuner import Autotuner


class Exp(Experiment):
    def __init__(self, volts):
        self.volts = volts.copy()
        self.sets = []
        self.measure_hook = None

    def read_gate_voltages(self):
        return self.volts.copy().sort_index()

    def set_gate_voltages(self, new):
        self.sets.append(new.copy())
        self.volts[new.index] = new
        return self.volts

    def measure(self, measurement):
        return self.measure_hook(measurement)


class Eva(Evaluator):
    """returns what the function gives: (values, variances)"""
    def __init__(self, func, parameters, name="Eva", experiment=None, measurements=(), raw_x_data=None, raw_y_data=None):
        self.func = func
        self.count = 0
        super().__init__(experiment, measurements, parameters, raw_x_data, raw_y_data, name)

    def evaluate(self):
        self.count += 1
        v, s = self.func()
        return v.copy(), s.copy()

    def to_hdf5(self):
        return dict(func=None, parameters=self.parameters, name=self.name)


def S(**kw):
    return pd.Series({k: float(v) for k, v in kw.items()})


def kalman(gates, grad=None, **kw):
    n = len(gates)
    kg = KalmanGradient(n_pos_dim=n, n_values=1, initial_gradient=np.ones((1, n)) if grad is None else np.array([grad], dtype=float),
                        initial_covariance_matrix=np.eye(n))
    args = dict(current_position=pd.Series(0., index=list(gates)), maximum_covariance=np.inf, epsilon=.1)
    args.update(kw)
    return KalmanGradientEstimator(kg, **args)


def newton_tuner(gates, params, func, desired=None, tolerance=None, rescaling=None, **kw):
    """a SubsetTuner with a NewtonSolver and Kalman estimators"""
    params = list(params)
    desired = pd.Series(0., index=params) if desired is None else desired
    tolerance = pd.Series(.1, index=params) if tolerance is None else tolerance
    target = make_target(desired=desired, tolerance=tolerance, **({} if rescaling is None else {"rescaling_factor": rescaling}))
    est = [kalman(gates, [1. if i == j else 0. for j in range(len(gates))]) for i in range(len(params))]
    solver = NewtonSolver(target, est, pd.Series(0., index=list(gates)))
    return SubsetTuner([Eva(func, params)], list(gates), solver=solver,
                       last_voltage=kw.pop("last_voltage", pd.Series(0., index=list(gates))), **kw)


def check(cond, text):
    if not cond:
        print("FAILED:", text)
        sys.exit(1)
