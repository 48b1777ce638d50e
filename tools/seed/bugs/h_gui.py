G_ = "qtune/gui.py"

PRE = '''
import os
os.environ["QT_QPA_PLATFORM"] = "offscreen"
import sys, time, types, threading
import IPython
IPython.get_ipython = lambda: types.SimpleNamespace(magic=lambda *a: None, run_line_magic=lambda *a: None)
from support import *
import qtune.gui
from qtune.gui import GUI

class Quiet:
    def __getattr__(self, name):
        return lambda *a, **k: None

class Tuner:
    """finishes after the given number of iterations; hook(n) runs inside iteration n"""
    def __init__(self, hook=lambda n: None, last=10 ** 9):
        self.n, self.hook, self.last = 0, hook, last
    def is_tuning_complete(self):
        return self.n >= self.last
    def iterate(self):
        self.n += 1
        self.hook(self.n)

class Window:
    """the state of a window without its widgets; the methods are those of the real class"""
    def __init__(self, tuner, history=True):
        self.auto_tuner = self._auto_tuner = tuner
        self.rows = []
        self.history = self._history = types.SimpleNamespace(append_autotuner=lambda a: self.rows.append(a.n)) if history else None
        self.logger = Quiet()
        self._logger = "qtune"
        self._update_plots = types.SimpleNamespace(emit=lambda *a: None)
        self._start_btn = self._step_btn = self._stop_btn = Quiet()
        self._continuous = self._stepped = self._stop = False
        self.died = []
        self._thread = threading.Thread(target=self.run, daemon=True)
    def run(self):
        try:
            self._work()
        except BaseException as e:
            self.died.append(repr(e))
    def go(self):
        self._thread.start()
        return self
    def ended(self, seconds=1.5):
        self._thread.join(seconds)
        return not self._thread.is_alive()
for name in ("_work", "start", "step", "pause", "_join_worker", "restart_thread"):
    setattr(Window, name, vars(GUI)[name])
class Parent:
    def close(self):
        return True
def within(condition, seconds=1.5):
    end = time.time() + seconds
    while time.time() < end:
        if condition():
            return True
        time.sleep(0.01)
    return condition()
'''

BUG("c25-wait-ignores-stop", "C25", (G_, [("            while not (self._stop or self._continuous or self._stepped):", "            while not (self._continuous or self._stepped):")]),
    "the window is closed while the worker is idle", "the worker never ends, closing hangs", PRE + '''
w = Window(Tuner()).go()
time.sleep(0.2)
w._stop = True
check(w.ended(), "the worker is still alive after the request to stop")
''')

BUG("c25-lost-row", "C25", (G_, [("                            if self.history:\n                                self.history.append_autotuner(self._auto_tuner)\n\n                            self._update_plots.emit()",
     "                            if self.history and (self._continuous or self._stepped):\n                                self.history.append_autotuner(self._auto_tuner)\n\n                            self._update_plots.emit()")]),
    "Pause is pressed while an iteration is running", "the iteration is missing in the history", PRE + '''
inside, leave = threading.Event(), threading.Event()
def hook(n):
    if n == 2:
        inside.set()
        leave.wait(2)
w = Window(Tuner(hook))
w._continuous = True
w.go()
check(inside.wait(2), "no second iteration")
w.pause()
leave.set()
within(lambda: len(w.rows) > 1, 0.5)
w._stop = True
check(w.ended(), "does not end")
check(w.rows[:2] == [1, 2], "rows in the history %s after %d iterations" % (w.rows, w.auto_tuner.n))
''')

BUG("c25-narrow-except", "C25", (G_, [("                    except Exception:\n                        self.logger.exception('Error during auto tuner iteration: Pausing...')", "                    except (RuntimeError, ValueError, OSError):\n                        self.logger.exception('Error during auto tuner iteration: Pausing...')")]),
    "an iteration failing with another kind of error", "the worker dies instead of pausing", PRE + '''
for error in (RuntimeError("x"), KeyError("SB"), AssertionError("y"), TypeError("z"), ZeroDivisionError()):
    def hook(n):
        raise error
    w = Window(Tuner(hook))
    w._continuous = True
    w.go()
    check(within(lambda: not w._continuous), "continues after %r" % error)
    check(w._thread.is_alive() and not w.died, "%r ended the worker" % error)
    w._stop = True
    check(w.ended(), "does not end")
    check(w.auto_tuner.n == 1 and w.rows == [], "repeated %d times" % w.auto_tuner.n)
''')

BUG("c25-step-survives-pause", "C25", (G_, [("        self._continuous = False\n        self._stepped = False\n        self._start_btn.setEnabled(True)", "        if self._continuous:\n            self._continuous = False\n        else:\n            self._stepped = False\n        self._start_btn.setEnabled(True)")]),
    "Step is pressed while the worker runs continuously and Pause follows before the iteration ends", "the worker does another iteration after Pause", PRE + '''
w = Window(Tuner())
w._thread = types.SimpleNamespace(is_alive=lambda: True)
w.start()
w.step()
w.pause()
check(not w._continuous and not w._stepped, "continuous %s stepped %s after pause" % (w._continuous, w._stepped))
''')

BUG("c25-complete-step-repeats", "C25", (G_, [("                self._stepped = False\n\n    def log(", "                    self._stepped = False\n\n    def log("), ]),
    "a step is requested", "the step is repeated until somebody presses Pause", PRE + '''
w = Window(Tuner(lambda n: time.sleep(0.05)))
w._stepped = True
w.go()
time.sleep(0.6)
w._stop = True
check(w.ended(), "does not end")
check(w.auto_tuner.n == 1, "%d iterations for one step" % w.auto_tuner.n)
''')
