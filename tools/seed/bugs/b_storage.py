P_, A_ = "qtune/storage.py", "qtune/autotuner.py"

BUG("c08-list-key-order", "C08", (P_, [("""            for idx in range(len(hdf5_obj.keys())):
                result.append(_from_hdf5(root, hdf5_obj[str(idx)], deserialized))
            return result

        elif""", """            for entry in hdf5_obj.values():
                result.append(_from_hdf5(root, entry, deserialized))
            return result

        elif""")]),
    "a list with more than ten entries", "the file lists its entries in text order, so entry 10 comes back before entry 2",
    '''
from support import *
from qtune.storage import to_hdf5, from_hdf5
d = os.environ["DEMO_SCRATCH"]
f = os.path.join(d, "a.hdf5")
to_hdf5(f, "data", [float(i) for i in range(12)])
got = [float(x) for x in from_hdf5(f, {})["data"]]
check(got == list(range(12)), "order %s" % got)
''')

BUG("c08-shared-series", "C08", (P_, [("""                data = hdf5_obj.asstr()[...] if is_str else np.asarray(hdf5_obj)
                result = pd.Series(data=data, index=idx)
                deserialized[hdf5_obj.id] = result
                return result
""", """                data = hdf5_obj.asstr()[...] if is_str else np.asarray(hdf5_obj)
                return pd.Series(data=data, index=idx)
""")]),
    "a series that two objects share", "both come back with their own series",
    '''
from support import *
from qtune.storage import to_hdf5, from_hdf5
f = os.path.join(os.environ["DEMO_SCRATCH"], "a.hdf5")
s = S(A=1)
to_hdf5(f, "data", {"x": s, "y": {"z": s}})
got = from_hdf5(f, {})["data"]
check(got["x"] is got["y"]["z"], "not one object")
''')

BUG("c08-unsupported-dropped", "C08", (P_, [("""    raise RuntimeError()


def to_hdf5""", """    logging.getLogger('qtune').error('Cannot store %s', name)


def to_hdf5""")]),
    "an object of a kind that cannot be stored somewhere in the tree", "the object is left out of the file without an error",
    '''
from support import *
from qtune.storage import to_hdf5, from_hdf5
f = os.path.join(os.environ["DEMO_SCRATCH"], "a.hdf5")
try:
    to_hdf5(f, "data", {"x": 1., "y": {1, 2}})
except Exception:
    pass
else:
    check(False, "a set was dropped silently")
''')

BUG("c08-tuple-memo-early", "C08", (P_, [("""            result = tuple(result)
            deserialized[hdf5_obj.id] = result
            return result
""", """            deserialized[hdf5_obj.id] = result
            return tuple(result)
""")]),
    "a tuple that occurs twice", "the second occurrence comes back as a list",
    '''
from support import *
from qtune.storage import to_hdf5, from_hdf5
f = os.path.join(os.environ["DEMO_SCRATCH"], "a.hdf5")
t = (1., 2.)
to_hdf5(f, "data", [t, t])
a, b = from_hdf5(f, {})["data"]
check(type(a) is tuple and type(b) is tuple and a is b, "%r %r" % (a, b))
''')

BUG("c08-none-in-memo-by-equality", "C08", (P_, [("""            if hdf5_obj.attrs['#type'] == 'NoneType':
                return None

        result = np.asarray(hdf5_obj)""", """            if hdf5_obj.attrs['#type'] == 'NoneType':
                return None if hdf5_obj.shape == () else list()

        result = np.asarray(hdf5_obj)""")]),
    "None is stored as an empty data set, whose shape is None rather than ()", "None comes back as an empty list",
    '''
from support import *
from qtune.storage import to_hdf5, from_hdf5
f = os.path.join(os.environ["DEMO_SCRATCH"], "a.hdf5")
to_hdf5(f, "data", [None, 1.])
check(from_hdf5(f, {})["data"][0] is None, "None was not restored")
''')

BUG("c08-frame-label-order", "C08", (P_, [("                result = pd.DataFrame(data=np.asarray(hdf5_obj), index=idx, columns=col)\n",
                                          "                result = pd.DataFrame(data=np.asarray(hdf5_obj), index=sorted(idx), columns=col)\n")]),
    "a table whose rows are not sorted by name", "values are filed under other rows' names",
    '''
from support import *
from qtune.storage import to_hdf5, from_hdf5
f = os.path.join(os.environ["DEMO_SCRATCH"], "a.hdf5")
df = pd.DataFrame([[1., 2.], [3., 4.]], index=["b", "a"], columns=["x", "y"])
to_hdf5(f, "data", {"d": df})
got = from_hdf5(f, {})["data"]["d"]
check(got.loc["b", "x"] == 1., "value of b is %s" % got.loc["b", "x"])
''')

BUG("c09-load-missing-reserved", "C09", (P_, [("            deserialized[value.id] = reserved[key]\n", "            deserialized[value.id] = next(iter(reserved.values()))\n")]),
    "more than one reserved object", "every placeholder becomes the first supplied object",
    '''
from support import *
from qtune.storage import to_hdf5, from_hdf5
f = os.path.join(os.environ["DEMO_SCRATCH"], "a.hdf5")
a, b = Exp(S(A=1)), Exp(S(B=1))
to_hdf5(f, "data", {"x": a, "y": b}, reserved={"one": a, "two": b})
got = from_hdf5(f, {"one": "ONE", "two": "TWO"})["data"]
check(got["x"] == "ONE" and got["y"] == "TWO", str(got))
''')

BUG("c09-snapshot-two-copies", "C09", (P_, [("        obj, reserved = copy.deepcopy((obj, self.reserved))\n", "        obj, reserved = copy.deepcopy(obj), dict(self.reserved)\n")]),
    "a save through the asynchronous writer", "the copied experiment is not recognised as reserved and its stand-in is written to the file",
    '''
from support import *
from qtune.storage import from_hdf5, AsynchronousHDF5Writer
import glob
d = os.environ["DEMO_SCRATCH"]
f = os.path.join(d, "a.hdf5")
e = Exp(S(A=0))
t = newton_tuner("A", "p", lambda: None)
w = AsynchronousHDF5Writer({"experiment": e}, multiprocess=False)
w.write({"e": e}, f, "data")
w.join()
got = from_hdf5(f, {"experiment": e})["data"]
check(got["e"] is e, "the experiment came back as %r" % (got["e"],))
''')

BUG("c06-snapshot-late", "C06", (P_, [("        obj, reserved = copy.deepcopy((obj, self.reserved))\n\n        self._queue.put((name, file_name, obj, reserved))",
                                      "        self._queue.put((name, file_name, obj, self.reserved))"),
                                     ("                to_hdf5(file_name, name, obj, reserved=reserved)\n", "                obj, reserved = copy.deepcopy((obj, reserved))\n                to_hdf5(file_name, name, obj, reserved=reserved)\n")]),
    "the object changes between the write request and the moment the worker gets to it", "the file contains a later state than the one handed over",
    '''
from support import *
from qtune import storage
import threading
f = os.path.join(os.environ["DEMO_SCRATCH"], "a.hdf5")
w = storage.AsynchronousHDF5Writer({}, multiprocess=False)
go = threading.Event()
real = w._queue.get
def slow(*a, **k):
    item = real(*a, **k)
    go.wait(20)
    return item
w.join()
w._queue = w.QueueType()
real = w._queue.get
w._queue.get = slow
w._worker = w.WorkerType(target=storage._writer_target, args=(w._queue,))
w._worker.start()
o = {"x": 1.}
w.write(o, f, "data")
o["x"] = 2.
go.set()
w.join()
check(float(storage.from_hdf5(f, {})["data"]["x"]) == 1., "a later state was written")
''')

BUG("c06-marker-if-idle", "C06", (P_, [("        if self._worker.is_alive():\n            self._queue.put(None)\n", "        if self._worker.is_alive() and not self._queue.qsize():\n            self._queue.put(None)\n")]),
    "join is called while write requests are still queued", "the worker is never told to stop and join hangs",
    '''
from support import *
from qtune import storage
import threading
d = os.environ["DEMO_SCRATCH"]
w = storage.AsynchronousHDF5Writer({}, multiprocess=False)
w.join()
w._queue = w.QueueType()
go = threading.Event()
real = w._queue.get
def slow(*a, **k):
    go.wait(20)
    return real(*a, **k)
w._queue.get = slow
w._worker = threading.Thread(target=storage._writer_target, args=(w._queue,), daemon=True)
w._worker.start()
for n in range(3):
    w.write({"x": 1.}, os.path.join(d, "%s.hdf5" % n), "data")
t = threading.Thread(target=w.join, daemon=True)
t.start()
import time
time.sleep(.2)
go.set()
t.join(10)
ok = not t.is_alive()
w._queue.put(None)
check(ok, "join hangs")
''')

BUG("c06-done-only-on-success", "C06", (P_, [("""                raise
        finally:
            write_queue.task_done()
""", """                raise
            write_queue.task_done()
        finally:
            logging.getLogger(logger).debug('Storage task finished')
""")]),
    "writing a task raises", "the failed task is never reported as done, so waiting for the queue hangs",
    '''
from support import *
from qtune import storage
import queue, threading
threading.excepthook = lambda a: None
q = queue.Queue()
q.put(("data", os.path.join(os.environ["DEMO_SCRATCH"], "a.hdf5"), {"x": object()}, {}))
q.put(None)
try:
    storage._writer_target(q)
except Exception:
    pass
check(q.unfinished_tasks < 2, "the failed task was not reported as done")
''')
