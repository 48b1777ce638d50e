S_ = "qtune/solver.py"
FW = '''
from support import *
from qtune.solver import ForwardingSolver, make_target
def make(mapping=dict(x="a", y="b"), gates="bac", factor=1., **kw):
    t = make_target(desired=pd.Series({k: 1. for k in "xyz"}), tolerance=pd.Series({k: 1. for k in "xyz"}), rescaling_factor=factor)
    return ForwardingSolver(t, pd.Series(mapping), S(**{g: 0. for g in gates}), **kw)
def step(s, position, **values):
    v = pd.Series(values)
    s.update_after_step(pd.Series(position), v, v * 0)
    return s.suggest_next_position([])
'''
BUG("c46-order", "C46", (S_, [("        self._next_position[position.index.intersection(self._next_position.index)] = \\", "        self._next_position[self._next_position.index.intersection(position.index)] = \\")]),
    "the evaluated position names the gates in another order than the solver", "gates without a value get each other's voltage", FW + '''
n = step(make(), dict(a=1., b=2., c=3.), x=10.)
check(n["a"] == 10. and n["b"] == 2. and n["c"] == 3., "next position is %s" % dict(n))
''')
BUG("c46-shared-start", "C46", (S_, [("            next_position = self._current_position.copy()", "            next_position = self._current_position")]),
    "no next position at construction, then an update", "the current position takes the planned voltages", FW + '''
s = make()
step(s, dict(a=1., b=2., c=3.), x=10., y=11.)
check(list(s.current_position[["a", "b", "c"]]) == [1., 2., 3.], "current position is %s" % dict(s.current_position))
''')
BUG("c46-unmapped-kept", "C46", (S_, [("            values.index.intersection(self._values_to_position.index)].dropna()\n        self._next_position[new_position_names] = values[new_position_names.index]",
                                  "            values.index.intersection(self._values_to_position.index)]\n        self._next_position[new_position_names.dropna()] = values[new_position_names.index].values[:len(new_position_names.dropna())]")]),
    "a value that is mapped to no gate stands before one that is", "the value of the wrong parameter is forwarded", FW + '''
n = step(make(dict(x=np.nan, y="b")), dict(a=1., b=2., c=3.), x=10., y=11.)
check(n["b"] == 11., "next position is %s" % dict(n))
''')
BUG("c46-evaluated-lost", "C46", (S_, [("        self._next_position[position.index.intersection(self._next_position.index)] = \\\n            position[position.index.intersection(self.current_position.index)]\n",
                                   "        if len(position) == len(self._next_position):\n            self._next_position[position.index.intersection(self._next_position.index)] = \\\n                position[position.index.intersection(self.current_position.index)]\n")]),
    "the evaluated position has gates that the solver does not own", "the gate is set back to an old voltage", FW + '''
s = make()
step(s, dict(a=1., b=2., c=3.), x=10.)
n = step(s, dict(a=10., b=5., c=6., d=7.), x=9.)
check(n["b"] == 5. and n["c"] == 6., "next position is %s" % dict(n))
''')
BUG("c46-next-order", "C46", (S_, [("            next_position = next_position[self._current_position.index]\n", "            next_position = pd.Series(index=self._current_position.index, data=next_position.values[:len(self._current_position)])\n")]),
    "a next position with its gates in another order is given at construction", "the gates get each other's voltage", FW + '''
s = make(next_position=S(a=1., b=2., c=3.))
n = s.suggest_next_position([])
check(n["a"] == 1. and n["b"] == 2. and n["c"] == 3., "next position is %s" % dict(n))
''')
