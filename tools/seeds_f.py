import os
import runpy
HEAD = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_a.py'))['HEAD']
C = 'sympl/_core/'
K = 'sympl/_components/'
WR = C + 'wrappers.py'
TS = K + 'timesteppers.py'
SEEDS = {
 'due_closure': dict(
  property='C33', needs='a deep copy of an update frequency wrapper, made after a call, called at other times than the original',
  breaks='copies of the wrapper share the schedule of the original',
  edits=[(WR, '''        self._cached_output = None
        self._last_update_time = None
''', '''        self._cached_output = None
        self._last_update_time = None
        self._is_due = lambda time: (
            self._last_update_time is None or
            time >= self._last_update_time + self._update_timedelta)
'''), (WR, '''        if ((self._last_update_time is None) or
                (state['time'] >= self._last_update_time +
                 self._update_timedelta)):
''', '''        if self._is_due(state['time']):
''')],
  demo=HEAD + '''
import copy
class P(TendencyComponent):
    input_properties = {'q': {'dims': ['x'], 'units': 'm'}}
    tendency_properties = {'q': {'units': 'm s^-1'}}
    diagnostic_properties = {}
    def array_call(self, s):
        return {'q': s['q'] * 1.}, {}
w = UpdateFrequencyWrapper(P(), timedelta(hours=1))
def run(w, hour, value):
    return w({'time': T + hour * timedelta(hours=1), 'q': da([value], ['x'], 'm')})[0]['q'].values[0]
assert run(w, 0, 1.) == 1.
w2 = copy.deepcopy(w)
assert run(w2, 1, 2.) == 2.
assert run(w2, 1, 3.) == 2., 'the copy goes by the schedule of the original'
assert run(w, 2, 4.) == 4.
'''),
 'history_elsewhere': dict(
  property='C33', needs='a copy of an Adams-Bashforth stepper in the middle of a run',
  breaks='the kept tendencies are not part of a copy, which restarts with the first order scheme',
  edits=[(TS, 'from copy import deepcopy\n', 'from copy import deepcopy\nfrom weakref import WeakKeyDictionary\n'),
         (TS, '''class AdamsBashforth(TendencyStepper):
''', '''_kept_tendencies = WeakKeyDictionary()


class AdamsBashforth(TendencyStepper):
'''), (TS, '''        self._tendencies_list = []
''', '''        _kept_tendencies[self] = []
'''), (TS, '''    def _perform_step(self, state, timestep):
''', '''    @property
    def _tendencies_list(self):
        return _kept_tendencies.setdefault(self, [])

    def _perform_step(self, state, timestep):
''')],
  demo=HEAD + '''
import copy
class P(TendencyComponent):
    input_properties = {'q': {'dims': ['x'], 'units': 'm'}}
    tendency_properties = {'q': {'units': 'm s^-1'}}
    diagnostic_properties = {}
    def array_call(self, s):
        return {'q': s['q'] * 1.}, {}
a = AdamsBashforth(P(), order=2)
dt = timedelta(seconds=1)
_, new = a({'time': T, 'q': da([1.], ['x'], 'm')}, dt)
b = copy.deepcopy(a)
for s in (b, a):
    _, third = s(dict(new, q=new['q'].copy()), dt)
    assert abs(third['q'].values[0] - (2. + 1.5 * 2. - .5 * 1.)) < 1e-12, (s is a, third)
'''),
 'failed_first_leapfrog': dict(
  property='C11', needs='a component that fails in the very first step, retried with another timestep',
  breaks='the timestep of a failed first step is kept, and another one refused',
  edits=[(TS, '''        tendencies, diagnostics = self.prognostic(state, timestep)
        convert_tendencies_units_for_state(tendencies, state)
        self._timestep = timestep
        if self._old_state is None:''', '''        self._timestep = timestep
        tendencies, diagnostics = self.prognostic(state, timestep)
        convert_tendencies_units_for_state(tendencies, state)
        if self._old_state is None:''')],
  demo=HEAD + '''
fails = [True]
def f(s):
    if fails.pop():
        raise RuntimeError('no')
    return {'q': s['q'] * 1.}, {}
P = comp(TendencyComponent, {'q': {'dims': ['x'], 'units': 'm'}}, {'q': {'units': 'm s^-1'}}, {}, f)
L = Leapfrog(P())
state = {'time': T, 'q': da([1.], ['x'], 'm')}
try:
    L(state, timedelta(seconds=10))
except RuntimeError:
    pass
fails.append(False)
_, new = L(state, timedelta(seconds=5))
assert new['q'].values[0] == 6., new
'''),
 'stage_attrs': dict(
  property='C13', needs='a stepped quantity with attributes besides units, and SSPRungeKutta',
  breaks='new values of Runge-Kutta steps lose other attributes than units',
  edits=[(C + 'state.py', "                out_state[key].attrs = state[key].attrs", "                out_state[key].attrs['units'] = state[key].attrs['units']")],
  demo=HEAD + '''
P = comp(TendencyComponent, {'q': {'dims': ['x'], 'units': 'm'}}, {'q': {'units': 'm s^-1'}}, {}, lambda s: ({'q': s['q'] * 1.}, {}))
s = SSPRungeKutta(P(), stages=3)
q = da([1.], ['x'], 'm')
q.attrs['long_name'] = 'length'
a = AdamsBashforth(P(), order=1)
_, expected = a({'time': T, 'q': q.copy()}, timedelta(seconds=1))
assert expected['q'].attrs['long_name'] == 'length'
_, new = s({'time': T, 'q': q}, timedelta(seconds=1))
assert new['q'].attrs.get('long_name') == 'length', new
'''),
 'names_for_length': dict(
  property='C18', needs='tracers reset between calls and as many others registered',
  breaks='the names of the tracers are only collected anew when their number changes',
  edits=[(C + 'tracers.py', "        return_list = []\n        for name, units in self._prepend_tracers:\n            return_list.append(name)\n        for name in _tracer_names:\n            if name not in return_list:\n                return_list.append(name)\n        return tuple(return_list)", "        if getattr(self, '_names_for', None) != len(_tracer_names):\n            return_list = []\n            for name, units in self._prepend_tracers:\n                return_list.append(name)\n            for name in _tracer_names:\n                if name not in return_list:\n                    return_list.append(name)\n            self._names, self._names_for = tuple(return_list), len(_tracer_names)\n        return self._names")],
  demo=HEAD + '''
from sympl._core.tracers import reset_tracers
reset_tracers()
seen = []
def f(s):
    seen.append(s['tracers'].copy())
    return {'tracers': s['tracers'] * 0.}, {}
C = comp(TendencyComponent, {}, {}, {}, f)
C.uses_tracers, C.tracer_dims = True, ['tracer', 'x']
c = C()
state = {'time': T, 'a': da([1.], ['x'], 'm'), 'b': da([2.], ['x'], 'm')}
register_tracer('a', 'm')
assert list(c(state)[0]) == ['a']
reset_tracers()
register_tracer('b', 'm')
got = list(c(state)[0])
reset_tracers()
assert got == ['b'], got
assert seen[1].tolist() == [[2.]], seen
'''),
 'clash_of_one': dict(
  property='C14', needs='tendencies in diagnostics of a stepper with several stepped quantities, one of whose tendency names is that of a diagnostic',
  breaks='a clash of names of a diagnostic and a tendency is only refused for one stepped quantity',
  edits=[(C + 'tendencystepper.py', "            if tendency_name in diagnostics.keys():\n                raise RuntimeError(", "            if tendency_name in diagnostics.keys() and len(output_properties) == 1:\n                raise RuntimeError(")],
  demo=HEAD + '''
P = comp(TendencyComponent, {'q': {'dims': ['x'], 'units': 'm'}, 'r': {'dims': ['x'], 'units': 'm'}}, {'q': {'units': 'm s^-1'}, 'r': {'units': 'm s^-1'}},
         {'q_tendency_from_S': {'dims': ['x'], 'units': 'K'}}, lambda s: ({'q': s['q'] * 1., 'r': s['r'] * 1.}, {'q_tendency_from_S': s['q'] + 10.}))
state = {'time': T, 'q': da([1.], ['x'], 'm'), 'r': da([1.], ['x'], 'm')}
try:
    s = AdamsBashforth(P(), order=1, name='S', tendencies_in_diagnostics=True)
    diag, new = s(state, timedelta(seconds=1))
except Exception:
    pass
else:
    raise AssertionError(('clash accepted', diag['q_tendency_from_S']))
'''),
}
