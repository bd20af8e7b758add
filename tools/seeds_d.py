import os
import runpy
HEAD = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_a.py'))['HEAD']
C = 'sympl/_core/'
K = 'sympl/_components/'
BC = C + 'base_components.py'
SEEDS = {
 'difference_in_place': dict(
  property='C06', needs='a time-differenced stepper whose output is an array it was given or keeps',
  breaks='the old state is subtracted in place from what the stepper returned, which may be a view of the state',
  edits=[(K + 'basic.py', '''                    tendency = (
                        data_array - state[varname].to_units(data_array.attrs["units"])
                    ) / timestep_seconds
''', '''                    old_data_array = state[varname].to_units(data_array.attrs["units"])
                    if data_array.dims == old_data_array.dims and data_array.values.flags.writeable:
                        data_array -= old_data_array
                    else:
                        data_array = data_array - old_data_array
                    tendency = data_array / timestep_seconds
''')],
  demo=HEAD + '''
p = {'q': {'dims': ['x'], 'units': 'm'}}
S = comp(Stepper, p, {'q': {'units': 'm'}}, {}, lambda s, dt: ({}, {'q': s['q']}))
state = {'time': T, 'q': da([1., 2.], ['x'], 'm')}
TimeDifferencingWrapper(S())(state, timedelta(seconds=1))
assert state['q'].values.tolist() == [1., 2.], state['q']
'''),
 'recomputed_not_carried': dict(
  property='C13', needs='a state with a quantity of the name of a diagnostic, with a Runge-Kutta stepper',
  breaks='quantities of the state that components also give as a diagnostic are missing in the new state',
  edits=[(C + 'tendencystepper.py', '''        copy_untouched_quantities(state, new_state)
''', '''        copy_untouched_quantities(
            {name: value for name, value in state.items()
             if name not in diagnostics}, new_state)
''')],
  demo=HEAD + '''
P = comp(TendencyComponent, {'q': {'dims': ['x'], 'units': 'm'}}, {'q': {'units': 'm s^-1'}},
         {'d': {'dims': ['x'], 'units': 'm'}}, lambda s: ({'q': s['q'] * 0.}, {'d': s['q'] * 1.}))
state = {'time': T, 'q': da([1., 2.], ['x'], 'm'), 'd': da([3., 3.], ['x'], 'm')}
_, new = SSPRungeKutta(P())(state, timedelta(seconds=1))
assert new['d'].values.tolist() == [3., 3.]
assert new['q'].values.tolist() == [1., 2.]
'''),
 'prepended_unchecked': dict(
  property='C19', needs='a tracer that is registered and also prepended by the component, which has it as an output',
  breaks='a prepended tracer that is registered already is never checked against the outputs of the component',
  edits=[(C + 'tracers.py', '''        for name, units in _tracer_unit_dict.items():
            self.ensure_tracer_not_in_outputs(name, units)
''', '''        for name, units in _tracer_unit_dict.items():
            if name not in dict(self._prepend_tracers):
                self.ensure_tracer_not_in_outputs(name, units)
''')],
  demo=HEAD + '''
from sympl._core.tracers import TracerPacker, reset_tracers
reset_tracers()
register_tracer('q', 'm')
C = comp(TendencyComponent, {'q': {'dims': ['x'], 'units': 'm'}}, {'q': {'units': 'm s^-1'}}, {}, lambda s: ({}, {}))
for prepend in ((), [('q', 'm')], [('p', 'm'), ('q', 'm')]):
    try:
        TracerPacker(C(), ['tracer', 'x'], prepend)
    except InvalidPropertyDictError:
        pass
    else:
        raise AssertionError(prepend)
reset_tracers()
'''),
 'empty_attributes': dict(
  property='C23', needs='a quantity with an attribute that is empty, such as the units of a dimensionless one',
  breaks='attributes that are empty (units of dimensionless quantities) are not stored',
  edits=[(K + 'netcdf.py', '''        for key, value in data.attrs.items():
            dataset.variables[name].setncattr(key, value)
''', '''        for key, value in data.attrs.items():
            if np.size(value) > 0 and not np.all(np.asarray(value) == ''):
                dataset.variables[name].setncattr(key, value)
''')],
  demo=HEAD + '''
import tempfile, shutil
top = tempfile.mkdtemp()
m = RestartMonitor(top + '/a.nc')
m.store({'time': T, 'q': da([1., 2.], ['x'], ''), 'p': da([1., 2.], ['x'], 'm')})
got = RestartMonitor(top + '/a.nc').load()
shutil.rmtree(top)
assert got['q'].attrs.get('units') == '' and got['p'].attrs.get('units') == 'm', got
'''),
 'catches_up': dict(
  property='C17', needs='a call that comes later than one update interval after it was due, and a further call soon after',
  breaks='the time of the last update is advanced by the interval, so calls after a gap update too often',
  edits=[(C + 'wrappers.py', '''            self._last_update_time = state['time']
''', '''            if self._last_update_time is None or not self._update_timedelta:
                self._last_update_time = state['time']
            else:
                self._last_update_time += self._update_timedelta
''')],
  demo=HEAD + '''
n = []
def f(s):
    n.append(1)
    return {}
D = UpdateFrequencyWrapper(comp(DiagnosticComponent, {}, None, {}, f)(), timedelta(seconds=10))
for s in (0, 5, 10, 15, 35, 36, 37, 45):
    D({'time': T + timedelta(seconds=s)})
assert len(n) == 4, n
'''),
 'outputs_checked_once': dict(
  property='C04', needs='a stepper which omits an output at a later call only',
  breaks='missing outputs of a stepper are only looked for until a call has given all of them',
  edits=[(BC, '''    def check_outputs(self, output_dict):
        self._check_missing_outputs(output_dict)
        self._check_extra_outputs(output_dict)
''', '''    def check_outputs(self, output_dict):
        if not getattr(self, '_complete', False):
            self._check_missing_outputs(output_dict)
        self._check_extra_outputs(output_dict)
        self._complete = True
'''), (C + 'restore_dataarray.py', '''    for name in raw_arrays.keys():
''', '''    for name in raw_arrays.keys():
''')],
  demo=HEAD + '''
out = {'q': np.zeros(2)}
S = comp(Stepper, {'q': {'dims': ['x'], 'units': 'm'}}, {'q': {'units': 'm'}}, {}, lambda s, dt: ({}, dict(out)))()
state = {'time': T, 'q': da([1., 2.], ['x'], 'm')}
S(state, timedelta(1))
out.clear()
try:
    S(state, timedelta(1))
except ComponentMissingOutputError:
    pass
else:
    raise AssertionError('accepted')
'''),
 'same_state_reused': dict(
  property='C01', needs='the same state dictionary at two calls, with a quantity replaced in between at the same time',
  breaks='a diagnostic component called again with the same state and time gets the arrays of the earlier call',
  edits=[(BC, '''        raw_state = get_numpy_arrays_with_properties(state, self.input_properties)
        raw_state['time'] = state['time']
        raw_diagnostics = self.array_call(raw_state)
''', '''        last_state, last_raw_state = getattr(self, '_last_states', (None, None))
        if last_state is state and last_raw_state['time'] == state['time']:
            raw_state = dict(last_raw_state)
        else:
            raw_state = get_numpy_arrays_with_properties(state, self.input_properties)
            raw_state['time'] = state['time']
            self._last_states = (state, dict(raw_state))
        raw_diagnostics = self.array_call(raw_state)
''')],
  demo=HEAD + '''
seen = []
def f(s):
    seen.append(s['q'].tolist())
    return {}
D = comp(DiagnosticComponent, {'q': {'dims': ['x'], 'units': 'm'}}, None, {}, f)()
state = {'time': T, 'q': da([1., 2.], ['x'], 'm')}
D(state)
state['q'] = da([3., 4.], ['x'], 'm')
D(state)
assert seen == [[1., 2.], [3., 4.]], seen
'''),
 'tracers_of_first_call': dict(
  property='C18', needs='a tracer registered after the component was called',
  breaks='a component only ever gets the tracers that were registered when it was first called',
  edits=[(C + 'tracers.py', '''        return_list = []
        for name, units in self._prepend_tracers:
            return_list.append(name)
        for name in _tracer_names:
            if name not in return_list:
                return_list.append(name)
        return tuple(return_list)
''', '''        if len(getattr(self, '_ordered_names', ())) == 0:
            return_list = []
            for name, units in self._prepend_tracers:
                return_list.append(name)
            for name in _tracer_names:
                if name not in return_list:
                    return_list.append(name)
            self._ordered_names = tuple(return_list)
        return self._ordered_names
''')],
  demo=HEAD + '''
from sympl._core.tracers import reset_tracers
reset_tracers()
seen = []
def f(s):
    seen.append(s['tracers'].shape)
    return {'tracers': s['tracers'] * 0.}, {}
C = comp(TendencyComponent, {}, {}, {}, f)
C.uses_tracers, C.tracer_dims = True, ['tracer', 'x']
register_tracer('a', 'm')
c = C()
state = {'time': T, 'a': da([1., 2.], ['x'], 'm'), 'b': da([3., 4.], ['x'], 'm')}
c(state)
register_tracer('b', 'm')
out, _ = c(state)
reset_tracers()
assert seen == [(1, 2), (2, 2)], seen
assert set(out) == {'a', 'b'}, out
'''),
 'aliases_checked_once': dict(
  property='C05', needs='a second instance of a class, with the same inputs but an alias given twice',
  breaks='the aliases of an instance are not checked if one of its class with the same inputs was accepted before',
  edits=[(BC, '''        check_overlapping_aliases(self.component.input_properties, 'input')
        super(InputChecker, self).__init__()
''', '''        names = set(self.component.input_properties.keys())
        if component.__class__.__dict__.get('_checked_inputs') != names:
            check_overlapping_aliases(self.component.input_properties, 'input')
        try:
            component.__class__._checked_inputs = names
        except TypeError:
            pass
        super(InputChecker, self).__init__()
''')],
  demo=HEAD + '''
class D(DiagnosticComponent):
    input_properties = None
    diagnostic_properties = {}
    def __init__(self, props):
        self.input_properties = props
        DiagnosticComponent.__init__(self)
    def array_call(self, s):
        return {}
a, b = {'dims': ['x'], 'units': 'm'}, {'dims': ['x'], 'units': 'm', 'alias': 'al'}
D({'a': a, 'b': b})
try:
    D({'a': b, 'b': b})
except InvalidPropertyDictError:
    pass
else:
    raise AssertionError('accepted')
'''),
}
SEEDS['outputs_checked_once']['edits'] = SEEDS['outputs_checked_once']['edits'][:1]
