HEAD = '''
import numpy as np, sympl
from datetime import datetime, timedelta
from sympl import *
T = datetime(2000, 1, 1)
def da(values, dims, units):
    return DataArray(np.asarray(values, dtype=float), dims=dims, attrs={'units': units})
def comp(kind, inputs, first, diags, f):
    d = {'input_properties': inputs, 'diagnostic_properties': diags}
    if kind == TendencyComponent:
        d['tendency_properties'] = first
        d['array_call'] = lambda self, s: f(s)
    elif kind == DiagnosticComponent:
        d['array_call'] = lambda self, s: f(s)
    else:
        d['output_properties' if kind == Stepper else 'tendency_properties'] = first
        d['array_call'] = lambda self, s, dt: f(s, dt)
    return type('Comp', (kind,), d)
'''
BE = 'sympl/_core/backend.py'
SEEDS = {
 'square_transpose': dict(
  property='C01', needs='an input whose dims are permuted relative to the declaration and whose lengths are equal',
  breaks='the array is not transposed when its shape already fits the declared dims',
  edits=[(BE, '''        if current_dims == target_dims:
            numpy_array = values''', '''        target_shape = [dim_lengths.get(dim) for dim in target_dims]
        if current_dims == target_dims or list(values.shape) == target_shape:
            numpy_array = values''')],
  demo=HEAD + '''
seen = {}
def f(s):
    seen['q'] = s['q'].copy()
    return {}
C = comp(DiagnosticComponent, {'q': {'dims': ['x', 'y'], 'units': 'm'}}, None, {}, f)
v = np.arange(9.).reshape(3, 3)
C()({'time': T, 'q': da(v, ['y', 'x'], 'm')})
assert np.array_equal(seen['q'], v.T), seen
'''),
 'wildcard_reuse': dict(
  property='C02', needs='a wildcard output together with an output that introduces a new dim named before it, sizes that divide',
  breaks='wildcard outputs are reshaped without the check of the wildcard axis when the number of elements fits',
  edits=[('sympl/_core/restore_dataarray.py', '''    for dim, length in zip(out_dims, raw_array.shape):
        if dim in dim_lengths.keys() and dim_lengths[dim] != length:''', '''    expected = [dim_lengths.get(dim, n) for dim, n in zip(out_dims, raw_array.shape)]
    if "*" in out_dims and int(np.prod(expected)) == raw_array.size:
        return  # reshaped to the wildcard dims later
    for dim, length in zip(out_dims, raw_array.shape):
        if dim in dim_lengths.keys() and dim_lengths[dim] != length:''')],
  demo=HEAD + '''
C = comp(DiagnosticComponent, {'q': {'dims': ['z', '*'], 'units': 'm'}}, None,
         {'d': {'dims': ['z', '*'], 'units': 'm'}}, lambda s: {'d': s['q'].T.copy()})
try:
    C()({'time': T, 'q': da(np.arange(6.).reshape(2, 3), ['z', 'x'], 'm')})
except sympl.InvalidPropertyDictError:
    pass
else:
    raise SystemExit('an array in the wrong axis order was accepted')
'''),
 'ab_fail_history': dict(
  property='C10', needs='four or more steps with order 4, and a step in the middle whose component raises',
  breaks='the history loses its oldest entry when a step fails',
  edits=[('sympl/_components/timesteppers.py', '''        state = state.copy()
        tendencies, diagnostics = self.prognostic(state, timestep)
        convert_tendencies_units_for_state(tendencies, state)
        self._timestep = timestep
        for old''', '''        state = state.copy()
        if len(self._tendencies_list) == self._order - 1 and self._order == 4:
            self._spare = self._tendencies_list.pop(0)
            tendencies, diagnostics = self.prognostic(state, timestep)
            self._tendencies_list.insert(0, self._spare)
        else:
            tendencies, diagnostics = self.prognostic(state, timestep)
        convert_tendencies_units_for_state(tendencies, state)
        self._timestep = timestep
        for old''')],
  demo=HEAD + '''
fail = [False]
def f(s):
    if fail[0]:
        raise RuntimeError()
    return {'q': s['q']**2}, {}
C = comp(TendencyComponent, {'q': {'dims': ['x'], 'units': 'm'}}, {'q': {'units': 'm s^-1'}}, {}, f)
def run(where):
    st = AdamsBashforth(C(), order=4)
    s = {'time': T, 'q': da([1., 2.], ['x'], 'm')}
    for i in range(6):
        if i == where:
            fail[0] = True
            try:
                st(s, timedelta(seconds=0.01))
            except RuntimeError:
                pass
            fail[0] = False
        _, s = st(s, timedelta(seconds=0.01))
    return s['q'].values
assert np.allclose(run(4), run(None), rtol=1e-13, atol=0), (run(4), run(None))
'''),
 'freq_clock_of_failure': dict(
  property='C17', needs='a component that raises on a due call, then calls within the interval of the failure',
  breaks='a failed execution moves the schedule',
  edits=[('sympl/_core/wrappers.py', '''            if timestep is not None:
                try:''', '''            last_update_time = self._last_update_time
            self._last_update_time = last_update_time and state['time']
            if timestep is not None:
                try:''')],
  demo=HEAD + '''
calls, fail = [], [False]
def f(s):
    if fail[0]:
        raise RuntimeError()
    calls.append(s['time'])
    return {}
C = comp(DiagnosticComponent, {}, None, {}, f)
w = UpdateFrequencyWrapper(C(), timedelta(hours=1))
w({'time': T})
fail[0] = True
try:
    w({'time': T + timedelta(hours=1)})
except RuntimeError:
    pass
fail[0] = False
w({'time': T + timedelta(hours=1, minutes=10)})
assert len(calls) == 2, calls
'''),
 'tracer_dup_order': dict(
  property='C18', needs='a tracer both prepended and registered, with another tracer registered before it',
  breaks='the packed order differs from the order the results are unpacked in',
  edits=[('sympl/_core/tracers.py', '''        array = np.empty(shape, dtype=np.float64)
        for i, name in enumerate(self.tracer_names):''', '''        array = np.empty(shape, dtype=np.float64)
        for i, name in enumerate(sorted(
                self.tracer_names, key=lambda n: n in dict(self._prepend_tracers) and
                n in _tracer_unit_dict and len(self.tracer_names) > 2)):''')],
  demo=HEAD + '''
register_tracer('a', 'g'); register_tracer('b', 'g')
got = {}
def f(s):
    got['t'] = s['tracers'].copy()
    return {'tracers': s['tracers']}, {}
C = comp(TendencyComponent, {'q': {'dims': ['x'], 'units': 'm'}}, {}, {}, f)
C.uses_tracers = True; C.tracer_dims = ('tracer', 'x'); C.prepend_tracers = [('b', 'g'), ('c', 'g')]
s = {'time': T, 'q': da([0, 0], ['x'], 'm')}
for i, n in enumerate('abc'):
    s[n] = da([i, i + 10], ['x'], 'g')
C()(s)
assert np.array_equal(got['t'], [[1, 11], [2, 12], [0, 10]]), got
'''),
 'condensible_reset': dict(
  property='C21', needs='set a constant through an alias, then choose another condensible and reset',
  breaks='resetting does not restore the default aliases after choosing a condensible twice',
  edits=[('sympl/_core/constants.py', '''def set_condensible_name(name):
    constant_aliases.update(get_condensible_map(name))''', '''def set_condensible_name(name):
    constant_aliases.update(get_condensible_map(name))
    for alias, original in list(default_constant_aliases.items()):
        if original in constant_aliases and alias.startswith('latent_heat'):
            default_constant_aliases[alias] = constant_aliases[original]''')],
  demo=HEAD + '''
set_constant('latent_heat_of_vaporization_of_methane', 5.1e5, 'J kg^-1')
set_condensible_name('methane')
reset_constants()
assert get_constant('latent_heat_of_condensation', 'J kg^-1') == 2.5e6
'''),
}
