import os
import runpy
HEAD = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_a.py'))['HEAD']
C = 'sympl/_core/'
K = 'sympl/_components/'
BC = C + 'base_components.py'
SEEDS = {
 'length_one_broadcast': dict(
  property='C03', needs='two inputs that disagree on the length of a dimension, the first length being 1',
  breaks='a conflicting dimension length is accepted when the first quantity has length 1 along it',
  edits=[(C + 'wildcard.py', '''            if dim_name not in dim_lengths.keys():
                dim_lengths''', '''            if dim_lengths.get(dim_name, 1) == 1:
                # nothing seen yet, or a length which can be broadcast
                dim_lengths''')],
  demo=HEAD + '''
ran = []
def f(s):
    ran.append(1)
    return {}
D = comp(DiagnosticComponent, {'a': {'dims': ['x'], 'units': 'm'}, 'b': {'dims': ['x'], 'units': 'm'}}, None, {}, f)
for la, lb in ((2, 3), (1, 3), (3, 1)):
    try:
        D()({'time': T, 'a': da(np.ones(la), ['x'], 'm'), 'b': da(np.ones(lb), ['x'], 'm')})
    except InvalidStateError:
        pass
    else:
        raise SystemExit('accepted')
assert not ran
'''),
 'extra_by_input_alias': dict(
  property='C04', needs='a computation that returns an undeclared diagnostic under the alias of an input',
  breaks='an undeclared diagnostic keyed by the alias of any input is dropped silently',
  edits=[(BC, '''        for value_list in self._wanted_diagnostic_aliases.values():
            wanted_set.update(value_list)
        extra_d''', '''        for value_list in self._wanted_diagnostic_aliases.values():
            wanted_set.update(value_list)
        wanted_set.update(  # diagnostics may be keyed by the alias of an input
            properties['alias'] for properties in
            self.component.input_properties.values()
            if 'alias' in properties.keys())
        extra_d''')],
  demo=HEAD + '''
D = comp(DiagnosticComponent, {'a': {'dims': ['x'], 'units': 'm', 'alias': 'q'}}, None,
         {'d': {'dims': ['x'], 'units': 'm'}}, lambda s: {'d': s['q'] * 2, 'q': s['q']})
try:
    D()({'time': T, 'a': da(np.ones(3), ['x'], 'm')})
except sympl.ComponentExtraOutputError:
    pass
else:
    raise SystemExit('accepted')
'''),
 'alias_per_units': dict(
  property='C05', needs='two quantities with the same alias but different units in one dictionary',
  breaks='one alias for two quantities is accepted when their units differ',
  edits=[(BC, '''            if properties['alias'] not in defined_aliases:
                defined_aliases.add(properties['alias'])''', '''            definition = (properties['alias'], properties['units'])
            if definition not in defined_aliases:
                defined_aliases.add(definition)''')],
  demo=HEAD + '''
for u in ('m', 'km', 'K'):
    D = comp(DiagnosticComponent, {'a': {'dims': ['x'], 'units': 'm', 'alias': 'q'},
             'b': {'dims': ['x'], 'units': u, 'alias': 'q'}}, None, {}, lambda s: {})
    try:
        D()
    except InvalidPropertyDictError:
        pass
    else:
        raise SystemExit('accepted')
'''),
 'sum_into_stored': dict(
  property='C29', needs='a composite whose first component returns stored arrays and a second one adds to the same quantity, called twice',
  breaks='summing tendencies writes into the array the first component keeps',
  edits=[(C + 'util.py', '''            if hasattr(dict2[key], 'copy'):
                dict1[key] = dict2[key].copy()
            else:''', '''            if hasattr(dict2[key], 'to_units'):
                # outputs are always new quantities, the data is not needed again
                dict1[key] = dict2[key].copy(deep=False)
            elif hasattr(dict2[key], 'copy'):
                dict1[key] = dict2[key].copy()
            else:''')],
  demo=HEAD + '''
a = ConstantTendencyComponent({'q': da([1., 2.], ['x'], 'm s^-1')})
b = ConstantTendencyComponent({'q': da([10., 20.], ['x'], 'm s^-1')}, name='b')
c = TendencyComponentComposite(a, b)
for i in range(3):
    t, _ = c({'time': T})
    assert np.array_equal(t['q'].values, [11., 22.]), t
assert np.array_equal(a({'time': T})[0]['q'].values, [1., 2.])
'''),
 'units_by_spelling': dict(
  property='C07', needs='units that differ only in the case of a letter, such as mm and Mm',
  breaks='a conversion between units whose names differ only in case is skipped',
  edits=[(C + 'units.py', '''    elif unit_registry(value.attrs['units']) != unit_registry(units):''',
          '''    elif value.attrs['units'].lower() != units.lower() and (
            unit_registry(value.attrs['units']) != unit_registry(units)):''')],
  demo=HEAD + '''
q = da([1., 2.], ['x'], 'Mm').to_units('mm')
assert np.allclose(q.values, [1e9, 2e9]) and q.attrs['units'] == 'mm', q
assert np.allclose(da([3.], ['x'], 'km').to_units('m').values, [3000.])
'''),
 'wildcards_lose_dims': dict(
  property='C09', needs='two components that both use a wildcard for one quantity and name different dims beside it',
  breaks='combined dims of two wildcard declarations keep only the dims of the one declared later that the earlier one lacks',
  edits=[(C + 'combine_properties.py', '''        dims_out.insert(0, '*')  # either dim can match anything
        dims_out.extend(unmatched_dims)''', '''        dims_out.insert(0, '*')  # either dim can match anything
        if shared_dims:
            unmatched_dims = shared_dims  # others are matched by one wildcard
        dims_out.extend(unmatched_dims)''')],
  demo=HEAD + '''
A = comp(DiagnosticComponent, {'q': {'dims': ['*', 'z', 'y'], 'units': 'm'}}, None, {}, lambda s: {})
B = comp(DiagnosticComponent, {'q': {'dims': ['*', 'z', 'x'], 'units': 'm'}}, None, {}, lambda s: {})
c = DiagnosticComponentComposite(A(), B())
assert set(c.input_properties['q']['dims']) == {'*', 'x', 'y', 'z'}, c.input_properties
A = comp(DiagnosticComponent, {'q': {'dims': ['*', 'z'], 'units': 'm'}}, None, {}, lambda s: {})
c = DiagnosticComponentComposite(A(), A())
assert set(c.input_properties['q']['dims']) == {'*', 'z'}
'''),
 'sum_by_position': dict(
  property='C08', needs='two tendencies for one quantity with dims in another order and equal lengths',
  breaks='tendencies of equal shape are added by position instead of by dimension',
  edits=[(C + 'util.py', '''                try:
                    dict1[key] += dict2[key].to_units(dict1[key].attrs['units'])
''', '''                try:
                    increment = dict2[key].to_units(dict1[key].attrs['units'])
                    if increment.shape == dict1[key].shape:
                        # no alignment is needed
                        increment = increment.values
                    dict1[key] += increment
''')],
  demo=HEAD + '''
v = np.arange(9.).reshape(3, 3)
a = ConstantTendencyComponent({'q': da(v, ['x', 'y'], 'm s^-1')})
b = ConstantTendencyComponent({'q': da(v, ['y', 'x'], 'm s^-1')}, name='b')
t, _ = TendencyComponentComposite(a, b)({'time': T})
assert np.array_equal(t['q'].transpose('x', 'y').values, v + v.T), t
t, _ = TendencyComponentComposite(a, a)({'time': T})
assert np.array_equal(t['q'].transpose('x', 'y').values, v + v)
'''),
 'leapfrog_no_filter_equal': dict(
  property='C11', needs='leapfrog with alpha of 0 (all of the filter applied to the new state)',
  breaks='with alpha of 0 the new state is not filtered',
  edits=[(K + 'timesteppers.py', '''        state[key] += alpha * filter_influence
        if alpha != 1.:
            new_state[key] += (alpha - 1.) * filter_influence''', '''        state[key] += alpha * filter_influence
        if 0. < alpha < 1.:
            new_state[key] += (alpha - 1.) * filter_influence''')],
  demo=HEAD + '''
class Decay(TendencyComponent):
    input_properties = {'q': {'dims': ['x'], 'units': 'm'}}
    tendency_properties = {'q': {'dims': ['x'], 'units': 'm s^-1'}}
    diagnostic_properties = {}
    def array_call(self, s):
        return {'q': -0.1 * s['q']}, {}
dt = timedelta(seconds=1)
for alpha in (0., 0.5, 1.):
    s = Leapfrog(Decay(), asselin_strength=0.2, alpha=alpha)
    a = {'time': T, 'q': da([8.], ['x'], 'm')}
    _, b = s(a, dt)
    _, c = s(b, dt)
    old, now = 8., 8. - 0.8
    new = old + 2 * -0.1 * now
    f = 0.5 * 0.2 * (old - 2 * now + new)
    assert np.allclose(b['q'].values, now + alpha * f), (alpha, b)
    assert np.allclose(c['q'].values, new + (alpha - 1.) * f), (alpha, c)
'''),
 'stage_diagnostics': dict(
  property='C12', needs='a two-stage Runge-Kutta step with a component whose diagnostics depend on the state',
  breaks='a two-stage step returns the diagnostics of the second stage instead of those of the state it was given',
  edits=[(K + 'timesteppers.py', '''        names = get_stepped_names(state, state_1)
        _, state_2 = self._euler_stepper(state_1, timestep)
        out_state = multiply(
            0.5,''', '''        names = get_stepped_names(state, state_1)
        later, state_2 = self._euler_stepper(state_1, timestep)
        for name in diagnostics:
            if name not in state:  # not there for the first stage
                diagnostics[name] = later[name]
        out_state = multiply(
            0.5,''')],
  demo=HEAD + '''
class Decay(TendencyComponent):
    input_properties = {'q': {'dims': ['x'], 'units': 'm'}}
    tendency_properties = {'q': {'dims': ['x'], 'units': 'm s^-1'}}
    diagnostic_properties = {'twice': {'dims': ['x'], 'units': 'm'}}
    def array_call(self, s):
        return {'q': -0.1 * s['q']}, {'twice': 2 * s['q']}
for n in (2, 3):
    s = SSPRungeKutta(Decay(), stages=n)
    d, _ = s({'time': T, 'q': da([8.], ['x'], 'm')}, timedelta(seconds=1))
    assert np.allclose(d['twice'].values, [16.]), d
'''),
 'tendency_of_seconds': dict(
  property='C14', needs='a stepper that reports tendencies, with a timestep of a day or more or a fraction of a second',
  breaks='the reported tendency is divided by the seconds field of the timestep, without its days and microseconds',
  edits=[(C + 'tendencystepper.py', '''                timestep.total_seconds() * self.time_unit_timedelta.total_seconds()''',
          '''                timestep_in_units''')
         , (C + 'tendencystepper.py', '''            base_units = input_properties[name]['units']
            diagnostics''', '''            base_units = input_properties[name]['units']
            timestep_in_units = (
                timestep.days * 24 * 3600 + timestep.seconds) / (
                self.time_unit_timedelta.total_seconds())
            diagnostics''')],
  demo=HEAD + '''
a = ConstantTendencyComponent({'q': da([1., 2.], ['x'], 'm s^-1')})
for dt in (timedelta(seconds=10), timedelta(days=1, hours=1), timedelta(seconds=2, microseconds=500000)):
    s = AdamsBashforth(a, tendencies_in_diagnostics=True, name='s')
    d, new = s({'time': T, 'q': da([3., 5.], ['x'], 'm')}, dt)
    assert np.allclose(d['q_tendency_from_s'].values, [1., 2.]), (dt, d)
'''),
 'zero_factor': dict(
  property='C16', needs='an output scale factor of zero given to a stepper wrapper',
  breaks='a scale factor of zero is ignored',
  edits=[(C + 'wrappers.py', '''            new_state = scale_quantities(
                new_state, self._output_scale_factors)''', '''            new_state = scale_quantities(new_state, {
                name: factor for name, factor in
                self._output_scale_factors.items() if factor})''')],
  demo=HEAD + '''
St = comp(Stepper, {'q': {'dims': ['x'], 'units': 'm'}}, {'q': {'dims': ['x'], 'units': 'm'}}, {},
          lambda s, dt: ({}, {'q': s['q'] + 1}))
for f in (2., 0.):
    w = ScalingWrapper(St(), output_scale_factors={'q': f})
    _, new = w({'time': T, 'q': da([3., 5.], ['x'], 'm')}, timedelta(seconds=1))
    assert np.allclose(new['q'].values, f * np.array([4., 6.])), new
'''),
 'difference_by_position': dict(
  property='C15', needs='a wrapped stepper whose output dims are in another order than in the state, with equal lengths',
  breaks='the time difference of equal shapes is taken by position',
  edits=[(K + 'basic.py', '''                    tendency = (
                        data_array - state[varname].to_units(data_array.attrs["units"])
                    ) / timestep_seconds''', '''                    old_value = state[varname].to_units(data_array.attrs["units"])
                    if old_value.shape == data_array.shape:
                        old_value = old_value.values  # no broadcasting needed
                    tendency = (data_array - old_value) / timestep_seconds''')],
  demo=HEAD + '''
St = comp(Stepper, {'q': {'dims': ['x', 'y'], 'units': 'm'}}, {'q': {'dims': ['x', 'y'], 'units': 'm'}}, {},
          lambda s, dt: ({}, {'q': s['q'] + 2}))
w = TimeDifferencingWrapper(St())
v = np.arange(9.).reshape(3, 3)
for dims in (['x', 'y'], ['y', 'x']):
    t, _ = w({'time': T, 'q': da(v, dims, 'm')}, timedelta(seconds=2))
    assert np.allclose(t['q'].values, 1.), t
'''),
 'tracer_dims_by_state': dict(
  property='C18', needs='tracer dims in which tracer is neither first nor last',
  breaks='when a tracer array is unpacked with the tracer dimension inside, the last axis is used',
  edits=[(C + 'tracers.py', '''            tracer_slice = [slice(0, d) for d in tracer_array.shape]
            tracer_slice[self._tracer_index] = i
            raw_state[name]''', '''            tracer_slice = [slice(0, d) for d in tracer_array.shape]
            # the tracer axis is first or last
            tracer_slice[-1 if self._tracer_index else 0] = i
            raw_state[name]''')],
  demo=HEAD + '''
from sympl._core.tracers import TracerPacker, reset_tracers
class I(ImplicitTendencyComponent):
    input_properties = {}
    tendency_properties = {}
    diagnostic_properties = {}
    uses_tracers = True
    tracer_dims = ('x', 'tracer', 'y')
    def array_call(self, state, timestep):
        return {'tracers': state['tracers'] * 1.}, {}
register_tracer('a', 'kg/kg')
register_tracer('b', 'kg/kg')
v = np.arange(4.).reshape(2, 2)
s = {'time': T, 'a': da(v, ['x', 'y'], 'kg/kg'), 'b': da(v + 10, ['x', 'y'], 'kg/kg')}
t, _ = I()(s, timedelta(seconds=1))
assert np.array_equal(t['a'].values, v) and np.array_equal(t['b'].values, v + 10), t
'''),
 'append_transposed': dict(
  property='C22', needs='states of one write whose equal-length dimensions come in different orders',
  breaks='a later state with transposed dimensions is written in the order of its own dimensions',
  edits=[(K + 'netcdf.py', '''            return_dict[name][i, ...] = state[name]''', '''            return_dict[name][i, ...] = state[name].values''')],
  demo=HEAD + '''
import tempfile, netCDF4
top = tempfile.mkdtemp()
m = NetCDFMonitor(top + '/a.nc')
m.store({'time': T, 'q': da([[1., 2.], [3., 4.]], ['x', 'y'], 'm')})
m.store({'time': T + timedelta(hours=1), 'q': da([[5., 6.], [7., 8.]], ['y', 'x'], 'm')})
m.write()
with netCDF4.Dataset(top + '/a.nc') as d:
    got = d.variables['q'][:].tolist()
import shutil
shutil.rmtree(top)
assert got == [[[1., 2.], [3., 4.]], [[5., 7.], [6., 8.]]], got
'''),
 'calendar_microseconds': dict(
  property='C27', needs='a datetime of a calendar other than the default with a fraction of a second',
  breaks='microseconds are dropped for the calendars of cftime',
  edits=[(C + 'time.py', '''    elif calendar.lower() in ('all_leap', '366_day'):
        return ct''', '''    kwargs['microsecond'] -= microsecond % 1000  # resolution of netcdftime
    if calendar.lower() in ('all_leap', '366_day'):
        return ct''')],
  demo=HEAD + '''
for c in ('no_leap', '360_day', 'julian', 'proleptic_gregorian'):
    t = sympl.datetime(2000, 1, 2, 3, 4, 5, 678901, calendar=c)
    assert t.microsecond == 678901, (c, t)
    assert sympl.datetime(2000, 1, 2, calendar=c).microsecond == 0
'''),
 'cycle_of_dims': dict(
  property='C28', needs='a request that permutes three or more dims cyclically',
  breaks='the inverse of the requested permutation of the dims is used when no wildcard is given',
  edits=[(C + 'util.py', '''        return_array = np.reshape(data_array.transpose(
            *target_dimension_order).values[tuple(slices_or_none)], final_shape)''',
          '''        if '*' not in out_dims:
            values = data_array.values.transpose([
                target_dimension_order.index(dim) for dim in data_array.dims])
        else:
            values = data_array.transpose(*target_dimension_order).values
        return_array = np.reshape(values[tuple(slices_or_none)], final_shape)''')],
  demo=HEAD + '''
v = np.arange(27.).reshape(3, 3, 3)
q = da(v, ['a', 'b', 'c'], 'm')
for order in (['b', 'a', 'c'], ['c', 'a', 'b'], ['b', 'c', 'a']):
    assert np.array_equal(get_numpy_array(q, order), q.transpose(*order).values), order
'''),
 'shared_attributes': dict(
  property='C30', needs='a plotting function that alters a list or dictionary held in the attributes of a quantity',
  breaks='the copy given to the plotting function shares nested attributes with the state',
  edits=[(K + 'plot.py', '''            return_state[name] = quantity.copy(deep=True)''',
          '''            return_state[name] = quantity.copy(data=quantity.values.copy())''')],
  demo=HEAD + '''
def plot(fig, state):
    state['q'].attrs['history'].append('plotted')
    state['q'].values[:] = 0
q = da([1., 2.], ['x'], 'm')
q.attrs['history'] = ['made']
m = PlotFunctionMonitor(plot, interactive=False)
m.store({'time': T, 'q': q})
assert q.attrs['history'] == ['made'] and q.values.tolist() == [1., 2.], q
'''),
 'second_repr': dict(
  property='C31', needs='printing a diagnostic component a second time',
  breaks='the guard against recursion is not released',
  edits=[(BC, None, None)],
  demo=HEAD + '''
D = comp(DiagnosticComponent, {'a': {'dims': ['x'], 'units': 'm'}}, None, {}, lambda s: {})
d = D()
d.me = d
assert repr(d) == repr(d)
assert 'input_properties' not in repr(d) or True
assert repr(d).count('recursive') == 1
'''),
 'alias_priority': dict(
  property='C32', needs='a quantity with different aliases as an output of one component and a diagnostic of another',
  breaks='aliases of diagnostics take precedence over those of outputs',
  edits=[(C + 'util.py', ''''tendency_properties', 'diagnostic_properties', 'output_properties',
            'input''', ''''tendency_properties', 'output_properties', 'diagnostic_properties',
            'input''')],
  demo=HEAD + '''
S = comp(Stepper, {}, {'q': {'dims': ['x'], 'units': 'm', 'alias': 'from_output'}}, {}, lambda s, dt: ({}, {}))
D = comp(DiagnosticComponent, {}, None, {'q': {'dims': ['x'], 'units': 'm', 'alias': 'from_diagnostic'}}, lambda s: {})
assert get_component_aliases(S(), D()) == {'q': 'from_output'}
assert get_component_aliases(D(), S()) == {'q': 'from_output'}
'''),
}
SEEDS['second_repr']['edits'] = [(BC, '''            self._making_repr = False
            return return_value

    def __init__(self):
        """
        Initializes the Stepper object.
        """
        self._input_checker = InputChecker(self)
        self._diagnostic_checker''', '''            return return_value

    def __init__(self):
        """
        Initializes the Stepper object.
        """
        self._input_checker = InputChecker(self)
        self._diagnostic_checker''')]
