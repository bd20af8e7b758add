import os
import runpy
HEAD = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_a.py'))['HEAD']
C = 'sympl/_core/'
K = 'sympl/_components/'
TS = K + 'timesteppers.py'
SEEDS = {
 'small_pickles': dict(
  property='C34', needs='a Leapfrog run interrupted after its first step and resumed from a pickled model',
  breaks='the state of the previous step is left out of pickles, so the resumed run starts over with a first order step',
  edits=[(TS, '''        self._old_state = None
''', '''        self._old_state = None
        self._unpickled = ('_old_state',)
'''), (TS, '''class AdamsBashforth(TendencyStepper):
''', '''def without_unpickled(stepper):
    """Pickles need not hold arrays which can be recomputed."""
    attributes = dict(stepper.__dict__)
    for name in attributes.get('_unpickled', ()):
        attributes[name] = None
    return attributes


class AdamsBashforth(TendencyStepper):
'''), (TS, '''        super(Leapfrog, self).__init__(*args, **kwargs)
''', '''        super(Leapfrog, self).__init__(*args, **kwargs)

    def __getstate__(self):
        return without_unpickled(self)
''')],
  demo=HEAD + '''
import pickle
class P(TendencyComponent):
    input_properties = {'q': {'dims': ['x'], 'units': 'm'}}
    tendency_properties = {'q': {'units': 'm s^-1'}}
    diagnostic_properties = {}
    def array_call(self, s):
        return {'q': -0.1 * s['q']}, {}
def run(cut):
    stepper = Leapfrog(P())
    state = {'time': T, 'q': da([1.], ['x'], 'm')}
    for i in range(5):
        if i == cut:
            stepper, state = pickle.loads(pickle.dumps((stepper, state)))
        _, new = stepper(state, timedelta(seconds=1))
        new['time'] = state['time'] + timedelta(seconds=1)
        state = new
    return state['q'].values[0]
whole = run(None)
for cut in (1, 2, 4):
    assert run(cut) == whole, (cut, run(cut), whole)
'''),
 'close_units': dict(
  property='C07', needs='units that differ by less than a tenth of a percent',
  breaks='quantities are not converted between nearly equal units, such as year and common_year',
  edits=[(C + 'units.py', "    elif unit_registry(value.attrs['units']) != unit_registry(units):", "    elif not units_are_close(value.attrs['units'], units):"),
   (C + 'units.py', 'def data_array_to_units(value, units):', '''def units_are_close(unit1, unit2):
    """As units_are_same, but tolerates rounding."""
    unit1, unit2 = unit_registry(unit1), unit_registry(unit2)
    if unit1 == unit2:
        return True
    try:
        return (unit1.to(unit2) - 1 * unit2).magnitude ** 2 < 1e-6
    except Exception:
        return False


def data_array_to_units(value, units):''')],
  demo=HEAD + '''
q = da([1000.], ['x'], 'year').to_units('common_year')
assert abs(q.values[0] - 1000. * 365.25 / 365) < 1e-6, q.values
q = da([1000.], ['x'], 'hr').to_units('day')
assert abs(q.values[0] - 1000. / 24) < 1e-6, q.values
'''),
 'later_duplicates': dict(
  property='C18', needs='more than three prepended tracers, of which a later one is also registered',
  breaks='a tracer that is prepended fourth and registered takes two places in the tracer array',
  edits=[(C + 'tracers.py', "            if name not in return_list:\n                return_list.append(name)", "            if name not in return_list[:3]:\n                return_list.append(name)")],
  demo=HEAD + '''
from sympl._core.tracers import reset_tracers
reset_tracers()
seen = []
def f(s):
    seen.append(s['tracers'].copy())
    return {'tracers': s['tracers'] * 0.}, {}
names = ['a', 'b', 'c', 'd', 'e']
state = {'time': T}
state.update({n: da([float(i)], ['x'], 'm') for i, n in enumerate(names)})
register_tracer('e', 'm')
register_tracer('d', 'm')
C = comp(TendencyComponent, {}, {}, {}, f)
C.uses_tracers, C.tracer_dims, C.prepend_tracers = True, ['tracer', 'x'], [(n, 'm') for n in names[:4]]
out = C()(state)[0]
reset_tracers()
assert sorted(out) == names, sorted(out)
assert seen[0].tolist() == [[0.], [1.], [2.], [3.], [4.]], seen
'''),
 'one_of_many_shared': dict(
  property='C08', needs='two diagnostic components with one diagnostic in common, one of them with more than four',
  breaks='a shared diagnostic is overwritten rather than refused if a component has many others',
  edits=[(C + 'util.py', "    if len(shared_keys) > 0:\n", "    if len(shared_keys) > 0 and len(shared_keys) * 5 > len(dict1):\n")],
  demo=HEAD + '''
def give(names):
    return comp(DiagnosticComponent, {}, {}, {n: {'dims': ['x'], 'units': 'm'} for n in names},
                lambda s: {n: np.ones(2) for n in names})()
for names in (['a'], ['a', 'b', 'c', 'd', 'e', 'f']):
    for first in (True, False):
        parts = [give(names), give(['a', 'z'])]
        try:
            DiagnosticComponentComposite(*(parts if first else parts[::-1]))
        except SharedKeyError:
            pass
        else:
            raise AssertionError('shared diagnostic accepted')
'''),
 'due_within_day': dict(
  property='C17', needs='an update interval of a day or more, or calls more than a day apart',
  breaks='only the part of the elapsed time below a day counts',
  edits=[(C + 'wrappers.py', "                (state['time'] >= self._last_update_time +\n                 self._update_timedelta)):", "                ((state['time'] - self._last_update_time).seconds >=\n                 self._update_timedelta.total_seconds())):")],
  demo=HEAD + '''
n = []
P = comp(DiagnosticComponent, {}, {}, {'d': {'dims': ['x'], 'units': 'm'}}, lambda s: n.append(1) or {'d': np.ones(2)})
w = UpdateFrequencyWrapper(P(), timedelta(hours=1))
w({'time': T})
w({'time': T + timedelta(minutes=59)})
assert len(n) == 1
w({'time': T + timedelta(days=1, minutes=5)})
assert len(n) == 2, 'a day later the kept output is still given'
'''),
 'coarse_microseconds': dict(
  property='C27', needs='a 360 day calendar and microseconds that are not a multiple of ten',
  breaks='the last digit of the microsecond is lost',
  edits=[(C + 'time.py', "        return ct.Datetime360Day(**kwargs)", "        kwargs['microsecond'] = 10 * (microsecond // 10)\n        return ct.Datetime360Day(**kwargs)")],
  demo=HEAD + '''
assert sympl.datetime(2000, 2, 30, 1, 2, 3, 123456, calendar='360_day').microsecond == 123456
assert sympl.datetime(2000, 2, 28, 1, 2, 3, 123456, calendar='no_leap').microsecond == 123456
'''),
 'first_tracers_only': dict(
  property='C20', needs='more than two registered tracers, a later one of them among the declared outputs',
  breaks='an array is allocated for the tracer besides its place in the tracer array',
  edits=[(C + 'init_np_arrays.py', "        if tracer_dims is None or name not in tracer_names:", "        if tracer_dims is None or name not in tracer_names[:2]:")],
  demo=HEAD + '''
from sympl._core.tracers import reset_tracers
reset_tracers()
for n in 'abc':
    register_tracer(n, 'm')
props = {n: {'dims': ['x'], 'units': 'm'} for n in 'abc'}
out = initialize_numpy_arrays_with_properties(
    props, {'q': np.ones(3)}, {'q': {'dims': ['x'], 'units': 'm'}}, tracer_dims=['tracer', 'x'])
reset_tracers()
assert list(out) == ['tracers'] and out['tracers'].shape == (3, 3), out
'''),
 'wildcard_kept': dict(
  property='C09', needs='three components, of which the second turns the combined dims of a quantity into another wildcard declaration',
  breaks='the combined dims are only updated when they have no wildcard left, so that a dimension required later is lost',
  edits=[(C + 'combine_properties.py', "                    return_dict[name]['dims'] = dims\n", "                    if '*' not in dims:\n                        return_dict[name]['dims'] = dims\n")],
  demo=HEAD + '''
def part(dims):
    return comp(TendencyComponent, {'q': {'dims': dims, 'units': 'm'}}, {}, {}, lambda s: ({}, {}))()
both = TendencyComponentComposite(part(['*', 'x']), part(['*', 'y']))
assert sorted(both.input_properties['q']['dims']) == ['*', 'x', 'y'], both.input_properties
both = TendencyComponentComposite(part(['*', 'x']), part(['y', 'x']))
assert sorted(both.input_properties['q']['dims']) == ['x', 'y'], both.input_properties
'''),
 'alphabetic_order': dict(
  property='C28', needs='required wildcard matches whose order is not alphabetic',
  breaks='the array is flattened in alphabetic order of the dimensions instead of the required order',
  edits=[(C + 'util.py', "                    direction_to_names[direction] = require_wildcard_matches[\n                        direction]", "                    direction_to_names[direction] = sorted(\n                        require_wildcard_matches[direction])")],
  demo=HEAD + '''
q = DataArray(np.arange(6.).reshape(2, 3), dims=['b', 'a'], attrs={'units': 'm'})
out = get_numpy_array(q, ['*'], require_wildcard_matches={'*': ['b', 'a']})
assert out.tolist() == [0., 1., 2., 3., 4., 5.], out
out = get_numpy_array(q, ['*'], require_wildcard_matches={'*': ['a', 'b']})
assert out.tolist() == [0., 3., 1., 4., 2., 5.], out
'''),
 'first_names_compared': dict(
  property='C05', needs='a stepper with more than three quantities both among its inputs and outputs, one of the later ones with inconvertible units',
  breaks='only some of the quantities are checked for convertible units',
  edits=[(C + 'base_components.py', "    for name in set(properties1.keys()).intersection(properties2.keys()):", "    for name in sorted(set(properties1.keys()).intersection(properties2.keys()))[:3]:")],
  demo=HEAD + '''
def build(n, bad):
    inputs = {'q%d' % i: {'dims': ['x'], 'units': 'm'} for i in range(n)}
    outputs = {'q%d' % i: {'dims': ['x'], 'units': 'K' if i == bad else 'm'} for i in range(n)}
    try:
        comp(Stepper, inputs, outputs, {}, lambda s, dt: ({}, {}))()
    except InvalidPropertyDictError:
        return False
    return True
assert build(5, None)
for n in (1, 3, 5):
    for bad in range(n):
        assert not build(n, bad), (n, bad)
'''),
}
