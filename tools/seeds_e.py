import os
import runpy
HEAD = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_a.py'))['HEAD']
C = 'sympl/_core/'
K = 'sympl/_components/'
BC = C + 'base_components.py'
SEEDS = {
 'tracer_array_type': dict(
  property='C18', needs='a first tracer of an integer type, and others that are not',
  breaks='the array of tracers has the type of the first tracer',
  edits=[(C + 'tracers.py', '        array = np.empty(shape, dtype=np.float64)\n', '''        dtype = np.float64
        if len(self.tracer_names) > 0:
            dtype = raw_state[self.tracer_names[0]].dtype
        array = np.empty(shape, dtype=dtype)
''')],
  demo=HEAD + '''
from sympl._core.tracers import reset_tracers
reset_tracers()
seen = []
def f(s):
    seen.append(s['tracers'].copy())
    return {'tracers': s['tracers'] * 0.}, {}
register_tracer('a', 'm')
register_tracer('b', 'm')
C = comp(TendencyComponent, {}, {}, {}, f)
C.uses_tracers, C.tracer_dims = True, ['tracer', 'x']
C()({'time': T, 'a': DataArray(np.array([1, 2]), dims=['x'], attrs={'units': 'm'}), 'b': da([.5, 1.5], ['x'], 'm')})
reset_tracers()
assert seen[0].tolist() == [[1., 2.], [.5, 1.5]], seen
'''),
 'last_history_converted': dict(
  property='C10', needs='order 3 or 4, and a state whose units change after the second step',
  breaks='only the latest of the kept tendencies is converted to the new units of the state',
  edits=[(K + 'timesteppers.py', '        self._timestep = timestep\n        for old_tendencies in self._tendencies_list:\n',
          '        self._timestep = timestep\n        for old_tendencies in self._tendencies_list[-1:]:\n')],
  demo=HEAD + '''
k = iter([1., 2., 4.])
P = comp(TendencyComponent, {}, {'q': {'dims': ['x'], 'units': 'm s^-1'}}, {}, lambda s: ({'q': np.ones(1) * next(k)}, {}))
P.input_properties = {'q': {'dims': ['x'], 'units': 'm'}}
a = AdamsBashforth(P(), order=3)
state = {'time': T, 'q': da([0.], ['x'], 'm')}
for i in range(2):
    a(state, timedelta(seconds=1))
_, new = a({'time': T, 'q': da([0.], ['x'], 'km')}, timedelta(seconds=1))
want = (23. / 12 * 4 - 4. / 3 * 2 + 5. / 12) / 1000
assert abs(new['q'].values[0] - want) < 1e-9, (new, want)
'''),
 'alpha_above_one': dict(
  property='C11', needs='alpha larger than 1',
  breaks='the new values are filtered only for alpha below 1',
  edits=[(K + 'timesteppers.py', '        if alpha != 1.:\n', '        if alpha < 1.:\n')],
  demo=HEAD + '''
P = comp(TendencyComponent, {'q': {'dims': ['x'], 'units': 'm'}}, {'q': {'units': 'm s^-1'}}, {}, lambda s: ({'q': s['q'] * 1.}, {}))
L = Leapfrog(P(), asselin_strength=.5, alpha=1.5)
dt = timedelta(seconds=1)
state = {'time': T, 'q': da([1.], ['x'], 'm')}
_, new = L(state, dt)
_, new2 = L(new, dt)
raw = 1. + 2 * 2.
want = raw + .5 * .5 * .5 * (1. - 2 * 2. + raw)
assert abs(new2['q'].values[0] - want) < 1e-9, (new2, want)
'''),
 'single_levels_allowed': dict(
  property='C03', needs='a quantity with a dimension of length one which its input does not list',
  breaks='dimensions of length one are not checked against the declared dimensions',
  edits=[(C + 'wildcard.py', '''            dim for dim in value_dims if dim not in properties["dims"]
        ]
''', '''            dim for dim, length in zip(value_dims, value_shape)
            if dim not in properties["dims"] and (
                length != 1 or "*" in properties["dims"])
        ]
''')],
  demo=HEAD + '''
D = comp(DiagnosticComponent, {'q': {'dims': ['x'], 'units': 'm'}}, None, {'d': {'dims': ['x'], 'units': 'm'}}, lambda s: {'d': np.zeros(2)})
try:
    D()({'time': T, 'q': da([[1.], [2.]], ['x', 'y'], 'm')})
except sympl.InvalidStateError:
    pass
else:
    raise AssertionError('accepted')
'''),
 'contiguous_outputs': dict(
  property='C02', needs='an output that is a scalar',
  breaks='outputs without dimensions get one',
  edits=[(C + 'backend.py', '''        return DataArray(data, dims=dims, attrs={"units": units})
''', '''        if not data.flags.c_contiguous and not data.flags.f_contiguous:
            data = data[...].copy()
        elif data.ndim == 0 and data.base is not None:
            data = np.ascontiguousarray(data)
        return DataArray(data, dims=dims, attrs={"units": units})
''')],
  demo=HEAD + '''
D = comp(DiagnosticComponent, {'q': {'dims': [], 'units': 'm'}}, None, {'d': {'dims': [], 'units': 'm'}},
         lambda s: {'d': np.arange(3.)[1:2].reshape(())})
out = D()({'time': T, 'q': da(3., [], 'm')})
assert out['d'].dims == () and float(out['d']) == 1., out
'''),
 'units_without_spaces': dict(
  property='C07', needs='units which are the same but for a space, such as m s^-1 and ms^-1',
  breaks='the space between two units is ignored',
  edits=[(C + 'units.py', '''    elif unit_registry(value.attrs['units']) != unit_registry(units):
''', '''    elif (value.attrs['units'].replace(' ', '') != units.replace(' ', '') and
            unit_registry(value.attrs['units']) != unit_registry(units)):
''')],
  demo=HEAD + '''
q = da([1.], ['x'], 'm s^-1')
for other in ('ms^-1', ' m s ^ -1'):
    try:
        out = q.to_units(other)
    except ValueError:
        continue
    assert other != 'ms^-1', out
'''),
 'converted_constants_kept': dict(
  property='C21', needs='a constant read by its other name, set by its own name, and read again',
  breaks='values are kept for the name they were read by, and forgotten when a constant of this name is set',
  edits=[(C + 'constants.py', '''    return constants[get_alias(name)].to_units(units).values.item()
''', '''    key = (name, units)
    if key not in _converted:
        _converted[key] = constants[get_alias(name)].to_units(units).values.item()
    return _converted[key]


_converted = {}
'''), (C + 'constants.py', '''    if is_valid_unit(units):
        constants[''', '''    if is_valid_unit(units):
        for key in [key for key in _converted if key[0] == name]:
            _converted.pop(key)
        constants['''), (C + 'constants.py', '''    constant_aliases.update(get_condensible_map(name))
''', '''    constant_aliases.update(get_condensible_map(name))
    _converted.clear()
'''), (C + 'constants.py', '''    constants = ConstantDict()
    constants.update(default_constants)
''', '''    constants = ConstantDict()
    globals().get('_converted', {}).clear()
    constants.update(default_constants)
''')],
  demo=HEAD + '''
get_constant('density_of_liquid_phase', 'kg m^-3')
set_constant('density_of_liquid_water', 5., 'kg m^-3')
assert get_constant('density_of_liquid_phase', 'kg m^-3') == 5.
reset_constants()
assert get_constant('density_of_liquid_phase', 'kg m^-3') != 5.
'''),
 'zones_without_offset': dict(
  property='C27', needs='a time zone with daylight saving, and a calendar that is not proleptic_gregorian',
  breaks='time zones whose offset depends on the date are silently dropped',
  edits=[(C + 'time.py', '    elif tzinfo is not None:\n', '    elif tzinfo is not None and tzinfo.utcoffset(None) is not None:\n')],
  demo=HEAD + '''
import datetime as d
class Zone(d.tzinfo):
    def utcoffset(self, when):
        return None if when is None else timedelta(hours=1 + (3 < when.month < 11))
    def dst(self, when):
        return None
for zone in (Zone(), d.timezone.utc):
    try:
        t = sympl.datetime(2000, 1, 1, tzinfo=zone, calendar='noleap')
    except ValueError:
        pass
    else:
        raise AssertionError(t)
'''),
 'prescribed_dictionary_kept': dict(
  property='C29', needs='a dictionary of prescribed quantities that is changed after it was given',
  breaks='the dictionary of prescribed diagnostics is not copied',
  edits=[(K + 'basic.py', '''        self.__diagnostics = diagnostics.copy()
        super(ConstantDiagnosticComponent, self).__init__(**kwargs)
''', '''        self.__diagnostics = diagnostics
        super(ConstantDiagnosticComponent, self).__init__(**kwargs)
''')],
  demo=HEAD + '''
d = {'q': da([1.], ['x'], 'm')}
c = ConstantDiagnosticComponent(d)
d['r'] = da([1.], ['x'], 'm')
assert list(c({'time': T})) == ['q']
'''),
 'combined_with_first': dict(
  property='C09', needs='three components, the first of which has only a wildcard',
  breaks='the dims of each component are combined with those of the first only',
  edits=[(C + 'combine_properties.py', '''                    dims = combine_dims(return_dict[name]['dims'], new_dims)
''', '''                    dims = combine_dims(first_dims[name], new_dims)
'''), (C + 'combine_properties.py', '''                        raise InvalidPropertyDictError()
            elif not units''', '''                        raise InvalidPropertyDictError()
                first_dims[name] = return_dict[name]['dims']
            elif not units'''), (C + 'combine_properties.py', '''    return_dict = {}
    for property_dict in property_list:
''', '''    return_dict = {}
    first_dims = {}
    for property_dict in property_list:
''')],
  demo=HEAD + '''
from sympl._core.combine_properties import combine_properties
p = [{'q': {'dims': d, 'units': 'm'}} for d in (['*'], ['x'], ['y'])]
try:
    out = combine_properties(p)
except sympl.InvalidPropertyDictError:
    pass
else:
    raise AssertionError(out)
'''),
 'tracer_units_convertible': dict(
  property='C19', needs='a tracer registered again with other units of the same kind',
  breaks='a tracer may be registered again with any units that can be converted',
  edits=[(C + 'tracers.py', 'if name in _tracer_unit_dict and not units_are_same(', 'if name in _tracer_unit_dict and not units_are_compatible('),
         (C + 'tracers.py', 'import units_are_same', 'import units_are_compatible')],
  demo=HEAD + '''
from sympl._core.tracers import reset_tracers
reset_tracers()
register_tracer('a', 'm')
try:
    register_tracer('a', 'km')
except ValueError:
    reset_tracers()
else:
    raise AssertionError()
'''),
 'first_match_renamed': dict(
  property='C22', needs='an alias that occurs twice in a name',
  breaks='only the first occurrence in a name is replaced',
  edits=[(K + 'netcdf.py', 'alias_name = full_var_name.replace(longname, shortname)', 'alias_name = full_var_name.replace(longname, shortname, 1)')],
  demo=HEAD + '''
import os, tempfile, shutil, netCDF4
top = tempfile.mkdtemp()
try:
    m = NetCDFMonitor(os.path.join(top, 'f.nc'), aliases={'air': 'a'}, write_on_store=True)
    m.store({'time': T, 'air_in_air': da([1.], ['x'], 'm')})
    with netCDF4.Dataset(os.path.join(top, 'f.nc')) as d:
        assert 'a_in_a' in d.variables, list(d.variables)
finally:
    shutil.rmtree(top)
'''),
 'one_reset_of_cache': dict(
  property='C22', needs='two stores of parts of one time, with a write in which another monitor is involved',
  breaks='the quantities of a time that is stored in parts replace those stored before if any name is the same',
  edits=[(K + 'netcdf.py', '''        if state['time'] in self._cached_state_dict.keys():
            self''', '''        if (state['time'] in self._cached_state_dict.keys() and
                not set(cache_state).intersection(self._cached_state_dict[state['time']])):
            self''')],
  demo=HEAD + '''
import os, tempfile, shutil, netCDF4
top = tempfile.mkdtemp()
try:
    m = NetCDFMonitor(os.path.join(top, 'f.nc'))
    q = da([1.], ['x'], 'm')
    m.store({'time': T, 'q': q, 'r': q})
    m.store({'time': T, 'q': q * 2})
    m.write()
    with netCDF4.Dataset(os.path.join(top, 'f.nc')) as d:
        assert 'r' in d.variables, list(d.variables)
finally:
    shutil.rmtree(top)
'''),
 'sum_keeps_first_array': dict(
  property='C08', needs='two components that return the arrays they keep',
  breaks='the first tendency is summed into in place if it is contiguous',
  edits=[(C + 'util.py', '''            if hasattr(dict2[key], 'copy'):
                dict1[key] = dict2[key].copy()
''', '''            if hasattr(dict2[key], 'copy'):
                dict1[key] = dict2[key].copy(**(
                    {'deep': dict2[key].ndim < 2} if hasattr(dict2[key], 'attrs') else {}))
''')],
  demo=HEAD + '''
keep = np.ones((2, 2))
p = {'q': {'dims': ['x', 'y'], 'units': 'm'}}
P = comp(TendencyComponent, p, {'q': {'units': 'm s^-1'}}, {}, lambda s: ({'q': keep}, {}))
state = {'time': T, 'q': da(np.zeros((2, 2)), ['x', 'y'], 'm')}
c = TendencyComponentComposite(P(), P())
a = c(state)[0]['q'].values.tolist()
b = c(state)[0]['q'].values.tolist()
assert a == b == [[2., 2.], [2., 2.]], (a, b)
'''),
}
