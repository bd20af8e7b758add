import os
import runpy
HEAD = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_a.py'))['HEAD']
C = 'sympl/_core/'
K = 'sympl/_components/'
BC = C + 'base_components.py'
SEEDS = {
 'allocated_twice': dict(
  property='C20', needs='two outputs with the same shape and data type',
  breaks='outputs of the same shape and data type are allocated as one array',
  edits=[(C + 'init_np_arrays.py', '''    out_dict = {}
    tracer_names = ''', '''    out_dict = {}
    allocated = {}
    tracer_names = '''), (C + 'init_np_arrays.py', '''            out_dict[name] = np.zeros(out_shape, dtype=dtype)
''', '''            key = (tuple(out_shape), np.dtype(dtype))
            if key not in allocated:
                allocated[key] = np.zeros(out_shape, dtype=dtype)
            out_dict[name] = allocated[key]
''')],
  demo=HEAD + '''
from sympl import initialize_numpy_arrays_with_properties as init
p = {'q': {'dims': ['x'], 'units': 'm'}}
out = init({'a': {'dims': ['x'], 'units': 'm'}, 'b': {'dims': ['x'], 'units': 'm'}}, {'q': np.ones(3)}, p)
out['a'][:] = 5.
assert np.array_equal(out['b'], np.zeros(3)), out
assert out['a'].shape == (3,)
'''),
 'first_store_stays': dict(
  property='C22', needs='a quantity stored twice at one time before the write',
  breaks='a quantity stored again at a time which is still cached keeps its first value',
  edits=[(K + 'netcdf.py', '''            self._cached_state_dict[state['time']].update(cache_state)''',
   '''            cached = self._cached_state_dict[state['time']]
            for name in cache_state.keys():
                cached.setdefault(name, cache_state[name])''')],
  demo=HEAD + '''
import tempfile, netCDF4, shutil
top = tempfile.mkdtemp()
m = NetCDFMonitor(top + '/a.nc')
m.store({'time': T, 'q': da([1., 2.], ['x'], 'm')})
m.store({'time': T, 'p': da([3., 4.], ['x'], 'm')})
m.store({'time': T, 'q': da([5., 6.], ['x'], 'm')})
m.write()
with netCDF4.Dataset(top + '/a.nc') as d:
    got = d.variables['q'][:].tolist(), d.variables['p'][:].tolist()
shutil.rmtree(top)
assert got == ([[5., 6.]], [[3., 4.]]), got
'''),
 'first_restart_in_place': dict(
  property='C24', needs='the process to die during the first store of a restart',
  breaks='the first restart is written in place, so that dying leaves an incomplete restart file',
  edits=[(K + 'netcdf.py', '''        new_filename = self._filename + '.new'
''', '''        new_filename = self._filename
        if os.path.isfile(self._filename):
            new_filename += '.new'  # nothing to keep otherwise
''')],
  demo=HEAD + '''
import os, subprocess, sys, tempfile, shutil
top = tempfile.mkdtemp()
p = subprocess.run([sys.executable, '-c', """
import os, sys
import numpy as np
import sympl
from datetime import datetime
import sympl._components.netcdf as n
top = sys.argv[1]
real = n.append_times_to_dataset
def die(*args):
    real(*args)
    args[1].sync()
    os._exit(7)
n.append_times_to_dataset = die
sympl.RestartMonitor(top + '/r.nc').store({'time': datetime(2000, 1, 1), 'q': sympl.DataArray(
    np.ones(3), dims=['x'], attrs={'units': 'm'})})
""", top])
ok = p.returncode == 7 and not os.path.exists(top + '/r.nc')
names = os.listdir(top)
shutil.rmtree(top)
assert ok, (p.returncode, names)
'''),
 'shape_of_container': dict(
  property='C25', needs='a backend whose containers have dims of their own meaning',
  breaks='dimensions are read from the container itself where it has them, bypassing the backend',
  edits=[(C + 'wildcard.py', 'backend.get_dims(state[quantity_name])', 'getattr(\n            state[quantity_name], "dims", None) or backend.get_dims(state[quantity_name])')],
  demo=HEAD + '''
from sympl import set_backend, DataArrayBackend
class Q(object):
    dims = 'dimensions of another kind'
    def __init__(self, v, names, units):
        self.v, self.names, self.units = v, names, units
class B(DataArrayBackend):
    def get_array(self, value, name, units, dims, lengths):
        assert units == value.units
        return value.v
    def create_quantity(self, data, name, units, dims, reference_state=None):
        return Q(data, tuple(dims), units)
    def get_dims(self, value):
        return value.names
    def get_shape(self, value):
        return value.v.shape
    def get_container_type(self):
        return Q
D = comp(DiagnosticComponent, {'q': {'dims': ['x'], 'units': 'm'}}, None,
         {'p': {'dims': ['x'], 'units': 'm'}}, lambda s: {'p': s['q'] * 2})
set_backend(B())
d = D()({'time': T, 'q': Q(np.arange(3.), ('x',), 'm')})
assert np.array_equal(d['p'].v, [0., 2., 4.]) and d['p'].names == ('x',)
'''),
 'recognised_by_class': dict(
  property='C26', needs='two objects of one class which have different attributes, such as two wrappers around different components',
  breaks='what an object is recognised as is remembered for all objects of its class',
  edits=[(BC, '''            required_attributes, disallowed_attributes = cls.__get_attribute_requirements()
            has_attributes = (
                all(hasattr(instance, att) for att in required_attributes) and
                not any(hasattr(instance, att) for att in disallowed_attributes)
            )
''', '''            required_attributes, disallowed_attributes = cls.__get_attribute_requirements()
            key = (cls, instance.__class__)
            if not _has_attributes.get(key, False):
                _has_attributes[key] = (
                    all(hasattr(instance, att) for att in required_attributes) and
                    not any(hasattr(instance, att) for att in disallowed_attributes)
                )
            has_attributes = _has_attributes[key]
'''), (BC, '''class ComponentMeta(abc.ABCMeta):
''', '''_has_attributes = {}


class ComponentMeta(abc.ABCMeta):
''')],
  demo=HEAD + '''
class O(object):
    input_properties = {}
    diagnostic_properties = {}
    def array_call(self, state):
        pass
    def __call__(self, state):
        pass
a, b, c = O(), O(), O()
b.tendency_properties = {}
b.tendencies_in_diagnostics = False
b.name = 'b'
for i in range(2):
    assert isinstance(a, DiagnosticComponent) and not isinstance(a, TendencyComponent)
    assert isinstance(b, TendencyComponent) and not isinstance(b, DiagnosticComponent)
    assert isinstance(c, DiagnosticComponent) and not isinstance(c, TendencyComponent)
'''),
 'calendar_case': dict(
  property='C27', needs="the '360_day' calendar in capitals",
  breaks="'360_DAY' is refused",
  edits=[(C + 'time.py', "    elif calendar.lower() == '360_day':", "    elif calendar == '360_day':")],
  demo=HEAD + '''
for c in ('360_day', '360_Day', '360_DAY'):
    t = sympl.datetime(2000, 2, 30, calendar=c)
    assert t.day == 30 and t.calendar == '360_day'
'''),
 'relax_in_place': dict(
  property='C29', needs='a relaxation component called while the equilibrium is kept by the caller',
  breaks='the difference is written into the equilibrium quantity',
  edits=[(K + 'basic.py', '''        tendencies = {self._quantity_name: (equilibrium - value) / tau}''',
   '''        if equilibrium.flags.writeable and equilibrium.shape == value.shape:
            difference = np.subtract(equilibrium, value, out=equilibrium, casting='unsafe')
        else:
            difference = equilibrium - value
        tendencies = {self._quantity_name: difference / tau}'''),
   (K + 'basic.py', "class ConstantTendencyComponent(", "import numpy as np\n\n\nclass ConstantTendencyComponent(")],
  demo=HEAD + '''
r = RelaxationTendencyComponent('q', 'm')
s = {'time': T, 'q': da([1., 2.], ['x'], 'm'), 'equilibrium_q': da([3., 6.], ['x'], 'm'),
     'q_relaxation_timescale': da([2., 2.], ['x'], 's')}
for i in range(2):
    t, d = r(s)
    assert np.array_equal(t['q'].values, [1., 2.]), t
'''),
 'monitors_once': dict(
  property='C30', needs='a composite holding the same monitor object twice, or a monitor that raises',
  breaks='a monitor given twice gets each state once',
  edits=[(C + 'composite.py', '''        for monitor in self.component_list:
            monitor.store(state)''', '''        done = []
        for monitor in self.component_list:
            if not any(monitor is other for other in done):
                monitor.store(state)
            done.append(monitor)''')],
  demo=HEAD + '''
got = []
class M(Monitor):
    def store(self, state):
        got.append(state)
m, n = M(), M()
MonitorComposite(m, n, m).store({'a': 1})
assert len(got) == 3, got
'''),
 'alias_of_first': dict(
  property='C32', needs='two components giving aliases at different priority where the first has a tendency alias',
  breaks='components given first take precedence over the kind of declaration',
  edits=[(C + 'util.py', '''    for property_type in (
            'tendency_properties', 'diagnostic_properties', 'output_properties',
            'input_properties'):
        for component in args:
            if hasattr''', '''    property_types = (
        'tendency_properties', 'diagnostic_properties', 'output_properties',
        'input_properties')
    for component in args:
        for property_type in property_types:
            if hasattr''')],
  demo=HEAD + '''
A = comp(DiagnosticComponent, {'q': {'dims': ['x'], 'units': 'm', 'alias': 'from_input'}}, None, {}, lambda s: {})
D = comp(DiagnosticComponent, {}, None, {'q': {'dims': ['x'], 'units': 'm', 'alias': 'from_diagnostic'}}, lambda s: {})
assert get_component_aliases(D(), A()) == {'q': 'from_input'}
assert get_component_aliases(A(), D()) == {'q': 'from_input'}
'''),
 'attributes_kept_shared': dict(
  property='C32', needs='in-place change of the attributes of a sum',
  breaks='the attributes of a difference are the same dictionary as those of the left operand',
  edits=[], demo=''),
}
del SEEDS['attributes_kept_shared']
