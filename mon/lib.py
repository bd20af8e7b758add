"""Generators of hostile states, declarations and components, and the
label-based reference model the oracles use. Nothing here uses the code under
test except to build the objects it is driven with."""
import copy
import itertools
from datetime import datetime, timedelta

import numpy as np
import sympl
from sympl import (
    DataArray, DiagnosticComponent, ImplicitTendencyComponent, Stepper,
    TendencyComponent)

RTOL = 1e-9


def reset_globals():
    from sympl._core.backend import DataArrayBackend, set_backend
    from sympl._core.tracers import reset_packers, reset_tracers
    sympl.reset_constants()
    reset_tracers()
    reset_packers()
    set_backend(DataArrayBackend())


# ---------------------------------------------------------------- units
# base = factor * value + offset, from the definitions of the units
_FAMILIES = {
    'length': [('m', 1.), ('km', 1e3), ('cm', 1e-2), ('mm', 1e-3), ('meter', 1.),
               ('meters', 1.)],
    'pressure': [('Pa', 1.), ('hPa', 1e2), ('mbar', 1e2), ('kPa', 1e3),
                 ('kg m^-1 s^-2', 1.), ('N m^-2', 1.), ('pascal', 1.)],
    'temperature': [('K', 1.), ('degK', 1.), ('kelvin', 1.), ('mK', 1e-3),
                    ('degC', 1., 273.15), (u'°C', 1., 273.15),
                    ('degF', 5. / 9, 459.67 * 5. / 9)],
    'fraction': [('', 1.), ('dimensionless', 1.), ('kg/kg', 1.), ('g/kg', 1e-3),
                 ('kg kg^-1', 1.), ('g kg^-1', 1e-3), ('%', 1e-2), ('percent', 1e-2)],
    'speed': [('m/s', 1.), ('m s^-1', 1.), ('km/hr', 1. / 3.6), ('km hour^-1', 1. / 3.6),
              ('cm s^-1', 1e-2)],
    'angle': [('degree', 1.), ('degrees_north', 1.), ('degrees_east', 1.),
              ('degree_N', 1.), ('degrees_E', 1.), ('radian', 180. / np.pi), (u'°', 1.)],
    'flux': [('W m^-2', 1.), ('W/m^2', 1.), ('kg s^-3', 1.), ('kW m^-2', 1e3)],
    'mass': [('kg', 1.), ('g', 1e-3), ('mg', 1e-6)],
    'energy': [('J', 1.), ('kJ', 1e3), ('kg m^2 s^-2', 1.), ('W s', 1.)],
    'duration': [('s', 1.), ('min', 60.), ('hr', 3600.), ('day', 86400.), ('second', 1.)],
}
FAMILIES = {f: [u[0] for u in us] for f, us in _FAMILIES.items()}
UNIT = {u[0]: (f, u[1], u[2] if len(u) > 2 else 0.)
        for f, us in _FAMILIES.items() for u in us}
# families that cannot be converted into one another (angles are dimensionless)
DISJOINT = ['length', 'pressure', 'temperature', 'fraction', 'speed', 'flux', 'mass',
            'energy', 'duration']
_RATES = [('s^-1', 1.), ('day^-1', 1. / 86400), ('hr^-1', 1. / 3600), ('min^-1', 1. / 60)]
for _u, (_f, _a, _b) in list(UNIT.items()):
    if _b == 0.:
        for _r, _k in _RATES:
            UNIT.setdefault((_u + ' ' + _r).strip(), (
                'speed' if _f == 'length' else _f + '/time', _a * _k, 0.))


def family(units):
    return UNIT[units][0]


def convert(values, from_units, to_units):
    """The same physical quantity in other units."""
    f1, a1, b1 = UNIT[from_units]
    f2, a2, b2 = UNIT[to_units]
    assert f1 == f2, (from_units, to_units)
    if (a1, b1) == (a2, b2):
        return np.array(values, copy=True)
    return (np.asarray(values, dtype=np.float64) * a1 + (b1 - b2)) / a2


def to_base(values, units):
    f, a, b = UNIT[units]
    return np.asarray(values, dtype=np.float64) * a + b


def unit_scale(target, *others):
    """The size of the offsets of the units, in the target units: rounding is
    relative to it."""
    return max(abs(UNIT[u][2]) for u in (target,) + others) * 2 / UNIT[target][1]


def is_linear(units):
    return UNIT[units][2] == 0.


def linear_units(fam):
    return [u for u in FAMILIES[fam] if is_linear(u)]


def same_unit(u1, u2):
    return u1 == u2 or (u1 in UNIT and u2 in UNIT and UNIT[u1] == UNIT[u2])


def rate_of(ctx, units, rates=None):
    """A unit string for units per some time."""
    r = ctx.pick(rates or _RATES)[0]
    return (units + ' ' + r).strip()


def rate_units(ctx, fam):
    return rate_of(ctx, ctx.pick(linear_units(fam)))


# ---------------------------------------------------------------- comparing
def close(a, b, rtol=RTOL, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if a.dtype.kind in 'OUS' or b.dtype.kind in 'OUS':
        return bool(np.all(a == b))
    a = a.astype(np.float64)
    b = b.astype(np.float64)
    fin = np.isfinite(b)
    if not np.array_equal(np.isnan(a), np.isnan(b)):
        return False
    if not np.array_equal(fin, np.isfinite(a)):
        return False
    inf = ~fin & ~np.isnan(b)
    if not np.array_equal(a[inf], b[inf]):
        return False
    if not fin.any():
        return True
    s = np.max(np.abs(b[fin]))
    if scale is not None:
        s = max(s, scale)
    return bool(np.max(np.abs(a[fin] - b[fin])) <= rtol * s + 1e-300)


def rtol_for(*arrays):
    for a in arrays:
        dtype = np.asarray(a).dtype
        if dtype.kind == 'f' and dtype.itemsize == 4:
            return 3e-6
        if dtype.kind == 'f' and dtype.itemsize == 2:
            return 3e-2
    return RTOL


def exact(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return (a.shape == b.shape and a.dtype == b.dtype and
            (np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')))


def spread(values, dims, target, lengths):
    """values (with the given dims) laid out in target dims, repeating along
    the missing ones."""
    values = np.asarray(values)
    order = [d for d in target if d in dims]
    assert set(order) == set(dims), (dims, target)
    values = values.transpose([list(dims).index(d) for d in order])
    index = tuple(slice(None) if d in dims else np.newaxis for d in target)
    values = values[index]
    return np.broadcast_to(values, [lengths.get(d, 1) if d not in dims else
                                    values.shape[i] for i, d in enumerate(target)])


def aligned_equal(da, values, dims, rtol=RTOL, scale=None):
    """Does the labelled array hold these values at these labels?"""
    if set(da.dims) != set(dims) or len(da.dims) != len(dims):
        return False
    got = np.asarray(da.values).transpose([list(da.dims).index(d) for d in dims])
    return close(got, values, rtol, scale)


class Snapshot(object):
    """A deep copy of a state (or any dictionary of quantities) that can tell
    whether anything observable in it changed."""

    def __init__(self, state):
        self.keys = set(state)
        self.items = {k: self._freeze(v) for k, v in state.items()}

    @staticmethod
    def _freeze(v):
        if hasattr(v, 'attrs') and hasattr(v, 'values') and hasattr(v, 'dims'):
            return ('da', np.array(v.values, copy=True), tuple(v.dims),
                    copy.deepcopy(dict(v.attrs)), v.name,
                    {n: np.array(c.values, copy=True) for n, c in v.coords.items()},
                    type(v))
        try:
            return ('other', copy.deepcopy(v), type(v))
        except Exception:
            return ('opaque', v)

    def changes(self, state, ignore=()):
        out = []
        if set(state) != self.keys:
            out.append('keys changed: {}'.format(sorted(
                map(str, set(state) ^ self.keys))))
        for k in self.keys:
            if k not in state or k in ignore:
                continue
            old, v = self.items[k], state[k]
            if old[0] == 'opaque':
                if v is not old[1]:
                    out.append('{} replaced'.format(k))
            elif old[0] == 'other':
                if type(v) is not old[2] or not _equal(v, old[1]):
                    out.append('{} changed from {!r} to {!r}'.format(k, old[1], v))
            else:
                new = self._freeze(v)
                if new[0] != 'da' or type(v) is not old[6]:
                    out.append('{} changed type'.format(k))
                elif not exact(new[1], old[1]):
                    out.append('{} changed values or dtype'.format(k))
                elif new[2] != old[2]:
                    out.append('{} changed dims {} to {}'.format(k, old[2], new[2]))
                elif not _equal(new[3], old[3]):
                    out.append('{} changed attrs {} to {}'.format(k, old[3], new[3]))
                elif new[4] != old[4]:
                    out.append('{} changed name'.format(k))
                elif set(new[5]) != set(old[5]) or not all(
                        exact(new[5][n], old[5][n]) for n in old[5]):
                    out.append('{} changed coords'.format(k))
        return out


def _equal(a, b):
    if type(a) is not type(b) and not (
            isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(_equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return exact(a, b)
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return a is b


def properties_snapshot(component):
    out = {}
    for att in ('input_properties', 'output_properties', 'tendency_properties',
                'diagnostic_properties'):
        try:
            out[att] = copy.deepcopy(getattr(component, att))
        except AttributeError:
            pass
    return out


def properties_changes(component, snapshot):
    now = properties_snapshot(component)
    out = []
    for att in sorted(set(now) | set(snapshot)):
        if not _equal(_norm(now.get(att)), _norm(snapshot.get(att))):
            out.append('{} changed from {} to {}'.format(
                att, snapshot.get(att), now.get(att)))
    return out


def _norm(p):
    """dims given as list or tuple, in whatever order combining gave them"""
    if not isinstance(p, dict):
        return p
    out = {}
    for name, d in p.items():
        d = dict(d) if isinstance(d, dict) else d
        if isinstance(d, dict) and 'dims' in d:
            d['dims'] = tuple(d['dims'])
        out[name] = d
    return out


def quantity_changes(before, after, rtol=0., names=None):
    """Differences between two dictionaries of labelled arrays."""
    out = []
    if set(before) != set(after):
        return ['keys differ: {}'.format(sorted(set(before) ^ set(after)))]
    for k in before:
        a, b = before[k], after[k]
        if hasattr(a, 'dims') != hasattr(b, 'dims'):
            out.append('{} type'.format(k))
        elif hasattr(a, 'dims'):
            if not same_unit(a.attrs.get('units'), b.attrs.get('units')):
                out.append('{} units {} vs {}'.format(
                    k, a.attrs.get('units'), b.attrs.get('units')))
            elif not aligned_equal(b, np.asarray(a.values), a.dims, rtol):
                out.append('{} values or dims: {} {} vs {} {}'.format(
                    k, a.dims, a.shape, b.dims, b.shape))
        elif not _equal(a, b):
            out.append('{} {!r} vs {!r}'.format(k, a, b))
    return out


# ---------------------------------------------------------------- generating
DIM_NAMES = ['x', 'y', 'z', 'lat', 'lon', 'mid_levels', 'interface_levels', 'dim_1',
             'a', 'ensemble', 'X', 'Lat']
NAMES = ['air_temperature', 'air_pressure', 'specific_humidity', 'eastward_wind',
         'quantity_1', 'quantity_2', 'T', 'p', 'surface_flux', 'cloud_fraction',
         'time_of_day', 'air_temperature_on_interface_levels', 'tracer', 'x_wind',
         u'temp\u00e9rature', 'two words', 'Q{0}%s', 'dims',
         'air_temperature_tendency_from_radiation']
ALIASES = ['T', 'p', 'q', 'u', 'al', 'Ta', 'sw', 'cf', 'x', 'air_temperature_', 'fld', u'\u03b8', 'a b', '{}', 'units']


def some_count(ctx, low, high):
    """Mostly few, sometimes more."""
    if ctx.chance(0.07):
        return ctx.rng.randint(high + 1, high + 3)
    return ctx.rng.randint(low, high)


def dim_lengths(ctx, n=None, zero=0.06):
    """A random set of dimensions with lengths, small, often equal."""
    n = ctx.rng.randint(1, 5) if n is None else n
    names = ctx.rng.sample(DIM_NAMES, n)
    pool = ctx.pick([[1, 2, 3], [2, 3, 4], [2, 2, 2], [1, 1, 3], [2, 3], [3, 4, 5]])
    out = {d: ctx.pick(pool) for d in names}
    if n <= 3 and ctx.chance(0.03):
        out[ctx.pick(names)] = ctx.pick([17, 64, 150])
    if ctx.chance(zero):
        out[ctx.pick(names)] = 0
    return out


class Values(object):
    """Hands out values that are unique over the whole case."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.next = ctx.rng.randint(1, 40)

    def take(self, shape, dtype=np.float64, special=0.0, lo=None):
        n = int(np.prod(shape)) if len(shape) else 1
        dtype = np.dtype(dtype)
        vals = self.next + np.arange(n, dtype=np.float64)
        self.next += n + self.ctx.rng.randint(0, 5)
        if dtype.kind == 'f':
            vals = vals * 1.0625 - 7.375
        if dtype.kind == 'b':
            vals = (vals % 2).astype(bool)
        order = list(range(n))
        self.ctx.rng.shuffle(order)
        vals = vals[order].astype(dtype).reshape(shape)
        if special and dtype.kind == 'f' and vals.size and self.ctx.chance(special):
            flat = vals.reshape(-1)
            flat[self.ctx.rng.randrange(n)] = self.ctx.pick([np.nan, np.inf, -np.inf])
        return vals


def layout(ctx, values):
    """The same array in some memory layout."""
    kind = ctx.pick(['c', 'c', 'f', 'strided', 'readonly', 'reversed'])
    if values.ndim == 0:
        kind = 'c' if kind != 'readonly' else kind
    if kind == 'f':
        out = np.asfortranarray(values)
    elif kind == 'strided':
        big = np.zeros([2 * n + 1 for n in values.shape], dtype=values.dtype)
        view = big[tuple(slice(1, None, 2) for _ in values.shape)]
        view[...] = values
        out = view
    elif kind == 'reversed':
        out = np.array(values[tuple(slice(None, None, -1) for _ in values.shape)])[
            tuple(slice(None, None, -1) for _ in values.shape)]
    else:
        out = np.array(values)
        if kind == 'readonly':
            out.flags.writeable = False
    return out


def labels(ctx, dim, n):
    """The coordinate of a dimension, of the same kind for all quantities of a case."""
    kind = (ctx.index + sum(map(ord, dim))) % 12
    if kind == 0:  # labels that occur twice
        return np.arange(n) // 2 * 1.
    if kind == 1:
        return np.asarray(['level {}'.format(i) for i in range(n)], dtype='U9')
    if kind == 2:
        return np.datetime64('2000-01-01', 'ns') + np.arange(n) * np.timedelta64(1, 'D')
    if kind == 3:
        return -np.arange(n) * .5
    if kind == 4:
        return np.where(np.arange(n) == 1, np.nan, np.arange(n))
    return np.arange(n) * 10. + 5


def quantity(ctx, vals, dims, lengths, units, dtype=None, special=0.0, coords=0.3,
             extra_attrs=0.3, writable=False):
    """A labelled array of fresh unique values."""
    if dtype is None:
        dtype = ctx.pick([np.float64] * 6 + [np.float32, np.int32, np.int64])
        if ctx.chance(0.04):
            dtype = np.dtype(ctx.pick(['>f8', '>f4', 'int16', 'uint16', 'uint32', '>i4']))
    values = vals.take([lengths[d] for d in dims], dtype, special)
    values = np.array(values) if writable else layout(ctx, values)
    attrs = {'units': units}
    if ctx.chance(extra_attrs):
        attrs['long_name'] = 'some quantity'
        if ctx.chance(0.5):
            attrs['count'] = 3
        if ctx.chance(0.5):
            attrs = dict(reversed(list(attrs.items())))
    kwargs = {}
    if ctx.chance(coords):
        kwargs['coords'] = {
            d: labels(ctx, d, lengths[d]) for d in dims if ctx.chance(0.6)}
        if ctx.chance(0.15):
            kwargs['coords']['run'] = 5
        if dims and ctx.chance(0.15):
            kwargs['coords']['label_of_' + dims[0]] = (dims[0], ['k'] * lengths[dims[0]])
    if ctx.chance(0.08):
        kwargs['name'] = 'named'
    return DataArray(values, dims=list(dims), attrs=attrs, **kwargs)


def some_time(ctx):
    kind = ctx.rng.randrange(4)
    if kind == 0:
        return datetime(2000, 1, 1) + timedelta(seconds=ctx.rng.randrange(10 ** 8))
    if kind == 1:
        return timedelta(seconds=ctx.rng.randrange(10 ** 6))
    if kind == 2:
        return sympl.datetime(1999, 12, 30, 5, calendar=ctx.pick(
            ['no_leap', '360_day', 'all_leap', 'julian', 'gregorian']))
    return datetime(1, 1, 1) + timedelta(days=ctx.rng.randrange(10 ** 6))


def some_timestep(ctx):
    return ctx.pick([
        timedelta(seconds=1), timedelta(seconds=10), timedelta(minutes=20),
        timedelta(hours=1), timedelta(days=1), timedelta(days=3, seconds=7),
        timedelta(microseconds=1), timedelta(microseconds=500003),
        timedelta(seconds=2, microseconds=5)])


class Layout(object):
    """A random declaration of inputs with a state that satisfies it."""

    def __init__(self, ctx, n_inputs=None, wildcard=None, dtype=None, special=0.08,
                 aliases=True, zero=0.06, linear=False, families=None, writable=False):
        self.ctx = ctx
        self.vals = Values(ctx)
        self.lengths = dim_lengths(ctx, zero=zero)
        dims = list(self.lengths)
        if wildcard is None:
            wildcard = ctx.chance(0.55)
        n_wild = ctx.rng.randint(0, len(dims)) if wildcard else 0
        self.wild = ctx.rng.sample(dims, n_wild)
        self.explicit = [d for d in dims if d not in self.wild]
        self.any_wild = False
        self.offsets = not linear
        self.dtype, self.special, self.writable = dtype, special, writable
        n = some_count(ctx, 1, 4) if n_inputs is None else n_inputs
        names = ctx.rng.sample(NAMES, n)
        self.inputs = {}
        self.state = {}
        self.used_aliases = set()
        for i, name in enumerate(names):
            fam = ctx.pick(families or list(FAMILIES))
            pool = linear_units(fam) if linear else FAMILIES[fam]
            declared = ctx.rng.sample(self.explicit, ctx.rng.randint(0, len(self.explicit)))
            has_wild = wildcard and (ctx.chance(0.75) or (i == n - 1 and not self.any_wild))
            present = [d for d in declared if ctx.chance(0.75)]
            if has_wild:
                self.any_wild = True
                present += [d for d in self.wild if ctx.chance(0.7)]
                declared = list(declared)
                declared.insert(ctx.rng.randint(0, len(declared)), '*')
            ctx.rng.shuffle(present)
            prop = {'units': ctx.pick(pool),
                    'dims': ctx.pick([list, tuple])(declared)}
            if aliases and ctx.chance(0.35):
                alias = ctx.pick(ALIASES)
                if alias not in self.used_aliases and alias not in names:
                    prop['alias'] = alias
                    self.used_aliases.add(alias)
            state_units = ctx.pick(pool)
            self.inputs[name] = prop
            self.state[name] = quantity(
                ctx, self.vals, present, self.lengths, state_units, dtype=dtype,
                special=special, writable=writable)
        # other quantities the component does not ask for
        for name in ctx.rng.sample([x for x in NAMES if x not in names], 2):
            r = ctx.rng.random()
            if r < 0.3:
                self.state[name] = DataArray(
                    self.vals.take([7]), dims=['unrelated'], attrs={'units': 'm'})
            elif r < 0.4:
                self.state[name] = ctx.pick(['text', 3, None, np.zeros(3)])
        self.state['time'] = some_time(ctx)
        items = list(self.state.items())
        ctx.rng.shuffle(items)
        self.state = dict(items)
        ctx.tag('n_inputs={}'.format(n), 'wild={}'.format(len(self.wild) if wildcard else '-'))
        for name, prop in self.inputs.items():
            ctx.tag('dims={}<-{}'.format(
                len(prop['dims']), len(self.state[name].dims)),
                'units {}<-{}'.format(prop['units'], self.state[name].attrs['units']))
        ctx.log('inputs', self.inputs)
        for name in self.inputs:
            q = self.state[name]
            ctx.log('state', name, q.dims, q.shape, q.dtype, q.attrs)

    def restate(self, avoid=(), keep_units=0.3, same_shape=False):
        """A layout of the same inputs with another state that satisfies them:
        other units, lengths, orders, wildcard dims and times (with same_shape
        the dims of each input stay, in another order)."""
        ctx = self.ctx
        new = copy.copy(self)
        if not same_shape:
            declared = {d for p in self.inputs.values() for d in p['dims']}
            free = [d for d in DIM_NAMES if d not in declared and d not in self.explicit and
                    d not in avoid]
            n_wild = min(len(free), ctx.rng.randint(0, 3)) if self.any_wild else 0
            keep = [d for d in self.wild if d not in declared and d not in avoid]
            new.wild = ctx.rng.sample(free, n_wild) if ctx.chance(0.6) or not keep else list(keep)
            pool = ctx.pick([[1, 2, 3], [2, 3, 4], [2, 2, 2], [1, 1, 3], [5, 7]])
            new.lengths = {d: ctx.pick(pool) for d in list(self.explicit) + new.wild}
        new.state = {}
        for name, prop in self.inputs.items():
            old = self.state[name]
            if same_shape:
                present = list(old.dims)
            else:
                present = [d for d in prop['dims'] if d != '*' and ctx.chance(0.75)]
                if '*' in prop['dims']:
                    present += [d for d in new.wild if ctx.chance(0.75)]
            ctx.rng.shuffle(present)
            units = old.attrs['units']
            if not ctx.chance(keep_units):
                fam = family(prop['units'])
                units = ctx.pick(FAMILIES[fam] if fam in FAMILIES else [prop['units']])
                if not self.offsets and not is_linear(units):
                    units = prop['units']
            new.state[name] = quantity(
                ctx, self.vals, present, new.lengths, units, dtype=self.dtype,
                special=self.special, writable=self.writable)
        new.state['time'] = some_time(ctx)
        ctx.log('another state', {n: (q.dims, q.shape, str(q.dtype), q.attrs['units'])
                                  for n, q in new.state.items() if n != 'time'})
        return new

    def revised(self, avoid=()):
        """What the inputs are at another call: the same state, the same
        arrays with other contents, or an entirely different state."""
        ctx = self.ctx
        r = ctx.rng.random()
        if r < 0.1:
            ctx.saw('the same state again')
            return self
        if r > 0.35:
            ctx.saw('another state')
            return self.restate(avoid)
        ctx.saw('changed in place')
        new = copy.copy(self)
        if ctx.chance(0.5):
            new.state = dict(self.state)
        for name in self.inputs:
            if ctx.chance(0.3):  # another array under the same name
                new.state[name] = new.state[name].copy(deep=True)
            q = new.state[name]
            v = q.values
            if v.flags.writeable and 0 not in v.strides and v.dtype.kind == 'f' and \
                    ctx.chance(0.7):
                v[...] = self.vals.take(v.shape, v.dtype)
            if ctx.chance(0.3):
                fam = family(self.inputs[name]['units'])
                units = ctx.pick(FAMILIES[fam] if fam in FAMILIES else [q.attrs['units']])
                if self.offsets or is_linear(units):
                    q.attrs['units'] = units
        if ctx.chance(0.5):
            new.state['time'] = some_time(ctx)
        ctx.log('changed state', {n: (q.dims, q.shape, str(q.dtype), q.attrs['units'])
                                  for n, q in new.state.items() if n in self.inputs})
        return new

    # ---- the reference model
    def present_lengths(self):
        """Lengths of the dims that some input actually has."""
        out = {}
        for name in self.inputs:
            q = self.state[name]
            out.update(zip(q.dims, q.shape))
        return out

    def wildcard_set(self):
        out = []
        for name, prop in self.inputs.items():
            for d in self.state[name].dims:
                if d not in prop['dims'] and d not in out:
                    out.append(d)
        return out

    def key(self, name):
        return self.inputs[name].get('alias', name)

    def expected_array(self, name, wild_order):
        prop, q = self.inputs[name], self.state[name]
        lengths = self.present_lengths()
        target = []
        for d in prop['dims']:
            target.extend(wild_order if d == '*' else [d])
        values = q.values if q.attrs['units'] == prop['units'] else convert(
            q.values, q.attrs['units'], prop['units'])
        arr = spread(values, q.dims, target, lengths)
        if '*' in prop['dims']:
            i = list(prop['dims']).index('*')
            shape = list(arr.shape)
            n = int(np.prod(shape[i:i + len(wild_order)]))
            arr = arr.reshape(shape[:i] + [n] + shape[i + len(wild_order):])
        return arr

    def matching_orders(self, raw, exact=False):
        """The wildcard orders under which every received array holds what it
        should; empty if there is none."""
        out = []
        for order in itertools.permutations(self.wildcard_set()):
            if all(self._matches(name, raw, order, exact) for name in self.inputs):
                out.append(order)
        return out

    def _matches(self, name, raw, order, exact=False):
        want = self.expected_array(name, order)
        got = raw.get(self.key(name))
        if exact and got is not None and \
                self.inputs[name]['units'] == self.state[name].attrs['units']:
            # nothing to convert: the very values
            return got.dtype.kind == want.dtype.kind and np.array_equal(
                got, want, equal_nan=want.dtype.kind in 'fc')
        return got is not None and close(
            got, want, rtol_for(self.state[name].values),
            unit_scale(self.inputs[name]['units'], self.state[name].attrs['units']))


# ---------------------------------------------------------------- components
BASES = {'tendency': TendencyComponent, 'implicit': ImplicitTendencyComponent,
         'stepper': Stepper, 'diagnostic': DiagnosticComponent}
OUT_ATT = {'tendency': 'tendency_properties', 'implicit': 'tendency_properties',
           'stepper': 'output_properties'}


def make_component(ctx, kind, inputs, outputs, diagnostics, function, init=None,
                   style=None, **attrs):
    """A component of the given kind whose computation is
    function(raw_state, timestep) -> (outputs, diagnostics). The properties
    are class attributes, instance attributes or properties."""
    init = dict(init or {})
    base = BASES[kind]
    style = style or ctx.pick(['class', 'instance', 'property', 'decoyed'])
    if style == 'decoyed':
        if attrs.get('uses_tracers') or init.get('tendencies_in_diagnostics') or not all(
                type(p) is dict and all(type(v) is dict and 'units' in v for v in p.values())
                for p in (inputs, outputs, diagnostics)):
            style = 'instance'
    props = {'input_properties': inputs, 'diagnostic_properties': diagnostics}
    if kind != 'diagnostic':
        props[OUT_ATT[kind]] = outputs
    body = dict(attrs)
    if kind in ('tendency',):
        def array_call(self, state):
            return function(state, None)
    elif kind == 'diagnostic':
        def array_call(self, state):
            return function(state, None)[1]
    elif kind == 'implicit':
        def array_call(self, state, timestep):
            return function(state, timestep)
    else:
        def array_call(self, state, timestep):
            out, diag = function(state, timestep)
            return diag, out
    body['array_call'] = array_call
    if style == 'decoyed':
        return decoyed(ctx, kind, props, body, init)
    if style == 'class':
        body.update(props)
    elif style == 'instance':
        body.update({k: None for k in props})

        def __init__(self, **kwargs):
            for k, v in props.items():
                setattr(self, k, dict(v) if isinstance(v, dict) else v)
            base.__init__(self, **kwargs)
        body['__init__'] = __init__
    else:
        # a read-only property that gives a fresh dictionary cannot take the
        # diagnostics that tendencies_in_diagnostics adds
        if init.get('tendencies_in_diagnostics'):
            return make_component(ctx, kind, inputs, outputs, diagnostics, function,
                                  init, 'instance', **attrs)
        for k, v in props.items():
            body[k] = property(lambda self, v=v: dict(v))
    cls = type('Made' + kind.title(), (base,), body)
    return cls(**init)


def decoyed(ctx, kind, props, body, init):
    """An instance of a class of which other instances, with other properties
    for quantities of the same names, were made and called."""
    base = BASES[kind]
    real = body.pop('array_call')
    body.update({k: None for k in props})

    def __init__(self, own, function, **kwargs):
        for k, v in own.items():
            setattr(self, k, v)
        self.function = function
        base.__init__(self, **kwargs)

    if kind in ('implicit', 'stepper'):
        def array_call(self, state, timestep):
            return self.function(self, state, timestep)
    else:
        def array_call(self, state):
            return self.function(self, state)
    cls = type('Made' + kind.title(), (base,), dict(body, __init__=__init__,
                                                    array_call=array_call))
    other = {k: {n: {'dims': ['decoy', '*'], 'units': 'kg^3 s^-5'} for n in v}
             for k, v in props.items()}
    for p in other.get('tendency_properties', {}).values():
        p['units'] = 'kg^3 s^-6'
    other['input_properties'].setdefault('decoy', {'dims': ['*'], 'units': 'K'})

    def decoy(self, state, timestep=None):
        made = [{n: np.zeros((2, 3)) for n in other[k]} for k in (
            OUT_ATT.get(kind), 'diagnostic_properties') if k]
        return made[0] if len(made) == 1 else (
            (made[1], made[0]) if kind == 'stepper' else (made[0], made[1]))

    def make_decoy():
        d = cls({k: {n: dict(p) for n, p in v.items()} for k, v in other.items()}, decoy)
        state = {n: DataArray(np.ones((2, 3)), dims=['decoy', 'w'], attrs={'units': p['units']})
                 for n, p in other['input_properties'].items()}
        state['decoy'] = DataArray(np.ones(3), dims=['w'], attrs={
            'units': other['input_properties']['decoy']['units']})
        state['time'] = timedelta(seconds=1)
        if 'decoy' in [n for n in props['input_properties']]:
            return d
        call(kind, d, state, timedelta(seconds=1))
        return d
    ctx.saw('decoy')
    before = make_decoy() if ctx.chance(0.6) else None
    out = cls({k: dict(v) for k, v in props.items()}, real, **init)
    cls.decoys = (before, make_decoy() if ctx.chance(0.6) else None)
    return out


def call(kind, component, state, timestep):
    """Calls a component; returns (outputs, diagnostics)."""
    if kind == 'tendency':
        return component(state)
    if kind == 'implicit':
        return component(state, timestep)
    if kind == 'stepper':
        diag, out = component(state, timestep)
        return out, diag
    return {}, component(state)


KINDS = ['tendency', 'implicit', 'stepper', 'diagnostic']


# ---------------------------------------------------------------- outputs
class Outputs(object):
    """A random declaration of outputs (tendencies, outputs or diagnostics) for
    a Layout, and arrays for the computation to return."""

    def __init__(self, ctx, lay, what, n=None, allow_alias=True, inherit=True,
                 avoid=(), max_new=2, namesakes=False):
        self.ctx, self.lay, self.what = ctx, lay, what
        self.lengths = lay.present_lengths()
        self.declared_missing = set()
        for prop in lay.inputs.values():
            for d in prop['dims']:
                if d != '*' and d not in self.lengths:
                    self.declared_missing.add(d)
        self.new_lengths = {'new_1': ctx.rng.randint(1, 4), 'new_2': ctx.rng.randint(1, 3)}
        self.properties = {}
        n = some_count(ctx, 0, 3) if n is None else n
        candidates = [x for x in NAMES if x not in avoid]
        if what == 'tendency':  # degC s^-1 means nothing
            avoid = set(avoid) | {
                x for x, p in lay.inputs.items() if not is_linear(p['units'])}
        # a name may be the alias of an input as well: the key means the name
        namesakes = namesakes and ctx.chance(0.3)
        input_aliases = [p['alias'] for p in lay.inputs.values() if 'alias' in p]
        if namesakes:
            avoid = set(avoid)
            candidates = candidates + input_aliases * 3
        else:
            avoid = set(avoid) | set(input_aliases)
        candidates = [x for x in candidates if x not in avoid]
        shared = [x for x in lay.inputs if x not in avoid]
        explicit = [d for d in lay.explicit if d not in lay.wildcard_set()]
        while len(self.properties) < n:
            name = ctx.pick(shared if shared and ctx.chance(0.45) else candidates)
            if name in self.properties:
                if len(self.properties) >= len(candidates):
                    break
                continue
            if name in lay.inputs:
                fam = family(lay.inputs[name]['units'])
            else:
                fam = ctx.pick(list(FAMILIES))
            if what == 'tendency':
                if fam.endswith('/time'):
                    fam = fam[:-5]
                units = rate_units(ctx, fam)
            else:
                units = ctx.pick(FAMILIES[fam])
            prop = {'units': units}
            if not (inherit and name in lay.inputs and ctx.chance(0.5)):
                dims = ctx.rng.sample(explicit, ctx.rng.randint(0, len(explicit)))
                for d in list(self.new_lengths)[:max_new]:
                    if ctx.chance(0.15):
                        dims.insert(ctx.rng.randint(0, len(dims)), d)
                if lay.any_wild and ctx.chance(0.6):
                    dims.insert(ctx.rng.randint(0, len(dims)), '*')
                prop['dims'] = ctx.pick([list, tuple])(dims)
            self.properties[name] = prop
        # aliases that name nothing else
        taken = set(self.properties) | set(lay.inputs) | {
            p.get('alias') for p in lay.inputs.values()}
        for name, prop in self.properties.items():
            if allow_alias and ctx.chance(0.3):
                alias = ctx.pick(ALIASES + ['out_' + a for a in ALIASES])
                if namesakes and ctx.chance(0.7):
                    alias = ctx.pick(list(self.properties) + input_aliases)
                    if alias == name or alias in [
                            p.get('alias') for p in self.properties.values()]:
                        continue
                    prop['alias'] = alias
                elif alias not in taken:
                    prop['alias'] = alias
                    taken.add(alias)
        self.keys = {}
        for name in self.properties:
            self.keys[name] = ctx.pick(self.possible_keys(name))

    def rebind(self, lay):
        """The same declarations for another state of the layout."""
        new = copy.copy(self)
        new.lay, new.lengths = lay, lay.present_lengths()
        return new

    def possible_keys(self, name):
        keys = [name]
        if 'alias' in self.properties[name]:
            keys.append(self.properties[name]['alias'])
        if 'alias' in self.lay.inputs.get(name, {}):
            keys.append(self.lay.inputs[name]['alias'])
        others = {n: p for n, p in self.properties.items() if n != name}
        clear = [k for k in keys if k not in others and all(
            k != p.get('alias') for p in others.values())]
        if len(clear) < len(keys):
            self.ctx.saw('namesake')
        # the name itself is always this quantity's
        return [name] + [k for k in clear if k != name]

    def dims(self, name):
        if 'dims' in self.properties[name]:
            return list(self.properties[name]['dims'])
        return list(self.lay.inputs[name]['dims'])

    def length(self, d):
        if d == '*':
            return int(np.prod([self.lengths[w] for w in self.lay.wildcard_set()]))
        if d in self.lengths:
            return self.lengths[d]
        return self.new_lengths.get(d, 1)

    def shape(self, name):
        return [self.length(d) for d in self.dims(name)]

    def fits(self, name, shape):
        dims = self.dims(name)
        return len(shape) == len(dims) and all(
            n == self.length(d) for d, n in zip(dims, shape)
            if d == '*' or d in self.lengths)

    def make(self, dtype=None, writable=False):
        """Fresh arrays for the computation to return, by name."""
        ctx = self.ctx
        out = {}
        for name in self.properties:
            dt = dtype or ctx.pick([np.float64] * 5 + [np.float32, np.int64])
            a = self.lay.vals.take(self.shape(name), dt, 0.05)
            out[name] = np.array(a) if writable else layout(ctx, a)
        return out

    def keyed(self, arrays):
        return {self.keys[name]: a for name, a in arrays.items()}

    def mismatch(self, name, raw, da, orders):
        """Why the returned quantity is not what the computation returned as
        raw, for any of the wildcard orders, or None."""
        prop = self.properties[name]
        if not isinstance(da, DataArray):
            return 'is of type {}'.format(type(da))
        if da.attrs.get('units') != prop['units']:
            return 'has units {!r} instead of {!r}'.format(
                da.attrs.get('units'), prop['units'])
        declared = self.dims(name)
        wild = set(self.lay.wildcard_set())
        want = []
        i = 0
        got = list(da.dims)
        for d in declared:
            if d == '*':
                part = got[i:i + len(wild)]
                if set(part) != wild:
                    return 'has dims {} for declared {} with * = {}'.format(
                        got, declared, sorted(wild))
                i += len(wild)
                want.extend(part)
            else:
                if got[i:i + 1] != [d]:
                    return 'has dims {} for declared {}'.format(got, declared)
                i += 1
                want.append(d)
        if i != len(got):
            return 'has dims {} for declared {}'.format(got, declared)
        raw = np.asarray(raw)
        for order in orders:
            target, shape = [], []
            for d, n in zip(declared, raw.shape):
                if d == '*':
                    target.extend(order)
                    shape.extend(self.lengths[w] for w in order)
                else:
                    target.append(d)
                    shape.append(n)
            if aligned_equal(da, raw.reshape(shape), target, 0.):
                return None
        return 'values are not where the computation put them: {} {} from raw {}'.format(
            da.dims, da.values.tolist(), raw.tolist())
