"""C22: what NetCDF monitors write."""
import os
from datetime import datetime, timedelta

import cftime
import netCDF4
import numpy as np
import sympl
from sympl import DataArray, NetCDFMonitor
from mon.lib import FAMILIES, Snapshot, Values, dim_lengths, layout

CASES = {'quick': 9000, 'thorough': 60000}
REQUIRED = ('monitor:records', 'monitor:times', 'monitor:values', 'monitor:dims',
            'monitor:attributes', 'monitor:state untouched', 'monitor:refused',
            'monitor:nothing added', 'monitor:alias refused', 'modified after store',
            'out of order', 'merged', 'write on store', 'several monitors', 'alias',
            'name filter', 'scalar', 'timedelta', 'calendar', 'empty write', 'transposed',
            'appended', 'attribute left out', 'arguments reused', 'narrower type',
            'refused again', 'failed write repeated')
RULE = ('random histories of stores and writes by one or more monitors on one file, with '
        'random quantities, filters, aliases, time units, calendars and orders of times, the '
        'state modified after each store; the file is read independently after every write '
        'and compared with a model of the history. One fault (another set of quantities, '
        'attribute, dims, length, type, calendar) per refusal history. Distinct by '
        'operations, dims and configuration.')
ASSUMPTIONS = ['times are whole multiples of the time units apart', 'no quantity or dimension '
               'is named time', 'dtypes float32, float64, int16, int32, int64, the widest of a '
               'quantity in the first write', 'attributes are strings and numbers']
NAMES = ['air_temperature', 'air_pressure', 'T', 'x', 'cloud', 'air_temperature_tendency',
         'surface_pressure', 'time_of_day', 'q', 'wind speed', 'air_pressure_on_levels']
UNITS = {'seconds': timedelta(seconds=1), 'minutes': timedelta(minutes=1),
         'hours': timedelta(hours=1), 'days': timedelta(days=1)}
CALENDARS = ['no_leap', '360_day', 'all_leap', 'julian', 'gregorian', 'noleap', '365_day']
# types whose values the type can hold
NARROWER = {np.float64: [np.float32, np.int16, np.int32], np.float32: [np.int16],
            np.int64: [np.int16, np.int32], np.int32: [np.int16], np.int16: []}


class Schema(object):
    """The quantities of the states of one file."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.vals = Values(ctx)
        self.lengths = dim_lengths(ctx, zero=0.)
        names = ctx.rng.sample(NAMES, ctx.rng.randint(1, 4))
        self.quantities = {}
        for n in names:
            dims = ctx.rng.sample(list(self.lengths), ctx.rng.randint(0, min(
                3, len(self.lengths))))
            if n in self.lengths and n not in dims:
                # the NetCDF library cannot always create a variable named like a
                # dimension that it does not have
                dims = [n]
            if not dims:
                ctx.saw('scalar')
            attrs = {'units': ctx.pick(FAMILIES[ctx.pick(list(FAMILIES))])}
            if ctx.chance(0.3):
                attrs['long_name'] = ctx.pick(['some name', 'x', u'\u00e9'])
            if ctx.chance(0.2):
                attrs['number'] = ctx.pick([3, 2.5, -1])
            if ctx.chance(0.1):
                attrs['_note'] = 'not special'
            self.quantities[n] = {
                'dims': dims, 'attrs': attrs, 'dtype': ctx.pick(
                    [np.float64] * 4 + [np.float32, np.int16, np.int32, np.int64])}
        ctx.tag(*['{}d{}'.format(len(q['dims']), np.dtype(q['dtype']).str)
                  for q in self.quantities.values()])
        ctx.log('schema', self.quantities, self.lengths)

    def array(self, name, transposed=False, drop_attr=False, narrow=False):
        ctx = self.ctx
        q = self.quantities[name]
        dtype = q['dtype']
        if narrow and ctx.chance(0.3) and NARROWER[dtype]:
            ctx.saw('narrower type')
            dtype = ctx.pick(NARROWER[dtype])
        dims = list(q['dims'])
        if transposed and len(dims) > 1:
            ctx.saw('transposed')
            ctx.rng.shuffle(dims)
        attrs = dict(q['attrs'])
        if drop_attr and len(attrs) > 1:
            ctx.saw('attribute left out')
            attrs.pop(ctx.pick(list(attrs)))
        values = self.vals.take([self.lengths[d] for d in dims], dtype, 0.1)
        coords = {}
        if ctx.chance(0.2):
            coords = {d: np.arange(self.lengths[d]) * 2. for d in dims}
        return DataArray(np.array(layout(ctx, values)), dims=dims, attrs=attrs, coords=coords)

    def state(self, time, transposed=False, drop_attr=False, narrow=False):
        names = list(self.quantities)
        self.ctx.rng.shuffle(names)
        out = {n: self.array(n, transposed, drop_attr, narrow) for n in names}
        out['time'] = time
        return out


class Times(object):
    def __init__(self, ctx, unit=None):
        self.ctx = ctx
        self.unit_name = unit or ctx.pick(list(UNITS))
        self.unit = UNITS[self.unit_name]
        kind = ctx.rng.randrange(4)
        if kind == 0:
            ctx.saw('timedelta')
            self.base = timedelta(seconds=ctx.rng.randrange(10 ** 6)) if \
                self.unit_name == 'seconds' else self.unit * ctx.rng.randrange(100)
        elif kind == 1:
            ctx.saw('calendar')
            self.base = sympl.datetime(
                ctx.rng.randint(1800, 2100), ctx.rng.randint(1, 12), ctx.rng.randint(1, 28),
                ctx.rng.randrange(24), 30, calendar=ctx.pick(CALENDARS))
        else:
            self.base = datetime(
                ctx.rng.randint(1600, 2200), ctx.rng.randint(1, 12), ctx.rng.randint(1, 28),
                ctx.rng.randrange(24), ctx.rng.randrange(60), ctx.rng.randrange(60),
                123456 if ctx.chance(0.1) else 0)
        self.used = []

    def take(self, fresh=False):
        ctx = self.ctx
        if self.used and not fresh and ctx.chance(0.15):
            return ctx.pick(self.used)
        while True:
            t = self.base + self.unit * ctx.rng.randint(0, 400)
            if t not in self.used:
                break
        if self.used and t < self.used[-1]:
            ctx.saw('out of order')
        self.used.append(t)
        return t


def frozen(state, names):
    return {n: (tuple(state[n].dims), np.array(state[n].values), dict(state[n].attrs))
            for n in names}


def rename(name, aliases):
    for old, new in aliases.items():
        name = name.replace(old, new)
    return name


class FileModel(object):
    def __init__(self, ctx, path):
        self.ctx, self.path = ctx, path
        self.records = []      # (time, {name: (dims, values, attrs)})
        self.variables = {}    # name -> (dims, attrs)

    def write(self, cache):
        batch = sorted(cache.items(), key=lambda item: item[0])
        if not batch:
            return
        for name, (dims, values, attrs) in batch[0][1].items():
            dtype = np.result_type(*[state[name][1].dtype for _, state in batch])
            self.variables.setdefault(name, (dims, attrs, dtype))
        self.records.extend(batch)

    def compare(self):
        ctx = self.ctx
        if not self.records:
            if os.path.exists(self.path):
                with netCDF4.Dataset(self.path) as f:
                    ctx.check('records', 'time' not in f.dimensions or
                              len(f.dimensions['time']) == 0, 'records in the file')
            return
        with netCDF4.Dataset(self.path) as f:
            f.set_auto_maskandscale(False)
            ctx.check('records', len(f.dimensions['time']) == len(self.records),
                      '{} records instead of {}'.format(
                          len(f.dimensions['time']), len(self.records)))
            ctx.check('records', set(f.variables) == set(self.variables) | {'time'},
                      'variables {} instead of {}'.format(
                          sorted(f.variables), sorted(self.variables)))
            times = read_times(f.variables['time'], self.records[0][0])
            want = [r[0] for r in self.records]
            ctx.check('times', len(times) == len(want) and all(
                same_time(a, b) for a, b in zip(times, want)),
                'times {} instead of {}'.format(times, want),
                f.variables['time'].units, f.variables['time'][:])
            for name, (dims, attrs, dtype) in self.variables.items():
                v = f.variables[name]
                ctx.check('dims', v.dimensions == ('time',) + dims,
                          '{} has dims {} instead of {}'.format(name, v.dimensions, dims))
                ctx.check('dims', v.dtype == dtype, '{} has type {} instead of {}'.format(
                    name, v.dtype, dtype))
                got = {k: v.getncattr(k) for k in v.ncattrs()}
                ctx.check('attributes', got == attrs, '{} has attributes {} instead of {}'.format(
                    name, got, attrs))
                data = v[:]
                for i, (_, state) in enumerate(self.records):
                    have_dims, values, _ = state[name]
                    values = values.transpose([have_dims.index(d) for d in dims])
                    ctx.check('values', np.array_equal(
                        data[i], values, equal_nan=values.dtype.kind == 'f'),
                        '{} at {} is {} instead of {}'.format(
                            name, self.records[i][0], data[i].tolist(), values.tolist()))


def read_times(variable, example):
    if isinstance(example, timedelta):
        return [UNITS[variable.units] * int(n) for n in variable[:]]
    return list(cftime.num2date(
        variable[:], variable.units, calendar=variable.calendar,
        only_use_cftime_datetimes=True))


def same_time(got, want):
    if isinstance(want, timedelta):
        return got == want
    calendar = getattr(want, 'calendar', 'proleptic_gregorian')
    fields = lambda t: (t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond)
    return fields(got) == fields(want) and _cal(got.calendar) == _cal(calendar)


def _cal(name):
    return {'no_leap': 'noleap', '365_day': 'noleap', 'all_leap': 'all_leap',
            '366_day': 'all_leap', 'gregorian': 'standard'}.get(name, name)


def pick_aliases(ctx, names):
    """Replacements that do not make two names equal, even on the way."""
    pieces = ['air', 'temperature', 'pressure', 'T', 'cloud', 'q', 'surface_', 'e', ' ', 'tim',
              'air_temperature', 'x', 'nothing']
    for _ in range(20):
        out = {p: ctx.pick(['A', 'p', 'T', 'short', 'tmp_', 'zz'])
               for p in ctx.rng.sample(pieces, ctx.rng.randint(1, 3))}
        current, ok = list(names), True
        for old, new in out.items():
            after = [n.replace(old, new) for n in current]
            changed = [a for a, n in zip(after, current) if a != n]
            ok = ok and len(set(after)) == len(after) and not (
                set(changed) & (set(current) | {'time', ''}))
            current = after
        if ok and all(n and n != 'time' for n in current):
            return out
    return {}


def hurt(ctx, state):
    """Changes everything in the caller's state."""
    for n, v in state.items():
        if isinstance(v, DataArray):
            v.values[...] = 99
            v.attrs['units'] = 'parsec'
            v.attrs['new'] = 'x'
    for n in list(state):
        if n != 'time' and ctx.chance(0.3):
            del state[n]
    state['time'] = 'never'
    ctx.saw('modified after store')


def history_case(ctx):
    schema, path = Schema(ctx), os.path.join(ctx.scratch(), 'out.nc')
    names = list(schema.quantities)
    aliases, only = {}, None
    if ctx.chance(0.35):
        aliases = pick_aliases(ctx, names)
        if any(rename(n, aliases) != n for n in names):
            ctx.saw('alias')
    if ctx.chance(0.35):
        only = ctx.rng.sample(names, ctx.rng.randint(1, len(names)))
        if len(only) < len(names):
            ctx.saw('name filter')
    times = Times(ctx)
    stored = [n for n in names if only is None or n in only]
    model = FileModel(ctx, path)
    monitors = []

    def new_monitor():
        kwargs = {'time_units': times.unit_name}
        if aliases or ctx.chance(0.2):
            kwargs['aliases'] = dict(aliases)
        if only is not None:
            kwargs['store_names'] = ctx.pick([list, tuple, set])(only + ['absent'])
        on_store = ctx.chance(0.3)
        if on_store or ctx.chance(0.3):
            kwargs['write_on_store'] = on_store
        monitors.append({'monitor': NetCDFMonitor(path, **kwargs), 'cache': {},
                         'on_store': on_store})
        ctx.log('monitor', kwargs)
        for key in ('aliases', 'store_names'):
            if key in kwargs and not isinstance(kwargs[key], tuple) and ctx.chance(0.3):
                ctx.saw('arguments reused')
                kwargs[key].clear()
    new_monitor()
    if ctx.chance(0.4):
        ctx.saw('several monitors')
        new_monitor()
    ops = []
    for i in range(ctx.rng.randint(2, 12)):
        m = ctx.pick(monitors)
        if ctx.chance(0.7):
            appended = bool(model.records)
            time = times.take()
            state = schema.state(
                time, drop_attr=appended and m['on_store'] and ctx.chance(0.3),
                # the file has the widest type, or the batch will have it
                narrow=appended or (m['cache'] and time not in m['cache']))
            if not appended and m['cache'] and not m['on_store'] and ctx.chance(0.1) and \
                    state['time'] not in m['cache'] and state['time'] > min(m['cache']):
                # after the state that decides the order of the dims
                state = schema.state(state['time'], transposed=True)
            if ctx.chance(0.3) and len(stored) > 1 and not m['on_store'] and \
                    state['time'] not in m['cache'] and not any(
                        n['on_store'] for n in monitors):
                # in two parts
                part = ctx.rng.sample(stored, ctx.rng.randint(1, len(stored) - 1))
                first = {k: v for k, v in state.items() if k in part or k == 'time'}
                m['monitor'].store(first)
                state = {k: v for k, v in state.items() if k not in part or
                         (ctx.chance(0.3))}
                ctx.saw('merged')
                m['cache'][first['time']] = {
                    rename(n, aliases): v for n, v in frozen(first, part).items()}
            time = state['time']
            extra = {}
            if only is not None and ctx.chance(0.3):
                state['unwanted'] = ctx.pick(['text', np.zeros(2)])
            snap = Snapshot(state)
            keep = frozen(state, [n for n in stored if n in state])
            m['monitor'].store(state)
            ctx.log('store', time, sorted(keep))
            ctx.check('state untouched', not snap.changes(state), str(snap.changes(state)))
            keep = {rename(n, aliases): v for n, v in keep.items()}
            if time in m['cache']:
                ctx.saw('merged')
                old = dict(m['cache'][time])
                old.update(keep)
                keep = old
            m['cache'][time] = keep
            hurt(ctx, state)
            ops.append('s')
            if m['on_store']:
                ctx.saw('write on store')
                model.write(m['cache'])
                m['cache'] = {}
                model.compare()
        else:
            if not m['cache']:
                ctx.saw('empty write')
            if model.records and m['cache']:
                ctx.saw('appended')
            m['monitor'].write()
            ctx.log('write', len(m['cache']), 'states')
            model.write(m['cache'])
            m['cache'] = {}
            ops.append('w')
            model.compare()
    for m in monitors:
        m['monitor'].write()
        model.write(m['cache'])
        m['cache'] = {}
    model.compare()
    ctx.tag(''.join(ops), times.unit_name, type(times.base).__name__, len(aliases), only is None)


def refusal_case(ctx):
    schema, path = Schema(ctx), os.path.join(ctx.scratch(), 'out.nc')
    times = Times(ctx)
    model = FileModel(ctx, path)
    monitor = NetCDFMonitor(path, time_units=times.unit_name)
    names = list(schema.quantities)
    cache = {}
    for _ in range(ctx.rng.randint(1, 3)):
        state = schema.state(times.take(fresh=True))
        cache[state['time']] = frozen(state, names)
        monitor.store(state)
    written = ctx.chance(0.6)
    if written:
        monitor.write()
        model.write(cache)
        if ctx.chance(0.5):
            monitor = NetCDFMonitor(path, time_units=times.unit_name)
    else:
        ctx.saw('in one batch')
    model.compare()
    bad = schema.state(times.take(fresh=True))
    late = written or bad['time'] > min(cache)   # not the one others are compared to
    name = ctx.pick(names)
    q = bad[name]
    fault = ctx.pick(['missing', 'extra', 'attr value', 'attr new', 'dim name', 'dim more',
                      'dim less', 'length', 'length', 'type', 'calendar', 'conflict'])
    if fault == 'missing' and len(names) == 1:
        fault = 'extra'
    if fault == 'missing':
        del bad[name]
    elif fault == 'extra':
        bad['one_more'] = DataArray(np.zeros(2), dims=['more'], attrs={'units': 'm'})
    elif fault == 'attr value':
        a = ctx.pick(list(q.attrs))
        q.attrs[a] = 'other' if a != 'number' else 77
    elif fault == 'attr new' and late:
        q.attrs['one_more'] = 'x'
    elif fault == 'dim name' and q.dims:
        q = bad[name] = DataArray(q.values, dims=['renamed'] + list(q.dims[1:]), attrs=q.attrs)
    elif fault == 'dim less' and q.dims:
        bad[name] = DataArray(q.values[0], dims=q.dims[1:], attrs=q.attrs)
    elif fault == 'length' and q.dims:
        longer = np.concatenate([q.values, q.values])
        bad[name] = DataArray(longer[:ctx.pick([1, len(q.values) + 1, None])] if
                              len(q.values) > 1 else longer, dims=q.dims, attrs=q.attrs)
    elif fault == 'type' and written and q.dtype.kind == 'i':
        bad[name] = DataArray(q.values + 0.5, dims=q.dims, attrs=q.attrs)
    elif fault == 'calendar' and written:
        if isinstance(bad['time'], timedelta):
            bad['time'] = datetime(2000, 1, 1)
        elif ctx.chance(0.5):
            bad['time'] = timedelta(days=1)
        else:
            mine = _cal(getattr(bad['time'], 'calendar', 'proleptic_gregorian'))
            bad['time'] = sympl.datetime(2000, 1, 5, calendar=ctx.pick(
                [c for c in CALENDARS if _cal(c) != mine]))
    elif fault == 'conflict' and not written:
        # two quantities of one new file that disagree on a length
        bad = None
    else:
        fault = 'dim more'
        bad[name] = DataArray(q.values[np.newaxis], dims=['more_dims'] + list(q.dims),
                              attrs=q.attrs)
    ctx.tag(fault, written, len(names), len(q.dims))
    ctx.log('fault', fault, 'in', name, 'written' if written else 'in one batch')

    def attempt():
        if bad is not None:
            monitor.store(bad)
        monitor.write()
    if fault == 'conflict':
        path = model.path = path + '2'
        monitor = NetCDFMonitor(path, time_units=times.unit_name)
        for i in range(ctx.rng.randint(1, 2)):
            state = {'p1': DataArray(np.zeros([2, 3]), dims=['u', 'v'], attrs={'units': 'm'}),
                     'p2': DataArray(np.zeros([3]), dims=['u'], attrs={'units': 'm'}),
                     'time': times.take(fresh=True)}
            monitor.store(state)
    ctx.refuses('refused', Exception, '{} ({})'.format(fault, name), attempt)
    model.compare()
    if ctx.chance(0.5):
        ctx.saw('refused again')
        ctx.refuses('refused', Exception, 'the same states again, {} ({})'.format(fault, name),
                    monitor.write)
        model.compare()
    ctx.saw('monitor:nothing added')
    if written and ctx.chance(0.7):
        # the file can be continued
        state = schema.state(times.take(fresh=True))
        other = NetCDFMonitor(path, time_units=times.unit_name)
        keep = {state['time']: frozen(state, names)}
        other.store(state)
        other.write()
        model.write(keep)
        model.compare()


def no_directory_case(ctx):
    """A write that fails can be repeated when its cause is gone."""
    schema = Schema(ctx)
    directory = os.path.join(ctx.scratch(), 'later')
    path = os.path.join(directory, 'out.nc')
    times, names = Times(ctx), list(schema.quantities)
    monitor, cache = NetCDFMonitor(path, time_units=times.unit_name), {}
    ctx.saw('failed write repeated')
    for _ in range(ctx.rng.randint(1, 4)):
        for _ in range(ctx.rng.randint(1, 2)):
            state = schema.state(times.take(fresh=True))
            cache[state['time']] = frozen(state, names)
            monitor.store(state)
        ctx.refuses('refused', Exception, 'write without a directory', monitor.write)
    os.mkdir(directory)
    monitor.write()
    model = FileModel(ctx, path)
    model.write(cache)
    model.compare()
    ctx.tag('directory', len(cache))


def alias_refusal_case(ctx):
    schema, path = Schema(ctx), os.path.join(ctx.scratch(), 'out.nc')
    names = list(schema.quantities)
    times = Times(ctx)
    name = ctx.pick(names)
    kind = ctx.pick(['collision', 'time', 'empty', 'empty name'])
    if kind == 'collision':
        if len(names) < 2:
            kind = 'time'
        else:
            other = ctx.pick([n for n in names if n != name])
            if any(name in n and n != name for n in names):
                kind = 'time'
            else:
                aliases = {name: other}
    if kind == 'time':
        aliases = {name: 'time'}
    elif kind == 'empty':
        aliases = {name: ''}
    state = schema.state(times.take())
    if kind == 'empty name':
        aliases = {}
        state[''] = schema.array(name)
    monitor = NetCDFMonitor(path, time_units=times.unit_name, aliases=aliases)
    snap = Snapshot(state)
    ctx.tag(kind, len(names))
    ctx.refuses('alias refused', ValueError, 'aliases {} for {}'.format(aliases, names),
                monitor.store, state)
    ctx.check('state untouched', not snap.changes(state), str(snap.changes(state)))
    monitor.write()
    FileModel(ctx, path).compare()


def case(ctx):
    r = ctx.rng.random()
    if r < 0.6:
        history_case(ctx)
    elif r < 0.9:
        refusal_case(ctx)
    elif r < 0.93:
        no_directory_case(ctx)
    else:
        alias_refusal_case(ctx)
