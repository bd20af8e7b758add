"""C23: restart files give back the stored state."""
import json
import os
from datetime import datetime, timedelta

import numpy as np
import sympl
from sympl import DataArray, RestartMonitor
from mon.lib import DIM_NAMES, FAMILIES, Snapshot, Values, layout

CASES = {'quick': 6000, 'thorough': 36000}
REQUIRED = ('monitor:keys', 'monitor:time', 'monitor:values', 'monitor:dtype', 'monitor:dims',
            'monitor:attributes', 'monitor:file unchanged', 'monitor:state untouched',
            'monitor:type', 'replaced', 'round trip', 'other monitor', 'other process',
            'timedelta', 'calendar', 'fraction of a second', 'scalar', 'special values', 'packed', 'time-like units',
            'no extra files', 'named like a dimension', 'quantities changed')
RULE = ('random states (0 to 4 dims, dtypes, layouts, NaN and fill-like values, attributes, '
        'names) with times of every kind, stored and loaded in random histories by the same '
        'or another monitor or process, storing loaded states again; everything is compared '
        'exactly. Distinct by dims, dtypes and kind of time.')
ASSUMPTIONS = ['times are whole seconds', 'attributes are strings and numbers, packing attributes only powers of two for float64',
               'no zero-length dimensions', 'a quantity named like a dimension has it']
NAMES = ['air_temperature', 'time_of_day', 'q', 'T', 'units', 'wind speed', 'calendar', 'f',
         'time_since_start', 'cloud', 'attrs', 'tendency_of_x', 'name'] + DIM_NAMES[:4]
TIME_UNITS = ['s', 'seconds', 'days', 'hours since 2000-01-01', 'days since 1970-01-01',
              'seconds since 2013-01-01 00:00:00', 'hr', 'month']
CALENDARS = ['no_leap', '360_day', 'all_leap', 'julian', 'gregorian', 'noleap', '365_day',
             'proleptic_gregorian', '366_day']


def some_time(ctx):
    r = ctx.rng.randrange(3)
    micro = 0
    if ctx.chance(0.4):
        ctx.saw('fraction of a second')
        micro = ctx.pick([500000, 1, 999999, 250000, 1000, ctx.rng.randrange(1, 10 ** 6)])
    if r == 0:
        ctx.saw('timedelta')
        # further from zero than this, seconds lose their microseconds anyway
        return timedelta(microseconds=micro, seconds=ctx.rng.choice(
            [0, 1, 59, 86400, ctx.rng.randrange(10 ** 9), -ctx.rng.randrange(10 ** 6)]))
    f = [ctx.rng.randint(1, 12), ctx.rng.randint(1, 28), ctx.rng.randrange(24),
         ctx.rng.randrange(60), ctx.rng.randrange(60)]
    year = ctx.pick([ctx.rng.randint(1, 3000), ctx.rng.randint(1900, 2100), 1582, 1])
    if r == 1:
        ctx.saw('calendar')
        calendar = ctx.pick(CALENDARS)
        if ctx.chance(0.2):   # days that only some calendars have
            if calendar == '360_day':
                f[:2] = [2, 30]
            elif calendar in ('all_leap', '366_day'):
                f[:2] = [2, 29]
        if year == 1582:
            year = 1583
        return sympl.datetime(year, *f, microsecond=micro, calendar=calendar)
    return datetime(year, *f, micro)


def some_state(ctx, vals):
    lengths = {d: ctx.rng.randint(1, 4) for d in ctx.rng.sample(DIM_NAMES, 5)}
    state = {}
    for n in ctx.rng.sample(NAMES, ctx.rng.randint(1, 5)):
        dims = ctx.rng.sample(list(lengths), ctx.rng.randint(0, 4))
        if n in lengths:
            ctx.saw('named like a dimension')
            if n not in dims:
                dims = [n]
        if not dims:
            ctx.saw('scalar')
        dtype = np.dtype(ctx.pick([np.float64] * 4 + [
            np.float32, np.int16, np.int32, np.int64, np.uint8, np.int8, np.uint16]))
        values = vals.take([lengths[d] for d in dims], np.float64, 0.)
        values = np.array(np.abs(values) % 97 if dtype.kind in 'iu' else values).astype(dtype)
        if ctx.chance(0.25):
            ctx.saw('special values')
            flat = values.reshape(-1)
            if dtype.kind == 'f':
                special = [np.nan, np.inf, -np.inf, 9.969209968386869e36, 0., -0., 1e-300]
            else:
                info = np.iinfo(dtype)
                special = [info.min, info.max, info.min + 1, 0]
            for i in range(flat.size):
                if ctx.chance(0.4):
                    flat[i] = np.array(ctx.pick(special)).astype(dtype)
            values = flat.reshape(values.shape)
        attrs = {'units': ctx.pick(FAMILIES[ctx.pick(list(FAMILIES))])}
        if ctx.chance(0.2):
            ctx.saw('time-like units')
            attrs['units'] = ctx.pick(TIME_UNITS)
        if ctx.chance(0.3):
            attrs['long_name'] = ctx.pick(['some name', u'\u00e9 \u00b0', 'x', ''])
        if ctx.chance(0.2):
            attrs['number'] = ctx.pick([3, 2.5, -1, 10 ** 12])
        if ctx.chance(0.1):
            attrs['calendar'] = 'noleap'
        if ctx.chance(0.1):
            attrs['valid_min'] = 5.
        if ctx.chance(0.1):
            attrs['_note'] = 'not special'
        if dtype == np.float64 and ctx.chance(0.05):
            ctx.saw('packed')  # a power of two, so that nothing is rounded
            attrs['scale_factor'] = ctx.pick([0.5, 4., 0.125])
        state[n] = DataArray(layout(ctx, values), dims=dims, attrs=attrs)
        ctx.tag('{}d{}'.format(len(dims), dtype.str))
    state['time'] = some_time(ctx)
    ctx.tag(type(state['time']).__name__)
    items = list(state.items())
    ctx.rng.shuffle(items)
    return dict(items)


def compare(ctx, loaded, want):
    """want: name -> (dims, values, attrs), and the time."""
    ctx.check('keys', set(loaded) == set(want), 'loaded {} instead of {}'.format(
        sorted(loaded), sorted(want)))
    for n, w in want.items():
        got = loaded[n]
        if n == 'time':
            same = (isinstance(got, timedelta) == isinstance(w, timedelta) and got == w and
                    (isinstance(w, datetime) == isinstance(got, datetime)))
            if same and hasattr(w, 'calendar'):
                same = getattr(got, 'calendar', None) == w.calendar
            ctx.check('time', same, 'time {!r} instead of {!r}'.format(got, w))
            continue
        dims, values, attrs = w
        ctx.check('type', isinstance(got, DataArray), '{} is a {}'.format(n, type(got)))
        ctx.check('dims', tuple(got.dims) == dims and got.shape == values.shape,
                  '{} has dims {} {} instead of {} {}'.format(
                      n, got.dims, got.shape, dims, values.shape))
        ctx.check('dtype', got.dtype == values.dtype, '{} has type {} instead of {}'.format(
            n, got.dtype, values.dtype))
        ctx.check('values', not np.ma.isMaskedArray(got.values) and np.array_equal(
            got.values, values, equal_nan=values.dtype.kind == 'f'),
            '{} is {} instead of {}'.format(n, got.values.tolist(), values.tolist()))
        ctx.check('attributes', dict(got.attrs) == attrs and all(
            isinstance(got.attrs[k], str) == isinstance(attrs[k], str) for k in attrs),
            '{} has attributes {} instead of {}'.format(n, dict(got.attrs), attrs))


def freeze(state):
    return {n: v if n == 'time' else (tuple(v.dims), np.array(v.values), dict(v.attrs))
            for n, v in state.items()}


def in_child(function):
    """Runs the function in another process; returns an error message or None."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            message = 'no result'
            try:
                function()
                message = ''
            except BaseException as err:
                message = '{}: {}'.format(type(err).__name__, err)
            os.write(w, json.dumps(message[:3000]).encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        chunk = os.read(r, 4096)
        if not chunk:
            break
        data += chunk
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(data.decode()) if data else 'died'


def case(ctx):
    vals = Values(ctx)
    folder = ctx.scratch()
    path = os.path.join(folder, 'restart.nc')
    monitor = RestartMonitor(path)
    want, last = None, None
    for i in range(ctx.rng.randint(1, 4)):
        state = some_state(ctx, vals)
        if last is not None and ctx.chance(0.4):
            ctx.saw('round trip')
            state = last     # what was loaded is stored again
        elif want is not None:
            ctx.saw('replaced')
            if set(want) != set(state):
                ctx.saw('quantities changed')
        ctx.log('store', {n: (v if n == 'time' else (v.dims, v.shape, v.dtype, v.attrs))
                          for n, v in state.items()})
        want = freeze(state)
        snap = Snapshot(state)
        monitor.store(state)
        ctx.check('state untouched', not snap.changes(state), str(snap.changes(state)))
        for v in state.values():   # what happens to the state later does not matter
            if isinstance(v, DataArray) and v.values.flags.writeable:
                v.values[...] = 1
                v.attrs['units'] = 'parsec'
        for j in range(ctx.rng.randint(1, 2)):
            reader = monitor
            if ctx.chance(0.4):
                ctx.saw('other monitor')
                reader = RestartMonitor(path)
            with open(path, 'rb') as f:
                before = f.read()
            if ctx.chance(0.15):
                ctx.saw('other process')
                child_ctx = ctx

                def look():
                    compare(child_ctx, RestartMonitor(path).load(), want)
                message = in_child(look)
                ctx.check('values', not message, 'in another process: {}'.format(message))
            last = reader.load()
            compare(ctx, last, want)
            with open(path, 'rb') as f:
                ctx.check('file unchanged', f.read() == before, 'loading changed the file')
        ctx.check('file unchanged', os.listdir(folder) == ['restart.nc'],
                  'files {} after storing'.format(os.listdir(folder)))
        ctx.saw('no extra files')
        if ctx.chance(0.3):
            monitor = RestartMonitor(path)
