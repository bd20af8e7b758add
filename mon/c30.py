"""C30: composites of monitors and plotting monitors."""
from datetime import datetime, timedelta

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt     # noqa: E402
import numpy as np                  # noqa: E402
from sympl import (                 # noqa: E402
    AdamsBashforth, ConstantTendencyComponent, DataArray, Monitor, NetCDFMonitor,
    PlotFunctionMonitor, RestartMonitor)
from sympl import MonitorComposite  # noqa: E402
from mon.lib import (               # noqa: E402
    DIM_NAMES, FAMILIES, NAMES, Snapshot, Values, dim_lengths, exact, quantity, some_time)

CASES = {'quick': 1200, 'thorough': 7000}
REQUIRED = ('monitor:once in order', 'monitor:state received', 'monitor:state unchanged',
            'monitor:figure', 'monitor:refused', 'monitor:no sharing', 'monitor:drawn',
            'monitor:propagates', 'monitor:recognised', 'monitor:restart', 'interactive',
            'not interactive', 'nested', 'nested twice', 'same monitor twice', 'empty composite',
            'hostile values', 'hostile attributes', 'hostile coordinates', 'hostile dictionary',
            'hostile nested attribute', 'failing monitor', 'failing plot', 'after a failure',
            'many stores', 'two plots', 'kept copies')
RULE = ('lists of 0-5 recorders, plotting monitors and restart monitors, nested to depth 3 and with '
        'repeats, given 1-5 states of 0-4 quantities of any dtype, dims, coordinates and (nested) '
        'attributes; plotting functions draw, fail, keep what they are given, and alter values, '
        'attributes, coordinates and keys of it. The log of all calls is compared with the flattened '
        'list; each record with a snapshot of the state; the state is compared after each store. '
        'Objects that are not monitors must be refused. Distinct by structure and behaviour.')
ASSUMPTIONS = ['quantities are sympl DataArrays (plus the time)', 'monitors that record do not '
               'alter the state they are given', 'drawing is done with the Agg backend']


class Failure(Exception):
    pass


class Recorder(Monitor):

    def __init__(self, ctx, log, label, fails=()):
        self.log, self.label, self.fails, self.calls = log, label, set(fails), 0

    def store(self, state):
        self.calls += 1
        self.log.append((self.label, state, Snapshot(state)))
        if self.calls in self.fails:
            raise Failure(self.label)


HOSTILE = ['values', 'attributes', 'nested attribute', 'coordinates', 'dictionary', 'data']


class Plot(object):
    """What a plotting function does, and what it saw."""

    def __init__(self, ctx, log, label, fails, kept):
        self.ctx, self.log, self.label, self.fails, self.calls = ctx, log, label, set(fails), 0
        self.kept = kept
        self.figures, self.drawn = [], 0
        self.empty = []
        self.deeds = ctx.rng.sample(HOSTILE, ctx.rng.randint(0, len(HOSTILE)))
        self.shared = []
        self.current = {}

    def __call__(self, fig, state):
        ctx = self.ctx
        self.calls += 1
        self.log.append((self.label, state, Snapshot(state)))
        self.figures.append(fig)
        self.empty.append(isinstance(fig, matplotlib.figure.Figure) and not fig.axes and
                          not fig.texts)
        for name, q in state.items():
            o = self.current.get(name)
            if isinstance(q, DataArray) and isinstance(o, DataArray):
                if q is o or np.shares_memory(q.values, o.values) or q.attrs is o.attrs:
                    self.shared.append(name)
        ax = fig.add_subplot(1, 1, 1)
        ax.plot([1, 2, 3])
        fig.text(0.1, 0.1, 'text')
        canvas, me = fig.canvas, self
        original = type(canvas).draw

        def draw(*args, **kwargs):
            me.drawn += 1
            return original(canvas, *args, **kwargs)
        canvas.draw = draw
        if self.kept is not None:
            self.kept.append((state, Snapshot(state)))
        else:
            self.harm(state)
        if self.calls in self.fails:
            raise Failure(self.label)

    def harm(self, state):
        ctx = self.ctx
        for deed in self.deeds:
            ctx.saw('hostile ' + deed)
            for name, q in list(state.items()):
                if not isinstance(q, DataArray):
                    if deed == 'dictionary':
                        state[name] = None
                    continue
                if deed == 'values' and q.dtype.kind in 'fi':
                    if q.values.flags.writeable:
                        q.values[...] = 99
                    q *= 2
                elif deed == 'data' and q.dtype.kind == 'f':
                    q[...] = -1.
                elif deed == 'attributes':
                    q.attrs['units'] = 'parsec'
                    q.attrs.pop('long_name', None)
                    q.name = 'renamed'
                elif deed == 'nested attribute':
                    for v in q.attrs.values():
                        if isinstance(v, list):
                            v.append('more')
                        elif isinstance(v, dict):
                            v.clear()
                        elif isinstance(v, np.ndarray):
                            v[...] = 0
                elif deed == 'coordinates':
                    for c in list(q.coords):
                        q.coords[c].attrs['units'] = 'none'
                        if c not in q.dims and q.coords[c].values.flags.writeable:
                            q.coords[c].values[...] = 0
                        if q.coords[c].dtype.kind in 'fi':
                            q.coords[c] = q.coords[c] * 0
                elif deed == 'dictionary':
                    if ctx.chance(0.5):
                        del state[name]
                    else:
                        state[name] = state[name] * 0
            if deed == 'dictionary':
                state['added'] = DataArray(0.)


def some_state(ctx, vals, time, storable):
    lengths = dim_lengths(ctx, zero=0. if storable else 0.06)
    state = {'time': time}
    names = [n for n in NAMES if n not in DIM_NAMES]
    for name in ctx.rng.sample(names, ctx.rng.randint(0, 4)):
        dims = ctx.rng.sample(sorted(lengths), ctx.rng.randint(0, min(3, len(lengths))))
        q = quantity(ctx, vals, dims, lengths, ctx.pick(FAMILIES['length']), special=0.1,
                     writable=ctx.chance(0.8))
        if ctx.chance(0.4) and not storable:
            q.attrs['history'] = ctx.pick([
                lambda: ['one', 'two'], lambda: {'by': 'me'}, lambda: np.arange(3.)])()
        if dims and ctx.chance(0.3) and not storable:
            q = q.assign_coords(area=(dims[0], np.arange(lengths[dims[0]]) + 0.5))
        state[name] = q
    return state


def case(ctx):
    if ctx.chance(0.2):
        refusals(ctx)
        return
    vals = Values(ctx)
    log, plots, recorders, restarts = [], [], [], []
    shows = []

    storable = ctx.chance(0.4)

    def leaf():
        kind = ctx.pick(['record', 'record', 'plot', 'plot', 'restart'])
        label = len(plots) + len(recorders) + len(restarts)
        fails = [ctx.rng.randint(1, 4)] if ctx.chance(0.15) else []
        if kind == 'restart' and len(restarts) < 2 and storable:
            path = '{}/restart{}.nc'.format(ctx.scratch(), label)
            m = RestartMonitor(path)
            restarts.append((m, path))
            return m, [('restart', m)]
        if kind == 'plot' and len(plots) < 3:
            interactive = ctx.chance(0.5)
            ctx.saw('interactive' if interactive else 'not interactive')
            if fails:
                ctx.saw('failing plot')
            kept = [] if ctx.chance(0.3) else None
            if kept is not None:
                ctx.saw('kept copies')
            p = Plot(ctx, log, label, fails, kept)
            m = PlotFunctionMonitor(p, interactive=interactive) if ctx.chance(0.5) or (
                not interactive) else PlotFunctionMonitor(p)
            plots.append((p, m, interactive))
            if len(plots) > 1:
                ctx.saw('two plots')
            ctx.check('figure', m.interactive is interactive, 'interactive is {}'.format(
                m.interactive))
            return m, [(p.label, p)]
        r = Recorder(ctx, log, label, fails)
        if fails:
            ctx.saw('failing monitor')
        recorders.append(r)
        return r, [(label, r)]

    def build(depth):
        parts, flat = [], []
        for _ in range(ctx.rng.randint(0 if depth else 1, 3)):
            if depth < 3 and ctx.chance(0.25):
                part, f = build(depth + 1)
                ctx.saw('nested twice' if depth else 'nested')
            elif parts and ctx.chance(0.1):
                i = ctx.rng.randrange(len(parts))
                part, f = parts[i]
                if not any(k == 'restart' for k, _ in f):
                    ctx.saw('same monitor twice')
            else:
                part, f = leaf()
            parts.append((part, f))
        if not parts:
            ctx.saw('empty composite')
        out = ctx.accepts('accepted', 'composite of monitors', MonitorComposite,
                          *[p for p, _ in parts])
        ctx.check('recognised', isinstance(out, Monitor), 'composite is not a monitor')
        for _, f in parts:
            flat.extend(f)
        return out, flat

    plt.close('all')
    show = plt.show
    plt.show = lambda *args, **kwargs: shows.append(1)
    try:
        if ctx.chance(0.25):    # a bare plot monitor
            top, flat = leaf()
        else:
            top, flat = build(0)
        run(ctx, vals, top, flat, log, plots, restarts, shows, storable)
    finally:
        plt.show = show
        plt.close('all')


def run(ctx, vals, top, flat, log, plots, restarts, shows, storable):
    labels = [k for k, _ in flat]
    ctx.log('monitors', labels, 'plots', [(p.label, p.deeds, i) for p, _, i in plots])
    n = ctx.rng.randint(1, 5)
    if n > 3:
        ctx.saw('many stores')
    time = datetime(2001, 2, 3, 4) if storable else some_time(ctx)
    state = some_state(ctx, vals, time, storable)
    failed_before = False
    snapshots = []
    for i in range(n):
        del log[:]
        drawn = {id(p): p.drawn for p, _, _ in plots}
        calls = {id(p): p.calls for p, _, _ in plots}
        del shows[:]
        for p, _, _ in plots:
            p.current = state
        snap = Snapshot(state)
        # what is expected, from the failures that are due
        expected, failure = [], None
        seen = {}
        for k, obj in flat:
            if k == 'restart':
                continue
            seen[id(obj)] = seen.get(id(obj), obj.calls) + 1
            expected.append(k)
            if seen[id(obj)] in obj.fails:
                failure = k
                break
        raised = None
        try:
            result = top.store(state)
            ctx.check('propagates', result is None, 'store returned {!r}'.format(result))
        except Failure as err:
            raised = err.args[0]
        ctx.check('propagates', raised == failure, 'store raised the failure of {}, not of '
                  '{}'.format(raised, failure))
        if failed_before:
            ctx.saw('after a failure')
        failed_before = failed_before or failure is not None
        ctx.check('once in order', [r[0] for r in log] == expected, 'store {} called {}, not '
                  '{}'.format(i, [r[0] for r in log], expected))
        ctx.check('state unchanged', not snap.changes(state), 'store {} changed the state: '
                  '{}'.format(i, snap.changes(state)))
        for label, given, record in log:
            # the record was made when the monitor was called
            same = record.keys == snap.keys and all(
                equal_item(record.items[k], snap.items[k]) for k in snap.keys)
            ctx.check('state received', same, 'monitor {} was not given the state: {} not '
                      '{}'.format(label, record.items, snap.items))
        for p, m, interactive in plots:
            times = p.calls - calls[id(p)]
            ctx.check('figure', all(p.empty), 'figure is not a clear figure')
            if interactive:
                ctx.check('figure', len(set(map(id, p.figures))) <= 1, 'figures differ')
            else:
                ctx.check('figure', len({f.number for f in p.figures}) == len(p.figures),
                          'figure is used again')
            bad = failure == p.label
            ctx.check('drawn', p.drawn - drawn[id(p)] >= times - bad, 'figure was not drawn')
            ctx.check('no sharing', not p.shared, 'plotting function shares {} with the '
                      'caller'.format(p.shared))
            for kept, s in p.kept or ():
                ctx.check('no sharing', not s.changes(kept), 'kept copy changed: {}'.format(
                    s.changes(kept)))
        count = sum(p.calls - calls[id(p)] - (failure == p.label) for p, _, inter in plots
                    if not inter)
        ctx.check('drawn', len(shows) == count, '{} figures shown, not {}'.format(
            len(shows), count))
        # the caller changes or replaces the state
        snapshots.append(snap)
        if failure is None and storable:
            for m, path in restarts:
                loaded = m.load()
                for k, q in state.items():
                    if k != 'time':
                        ctx.check('restart', k in loaded and exact(
                            loaded[k].values, np.asarray(q.values, q.dtype.newbyteorder('='))), 'restart holds {} {}'.format(
                                k, loaded.get(k)))
                    else:
                        ctx.check('restart', loaded[k] == q, 'restart time {}'.format(loaded[k]))
        what = ctx.pick(['new', 'alter', 'same', 'time'])
        if what == 'new':
            state = some_state(ctx, vals, time, storable)
        elif what == 'alter':
            for k, q in state.items():
                if k != 'time' and q.values.flags.writeable and q.dtype.kind == 'f':
                    q.values[...] += 1.
        elif what == 'time':
            state['time'] = state['time'] + timedelta(hours=1)
    ctx.tag(tuple(labels), tuple((p.label, tuple(p.deeds), inter) for p, _, inter in plots), n)


def equal_item(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'da':
        return (exact(a[1], b[1]) and a[2] == b[2] and repr(a[3]) == repr(b[3]) and
                set(a[5]) == set(b[5]) and all(exact(a[5][c], b[5][c]) for c in a[5]) and
                a[6] is b[6])
    return repr(a[1]) == repr(b[1])


class NotAMonitor(object):
    def __init__(self, *args):
        pass


def refusals(ctx):
    q = DataArray(np.zeros(2), dims=['x'], attrs={'units': 'm s^-1'})
    tendency = ConstantTendencyComponent({'a': q})
    other = ctx.pick([None, 3, 'monitor', {}, [], object(), lambda state: None, tendency,
                      AdamsBashforth(tendency), Monitor, PlotFunctionMonitor, NotAMonitor(),
                      [Recorder(ctx, [], 0)], np.zeros(3)])
    log = []
    parts = [Recorder(ctx, log, i) for i in range(ctx.rng.randint(0, 3))]
    parts.insert(ctx.rng.randint(0, len(parts)), other)
    ctx.refuses('refused', TypeError, 'composite of monitors with {!r}'.format(other),
                MonitorComposite, *parts)
    for real in (Recorder(ctx, log, 0), RestartMonitor('/nonexistent/x.nc'),
                 MonitorComposite(), NetCDFMonitor(
                     '{}/{}.nc'.format(ctx.scratch(), ctx.index))):
        ctx.accepts('accepted', 'composite with {}'.format(type(real).__name__),
                    MonitorComposite, real)
    ctx.tag('refused', repr(type(other)), len(parts), parts.index(other) if not isinstance(
        other, np.ndarray) else 0)
