"""C17: the schedule of update-frequency wrappers."""
from datetime import datetime, timedelta

import numpy as np
import sympl
from sympl import DataArray, UpdateFrequencyWrapper
from mon.lib import KINDS, Layout, Outputs, Snapshot, call, make_component, some_timestep
from mon.model import Injected

CASES = {'quick': 15000, 'thorough': 110000}
REQUIRED = ('monitor:schedule', 'monitor:fresh output', 'monitor:repeated output',
            'monitor:received', 'monitor:failure', 'exactly due', 'one microsecond early',
            'backwards in time', 'failed first', 'failed later', 'two wrappers')
RULE = ('random sequences of up to 20 calls of one or two wrappers (of one component or '
        'several, all kinds) with state times around the due times (before, exactly at, '
        'one microsecond to either side, equal, backwards), as datetimes of any calendar '
        'or timedeltas, with failing executions; a schedule automaton says which calls '
        'must execute. Distinct by kind, number of wrappers and the pattern of events.')
ASSUMPTIONS = ['a failing execution does not fail with TypeError when a timestep was given']


class Watched(object):
    def __init__(self, ctx, kind, lay):
        self.ctx, self.kind, self.lay = ctx, kind, lay
        what = 'tendency' if kind in ('tendency', 'implicit') else 'output'
        self.outs = Outputs(ctx, lay, what, n=0 if kind == 'diagnostic' else
                            ctx.rng.randint(0, 2))
        self.diags = Outputs(ctx, lay, 'diagnostic', n=ctx.rng.randint(1, 2))
        self.calls = []
        self.fail = False
        self.made = None
        self.component = make_component(
            ctx, kind, lay.inputs, self.outs.properties, self.diags.properties, self.compute)

    def compute(self, raw, dt):
        self.calls.append((raw['time'], dt))
        if self.fail:
            raise Injected('on purpose')
        self.made = self.outs.make(), self.diags.make()   # unique values each time
        return self.outs.keyed(self.made[0]), self.diags.keyed(self.made[1])


class Wrapped(object):
    def __init__(self, ctx, watched, interval):
        self.watched, self.interval = watched, interval
        self.wrapper = UpdateFrequencyWrapper(watched.component, interval)
        self.last = None
        self.result = None
        self.snaps = None


def case(ctx):
    lay = Layout(ctx, zero=0.01, wildcard=False)
    kind = ctx.pick(KINDS)
    t0 = ctx.pick([datetime(2000, 2, 28, 23), timedelta(days=3), sympl.datetime(
        2001, 2, 27, calendar=ctx.pick(['no_leap', '360_day', 'julian', 'all_leap']))])
    intervals = [timedelta(hours=1), timedelta(seconds=10), timedelta(days=1),
                 timedelta(0), timedelta(microseconds=3), timedelta(days=40)]
    first = Watched(ctx, kind, lay)
    wrapped = [Wrapped(ctx, first, ctx.pick(intervals))]
    if ctx.chance(0.5):
        ctx.saw('two wrappers')
        other = first if ctx.chance(0.6) else Watched(ctx, kind, lay)
        wrapped.append(Wrapped(ctx, other, ctx.pick(intervals)))
    ctx.tag(kind, type(t0).__name__, *[w.interval for w in wrapped])
    ctx.log('intervals', [w.interval for w in wrapped], 'time', t0, kind)
    micro = timedelta(microseconds=1)
    now = t0
    pattern = []
    for i in range(ctx.rng.randint(3, 20)):
        w = ctx.pick(wrapped)
        r = ctx.rng.random()
        if w.last is not None and r < 0.6:
            due = w.last + w.interval
            now = due + ctx.pick([timedelta(0), timedelta(0), micro, -micro, -micro,
                                  timedelta(seconds=1), -w.interval,
                                  timedelta(seconds=-5), w.interval])
        elif r < 0.9:
            now = now + ctx.pick([timedelta(0), timedelta(seconds=3), timedelta(hours=1),
                                  timedelta(minutes=20)])
        else:
            now = now - ctx.pick([timedelta(hours=1), timedelta(days=2)])
        due = w.last is None or now >= w.last + w.interval
        if w.last is not None:
            if now == w.last + w.interval:
                ctx.saw('exactly due')
            if now == w.last + w.interval - micro:
                ctx.saw('one microsecond early')
            if now < w.last:
                ctx.saw('backwards in time')
        fail = due and ctx.chance(0.15)
        watched = w.watched
        watched.fail = fail
        state = dict(lay.state, time=now)
        n = ctx.pick(list(lay.inputs))
        q = state[n]
        state[n] = DataArray(lay.vals.take(q.shape, q.dtype), dims=q.dims, attrs=q.attrs)
        timestep = some_timestep(ctx)
        del watched.calls[:]
        takes = kind in ('implicit', 'stepper')
        args = (state, timestep) if takes or ctx.chance(0.5) else (state,)
        pattern.append('F' if fail else 'x' if due else '.')
        snap = Snapshot(state)
        ctx.log('call at', now, 'due' if due else 'not due', 'fails' if fail else '')
        if fail:
            ctx.refuses('failure', Injected, 'failing execution', w.wrapper, *args)
            watched.fail = False
            ctx.saw('failed first' if w.last is None else 'failed later')
            continue
        result = w.wrapper(*args)
        ctx.check('received', not snap.changes(state), str(snap.changes(state)))
        ctx.check('schedule', len(watched.calls) == (1 if due else 0),
                  'at {} with last execution at {} and interval {} it was executed {} '
                  'times'.format(now, w.last, w.interval, len(watched.calls)), pattern)
        parts = split(kind, result)
        if due:
            ctx.check('received', watched.calls[0] == (now, timestep if takes else None),
                      'executed with {}'.format(watched.calls[0]))
            w.last = now
            for outs, made, part in zip((watched.outs, watched.diags), watched.made, parts):
                ctx.check('fresh output', set(part) == set(outs.properties),
                          'returned {}'.format(sorted(part)))
                for name in part:
                    bad = outs.mismatch(name, made[name], part[name], [()])
                    ctx.check('fresh output', bad is None, '{} {}'.format(name, bad))
            w.snaps = [Snapshot(p) for p in parts]
        else:
            for snap, part in zip(w.snaps, parts):
                ctx.check('repeated output', not snap.changes(part),
                          'not the previous output: {}'.format(snap.changes(part)))
        if ctx.chance(0.05):
            ctx.check('received', w.wrapper.input_properties == dict(lay.inputs),
                      'properties not passed through')
    ctx.tag(''.join(pattern))


def split(kind, result):
    if kind == 'diagnostic':
        return {}, result
    if kind == 'stepper':
        return result[1], result[0]
    return result
