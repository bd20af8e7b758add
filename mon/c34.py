"""C34: whole model runs, written as the documentation shows."""
import copy
import os
import pickle
from datetime import datetime, timedelta

import netCDF4
import numpy as np
import sympl
from sympl import (
    AdamsBashforth, DataArray, DiagnosticComponentComposite, Leapfrog, MonitorComposite,
    NetCDFMonitor, RestartMonitor, SSPRungeKutta, TendencyComponentComposite,
    TimeDifferencingWrapper)
from mon.c33 import Plan
from mon.lib import Snapshot

CASES = {'quick': 700, 'thorough': 5000}
REQUIRED = ('monitor:run', 'monitor:past states', 'monitor:file', 'monitor:restarted',
            'monitor:alike', 'AdamsBashforth', 'Leapfrog', 'SSPRungeKutta', 'implicit stepper',
            'diagnostics first', 'second stepper', 'differencing', 'given as a list',
            'write on store', 'written at the end', 'restart', 'calendar', 'timedelta', 'frequency',
            'scaling', 'tracers', 'composite')
RULE = ('a main loop as in the documentation: diagnostics first, one or two steppers over random '
        'components and wrappers, perhaps an implicit stepper, the state updated with '
        'diagnostics and stored by monitors, then the next state with its new time. It runs '
        'plainly, and next to it with objects built alike where every value that '
        'passes between the objects is copied; both must agree exactly at every step, as must '
        'the file of the NetCDF monitor, past states kept by the caller, and a third run '
        'that is interrupted once: its state goes through a restart file and its objects through '
        'a pickle. Distinct by objects, times and number of steps.')
ASSUMPTIONS = ['quantities are float64 without coordinates', 'implicit steppers are not in an '
               'UpdateFrequencyWrapper, which returns the same arrays again',
               'Leapfrog is the first stepper']


def build(ctx, plan):
    """(label, recipe of the objects of the run)"""
    plan.clash = False
    recipes, labels = [], []
    if ctx.chance(0.5):
        ctx.saw('diagnostics first')
        label, make, _ = plan.wrapped('diagnostic')
        if ctx.chance(0.4):
            inner = make
            make = lambda: DiagnosticComponentComposite(inner())
        recipes.append(('diagnostic', make))
        labels.append(label)
    for i in range(ctx.pick([1, 1, 2])):
        if i:
            ctx.saw('second stepper')
        parts = [plan.wrapped(ctx.pick(['tendency', 'tendency', 'implicit']))
                 for _ in range(ctx.rng.randint(1, 3))]
        if ctx.chance(0.2):
            ctx.saw('differencing')
            label, make, _ = ('differencing',) + plan.component('stepper')[1:] + ('implicit',)
            parts.append((label, (lambda inner: lambda: TimeDifferencingWrapper(inner()))(make),
                          'implicit'))
        # Leapfrog filters the state it is given, which is only the current one if first
        cls = ctx.pick([AdamsBashforth, SSPRungeKutta] if i else
                       [AdamsBashforth, Leapfrog, SSPRungeKutta])
        ctx.saw(cls.__name__)
        kwargs = {'name': 'stepper{}'.format(i), 'tendencies_in_diagnostics': ctx.chance(0.3)}
        if cls is AdamsBashforth:
            kwargs['order'] = ctx.pick([1, 2, 3, 4])
        elif cls is SSPRungeKutta:
            kwargs['stages'] = ctx.pick([2, 3])
        recipes.append(('stepper', stepper_recipe(ctx, cls, parts, kwargs)))
        labels.append('{}({})'.format(cls.__name__, '+'.join(p[0] for p in parts)))
    if ctx.chance(0.5):
        ctx.saw('implicit stepper')
        label, make = plan.component('stepper')
        recipes.append(('implicit', make))
        labels.append(label)
    return ' '.join(labels), lambda: [(kind, make()) for kind, make in recipes]


def stepper_recipe(ctx, cls, parts, kwargs):
    together = ctx.chance(0.2) and all(p[2] == 'tendency' for p in parts)
    as_list = ctx.chance(0.2)
    if together:
        ctx.saw('composite')
    if as_list:
        ctx.saw('given as a list')

    def make():
        made = [p[1]() for p in parts]
        if together:
            made = [TendencyComponentComposite(*made)]
        return cls(made, **kwargs) if as_list else cls(*made, **kwargs)
    return make


def some_start(ctx):
    r = ctx.rng.random()
    if r < 0.3:
        ctx.saw('timedelta')
        return timedelta(seconds=ctx.rng.randrange(10 ** 6))
    if r < 0.6:
        ctx.saw('calendar')
        return sympl.datetime(1999, 12, 30, 23, 50, calendar=ctx.pick(
            ['no_leap', '360_day', 'all_leap', 'julian', 'gregorian']))
    return datetime(ctx.rng.randint(1900, 2100), 2, 28, 23, 59, ctx.rng.randrange(60))


def private(state):
    return {k: v.copy(deep=True) if hasattr(v, 'dims') else v for k, v in state.items()}


def step(objects, state, timestep, monitor, guard):
    """One pass of the main loop, returns the stored state and the next one."""
    state = guard(state)
    after, extra = state, []
    for kind, obj in objects:
        given = guard(after)
        if kind == 'diagnostic':
            state.update(guard(obj(given)))
            after = state
            continue
        diagnostics, new = obj(given, timestep)
        extra.append(guard(diagnostics))
        if after is state:  # filters the current state, perhaps
            state = guard(given)
        nxt = guard(dict(after))
        nxt.update(guard(new))
        after = nxt
    for diagnostics in extra:
        state.update(diagnostics)
    monitor.store(guard(state))
    after = dict(after)
    after['time'] = state['time'] + timestep
    return state, after


class Keeper(sympl.Monitor):
    """Takes a snapshot of what it is given."""

    def __init__(self):
        self.seen = []

    def store(self, state):
        self.seen.append(Snapshot(state))


def case(ctx):
    plan = Plan(ctx)
    plan.start = some_start(ctx)
    label, make = build(ctx, plan)
    steps = ctx.rng.randint(2, 7)
    initial = {k: DataArray(np.array(v.values), dims=v.dims,
                            attrs={'units': v.attrs['units']}) if hasattr(v, 'dims') else v
               for k, v in plan.state(0).items()}
    for seen, word in (('frequency', 'frequency'), ('scaling', 'scaling')):
        if word in label:
            ctx.saw(seen)
    interrupt = ctx.rng.randint(1, steps) if ctx.chance(0.6) else None
    on_store = ctx.chance(0.4)
    ctx.saw('write on store' if on_store else 'written at the end')
    ctx.tag(label, steps, type(plan.start).__name__, plan.timestep)
    ctx.log('run', label, steps, 'steps of', plan.timestep, 'from', plan.start, 'interrupted',
            interrupt)
    path = os.path.join(ctx.scratch(), 'out.nc')
    plain, guarded, stopped = make(), make(), make()
    file_monitor = NetCDFMonitor(path, time_units='seconds', write_on_store=on_store)
    keeper, keeper2, keeper3 = Keeper(), Keeper(), Keeper()
    monitors = [keeper, file_monitor]
    ctx.rng.shuffle(monitors)
    monitor = MonitorComposite(*monitors)
    state, state2, state3 = private(initial), private(initial), private(initial)
    past = []
    for i in range(steps):
        stored, state = step(plain, state, plan.timestep, monitor, lambda s: s)
        past.append((stored, Snapshot(stored)))
        _, state2 = step(guarded, state2, plan.timestep, keeper2, private)
        changes = keeper2.seen[-1].changes(stored)
        ctx.check('run', not changes, 'step {} of {}: differs from the run in which everything is '
                  'copied: {}'.format(i + 1, label, changes))
        changes = Snapshot(state2).changes(state)
        ctx.check('run', not changes, 'next state {} of {}: differs from the run in which '
                  'everything is copied: {}'.format(i + 1, label, changes))
        changes = keeper2.seen[-1].changes(stored)
        ctx.check('run', not changes, str(changes))
    for i, (stored, snap) in enumerate(past):
        ctx.check('past states', not snap.changes(stored),
                  'state {} was changed by later steps: {}'.format(i + 1, snap.changes(stored)))
    file_monitor.write()
    with netCDF4.Dataset(path) as f:
        f.set_auto_maskandscale(False)
        ctx.check('file', len(f.dimensions['time']) == steps, '{} records of {} steps'.format(
            len(f.dimensions['time']), steps))
        ctx.check('file', set(f.variables) == set(past[0][0]), 'variables {}'.format(
            sorted(f.variables)))
        for i, (stored, _) in enumerate(past):
            for name, value in stored.items():
                if name == 'time':
                    continue
                v = f.variables[name]
                want = value.transpose(*v.dimensions[1:]).values
                ctx.check('file', v.units == value.attrs['units'] and np.array_equal(
                    v[i], want, equal_nan=True), '{} at step {} is {} instead of {}'.format(
                        name, i + 1, v[i].tolist(), want.tolist()))
    if interrupt is None:
        return
    ctx.saw('restart')
    for i in range(steps):
        if i == interrupt:
            restart = os.path.join(ctx.scratch(), 'restart.nc')
            if ctx.chance(0.3):
                RestartMonitor(restart).store(initial)
            RestartMonitor(restart).store(state3)
            stopped = pickle.loads(pickle.dumps(stopped)) if ctx.chance(0.7) else \
                copy.deepcopy(stopped)
            state3 = RestartMonitor(restart).load()
        stored, state3 = step(stopped, state3, plan.timestep, keeper3, lambda s: s)
        changes = keeper2.seen[i].changes(stored)
        ctx.check('restarted' if i >= interrupt else 'alike', not changes,
                  'step {} of {} differs in a run interrupted before step {}: {}'.format(
                      i + 1, label, interrupt + 1, changes))
