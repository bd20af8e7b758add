"""Reference time integration, and a driver that takes one real stepper through a
history of steps, failures, unit changes and interventions next to it."""
from datetime import timedelta

import numpy as np
import sympl
from sympl import AdamsBashforth, DataArray, Leapfrog, SSPRungeKutta, TendencyStepper

from mon.lib import (
    UNIT, Snapshot, convert, family, linear_units, same_unit)
from mon.model import Injected, Model, Ref

AB = {1: [1.], 2: [1.5, -.5], 3: [23. / 12, -16. / 12, 5. / 12],
      4: [55. / 24, -59. / 24, 37. / 24, -9. / 24]}


class UserEuler(TendencyStepper):
    """A scheme as a user writes it, returning only what it steps."""

    def _call(self, state, timestep):
        tendencies, diagnostics = self.prognostic(state, timestep)
        new_state = {}
        for name, tendency in tendencies.items():
            old = state[name]
            rate = tendency.to_units((old.attrs['units'] + ' s^-1').strip())
            new_state[name] = old + rate * timestep.total_seconds()
            if new_state[name].dims != old.dims:
                new_state[name] = new_state[name].transpose(*old.dims)
            new_state[name].attrs = dict(old.attrs)
        return diagnostics, new_state


class Run(object):
    """One stepper instance with its model and its reference."""

    def __init__(self, ctx, kind, model=None, **kwargs):
        self.ctx, self.kind = ctx, kind
        self.model = model or Model(ctx)
        self.kwargs = {}
        if kind == 'ab':
            self.order = ctx.rng.randint(1, 4)
            if self.order != 3 or ctx.chance(0.5):
                self.kwargs['order'] = self.order if ctx.chance(0.8) else float(self.order)
            cls = AdamsBashforth
        elif kind == 'user':  # as Adams-Bashforth of first order
            self.kind, self.order, cls = 'ab', 1, UserEuler
        elif kind == 'leapfrog':
            self.nu, self.alpha = 0.05, 0.5
            if ctx.chance(0.7):
                self.nu = ctx.pick([0.05, 0., 0.1, 0.3, 1., 2, -0.1])
                self.kwargs['asselin_strength'] = self.nu
            if ctx.chance(0.7):
                self.alpha = ctx.pick([0.5, 1., 0.53, 0., 1, 0.75, 1.5, -0.5])
                self.kwargs['alpha'] = self.alpha
            cls = Leapfrog
        else:
            self.stages = ctx.pick([2, 3])
            if self.stages == 2 or ctx.chance(0.5):
                self.kwargs['stages'] = self.stages
            cls = SSPRungeKutta
        ctx.tag(kind, *['{}={}'.format(k, v) for k, v in self.kwargs.items()])
        self.stepper = cls(*self.model.components(), **dict(self.kwargs, **kwargs))
        self.past = []        # Adams-Bashforth: tendencies, newest first
        self.previous = None  # leapfrog: filtered values of the previous step
        self.state = dict(self.model.state)
        self.steps = 0
        self.timestep = self.model.timestep
        ctx.log('stepper', kind, self.kwargs)

    # -- reference
    def reference(self, state, timestep):
        """Returns new values, filtered current values (leapfrog), diagnostics
        and the size of the numbers involved."""
        dt = timestep.total_seconds()
        values = self.model.values(state)
        tend, diags = self.model.tendencies(values)
        size = {n: max([0.] + [float(np.max(np.abs(x.values))) for x in (
            values[n], tend[n] * dt) if x.values.size]) for n in tend}
        if self.kind == 'ab':
            past = ([tend] + self.past)[:self.order]
            for t in past:
                for n in size:
                    if t[n].values.size:
                        size[n] = max(size[n], float(np.max(np.abs(t[n].values))) * dt)
            new = {}
            for n in tend:
                new[n] = values[n]
                for c, t in zip(AB[len(past)], past):
                    new[n] = new[n] + t[n] * (c * dt)
            return new, {}, diags, size, past
        if self.kind == 'leapfrog':
            new, filtered = {}, {}
            for n in tend:
                if self.previous is None:
                    new[n] = values[n] + tend[n] * dt
                else:
                    if self.previous[n].values.size:
                        size[n] = max(size[n], float(np.max(np.abs(
                            self.previous[n].values))))
                    new[n] = self.previous[n] + tend[n] * (2. * dt)
                    curvature = self.previous[n] + values[n] * -2. + new[n]
                    filtered[n] = values[n] + curvature * (
                        self.alpha * 0.5 * self.nu)
                    new[n] = new[n] + curvature * ((self.alpha - 1.) * 0.5 * self.nu)
            keep = dict(values)
            keep.update(filtered)
            return new, filtered, diags, size, keep
        def euler(vals):
            t, _ = self.model.tendencies(vals)
            out = dict(vals)
            for n in t:
                out[n] = vals[n] + t[n] * dt
            return out

        def mix(a, va, b, vb):
            out = dict(va)
            for n in tend:
                out[n] = va[n] * a + vb[n] * b
            return out
        first = euler(values)
        if self.stages == 2:
            result = mix(0.5, values, 0.5, euler(first))
        else:
            second = mix(0.75, values, 0.25, euler(first))
            result = mix(1. / 3, values, 2. / 3, euler(second))
        return {n: result[n] for n in tend}, {}, diags, size, None

    def commit(self, keep):
        if self.kind == 'ab':
            self.past = keep[:3]
        elif self.kind == 'leapfrog':
            self.previous = keep
        self.steps += 1

    # -- what may happen to the state between two steps
    def intervene(self):
        ctx, model = self.ctx, self.model
        r = ctx.rng.random()
        name = ctx.pick(model.names)
        q = self.state[name]
        if r < 0.25:
            units = ctx.pick(linear_units(family(q.attrs['units'])))
            new = DataArray(
                convert(q.values, q.attrs['units'], units).astype(q.dtype), dims=q.dims,
                coords=q.coords, attrs=dict(q.attrs, units=units))
            self.state[name] = new
            ctx.log('state', name, 'converted from', q.attrs['units'], 'to', units)
            ctx.saw('unit change')
            if q.ndim > 1 and ctx.chance(0.25):
                self.state[name] = new.transpose(*ctx.rng.sample(list(q.dims), q.ndim))
                ctx.log('state', name, 'transposed')
        elif r < 0.4 and q.ndim > 1:
            self.state[name] = q.transpose(*ctx.rng.sample(list(q.dims), q.ndim))
            ctx.log('state', name, 'transposed')
            ctx.saw('transposed')
        elif r < 0.55:
            new = q.copy(deep=True)
            new.values[...] = model.vals.take(q.shape, q.dtype)
            self.state[name] = new
            ctx.log('state', name, 'replaced')
            ctx.saw('values replaced')
        elif r < 0.65:
            self.state = dict(reversed(list(self.state.items())))

    def step(self, rtol=1e-9, check=True):
        """One regular step; returns (diagnostics, new_state, state before)."""
        ctx, model = self.ctx, self.model
        new, filtered, diags, size, keep = self.reference(self.state, self.timestep)
        model.clear()
        given = self.state
        before = Snapshot(given)
        old = dict(given)
        diagnostics, new_state = self.stepper(given, self.timestep)
        self.commit(keep)
        ctx.log('step', self.steps, 'of', self.kind)
        ctx.saw('step {}'.format('user' if type(self.stepper) is UserEuler else self.kind))
        if check:
            for n in new:
                ctx.check('formula', n in new_state, '{} missing in new state'.format(n))
                ctx.check(
                    'formula', new[n].matches(new_state[n], rtol, size[n]),
                    'step {}: {} is not the value of the formula'.format(self.steps, n),
                    self.kwargs, new_state[n].attrs, new_state[n].dims,
                    new_state[n].values.tolist(), new[n].dims, new[n].values.tolist())
            for p in model.processes:
                ctx.check('formula', p.corrupted is None,
                          'arrays kept by {} were modified'.format(p.name))
        self.old, self.before = old, before
        self.filtered, self.size, self.reference_diagnostics = filtered, size, diags
        return diagnostics, new_state

    def advance(self, new_state):
        t = new_state['time'] + self.timestep
        r = self.ctx.rng.random()
        if r < 0.2:  # the caller keeps its arrays and writes the new values into them
            self.state = dict(self.state)
            for n in self.model.stepped:
                old, new = self.state[n], new_state[n]
                if (old.values.flags.writeable and old.dtype == new.dtype and
                        old.attrs['units'] == new.attrs['units'] and
                        set(old.dims) == set(new.dims) and old.size == new.size):
                    old.values[...] = new.transpose(*old.dims).values
                    self.ctx.saw('written in place')
                else:
                    self.state[n] = new
        else:
            if r < 0.35:  # the caller uses the memory of the old arrays for something else
                for n in self.model.stepped:
                    old = self.state[n].values
                    if old.flags.writeable and not any(
                            np.may_share_memory(old, v.values) for v in new_state.values()
                            if hasattr(v, 'dims')):
                        old[...] = 77
                        self.ctx.saw('old arrays reused')
            self.state = dict(new_state)
        self.state['time'] = t

    def failing_step(self):
        """A step during which a component raises."""
        ctx, model = self.ctx, self.model
        snap = Snapshot(self.state)
        timestep = self.timestep
        if not self.steps and ctx.chance(0.4):  # no step was taken with it
            ctx.saw('failed with another timestep')
            timestep = timestep * 2
        if ctx.chance(0.75):
            p = ctx.pick(model.processes)
            p.fail = True
            try:
                ctx.refuses('failed step', Injected, 'a step in which {} raises'.format(
                    p.name), self.stepper, self.state, timestep)
            finally:
                p.fail = False
        else:
            needed = sorted({n for p in model.processes for n in p.inputs})
            broken = dict(self.state)
            del broken[ctx.pick(needed)]
            ctx.refuses('failed step', (sympl.InvalidStateError, KeyError),
                        'a step without an input', self.stepper, broken, timestep)
        ctx.check('failed step', not snap.changes(self.state),
                  'failed step changed the state: {}'.format(snap.changes(self.state)))
        ctx.saw('failed step at {}'.format(min(self.steps, 4)))

    def changed_timestep(self):
        """Another timestep must be refused by multi-step schemes."""
        ctx = self.ctx
        other = self.timestep * 2 if ctx.chance(0.5) else \
            self.timestep + timedelta(microseconds=1)
        snap = Snapshot(self.state)
        ctx.refuses('changed timestep', ValueError, 'timestep {} after {}'.format(
            other, self.timestep), self.stepper, self.state, other)
        ctx.check('changed timestep', not snap.changes(self.state),
                  'refused step changed the state')

    @property
    def multistep(self):
        return self.kind == 'leapfrog' or (self.kind == 'ab' and self.order > 1)


def history(ctx, kind, dtype=np.float64):
    """Takes one or two instances, perhaps of the same components, through
    interleaved histories."""
    share = ctx.chance(0.4)
    model = Model(ctx, dtype=dtype)
    runs = [Run(ctx, kind, model)]
    if ctx.chance(0.6):
        runs.append(Run(ctx, kind, model if share else Model(ctx, dtype=dtype)))
        ctx.tag('shared' if share else 'separate')
    rtol = 1e-9 if dtype == np.float64 else 2e-5
    for run in runs:  # own arrays per run
        run.state = {k: v.copy(deep=True) if hasattr(v, 'dims') else v
                     for k, v in run.state.items()}
    for _ in range(ctx.rng.randint(3, 11)):
        run = ctx.pick(runs)
        if ctx.chance(0.15):
            run.failing_step()
            continue
        if ctx.chance(0.1):
            if run.multistep and run.steps:
                run.changed_timestep()
                continue
            if run.kind == 'ssprk' or run.kind == 'ab' and run.order == 1:
                run.timestep = run.timestep * 2 if ctx.chance(0.5) else run.timestep / 2
                ctx.saw('timestep changed')
                if abs(run.timestep) < timedelta(microseconds=2):
                    run.timestep = run.model.timestep
        if run.kind == 'ssprk' and ctx.chance(0.15):
            # nothing is kept between the steps
            run.state = run.model.another()
        elif ctx.chance(0.35):
            run.intervene()
        diagnostics, new_state = run.step(rtol)
        yield run, diagnostics, new_state
        run.advance(new_state)
    ctx.tag(*['steps={}'.format(r.steps) for r in runs])
