"""C14: tendencies put in diagnostics."""
from datetime import timedelta

import numpy as np
from sympl import (
    AdamsBashforth, ConstantTendencyComponent, DataArray, Leapfrog,
    RelaxationTendencyComponent, SSPRungeKutta)
from mon.lib import (
    UNIT, Layout, Outputs, Snapshot, call, family, is_linear, linear_units,
    make_component, properties_changes, properties_snapshot, quantity, quantity_changes,
    rate_of, same_unit, some_timestep)
from mon.model import Model, Ref
from mon.steppers import Run, UserEuler
from mon.c08 import fits

CASES = {'quick': 6000, 'thorough': 40000}
REQUIRED = ('monitor:tendency value', 'monitor:tendency declared', 'monitor:isolation', 'monitor:clash refused',
            'tendency', 'implicit', 'stepper', 'ab', 'leapfrog', 'ssprk', 'constant',
            'relaxation', 'custom time unit', 'alias key')
RULE = ('several instances of one random component class (or several steppers of the same '
        'components), with and without the option and with different names, called in '
        'random order; each diagnostic is compared with the returned tendency or the '
        'change over the step, and each declaration with what is returned. Distinct by '
        'kind, declaration and pattern of instances.')
ASSUMPTIONS = ['tracers do not get tendency diagnostics',
               'for leapfrog the old value may be the filtered or the unfiltered one']
TIME_UNITS = [('s', 1.), ('day', 86400.), ('hr', 3600.), ('min', 60.)]


def component_case(ctx):
    lay = Layout(ctx, zero=0.02)
    kind = ctx.pick(['tendency', 'implicit'])
    outs = Outputs(ctx, lay, 'tendency', n=ctx.rng.randint(1, 3))
    diags = Outputs(ctx, lay, 'diagnostic', n=ctx.rng.randint(0, 2))
    arrays, darrays = outs.make(), diags.make()
    if any(outs.keys[n] != n for n in outs.keys):
        ctx.saw('alias key')
    style = ctx.pick(['class', 'class', 'instance'])
    inputs, tp, dp = dict(lay.inputs), dict(outs.properties), dict(diags.properties)

    def compute(raw, dt):
        return outs.keyed(dict(arrays)), diags.keyed(dict(darrays))
    first = make_component(ctx, kind, inputs, tp, dp, compute, style=style,
                           init={'name': 'base'})
    ctx.saw(kind)
    instances(ctx, kind, type(first), lay.state, some_timestep(ctx), outs.properties,
              set(diags.properties), lambda inst, out, diag, name, d, old: bool(
                  same_unit(d.attrs['units'], out[name].attrs['units']) and
                  d.dims == out[name].dims and
                  np.array_equal(d.values, out[name].values, equal_nan=True)))


def instances(ctx, kind, cls, state, timestep, outputs, diagnostics, right, extra=None):
    """Makes instances of the class with and without the option and checks
    every call of every one of them."""
    made = []
    for i in range(ctx.rng.randint(1, 4)):
        on = ctx.chance(0.6)
        kwargs = {}
        if on or ctx.chance(0.3):
            kwargs['tendencies_in_diagnostics'] = on
        if ctx.chance(0.7):
            kwargs['name'] = ctx.pick(['proc', 'other', 'heating_by_x', 'air_temperature'])
        made.append((cls(**kwargs), on))
        ctx.tag('on' if on else 'off')
    order = made * 2
    ctx.rng.shuffle(order)
    for inst, on in order:
        before = properties_snapshot(inst)
        snap = Snapshot(state)
        out, diag = call(kind, inst, state, timestep)
        ctx.check('isolation', not snap.changes(state), 'state changed {}'.format(
            snap.changes(state)))
        names = {n: '{}_tendency_from_{}'.format(n, inst.name) for n in outputs} if on else {}
        ctx.check('isolation', set(diag) == diagnostics | set(names.values()),
                  'with the option {} the diagnostics are {}'.format(
                      'on' if on else 'off', sorted(diag)),
                  'expected', sorted(diagnostics | set(names.values())))
        dp = inst.diagnostic_properties
        ctx.check('isolation', set(dp) == set(diag),
                  'declares diagnostics {} returns {}'.format(sorted(dp), sorted(diag)))
        for n, dn in names.items():
            ctx.check('tendency declared', fits(dp[dn]['dims'], diag[dn].dims) and
                      _convertible(dp[dn]['units'], diag[dn].attrs['units']),
                      '{} declared as {} is {} {}'.format(
                          dn, dp[dn], diag[dn].dims, diag[dn].attrs))
            ctx.check('tendency value', right(inst, out, diag, n, diag[dn], state),
                      '{} is not the {} of {}'.format(
                          dn, 'change' if kind == 'stepper' else 'tendency', n),
                      diag[dn].values.tolist(), diag[dn].attrs, out[n].values.tolist(),
                      out[n].attrs)
        ctx.check('isolation', not properties_changes(inst, before),
                  str(properties_changes(inst, before)))


def _convertible(u1, u2):
    if u1 in UNIT and u2 in UNIT:
        return family(u1) == family(u2)
    try:
        DataArray(1., attrs={'units': u2}).to_units(u1)
        return True
    except ValueError:
        return False


def stepper_case(ctx):
    lay = Layout(ctx, linear=True, special=0., zero=0.02, dtype=np.float64)
    properties, new = {}, {}
    extra = {}
    names = [n for n in lay.inputs if ctx.chance(0.7)] or list(lay.inputs)[:1]
    for n in names:
        p = {'units': lay.inputs[n]['units']}
        if ctx.chance(0.5):
            p['dims'] = lay.inputs[n]['dims']
        if ctx.chance(0.3):
            p['alias'] = 'out_' + n
        properties[n] = p
    if ctx.chance(0.5):   # an output that is not an input
        fam = ctx.pick(['length', 'pressure', 'mass'])
        dims = ctx.rng.sample(lay.explicit, ctx.rng.randint(0, len(lay.explicit)))
        dims = [d for d in dims if d in lay.present_lengths()]
        q = quantity(ctx, lay.vals, ctx.rng.sample(dims, len(dims)), lay.lengths,
                     ctx.pick(linear_units(fam)), dtype=np.float64)
        lay.state['made_quantity'] = q
        properties['made_quantity'] = {
            'units': ctx.pick(linear_units(fam)), 'dims': dims}
    outs = Outputs(ctx, lay, 'output', n=0)
    outs.properties = properties
    outs.keys = {n: ctx.pick(outs.possible_keys(n)) for n in properties}
    if any(outs.keys[n] != n for n in outs.keys):
        ctx.saw('alias key')
    arrays = outs.make(np.float64)
    arrays = {k: np.nan_to_num(v, posinf=1., neginf=1.) for k, v in arrays.items()}
    diags = Outputs(ctx, lay, 'diagnostic', n=ctx.rng.randint(0, 2))
    darrays = diags.make()
    attrs = {}
    tname, tsec = ctx.pick(TIME_UNITS)
    if tname != 's':
        attrs = {'time_unit_name': tname, 'time_unit_timedelta': timedelta(seconds=tsec)}
        ctx.saw('custom time unit')
    first = make_component(
        ctx, 'stepper', dict(lay.inputs), dict(properties), dict(diags.properties),
        lambda raw, dt: (outs.keyed(dict(arrays)), diags.keyed(dict(darrays))),
        style=ctx.pick(['class', 'class', 'instance']), init={'name': 'base'}, **attrs)
    ctx.saw('stepper')
    timestep = some_timestep(ctx)

    def right(inst, out, diag, name, d, state):
        return is_change(Ref.of(out[name]), Ref.of(state[name]), timestep, d)
    instances(ctx, 'stepper', type(first), lay.state, timestep, properties,
              set(diags.properties), right)


def is_change(new, old, timestep, d, rtol=1e-9):
    want = (new - old) * (1. / timestep.total_seconds())
    scale = max([0.] + [float(np.max(np.abs(x.values))) for x in (new, old)
                        if x.values.size]) / timestep.total_seconds()
    return want.matches(d, rtol, scale)


def tendency_stepper_case(ctx):
    kind = ctx.pick(['ab', 'leapfrog', 'ssprk', 'user'])
    ctx.saw(kind)
    inner = ctx.chance(0.4)
    model = Model(ctx, zero=0.02, init={'tendencies_in_diagnostics': True} if inner else None,
                  style='instance')
    runs = []
    for i in range(ctx.rng.randint(1, 3)):
        on = ctx.chance(0.7)
        kwargs = {'name': 'stepper{}'.format(i)}
        if on:
            kwargs['tendencies_in_diagnostics'] = True
        run = Run(ctx, kind, model, **kwargs)
        run.state = {k: v.copy(deep=True) if hasattr(v, 'dims') else v
                     for k, v in run.state.items()}
        runs.append((run, on))
        ctx.tag('on' if on else 'off')
    own = {d for p in model.processes for d in p.diagnostics}
    if inner:
        own |= {'{}_tendency_from_{}'.format(n, p.name) for p in model.processes
                for n in p.terms}
    for _ in range(ctx.rng.randint(1, 5)):
        run, on = ctx.pick(runs)
        if ctx.chance(0.3):
            run.intervene()
        unfiltered = {n: Ref.of(run.state[n].copy(deep=True)) for n in model.stepped}
        before = properties_snapshot(run.stepper)
        diagnostics, new_state = run.step(check=False)
        names = {n: '{}_tendency_from_{}'.format(n, run.stepper.name)
                 for n in model.stepped} if on else {}
        ctx.check('isolation', set(diagnostics) == own | set(names.values()),
                  'with the option {} the diagnostics are {}'.format(
                      'on' if on else 'off', sorted(diagnostics)))
        dp = run.stepper.diagnostic_properties
        ctx.check('isolation', set(dp) == set(diagnostics), 'declares {} returns {}'.format(
            sorted(dp), sorted(diagnostics)))
        for n, dn in names.items():
            d = diagnostics[dn]
            ctx.check('tendency declared', fits(dp[dn]['dims'], d.dims) and
                      _convertible(dp[dn]['units'], d.attrs['units']),
                      '{} declared as {} is {} {}'.format(dn, dp[dn], d.dims, d.attrs))
            new = Ref.of(new_state[n])
            ok = is_change(new, unfiltered[n], run.timestep, d) or \
                is_change(new, Ref.of(run.state[n]), run.timestep, d)
            ctx.check('tendency value', ok, '{} is not the change of {}'.format(dn, n),
                      d.attrs, d.values.tolist())
        ctx.check('isolation', not properties_changes(run.stepper, before),
                  str(properties_changes(run.stepper, before)))
        run.advance(new_state)


def custom_unit_case(ctx):
    """A stepper class with another time unit."""
    tname, tsec = ctx.pick(TIME_UNITS[1:])
    base = ctx.pick([AdamsBashforth, Leapfrog, SSPRungeKutta, UserEuler])
    cls = type('Custom', (base,), {
        'time_unit_name': tname, 'time_unit_timedelta': timedelta(seconds=tsec)})
    model = Model(ctx, zero=0.)
    stepper = cls(*model.components(), tendencies_in_diagnostics=True, name='st')
    ctx.saw('custom time unit')
    old = model.values(model.state)
    diag, new = stepper(dict(model.state), model.timestep)
    for n in model.stepped:
        d = diag[n + '_tendency_from_st']
        ctx.check('tendency value', is_change(
            Ref.of(new[n]), old[n], model.timestep, d), '{} is not the change'.format(n),
            d.attrs)


def prescribed_case(ctx):
    model = Model(ctx, zero=0.02)
    state = model.state
    if ctx.chance(0.5):
        ctx.saw('constant')
        name = ctx.pick(model.names)
        units = rate_of(ctx, ctx.pick(linear_units(family(state[name].attrs['units']))))
        given = {name: quantity(ctx, model.vals, state[name].dims, model.lengths, units)}
        extra = {'diag': quantity(ctx, model.vals, [], model.lengths, 'K')}
        cls = lambda **k: ConstantTendencyComponent(given, dict(extra), **k)
        diagnostics = {'diag'}
    else:
        ctx.saw('relaxation')
        name = ctx.pick(model.names)
        q = state[name]
        fam = family(q.attrs['units'])
        state['equilibrium_' + name] = quantity(
            ctx, model.vals, q.dims, model.lengths, ctx.pick(linear_units(fam)),
            dtype=np.float64)
        state[name + '_relaxation_timescale'] = DataArray(
            np.full(q.shape, 7.), dims=q.dims, attrs={'units': ctx.pick(['s', 'hr', 'day'])})
        units = ctx.pick(linear_units(fam))
        cls = lambda **k: RelaxationTendencyComponent(name, units, **k)
        diagnostics = set()
    instances(ctx, 'tendency', cls, state, None, {name: None}, diagnostics,
              lambda inst, out, diag, name, d, old: bool(
                  same_unit(d.attrs['units'], out[name].attrs['units']) and
                  d.dims == out[name].dims and
                  np.array_equal(d.values, out[name].values, equal_nan=True)))


def clash_case(ctx):
    """A stepper and a component in it that would use the same names."""
    model = Model(ctx, zero=0.)
    state = model.state
    names = [n for n in model.names if is_linear(state[n].attrs['units'])]
    if not names:
        return
    shared = ctx.pick(['same', 'a b', 'sunlight'])
    clashing = ctx.pick(names)
    parts = []
    for n in names:
        given = {n: quantity(ctx, model.vals, state[n].dims, model.lengths,
                             rate_of(ctx, ctx.pick(linear_units(family(state[n].attrs['units'])))),
                             dtype=np.float64)}
        kwargs = {'name': ctx.pick([shared, 'other'])}
        if n == clashing:
            kwargs = {'name': shared, 'tendencies_in_diagnostics': True}
        parts.append(ConstantTendencyComponent(given, **kwargs))
    ctx.rng.shuffle(parts)
    cls = ctx.pick([AdamsBashforth, SSPRungeKutta, Leapfrog])
    ctx.tag('clash', cls.__name__, str(len(parts)))

    def step():
        stepper = cls(*parts, name=shared, tendencies_in_diagnostics=True)
        return stepper(state, model.timestep)
    ctx.refuses('clash refused', Exception, '{} named {!r} with the tendency diagnostic of {} in '
                'it'.format(cls.__name__, shared, clashing), step)
    # names that differ do not clash
    stepper = cls(*parts, name=shared + '_', tendencies_in_diagnostics=True)
    diag, _ = stepper(state, model.timestep)
    want = {'{}_tendency_from_{}'.format(n, shared + '_') for n in names} | {
        '{}_tendency_from_{}'.format(clashing, shared)}
    ctx.check('clash refused', want <= set(diag) and want <= set(stepper.diagnostic_properties),
              'no {} in {}'.format(sorted(want), sorted(diag)))


def case(ctx):
    r = ctx.rng.random()
    if ctx.chance(0.06):
        return clash_case(ctx)
    if r < 0.3:
        component_case(ctx)
    elif r < 0.55:
        stepper_case(ctx)
    elif r < 0.8:
        tendency_stepper_case(ctx)
    elif r < 0.85:
        custom_unit_case(ctx)
    else:
        prescribed_case(ctx)
