"""C15: time differencing of steppers."""
import itertools

import numpy as np
from sympl import AdamsBashforth, DataArray, SSPRungeKutta, TimeDifferencingWrapper
from mon.lib import (
    FAMILIES, UNIT, Layout, Outputs, Snapshot, family, is_linear, linear_units,
    make_component, properties_changes, properties_snapshot, quantity, quantity_changes,
    some_timestep)
from mon.model import Model, Ref
from mon.c08 import fits

CASES = {'quick': 7000, 'thorough': 40000}
REQUIRED = ('monitor:tendency value', 'monitor:diagnostics', 'monitor:called once',
            'monitor:declared', 'monitor:no old value', 'monitor:arguments', 'component',
            'time stepper', 'offset state units', 'another state', 'unrelated state')
RULE = ('random steppers (Stepper subclasses with aliases, wildcards, inherited dims, and '
        'Adams-Bashforth and Runge-Kutta steppers) wrapped and called several times with '
        'states in other units and dim orders; reference: own difference in base units. '
        'Distinct by declaration and units.')
ASSUMPTIONS = ['output units without offset']


def component_case(ctx):
    ctx.saw('component')
    lay = Layout(ctx, special=0., zero=0.03, dtype=np.float64)
    state = lay.state
    properties = {}
    for n in lay.inputs:
        if ctx.chance(0.7):
            p = {'units': ctx.pick(linear_units(family(lay.inputs[n]['units'])))}
            if ctx.chance(0.5):
                dims = list(lay.inputs[n]['dims'])
                ctx.rng.shuffle(dims)
                p['dims'] = dims
            if ctx.chance(0.3):
                p['alias'] = 'out_' + n
            properties[n] = p
            if not is_linear(state[n].attrs['units']):
                ctx.saw('offset state units')
    if ctx.chance(0.5) or not properties:
        fam = ctx.pick(list(FAMILIES))
        dims = [d for d in lay.present_lengths() if d in lay.explicit and ctx.chance(0.6)]
        present = [d for d in dims if ctx.chance(0.8)]
        ctx.rng.shuffle(present)
        state['made_quantity'] = quantity(
            ctx, lay.vals, present, lay.lengths, ctx.pick(FAMILIES[fam]), dtype=np.float64)
        properties['made_quantity'] = {
            'units': ctx.pick(linear_units(fam)), 'dims': dims}
    outs = Outputs(ctx, lay, 'output', n=0)
    outs.properties = properties
    outs.keys = {n: ctx.pick(outs.possible_keys(n)) for n in properties}
    diags = Outputs(ctx, lay, 'diagnostic', n=ctx.rng.randint(0, 2))
    given = {}
    calls = []

    def compute(raw, dt):
        calls.append((raw.get('time'), dt))
        given['out'] = {k: np.nan_to_num(v, nan=2., posinf=1., neginf=1.)
                        for k, v in outs.make(np.float64).items()}
        given['diag'] = diags.make()
        return outs.keyed(given['out']), diags.keyed(given['diag'])
    stepper = make_component(ctx, 'stepper', lay.inputs, properties, diags.properties, compute)
    wrapper = TimeDifferencingWrapper(stepper)
    ctx.log('outputs', properties)
    props = properties_snapshot(wrapper)
    for i in range(ctx.rng.randint(1, 3)):
        timestep = some_timestep(ctx)
        snap = Snapshot(state)
        del calls[:]
        out, diag = wrapper(state, timestep)
        ctx.check('called once', calls == [(state['time'], timestep)],
                  'stepper called {} for {}'.format(calls, (state['time'], timestep)))
        ctx.check('called once', not snap.changes(state), str(snap.changes(state)))
        # what the stepper itself returned for these arrays
        raw = given['out']
        ctx.check('tendency value', set(out) == set(properties),
                  'tendencies of {}'.format(sorted(out)))
        orders = [()]
        if lay.any_wild:
            orders = list(itertools.permutations(lay.wildcard_set()))
        ok = False
        for order in orders:
            ok = all(right(outs, lay, n, raw[n], order, state, timestep, out[n])
                     for n in properties)
            if ok:
                break
        ctx.check('tendency value', ok, 'not (new - old)/timestep', timestep, *[
            (n, out[n].attrs, out[n].dims, out[n].values.tolist(), state[n].values.tolist(),
             state[n].attrs, raw[n].tolist(), properties[n]) for n in properties])
        ctx.check('diagnostics', set(diag) == set(diags.properties), 'diagnostics {}'.format(
            sorted(diag)))
        for n in diags.properties:
            bad = diags.mismatch(n, given['diag'][n], diag[n], orders)
            ctx.check('diagnostics', bad is None, '{} {}'.format(n, bad))
        declared(ctx, wrapper, stepper, out, diag)
        if ctx.chance(0.6):
            made = state.get('made_quantity') if 'made_quantity' in properties else None
            new = lay.restate(same_shape=made is not None)
            if made is not None:
                fam = family(properties['made_quantity']['units'])
                new.state['made_quantity'] = quantity(
                    ctx, lay.vals, ctx.rng.sample(list(made.dims), made.ndim), new.lengths,
                    ctx.pick(FAMILIES[fam]), dtype=np.float64)
            lay, state = new, new.state
            outs, diags = outs.rebind(lay), diags.rebind(lay)
            ctx.saw('another state')
    ctx.check('declared', not properties_changes(wrapper, props),
              str(properties_changes(wrapper, props)))
    if 'made_quantity' in properties:
        less = {k: v for k, v in state.items() if k != 'made_quantity'}
        ctx.refuses('no old value', RuntimeError, 'a state without the old value',
                    wrapper, less, some_timestep(ctx))
    if ctx.chance(0.1):
        ctx.refuses('arguments', TypeError, 'an unknown argument', TimeDifferencingWrapper,
                    stepper, **{ctx.pick(['name', 'update_interval', 'x']): 1})


def right(outs, lay, name, raw, order, state, timestep, da):
    target, shape = [], []
    for d, n in zip(outs.dims(name), raw.shape):
        if d == '*':
            target.extend(order)
            shape.extend(outs.lengths[w] for w in order)
        else:
            target.append(d)
            shape.append(n)
    f, a, b = UNIT[outs.properties[name]['units']]
    new = Ref(raw.reshape(shape) * a + b, target)
    old = Ref.of(state[name])
    seconds = timestep.total_seconds()
    scale = max([0.] + [float(np.max(np.abs(x.values))) for x in (new, old)
                        if x.values.size]) / seconds
    want = (new - old) * (1. / seconds)
    return want.matches(da, 1e-9, scale)


def declared(ctx, wrapper, stepper, out, diag):
    tp, dp = wrapper.tendency_properties, wrapper.diagnostic_properties
    ctx.check('declared', set(tp) == set(out), 'declares tendencies {} returns {}'.format(
        sorted(tp), sorted(out)))
    ctx.check('declared', set(dp) == set(diag), 'declares diagnostics {} returns {}'.format(
        sorted(dp), sorted(diag)))
    ctx.check('declared', wrapper.input_properties == stepper.input_properties,
              'input properties differ')
    for n in out:
        u1, u2 = tp[n]['units'].strip(), out[n].attrs['units'].strip()
        ctx.check('declared', u1 == u2 or u1 in UNIT and u2 in UNIT and
                  UNIT[u1] == UNIT[u2], '{} declared in {} is in {}'.format(n, u1, u2))
        dims = tp[n].get('dims', stepper.input_properties.get(n, {}).get('dims'))
        ctx.check('declared', fits(dims, out[n].dims), '{} declared with {} has {}'.format(
            n, dims, out[n].dims))


def time_stepper_case(ctx):
    ctx.saw('time stepper')
    model = Model(ctx, zero=0.03)
    stepper = ctx.pick([lambda *c: AdamsBashforth(*c, order=1), SSPRungeKutta])(
        *model.components())
    twin = type(stepper)(*model.components(), **(
        {'order': 1} if isinstance(stepper, AdamsBashforth) else {}))
    wrapper = TimeDifferencingWrapper(stepper)
    state, timestep = model.state, model.timestep
    for i in range(ctx.rng.randint(1, 3)):
        snap = Snapshot(state)
        model.clear()
        out, diag = wrapper(state, timestep)
        n_calls = {len(p.calls) for p in model.processes}
        stages = 3 if isinstance(stepper, SSPRungeKutta) else 1
        ctx.check('called once', n_calls == {stages}, 'components called {} times'.format(
            n_calls))
        ctx.check('called once', not snap.changes(state), str(snap.changes(state)))
        want_diag, new_state = twin(state, timestep)
        ctx.check('tendency value', set(out) == set(model.stepped),
                  'tendencies of {}'.format(sorted(out)))
        for n in model.stepped:
            new, old = Ref.of(new_state[n]), Ref.of(state[n])
            seconds = timestep.total_seconds()
            scale = max([0.] + [float(np.max(np.abs(x.values))) for x in (new, old)
                                if x.values.size]) / seconds
            want = (new - old) * (1. / seconds)
            ctx.check('tendency value', _in_any(want, out[n], scale),
                      '{} is not (new - old)/timestep'.format(n), out[n].attrs,
                      out[n].values.tolist(), want.values.tolist())
        ctx.check('diagnostics', not quantity_changes(want_diag, diag),
                  str(quantity_changes(want_diag, diag)))
        ctx.check('declared', set(wrapper.tendency_properties) == set(out) and
                  set(wrapper.diagnostic_properties) == set(diag), 'declared names differ')
        if ctx.chance(0.6):
            state = model.another()


def _in_any(want, da, scale):
    """The units of a time stepper's outputs are base units written out."""
    units = da.attrs['units'].strip()
    if units in UNIT:
        return want.matches(da, 1e-9, scale)
    # base units times s^-1
    return want.matches_in(da, 1., 0., 1e-9, scale)


def case(ctx):
    if ctx.chance(0.75):
        component_case(ctx)
    else:
        time_stepper_case(ctx)
