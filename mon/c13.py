"""C13: what steppers must preserve."""
import numpy as np
from sympl import DataArray
from mon.lib import Snapshot, UNIT, family, same_unit
from mon.model import Model
from mon.steppers import Run
from mon.c08 import fits

CASES = {'quick': 4000, 'thorough': 24000}
REQUIRED = ('monitor:untouched quantities', 'monitor:time', 'monitor:units and dims',
            'monitor:declared', 'monitor:diagnostics', 'monitor:caller arrays',
            'step ab', 'step leapfrog', 'step ssprk', 'step user')
RULE = ('a few steps of each stepper on random models whose state also has quantities of '
        'every kind nobody steps (text, numbers, None, lists, boolean, integer, string and '
        'unitless arrays, NaN); everything in the new state is compared with the old. '
        'Distinct by stepper, model shape and the kinds of extra quantities.')
ASSUMPTIONS = ['components give tendencies without dimensions the quantity lacks']


def case(ctx):
    kind = ctx.pick(['ab', 'leapfrog', 'ssprk', 'user'])
    dtype = np.float64
    if kind != 'leapfrog':
        dtype = ctx.pick([np.float64] * 4 + [np.float32, np.int64])
    readonly = kind != 'leapfrog' and ctx.chance(0.5)
    model = Model(ctx, dtype=dtype, readonly=readonly)
    run = Run(ctx, kind, model)
    model.extra_quantities(run.state)
    if ctx.chance(0.3):
        names = [d for p in model.processes for d in p.diagnostics]
        if names:
            run.state[ctx.pick(names)] = DataArray(
                np.arange(3.), dims=['other'], attrs={'units': 'm'})
    ctx.tag(np.dtype(dtype).name, *[k for k in run.state if k in (
        'a_string', 'a_number', 'a_none', 'an_array', 'a_list', 'bools', 'ints', 'f4',
        'unitless', 'nan', 'strings', 'scalar')])
    items = list(run.state.items())
    ctx.rng.shuffle(items)
    run.state = dict(items)
    rtol = 1e-9 if dtype != np.float32 else 2e-5
    op = run.stepper.output_properties
    ip = run.stepper.input_properties
    ctx.check('declared', set(op) == set(model.stepped),
              'declares outputs {} but steps {}'.format(sorted(op), model.stepped))
    for step in range(ctx.rng.randint(1, 4)):
        state = run.state
        old = dict(state)
        if ctx.chance(0.2):  # only what it declares to need
            state = {k: v for k, v in state.items() if k in ip or k == 'time' or
                     k in model.names + model.forcings}
            run.state = state
            old = dict(state)
        before = Snapshot(state)
        diagnostics, new_state = run.step(rtol)
        ctx.check('untouched quantities', set(new_state) == set(old),
                  'keys {} instead of {}'.format(
                      sorted(map(str, new_state)), sorted(map(str, old))))
        others = {k: new_state[k] for k in old if k not in model.stepped}
        changes = Snapshot({k: old[k] for k in others}).changes(others)
        ctx.check('untouched quantities', not changes, str(changes))
        for k in others:   # in case both were changed
            changes = before.changes(dict(old, **{k: others[k]}), set(old) - {k})
            ctx.check('untouched quantities', not changes, str(changes))
        ctx.check('time', new_state['time'] == before.items['time'][1] and
                  type(new_state['time']) is before.items['time'][2], 'time changed')
        for n in model.stepped:
            was = before.items[n]
            now = new_state[n]
            ctx.check('units and dims', isinstance(now, DataArray), 'type {}'.format(type(now)))
            ctx.check('units and dims', same_unit(now.attrs.get('units'), was[3]['units']),
                      '{} in {} was in {}'.format(n, now.attrs.get('units'), was[3]['units']))
            ctx.check('units and dims', set(now.dims) == set(was[2]) and
                      len(now.dims) == len(was[2]),
                      '{} has dims {} instead of {}'.format(n, now.dims, was[2]))
            attrs = {k: v for k, v in was[3].items() if k != 'units'}
            if attrs:
                ctx.saw('other attributes')
            ctx.check('units and dims', attrs == {
                k: v for k, v in now.attrs.items() if k != 'units'},
                '{} has attributes {} instead of {}'.format(n, now.attrs, was[3]))
            ctx.check('declared', fits(op[n]['dims'], now.dims),
                      '{} declared with {} has {}'.format(n, op[n]['dims'], now.dims))
            ctx.check('declared', _compatible(op[n]['units'], now.attrs['units']),
                      '{} declared in {} is in {}'.format(
                          n, op[n]['units'], now.attrs['units']))
        want = run.reference_diagnostics
        ctx.check('diagnostics', set(diagnostics) == set(want) ==
                  set(run.stepper.diagnostic_properties),
                  'diagnostics {} instead of {}'.format(sorted(diagnostics), sorted(want)))
        for n in want:
            ctx.check('diagnostics', want[n].matches(diagnostics[n], rtol),
                      'diagnostic {} is not that of the given state'.format(n))
        ignore = set(run.filtered) if kind == 'leapfrog' else ()
        ctx.check('caller arrays', not before.changes(state, ignore),
                  'state changed: {}'.format(before.changes(state, ignore)))
        ctx.check('caller arrays', not before.changes(old, ignore),
                  'arrays changed: {}'.format(before.changes(old, ignore)))
        if dtype is np.int64:
            break
        run.advance(new_state)


def _compatible(declared, units):
    from mon.lib import UNIT
    import sympl
    if declared in UNIT:
        return family(declared) == family(units)
    # the stepper writes unit names out; ask for the conversion of a number
    one = DataArray(1., attrs={'units': units})
    try:
        one.to_units(declared)
        return True
    except ValueError:
        return False
