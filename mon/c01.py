"""C01: what the computation of a component receives."""
import numpy as np
from sympl import DataArray, InvalidPropertyDictError, get_numpy_arrays_with_properties
from mon.lib import KINDS, Layout, call, close, make_component, some_timestep

CASES = {'quick': 25000, 'thorough': 150000}
REQUIRED = ('monitor:received', 'monitor:standalone', 'wildcard', 'broadcast', 'converted', 'decoy',
            'changed in place', 'another state', 'the same state again', 'monitor:same name',
            'other type')
RULE = ('random declaration (1-4 inputs, explicit dims and one optional * at any '
        'position, aliases, units) and a state that satisfies it in random dim order, '
        'units, dtype, memory layout, lengths 0-5; the array given to the computation '
        'is compared by label with a reference model. Non-trivial: at least one array '
        'was compared; the same component is called with up to three states. Distinct by number of inputs, dims, wildcard dims and unit pairs.')
ASSUMPTIONS = [
    'no dimension is matched by * for one input and listed by another',
    'wildcard order is not prescribed, only that one order explains all inputs']


def case(ctx):
    if ctx.chance(0.02):
        return same_name(ctx)
    lay = Layout(ctx)
    others = ctx.chance(0.15)
    if others:
        other_types(ctx, lay)
    kind = ctx.pick(KINDS)
    ctx.tag(kind)
    seen = []
    timestep = some_timestep(ctx)

    def compute(raw, dt):
        seen.append((raw, {k: np.array(v) for k, v in raw.items() if k != 'time'}, dt))
        return {}, {}
    comp = make_component(ctx, kind, lay.inputs, {}, {}, compute)
    for _ in range(ctx.pick([1, 1, 2, 3])):
        once(ctx, lay, kind, comp, timestep, seen)
        lay = lay if others else lay.revised()


def other_types(ctx, lay):
    """Flags, complex amplitudes, large counts and instants among the inputs."""
    for name, prop in lay.inputs.items():
        q = lay.state[name]
        if prop['units'] != q.attrs['units']:
            if not ctx.chance(0.5):
                continue
            prop['units'] = q.attrs['units']
        kind = ctx.pick(['bool', 'complex128', 'complex64', 'int64', 'uint64', 'datetime64[s]',
                         'object'])
        values = lay.vals.take(q.shape, np.int64)
        if kind == 'bool':
            values = values % 2 == 0
        elif kind.startswith('complex'):
            values = (values + 1j * values[..., ::-1] if values.ndim else values * (1 + 2j))
        elif kind.endswith('int64'):
            values = values + 2 ** 60
        if kind[0] in 'od' and not values.ndim:  # of these, xarray gives the bare element
            continue
        lay.state[name] = DataArray(values.astype(kind), dims=q.dims, attrs=q.attrs)
        ctx.saw('other type')


def same_name(ctx):
    """One input is named like the alias of another: the computation cannot be
    given both, so it must not run."""
    lay = Layout(ctx, n_inputs=ctx.rng.randint(2, 4), aliases=False)
    kind = ctx.pick(KINDS)
    a, b = ctx.rng.sample(list(lay.inputs), 2)
    lay.inputs[a]['alias'] = b
    seen = []
    ctx.tag('same name', kind, list(lay.inputs).index(a), list(lay.inputs).index(b))

    def compute(raw, dt):
        seen.append(1)
        return {}, {}

    def use():
        comp = make_component(ctx, kind, lay.inputs, {}, {}, compute)
        call(kind, comp, lay.state, some_timestep(ctx))
    ctx.refuses('same name', InvalidPropertyDictError, 'alias {} of {}'.format(b, a), use)
    ctx.check('same name', not seen, 'the computation ran')


def once(ctx, lay, kind, comp, timestep, seen):
    del seen[:]
    call(kind, comp, lay.state, timestep)
    ctx.check('received', len(seen) == 1, 'computation ran {} times'.format(len(seen)))
    raw, arrays, dt = seen[0]
    judge(ctx, lay, arrays, 'received')
    ctx.check('received', 'time' in raw and raw['time'] == lay.state['time'],
              'time was not passed on: {}'.format(raw.get('time')))
    if kind in ('implicit', 'stepper'):
        ctx.check('received', dt == timestep, 'timestep {} instead of {}'.format(dt, timestep))
    alone = get_numpy_arrays_with_properties(lay.state, lay.inputs)
    judge(ctx, lay, alone, 'standalone')
    ctx.check('standalone', set(alone) == {lay.key(n) for n in lay.inputs},
              'keys {}'.format(sorted(alone)))
    for k in alone:
        ctx.check('standalone', close(alone[k], arrays.get(k, np.nan), 0),
                  'differs from what the component received for {}'.format(k))


def judge(ctx, lay, arrays, monitor):
    lengths = lay.present_lengths()
    for name, prop in lay.inputs.items():
        key = lay.key(name)
        q = lay.state[name]
        ctx.check(monitor, key in arrays, '{} (as {}) was not passed, got {}'.format(
            name, key, sorted(arrays)))
        got = arrays[key]
        ctx.check(monitor, isinstance(got, np.ndarray), '{} is {}'.format(key, type(got)))
        want = lay.expected_array(name, tuple(lay.wildcard_set()))
        ctx.check(monitor, got.shape == want.shape, '{} has shape {} instead of {}'.format(
            name, got.shape, want.shape), prop, q.dims, q.shape, lengths)
        if '*' in prop['dims']:
            ctx.saw('wildcard')
        if want.size != q.values.size:
            ctx.saw('broadcast')
        if prop['units'] != q.attrs['units']:
            ctx.saw('converted')
    orders = lay.matching_orders(arrays, exact=True)
    ctx.check(monitor, len(orders) > 0,
              'no order of the wildcard dims {} explains the arrays received'.format(
                  lay.wildcard_set()),
              *['{}: got {} want (one order) {}'.format(
                  n, arrays[lay.key(n)].tolist(),
                  lay.expected_array(n, tuple(lay.wildcard_set())).tolist())
                for n in lay.inputs])
