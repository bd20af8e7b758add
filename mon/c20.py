"""C20: allocation of output arrays."""
import itertools

import numpy as np
from sympl import InvalidStateError, initialize_numpy_arrays_with_properties
from mon.lib import Layout, Outputs, call, exact, make_component, some_timestep
from mon.c18 import TRACERS, Setup, fill, input_is_tracer

CASES = {'quick': 24000, 'thorough': 160000}
REQUIRED = ('monitor:names', 'monitor:zeros', 'monitor:shape', 'monitor:independent',
            'monitor:inputs untouched', 'monitor:component call', 'monitor:length conflict',
            'monitor:fresh', 'dtype', 'inherited', 'wildcard', 'tracers', 'no tracers',
            'overlap', 'tracer among outputs', 'alias', 'missing dim', 'scalar')
RULE = ('random components whose computation allocates its outputs (and tracer array) with '
        'the helper, fills them with unique values and returns them; allocated arrays are '
        'compared with the declaration and the results by label. Direct calls with raw arrays '
        'that disagree on a length. Distinct by declaration and state layout.')
ASSUMPTIONS = ['every output dimension is a dimension of some input']


def declare(ctx, lay, what, n, avoid=()):
    outs = Outputs(ctx, lay, what, n=n, max_new=0, avoid=avoid, namesakes=True)
    declared = {d for p in lay.inputs.values() for d in p['dims']}
    for name, prop in list(outs.properties.items()):
        if any(d not in declared for d in outs.dims(name)):
            del outs.properties[name]
            continue
        if ctx.chance(0.3):
            ctx.saw('dtype')
            prop['dtype'] = ctx.pick([np.float32, np.float64, np.int64, 'float32', bool])
        if 'dims' not in prop:
            ctx.saw('inherited')
        if '*' in outs.dims(name):
            ctx.saw('wildcard')
        if not outs.dims(name):
            ctx.saw('scalar')
    return outs


def judge_arrays(ctx, arrays, outs, raw, extra=()):
    names = set(outs.properties) | set(extra)
    ctx.check('names', set(arrays) == names, 'allocated {} for {}'.format(
        sorted(arrays), sorted(names)))
    for name, a in arrays.items():
        ctx.check('zeros', isinstance(a, np.ndarray) and not np.any(a),
                  '{} is not a zero array: {!r}'.format(name, a))
        ctx.check('independent', a.flags.writeable, '{} is read-only'.format(name))
        if name not in outs.properties:
            continue
        want = outs.shape(name)
        ctx.check('shape', list(a.shape) == want, '{} has shape {} for dims {} {}'.format(
            name, a.shape, outs.dims(name), want))
        dtype = np.dtype(outs.properties[name].get('dtype', np.float64))
        ctx.check('shape', a.dtype == dtype, '{} has dtype {} instead of {}'.format(
            name, a.dtype, dtype))
    everything = list(arrays.items()) + [
        (k, v) for k, v in raw.items() if isinstance(v, np.ndarray)]
    for (n1, a1), (n2, a2) in itertools.combinations(everything, 2):
        if n1 in arrays:
            ctx.check('independent', not np.shares_memory(a1, a2),
                      '{} and {} share memory'.format(n1, n2))


def plain_case(ctx):
    lay = Layout(ctx, zero=0.04, special=0.05)
    if any(d not in lay.present_lengths() for p in lay.inputs.values()
           for d in p['dims'] if d != '*'):
        ctx.saw('missing dim')
    if any('alias' in p for p in lay.inputs.values()):
        ctx.saw('alias')
    kind = ctx.pick(['tendency', 'implicit', 'stepper', 'diagnostic'])
    what = 'output' if kind == 'stepper' else 'tendency'
    outs = declare(ctx, lay, what, 0 if kind == 'diagnostic' else ctx.rng.randint(1, 4))
    diags = declare(ctx, lay, 'diagnostic', ctx.rng.randint(0, 3))
    run(ctx, lay, kind, outs, diags)


def run(ctx, lay, kind, outs, diags, setup=None, **attrs):
    box = {}

    def allocate(which, raw, **kwargs):
        before = {k: np.array(v) for k, v in raw.items() if k != 'time'}
        arrays = initialize_numpy_arrays_with_properties(
            which.properties, raw, lay.inputs, **kwargs)
        again = initialize_numpy_arrays_with_properties(
            which.properties, raw, lay.inputs, **kwargs)
        judge_arrays(ctx, arrays, which, raw, ['tracers'] if kwargs else ())
        for k in arrays:
            ctx.check('fresh', not np.shares_memory(arrays[k], again[k]),
                      '{} allocated twice shares memory'.format(k))
        ctx.check('inputs untouched', all(exact(raw[k], before[k]) for k in before),
                  'raw inputs were modified')
        for k, a in arrays.items():
            a[...] = lay.vals.take(a.shape, a.dtype)
        return arrays

    def compute(raw, dt):
        kwargs = {}
        if setup is not None:
            kwargs = {'tracer_dims': setup.tracer_dims}
            if setup.prepended or ctx.chance(0.5):
                kwargs['prepend_tracers'] = list(setup.prepended.items())
        box['out'] = {} if kind == 'diagnostic' else allocate(outs, raw, **kwargs)
        box['diag'] = allocate(diags, raw)
        box['raw'] = {k: np.array(v) if k != 'time' else v for k, v in raw.items()}
        return ({k: np.array(v) for k, v in box['out'].items()},
                {k: np.array(v) for k, v in box['diag'].items()})
    if kind == 'tendency' or kind == 'implicit' or kind == 'stepper':
        comp = make_component(ctx, kind, lay.inputs, outs.properties, diags.properties,
                              compute, **attrs)
    else:
        comp = make_component(ctx, kind, lay.inputs, {}, diags.properties, compute)
    ctx.tag(kind, *['{}'.format(len(outs.dims(n))) for n in outs.properties])
    ctx.log('outputs', outs.properties, diags.properties, attrs)
    for i in range(ctx.rng.randint(1, 2)):
        out, diag = ctx.accepts('component call', 'a component using the helper', call,
                                kind, comp, lay.state, some_timestep(ctx))
        orders = lay.matching_orders(box['raw'])
        for which, result, given in ((outs, out, box['out']), (diags, diag, box['diag'])):
            for n in which.properties:
                bad = which.mismatch(n, given[n], result[n], orders)
                ctx.check('component call', bad is None, '{} {}'.format(n, bad))
        if setup is not None:
            array = box['out']['tracers']
            names = setup.names()
            ctx.check('shape', array.shape[setup.index] == len(names) and
                      array.ndim == len(setup.tracer_dims) and array.dtype == np.float64,
                      'tracer array of shape {} {} for {} {}'.format(
                          array.shape, array.dtype, setup.tracer_dims, names))
            if names:
                ctx.check('shape', array.shape == box['raw']['tracers'].shape,
                          'tracer array {} for received {}'.format(
                              array.shape, box['raw']['tracers'].shape))
            ctx.check('component call', set(names) <= set(out), 'tracers missing')


def tracer_case(ctx):
    kind = ctx.pick(['tendency', 'implicit', 'stepper'])
    s = Setup(ctx, kind)
    lay = s.lay
    declared = {d for p in lay.inputs.values() for d in p['dims']}
    if any(d not in declared for d in s.qdims) or ('*' in s.qdims and not lay.any_wild):
        return plain_case(ctx)
    fill(ctx, s)
    input_is_tracer(ctx, s)
    ctx.saw('tracers' if s.names() else 'no tracers')
    outs = declare(ctx, lay, 'output' if kind == 'stepper' else 'tendency',
                   ctx.rng.randint(0, 2), set(TRACERS) | {'tracers'})
    diags = declare(ctx, lay, 'diagnostic', 1, set(TRACERS) | {'tracers'})
    attrs = {'uses_tracers': True, 'tracer_dims': list(s.tracer_dims)}
    if s.prepended:
        attrs['prepend_tracers'] = list(s.prepended.items())
    run(ctx, lay, kind, outs, diags, s, **attrs)
    # an output declaration that lists the tracers too, as components may do
    if s.names() and lay.inputs:
        ctx.saw('tracer among outputs')
        raw = {lay.key(n): np.zeros([3 if d == '*' else outs.length(d) for d in p['dims']])
               for n, p in lay.inputs.items()}
        props = {n: {'dims': ['nowhere'], 'units': 'm'} for n in s.names()}
        arrays = initialize_numpy_arrays_with_properties(
            props, raw, lay.inputs, s.tracer_dims, list(s.prepended.items()))
        ctx.check('names', set(arrays) == {'tracers'}, 'allocated {}'.format(sorted(arrays)))
        ctx.check('shape', arrays['tracers'].shape[s.index] == len(s.names()), 'tracer axis')


def conflict_case(ctx):
    lay = Layout(ctx, n_inputs=ctx.rng.randint(2, 4), zero=0., special=0.)
    lengths = {d: i + 2 for i, d in enumerate(lay.lengths)}
    lengths['*'] = 7
    count = {}
    for n, p in lay.inputs.items():
        for i, d in enumerate(p['dims']):
            count.setdefault(d, []).append((n, i))
    shared = [d for d in count if len(count[d]) > 1]
    if not shared:
        return plain_case(ctx)
    raw = {lay.key(n): np.zeros([lengths[d] for d in p['dims']])
           for n, p in lay.inputs.items()}
    outs = declare(ctx, lay, 'output', 2)
    ctx.accepts('length conflict', 'consistent arrays', initialize_numpy_arrays_with_properties,
                outs.properties, raw, lay.inputs)
    d = ctx.pick(shared)
    n, i = ctx.pick(count[d])
    shape = list(raw[lay.key(n)].shape)
    shape[i] = ctx.pick([1, shape[i] + 1, shape[i] - 1, 0])
    if shape[i] == lengths[d]:
        shape[i] += 1
    raw[lay.key(n)] = np.zeros(shape)
    ctx.tag('conflict', len(lay.inputs), len(outs.properties))
    ctx.refuses('length conflict', InvalidStateError, 'length {} of {} on {}'.format(
        shape[i], d, n), initialize_numpy_arrays_with_properties, outs.properties, raw,
        lay.inputs)


def case(ctx):
    r = ctx.rng.random()
    if r < 0.5:
        plain_case(ctx)
    elif r < 0.85:
        tracer_case(ctx)
    else:
        conflict_case(ctx)
