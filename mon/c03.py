"""C03: states that do not satisfy the declared inputs."""
import numpy as np
from sympl import (
    AdamsBashforth, DataArray, DiagnosticComponentComposite,
    ImplicitTendencyComponentComposite, InvalidStateError, ScalingWrapper,
    TendencyComponentComposite, UpdateFrequencyWrapper)
from datetime import timedelta
from mon.lib import (
    DISJOINT, FAMILIES, KINDS, Layout, call, family, make_component, some_timestep)

CASES = {'quick': 50000, 'thorough': 300000}
FAULTS = ['missing input', 'no units', 'inconvertible units', 'undefined units',
          'unexpected dim', 'conflicting lengths', 'missing time']
REQUIRED = tuple('monitor:' + f for f in FAULTS) + (
    'monitor:valid accepted', 'later call',
    'dictionary used before', 'another state', 'changed in place')
RULE = ('random declaration and satisfying state, into which one or two faults are put '
        'at a random input; the call (directly or through a composite or wrapper) must '
        'raise and the computation, which counts its executions, must not run. Up to three '
        'valid and faulty states follow each other at the same component. Distinct '
        'by declaration, fault and the way the component is called.')
ASSUMPTIONS = ['units that are not defined at all may raise any error']


def wrap(ctx, kind, comp):
    """Some way to have the component called."""
    options = ['direct', 'direct', 'scaling', 'frequency']
    if kind in ('tendency', 'diagnostic', 'implicit'):
        options.append('composite')
    how = ctx.pick(options)
    if how == 'scaling':
        return how, ScalingWrapper(comp)
    if how == 'frequency':
        return how, UpdateFrequencyWrapper(comp, timedelta(hours=1))
    if how == 'composite':
        return how, {'tendency': TendencyComponentComposite,
                     'implicit': ImplicitTendencyComponentComposite,
                     'diagnostic': DiagnosticComponentComposite}[kind](comp)
    return how, comp


def case(ctx):
    lay = Layout(ctx, zero=0.03)
    kind = ctx.pick(KINDS)
    count = []

    def compute(raw, dt):
        count.append(1)
        return {}, {}
    comp = make_component(ctx, kind, lay.inputs, {}, {}, compute)
    how, target = wrap(ctx, kind, comp)
    ctx.tag(kind, how)
    dt = some_timestep(ctx)
    # a slowed component may answer with what it kept
    for i in range(1 if how == 'frequency' else ctx.pick([1, 1, 2, 3])):
        if i:
            lay = lay.revised()
            ctx.saw('later call')
        once(ctx, lay, kind, target, dt, count)


def once(ctx, lay, kind, target, dt, count):
    del count[:]
    if ctx.chance(0.3):
        ctx.accepts('valid accepted', 'a valid state', call, kind, target, lay.state, dt)
        ctx.check('valid accepted', len(count) == 1,
                  'computation ran {} times'.format(len(count)))
        return
    state = dict(lay.state)
    sound = dict(state)
    if ctx.chance(0.3):  # the dictionary that other calls may have got
        state = lay.state
        ctx.saw('dictionary used before')
    faults = []
    for _ in range(ctx.pick([1, 1, 1, 2])):
        fault = ctx.pick(FAULTS)
        if not faults or fault not in [f for f, _ in faults]:
            done = inject(ctx, fault, lay, state)
            if done:
                faults.append((fault, done))
    if not faults:
        return
    ctx.log('faults', faults)
    ctx.tag(*[f for f, _ in faults])
    names = [f for f, _ in faults]
    exceptions = InvalidStateError
    if 'missing input' in names:
        exceptions = (InvalidStateError, KeyError)
    if 'missing time' in names or 'undefined units' in names:
        exceptions = Exception
    for f in names:
        ctx.refuses(f, exceptions, 'a state with ' + str(faults),
                    call, kind, target, state, dt)
        ctx.check(f, len(count) == 0, 'the computation ran on a state with {}'.format(faults))
    lay.state.clear()
    lay.state.update(sound)


def inject(ctx, fault, lay, state):
    """Puts the fault into state; returns where, or None if not possible."""
    name = ctx.pick(list(lay.inputs))
    prop = lay.inputs[name]
    if fault == 'missing time':
        return 'time' if state.pop('time', None) is not None else None
    if name not in state:
        return None
    q = state[name]
    if fault == 'missing input':
        del state[name]
    elif fault == 'no units':
        q = q.copy()
        q.attrs = {k: v for k, v in q.attrs.items() if k != 'units'}
        state[name] = q
    elif fault == 'inconvertible units':
        if 'units' not in q.attrs:
            return None
        fam = family(prop['units'])
        if fam == 'angle':
            fam = 'fraction'
        q = q.copy()
        q.attrs['units'] = ctx.pick(FAMILIES[ctx.pick([f for f in DISJOINT if f != fam])])
        state[name] = q
        return name, q.attrs['units'], 'for', prop['units']
    elif fault == 'undefined units':
        if 'units' not in q.attrs:
            return None
        q = q.copy()
        q.attrs['units'] = ctx.pick(['no_such_unit', 'blorg m^-1', 'kg qwe'])
        state[name] = q
    elif fault == 'unexpected dim':
        plain = [n for n in lay.inputs if n in state and '*' not in lay.inputs[n]['dims']]
        if not plain:
            return None
        name = ctx.pick(plain)
        q = state[name]
        known = [d for d in lay.lengths if d not in lay.inputs[name]['dims'] and
                 d not in q.dims]
        length = ctx.rng.randint(1, 3)
        dim = 'intruder'
        if known and ctx.chance(0.6):
            dim = ctx.pick(known)
            length = lay.lengths[dim]
        values = np.stack([np.asarray(q.values)] * length, axis=0) if length else \
            np.zeros((0,) + q.shape)
        new = DataArray(values, dims=(dim,) + tuple(q.dims), attrs=q.attrs)
        if ctx.chance(0.5):
            new = new.transpose(*ctx.rng.sample(list(new.dims), len(new.dims)))
        state[name] = new
        return name, new.dims, 'for', lay.inputs[name]['dims']
    elif fault == 'conflicting lengths':
        pairs = [(n, d) for n in lay.inputs if n in state for d in state[n].dims
                 if any(m != n and m in state and d in state[m].dims for m in lay.inputs)]
        if not pairs:
            return None
        name, dim = ctx.pick(pairs)
        q = state[name]
        i = list(q.dims).index(dim)
        old = q.shape[i]
        new = ctx.pick([n for n in (1, 2, 0, old + 1, 2 * old) if n != old])
        shape = list(q.shape)
        shape[i] = new
        state[name] = DataArray(lay.vals.take(shape), dims=q.dims, attrs=q.attrs)
        return name, dim, old, new
    return name
