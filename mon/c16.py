"""C16: scaling wrappers."""
from datetime import timedelta

import numpy as np
from sympl import (
    ConstantDiagnosticComponent, ConstantTendencyComponent, DataArray,
    DiagnosticComponentComposite, ImplicitTendencyComponentComposite, ScalingWrapper,
    TendencyComponentComposite, UpdateFrequencyWrapper)
from mon.lib import (
    KINDS, NAMES, Layout, Outputs, Snapshot, call, close, make_component,
    properties_changes, properties_snapshot, rtol_for, some_timestep)

CASES = {'quick': 15000, 'thorough': 120000}
REQUIRED = ('monitor:called once', 'monitor:scaled inputs', 'monitor:scaled outputs',
            'monitor:others unchanged', 'monitor:owned data', 'monitor:unknown name',
            'monitor:no component', 'monitor:missing timestep', 'later call', 'frequency',
            'nested', 'composite', 'constant', 'another state', 'dictionaries reused')
RULE = ('random components of every kind, also inside update-frequency wrappers, '
        'composites and other scaling wrappers, scaled by random factors for random '
        'subsets of their inputs, outputs, tendencies and diagnostics and called several '
        'times with different states and other calls in between; what the computation '
        'receives and what comes back is compared with own multiplication. Distinct by '
        'declaration, factors and nesting.')
ASSUMPTIONS = ['factors are finite numbers']


def pick_factors(ctx, names, p=0.5):
    return {n: ctx.pick([2., 0.5, -1.5, 0, 3, 1., np.float64(1.25), 10, -1., 0.1,
                         1e-9, 1e12, np.float32(0.75), np.int64(4)])
            for n in names if ctx.chance(p)}


def case(ctx):
    if ctx.chance(0.2):
        return refusals(ctx)
    lay = Layout(ctx, zero=0.02, special=0.05)
    kind = ctx.pick(KINDS)
    what = 'tendency' if kind in ('tendency', 'implicit') else 'output'
    outs = Outputs(ctx, lay, what, n=0 if kind == 'diagnostic' else ctx.rng.randint(0, 3))
    diags = Outputs(ctx, lay, 'diagnostic', n=ctx.rng.randint(0, 3))
    # the component keeps its arrays and returns the same ones on every call
    kept = (outs.make(), diags.make())
    copies = tuple({k: np.array(v) for k, v in d.items()} for d in kept)
    calls = []

    def compute(raw, dt):
        calls.append(({k: np.array(v) if k != 'time' else v for k, v in raw.items()}, dt))
        return outs.keyed(kept[0]), diags.keyed(kept[1])
    comp = make_component(ctx, kind, lay.inputs, outs.properties, diags.properties, compute)
    twin_calls = []

    def compute_twin(raw, dt):
        twin_calls.append({k: np.array(v) if k != 'time' else v for k, v in raw.items()})
        return (outs.keyed({k: np.array(v) for k, v in copies[0].items()}),
                diags.keyed({k: np.array(v) for k, v in copies[1].items()}))
    twin = make_component(
        ctx, kind, lay.inputs, outs.properties, diags.properties, compute_twin)
    inner = comp
    cached = None
    nesting = ctx.pick(['plain', 'plain', 'frequency', 'nested', 'composite'])
    if nesting == 'composite' and kind == 'stepper':
        nesting = 'plain'
    extra_in, extra_out = {}, {}
    if nesting == 'frequency':
        ctx.saw('frequency')
        inner = cached = UpdateFrequencyWrapper(comp, timedelta(days=10 ** 5))
    elif nesting == 'composite':
        ctx.saw('composite')
        inner = {'tendency': TendencyComponentComposite,
                 'implicit': ImplicitTendencyComponentComposite,
                 'diagnostic': DiagnosticComponentComposite}[kind](comp)
    elif nesting == 'nested':
        ctx.saw('nested')
        inner = ScalingWrapper(comp, input_scale_factors=pick_factors(ctx, lay.inputs))
        extra_in = inner._input_scale_factors
    kwargs = {}
    factors = {'in': {}, 'out': {}, 'diag': {}}
    if ctx.chance(0.8):
        factors['in'] = kwargs['input_scale_factors'] = pick_factors(ctx, lay.inputs)
    if kind != 'diagnostic' and ctx.chance(0.8):
        factors['out'] = kwargs[
            'tendency_scale_factors' if what == 'tendency' else 'output_scale_factors'] = \
            pick_factors(ctx, outs.properties)
    if ctx.chance(0.8):
        factors['diag'] = kwargs['diagnostic_scale_factors'] = pick_factors(
            ctx, diags.properties)
    given = {k: dict(v) for k, v in kwargs.items()}
    wrapper = ScalingWrapper(inner, **kwargs)
    if ctx.chance(0.2):  # the caller uses its dictionaries for something else
        ctx.saw('dictionaries reused')
        factors = {k: dict(v) for k, v in factors.items()}
        for k, d in kwargs.items():
            for n in list(d):
                if ctx.chance(0.6):
                    d[n] = d[n] * 3. + 1.
                else:
                    del d[n]
            if ctx.chance(0.3):
                d['nothing'] = 2.
        given = {k: dict(v) for k, v in kwargs.items()}
    ctx.tag(kind, nesting, *['{}{}'.format(k, len(v)) for k, v in factors.items()])
    ctx.log('factors', factors, extra_in)
    props = properties_snapshot(comp)
    state = lay.state
    first = None
    for i in range(ctx.rng.randint(2, 4)):
        if i:
            ctx.saw('later call')
            if ctx.chance(0.4) and cached is None:
                # other units and orders of dims
                lay = lay.restate(same_shape=True)
                outs, diags = outs.rebind(lay), diags.rebind(lay)
                state = lay.state
                ctx.saw('another state')
            elif ctx.chance(0.5) and cached is None:   # other values
                state = dict(state)
                n = ctx.pick(list(lay.inputs))
                q = state[n].copy(deep=True)
                state[n] = DataArray(lay.vals.take(q.shape, q.dtype), dims=q.dims,
                                     attrs=q.attrs)
            if ctx.chance(0.3) and cached is None:   # a call of the component itself
                call(kind, comp, state, some_timestep(ctx))
        timestep = some_timestep(ctx)
        del calls[:], twin_calls[:]
        snap = Snapshot(state)
        if kind in ('tendency', 'diagnostic'):
            result = wrapper(state) if ctx.chance(0.5) else wrapper(state, timestep)
            result = result if kind == 'tendency' else ({}, result)
        else:
            result = call(kind, wrapper, state, timestep)
        ctx.check('others unchanged', not snap.changes(state), str(snap.changes(state)))
        # the same component on a state scaled by hand
        scaled = dict(state)
        for n in lay.inputs:
            f = factors['in'].get(n, 1.)
            g = extra_in.get(n, 1.)
            if n in factors['in'] or n in extra_in:
                q = state[n]
                scaled[n] = DataArray(np.asarray(q.values) * float(f) * float(g),
                                      dims=q.dims, attrs=q.attrs)
        expect = call(kind, twin, scaled, timestep)
        if cached is not None and i > 0:
            ctx.check('called once', len(calls) == 0, 'cached component ran')
        else:
            ctx.check('called once', len(calls) == 1, 'ran {} times'.format(len(calls)))
            raw, dt = calls[0]
            ctx.check('called once', dt == (
                timestep if kind in ('implicit', 'stepper') else None), 'timestep')
            want = twin_calls[0]
            ctx.check('scaled inputs', set(raw) == set(want), 'received {}'.format(
                sorted(raw)))
            for k in raw:
                if k == 'time':
                    ctx.check('scaled inputs', raw[k] == want[k], 'time')
                else:
                    ctx.check('scaled inputs', close(raw[k], want[k], rtol_for(
                        raw[k], want[k]), 1e-300), '{} received as {}, not {}'.format(
                        k, raw[k].tolist(), want[k].tolist()))
        for which, props_dict, got, exp in (
                ('out', outs.properties, result[0], expect[0]),
                ('diag', diags.properties, result[1], expect[1])):
            ctx.check('scaled outputs', set(got) == set(exp), 'returned {}'.format(
                sorted(got)))
            for n in exp:
                f = factors[which].get(n)
                values = np.asarray(exp[n].values)
                if f is not None:
                    values = values * float(f)
                ctx.check(
                    'scaled outputs' if f is not None else 'others unchanged',
                    got[n].dims == exp[n].dims and got[n].attrs == exp[n].attrs and
                    close(got[n].values, values, rtol_for(got[n].values, values)),
                    'call {}: {} times {} gave {} {} {}'.format(
                        i + 1, n, f, got[n].dims, got[n].attrs, got[n].values.tolist()),
                    exp[n].dims, exp[n].attrs, values.tolist())
        for d, c in zip(kept, copies):
            for n in d:
                ctx.check('owned data', np.array_equal(d[n], c[n], equal_nan=d[n].dtype.kind == 'f'),
                          'the array of {} kept by the component changed'.format(n))
        ctx.check('owned data', {k: dict(v) for k, v in kwargs.items()} == given,
                  'factors changed')
        if first is not None:
            ctx.check('owned data', not first[0].changes(first[1]) and
                      not first[2].changes(first[3]), 'an earlier result changed')
        first = (Snapshot(result[0]), result[0], Snapshot(result[1]), result[1])
    ctx.check('owned data', not properties_changes(comp, props),
              str(properties_changes(comp, props)))
    constant(ctx)


def constant(ctx):
    """Prescribed quantities are owned by their component."""
    ctx.saw('constant')
    da = DataArray(np.arange(3.) + 1, dims=['x'], attrs={'units': 'K s^-1'})
    db = DataArray(np.arange(3.) + 4, dims=['x'], attrs={'units': 'K'})
    f, g = ctx.pick([2., -1., 0.5]), ctx.pick([3., 0.25])
    state = {'time': timedelta(0)}
    if ctx.chance(0.5):
        wrapper = ScalingWrapper(
            ConstantTendencyComponent({'T': da}, {'d': db}),
            tendency_scale_factors={'T': f}, diagnostic_scale_factors={'d': g})
        for _ in range(3):
            out, diag = wrapper(state)
            ctx.check('owned data', np.allclose(out['T'].values, (np.arange(3) + 1) * f) and
                      np.allclose(diag['d'].values, (np.arange(3) + 4) * g),
                      'scaled constants changed between calls')
    else:
        wrapper = ScalingWrapper(
            ConstantDiagnosticComponent({'d': db}), diagnostic_scale_factors={'d': g})
        for _ in range(3):
            diag = wrapper(state)
            ctx.check('owned data', np.allclose(diag['d'].values, (np.arange(3) + 4) * g),
                      'scaled constants changed between calls')
    ctx.check('owned data', da.values.tolist() == [1, 2, 3] and
              db.values.tolist() == [4, 5, 6], 'given arrays changed')


def refusals(ctx):
    lay = Layout(ctx)
    kind = ctx.pick(KINDS)
    what = 'tendency' if kind in ('tendency', 'implicit') else 'output'
    outs = Outputs(ctx, lay, what, n=0 if kind == 'diagnostic' else ctx.rng.randint(1, 3))
    diags = Outputs(ctx, lay, 'diagnostic', n=ctx.rng.randint(1, 3))

    def compute(raw, dt):
        return outs.keyed(outs.make()), diags.keyed(diags.make())
    comp = make_component(ctx, kind, lay.inputs, outs.properties, diags.properties, compute)
    ctx.tag('refusal', kind)
    declared = {'input_scale_factors': lay.inputs,
                'diagnostic_scale_factors': diags.properties,
                'tendency_scale_factors': outs.properties if what == 'tendency' else {},
                'output_scale_factors': outs.properties if what == 'output' else {}}
    if kind == 'diagnostic':
        declared['tendency_scale_factors'] = declared['output_scale_factors'] = {}
    arg = ctx.pick(sorted(declared))
    aliases = [p['alias'] for d in declared.values() for p in d.values() if 'alias' in p]
    names = [n for n in set(NAMES + ['nonsense'] + aliases) if n not in declared[arg]]
    factors = {ctx.pick(sorted(names)): 2.}
    factors.update({n: 2. for n in declared[arg] if ctx.chance(0.5)})
    ctx.refuses('unknown name', (ValueError, TypeError), '{}={} for {}'.format(
        arg, factors, sorted(declared[arg])), ScalingWrapper, comp, **{arg: factors})
    ctx.refuses('no component', TypeError, 'wrapping no component', ScalingWrapper,
                ctx.pick([None, 3, 'comp', {}, lambda s: {}, object()]))
    if kind in ('stepper', 'implicit'):
        wrapper = ScalingWrapper(comp)
        ctx.refuses('missing timestep', TypeError, 'calling {} without timestep'.format(kind),
                    wrapper, lay.state)
