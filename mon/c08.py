"""C08: composites against the sum and union of their components."""
from datetime import timedelta

import numpy as np
from sympl import (
    AdamsBashforth, ConstantDiagnosticComponent, ConstantTendencyComponent, DataArray,
    DiagnosticComponentComposite, ImplicitTendencyComponentComposite, InvalidStateError,
    PlotFunctionMonitor, ScalingWrapper, SharedKeyError, Stepper,
    TendencyComponentComposite, UpdateFrequencyWrapper)
from mon.lib import (
    KINDS, Layout, NAMES, Outputs, Snapshot, UNIT, Values, aligned_equal, call, exact,
    family, linear_units, make_component, quantity, quantity_changes, rate_of, same_unit,
    some_count, some_time)
from mon.model import Injected, Model, Ref

CASES = {'quick': 8000, 'thorough': 60000}
REQUIRED = ('monitor:each called once', 'monitor:sum of tendencies',
            'monitor:union of diagnostics', 'monitor:order', 'monitor:declared',
            'monitor:wrong kind', 'monitor:shared diagnostic', 'monitor:outputs kept',
            'monitor:needs', 'monitor:another state', 'monitor:caller state', 'chained')
RULE = ('random models of 1 to 4 tendency components (plain, implicit, constant, scaled, '
        'update-frequency, nested composites) or diagnostic components, composed in '
        'random orders; reference: own sum in base units. Distinct by the kinds of '
        'components, numbers of quantities and tendencies.')
ASSUMPTIONS = ['coordinates of a dimension agree between quantities']


def wrapped(ctx, model, process):
    """The component, possibly inside a wrapper that changes nothing (or a
    known factor)."""
    how = ctx.pick(['plain', 'plain', 'plain', 'frequency', 'scaling', 'composite'])
    comp = process.component
    factors = {}
    if how == 'frequency':
        comp = UpdateFrequencyWrapper(comp, timedelta(days=10000))
    elif how == 'scaling':
        factors = {n: ctx.pick([2., 0.5, -1., 0.]) for n in process.terms
                   if ctx.chance(0.7)}
        comp = ScalingWrapper(comp, tendency_scale_factors=factors)
    elif how == 'composite':
        comp = (TendencyComponentComposite if process.kind == 'tendency'
                else ImplicitTendencyComponentComposite)(comp)
    ctx.tag(how)
    return how, comp, factors


def tendency_case(ctx):
    only_tendency = ctx.chance(0.4)
    model = Model(ctx, n_processes=ctx.rng.randint(1, 4),
                  kinds=['tendency'] if only_tendency else None)
    cls = TendencyComponentComposite if only_tendency else ImplicitTendencyComponentComposite
    components, total, diags, cached, factored = [], {}, {}, [], []
    values = model.values(model.state)
    scale = {}
    for process in model.processes:
        how, comp, factors = wrapped(ctx, model, process)
        components.append(comp)
        factored.append((process, factors))
        if how == 'frequency':
            cached.append(comp)
        t, d = process.reference(values)
        for name in t:
            term = t[name] * factors.get(name, 1.)
            total[name] = total[name] + term if name in total else term
            if term.values.size:
                scale[name] = max(scale.get(name, 0), np.max(np.abs(term.values)))
        diags.update(d)
    constants = {}
    for name in model.names:
        if ctx.chance(0.25):
            q = model.state[name]
            dims = ctx.rng.sample(list(q.dims), len(q.dims))
            fam = family(q.attrs['units'])
            dtype = ctx.pick([np.float64, np.float64, np.int64, np.float32])
            constants[name] = DataArray(
                model.vals.take([model.lengths[d] for d in dims], dtype), dims=dims,
                attrs={'units': rate_of(ctx, ctx.pick(linear_units(fam)))})
    given = None
    if constants:
        ctx.tag('constant')
        comp = ConstantTendencyComponent(dict(constants))
        components.insert(ctx.rng.randint(0, len(components)), comp)
        given = Snapshot(constants)
        for name, da in constants.items():
            term = Ref.of(da)
            total[name] = total[name] + term if name in total else term
            if term.values.size:
                scale[name] = max(scale.get(name, 0), np.max(np.abs(term.values)))
    order = ctx.rng.sample(components, len(components))
    try:
        comp = cls(*order)
    except Exception as err:
        ctx.fail('composite of compatible components refused: {!r}'.format(err))
    state = model.state
    snap = Snapshot(state)

    def evaluate(comp, what):
        model.clear()
        if only_tendency:
            out, diag = comp(state)
        else:
            out, diag = comp(state, model.timestep)
        return out, diag

    out, diag = evaluate(comp, 'first')
    for process in model.processes:
        ctx.check('each called once', len(process.calls) == 1,
                  '{} ran {} times'.format(process.name, len(process.calls)))
        time, dt, raw = process.calls[0]
        ctx.check('each called once', time == state['time'], 'wrong time')
        ctx.check('each called once', dt == (
            model.timestep if process.kind == 'implicit' else None),
            'timestep {} instead of {}'.format(dt, model.timestep))

    def judge(out, diag, monitor):
        ctx.check(monitor, set(out) == set(total),
                  'tendencies of {} instead of {}'.format(sorted(out), sorted(total)))
        for name in total:
            ctx.check(monitor, total[name].matches(
                out[name], 1e-6 if 'float32' in str(out[name].dtype) or any(
                    'float32' in str(c.dtype) for c in constants.values()) else 1e-9,
                scale.get(name, 0.)),
                'tendency of {} is not the sum'.format(name),
                out[name].attrs, out[name].dims, out[name].values.tolist(),
                total[name].dims, total[name].values.tolist())
    judge(out, diag, 'sum of tendencies')
    ctx.check('union of diagnostics', set(diag) == set(diags),
              'diagnostics {} instead of {}'.format(sorted(diag), sorted(diags)))
    for name in diags:
        ctx.check('union of diagnostics', diags[name].matches(diag[name]),
                  'diagnostic {} is not that of its component'.format(name))
    ctx.check('outputs kept', not snap.changes(state), 'state changed: {}'.format(
        snap.changes(state)))
    # declared
    ip, tp, dp = comp.input_properties, comp.tendency_properties, comp.diagnostic_properties
    ctx.check('declared', set(tp) == set(out), 'declares tendencies {} returns {}'.format(
        sorted(tp), sorted(out)))
    ctx.check('declared', set(dp) == set(diag), 'declares diagnostics {} returns {}'.format(
        sorted(dp), sorted(diag)))
    for name in out:
        ctx.check('declared', same_unit(tp[name]['units'], out[name].attrs['units']) or
                  tp[name]['units'] in UNIT and
                  family(tp[name]['units']) == family(out[name].attrs['units']),
                  'tendency of {} declared in {} is in {}'.format(
                      name, tp[name]['units'], out[name].attrs['units']))
        ctx.check('declared', fits(tp[name]['dims'], out[name].dims),
                  'tendency of {} declared with {} has {}'.format(
                      name, tp[name]['dims'], out[name].dims))
    for name in diag:
        ctx.check('declared', fits(dp[name]['dims'], diag[name].dims) and
                  same_unit(dp[name]['units'], diag[name].attrs['units']),
                  'diagnostic {} declared as {}'.format(name, dp[name]))
    needs = set()
    for p in model.processes:
        needs.update(p.inputs)
    ctx.check('declared', set(ip) == needs, 'declares inputs {} instead of {}'.format(
        sorted(ip), sorted(needs)))
    # a later call, in another order, from the declared inputs alone
    small = {n: state[n] for n in ip}
    small['time'] = state['time']
    state = small
    second = cls(*ctx.rng.sample(components, len(components)))
    out2, diag2 = evaluate(second, 'second')
    judge(out2, diag2, 'order')
    ctx.check('order', set(diag2) == set(diags), 'other diagnostics')
    again, _ = evaluate(comp, 'third')
    judge(again, diag, 'outputs kept')
    judge(out, diag, 'outputs kept')
    if given is not None:
        ctx.check('outputs kept', not given.changes(constants),
                  'given tendencies changed: {}'.format(given.changes(constants)))
    # other states
    if not cached:
        for _ in range(ctx.pick([0, 1, 2])):
            state = model.another(same_lengths=bool(constants))
            new, extra = {}, {}
            scale.clear()
            for process, factors in factored:
                t, d = process.reference(model.values(state))
                for name in t:
                    term = t[name] * factors.get(name, 1.)
                    new[name] = new[name] + term if name in new else term
                    if term.values.size:
                        scale[name] = max(scale.get(name, 0), np.max(np.abs(term.values)))
                extra.update(d)
            for name, da in constants.items():
                term = Ref.of(da)
                new[name] = new[name] + term if name in new else term
                if term.values.size:
                    scale[name] = max(scale.get(name, 0), np.max(np.abs(term.values)))
            total.clear()
            total.update(new)
            which = ctx.pick([comp, second])
            out3, diag3 = evaluate(which, 'other state')
            judge(out3, diag3, 'another state')
            ctx.check('another state', set(diag3) == set(extra), 'other diagnostics')
            for name in extra:
                ctx.check('another state', extra[name].matches(diag3[name]),
                          'diagnostic {} is not that of its component'.format(name))
    # without one of the inputs it must refuse
    if ip and not cached:
        name = ctx.pick(sorted(ip))
        state = small
        del small[name]
        ctx.refuses('needs', (InvalidStateError, KeyError), 'a state without ' + name,
                    evaluate, comp, 'missing')


def fits(declared, dims):
    declared = list(declared)
    plain = [d for d in declared if d != '*']
    if '*' in declared:
        return set(plain) <= set(dims)
    return set(plain) == set(dims)


def diagnostic_case(ctx):
    n = ctx.rng.randint(1, 4)
    comps, states, expect, calls = [], {}, {}, []
    lay = Layout(ctx, zero=0.03, wildcard=False)
    avoid, aliases = set(), set()
    for i in range(n):
        diags = Outputs(ctx, lay, 'diagnostic', n=some_count(ctx, 0, 3) if len(avoid) < 6 else 1, avoid=avoid,
                        inherit=False)
        avoid |= set(diags.properties)
        for name, prop in diags.properties.items():  # one alias, one quantity
            if 'alias' in prop and prop['alias'] in aliases:
                del prop['alias']
                diags.keys[name] = name
            aliases.add(prop.get('alias'))
        arrays = diags.make()

        def compute(raw, dt, i=i, diags=diags, arrays=arrays):
            calls.append((i, raw.get('time')))
            return {}, diags.keyed(arrays)
        inputs = {k: v for k, v in lay.inputs.items() if ctx.chance(0.8)}
        if any(k not in inputs for p in [diags] for k in p.properties if k in lay.inputs):
            inputs = lay.inputs
        # aliases of inputs that are not asked for must not be used as keys
        inputs = lay.inputs
        comps.append(make_component(ctx, 'diagnostic', dict(inputs), {},
                                    dict(diags.properties), compute))
        expect.update({k: (diags, arrays[k]) for k in diags.properties})
    order = list(range(n))
    ctx.rng.shuffle(order)
    ctx.tag('diagnostic', n, len(expect))
    comp = DiagnosticComponentComposite(*[comps[i] for i in order])
    out = comp(lay.state)
    ctx.check('each called once', sorted(calls) == sorted(
        (i, lay.state['time']) for i in range(n)), 'calls {}'.format(calls))
    ctx.check('union of diagnostics', set(out) == set(expect),
              'diagnostics {} instead of {}'.format(sorted(out), sorted(expect)))
    for name, (diags, array) in expect.items():
        bad = diags.mismatch(name, array, out[name], [()])
        ctx.check('union of diagnostics', bad is None, '{} {}'.format(name, bad))
    ctx.check('declared', set(comp.diagnostic_properties) == set(expect) and
              set(comp.input_properties) == set(lay.inputs), 'declared properties wrong')
    if expect:
        name = ctx.pick(sorted(expect))
        other = ConstantDiagnosticComponent({name: DataArray(
            np.zeros(2), dims=['dd'], attrs={'units': 'm'})})
        parts = comps + [other]
        ctx.refuses('shared diagnostic', SharedKeyError, 'two components giving ' + name,
                    DiagnosticComponentComposite, *ctx.rng.sample(parts, len(parts)))


class NotAComponent(object):
    def __call__(self, state):
        return {}, {}


def chained_case(ctx):
    """A component that needs what another one of the composite gives: each gets
    the caller's state."""
    lengths = {'x': ctx.rng.randint(1, 4), 'y': ctx.rng.randint(1, 3)}
    vals = Values(ctx)
    dims = ctx.rng.sample(list(lengths), ctx.rng.randint(0, 2))
    names = ctx.rng.sample([n for n in NAMES], 3)
    given, made, result = names
    seen = []
    shape = [lengths[d] for d in dims]
    first = make_component(
        ctx, 'diagnostic', {given: {'dims': dims, 'units': 'm'}}, {},
        {made: {'dims': dims, 'units': 'm'}},
        lambda raw, dt: ({}, {made: np.array(raw[given]) + 1.}))

    def compute(raw, dt):
        seen.append(np.array(raw[made]))
        return {}, {result: np.zeros(shape)}
    second = make_component(ctx, 'diagnostic', {made: {'dims': dims, 'units': 'm'}}, {},
                            {result: {'dims': dims, 'units': 's'}}, compute)
    parts = [first, second]
    ctx.rng.shuffle(parts)
    comp = DiagnosticComponentComposite(*parts)
    ctx.check('declared', set(comp.input_properties) == {given, made},
              'declares inputs {}'.format(sorted(comp.input_properties)))
    state = {'time': some_time(ctx)}
    for n in (given, made):
        state[n] = quantity(ctx, vals, dims, lengths, 'm', dtype=np.float64)
    lacking = {k: v for k, v in state.items() if k != made}
    ctx.tag('chained', str(len(dims)))
    ctx.saw('chained')
    for complete in ctx.rng.sample([True, False, True], 3):
        del seen[:]
        if complete:
            before = Snapshot(state)
            out = comp(state)
            ctx.check('each called once', len(seen) == 1, 'called {} times'.format(len(seen)))
            ctx.check('caller state', aligned_equal(state[made], seen[0], dims, 0.),
                      '{} is not that of the state'.format(made), seen, state[made].values)
            ctx.check('union of diagnostics', set(out) == {made, result}, str(sorted(out)))
            ctx.check('caller state', not before.changes(state), str(before.changes(state)))
        else:
            ctx.refuses('needs', (InvalidStateError, KeyError),
                        'a state without {}, which another component gives'.format(made),
                        comp, lacking)
            ctx.check('needs', not seen, 'the component was run without its input')


def refusal_case(ctx):
    model = Model(ctx, n_processes=1, kinds=['tendency'])
    good = model.components()
    implicit = Model(ctx, n_processes=1, kinds=['implicit']).components()[0]
    stepper = make_component(ctx, 'stepper', {}, {}, {}, lambda r, d: ({}, {}))
    diagnostic = make_component(ctx, 'diagnostic', {}, {}, {}, lambda r, d: ({}, {}))
    tendency = make_component(ctx, 'tendency', {}, {}, {}, lambda r, d: ({}, {}))
    ab = AdamsBashforth(tendency)
    junk = [NotAComponent(), 'component', None, 3, NotAComponent, [good[0]],
            PlotFunctionMonitor(lambda f, s: None)]
    cls, good, bad = ctx.pick([
        (TendencyComponentComposite, good, [implicit, stepper, diagnostic, ab] + junk),
        (ImplicitTendencyComponentComposite, good + [implicit],
         [stepper, diagnostic, ab] + junk),
        (DiagnosticComponentComposite, [diagnostic],
         [implicit, stepper, tendency, ab] + junk)])
    wrong = ctx.pick(bad)
    parts = list(good) if ctx.chance(0.7) else []
    parts.insert(ctx.rng.randint(0, len(parts)), wrong)
    ctx.tag('refuse', cls.__name__, type(wrong).__name__)
    ctx.refuses('wrong kind', TypeError, '{} of {}'.format(cls.__name__, wrong),
                cls, *parts)
    # two that give the same diagnostic
    cls = ctx.pick([TendencyComponentComposite, ImplicitTendencyComponentComposite])
    units = [ctx.pick(['m', 'K', 'Pa']) for _ in range(2)]
    parts = [make_component(
        ctx, ctx.pick(['tendency'] if cls is TendencyComponentComposite else
                      ['tendency', 'implicit']), {}, {},
        dict({'own{}_{}'.format(i, k): {'dims': [], 'units': 'm'}
              for k in range(some_count(ctx, 0, 4))},
             shared={'dims': ['x'], 'units': u}), lambda r, d: ({}, {}))
        for i, u in enumerate(units)]
    parts.insert(1, tendency)
    ctx.refuses('shared diagnostic', SharedKeyError, 'two components giving one diagnostic',
                cls, *parts)


def case(ctx):
    if ctx.chance(0.04):
        return chained_case(ctx)
    r = ctx.rng.random()
    if r < 0.65:
        tendency_case(ctx)
    elif r < 0.85:
        diagnostic_case(ctx)
    else:
        refusal_case(ctx)
