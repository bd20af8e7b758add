"""C29: prescribed and relaxation components."""
from datetime import timedelta

import numpy as np
from sympl import (
    AdamsBashforth, ConstantDiagnosticComponent, ConstantTendencyComponent, DataArray,
    DiagnosticComponentComposite, ImplicitTendencyComponentComposite, Leapfrog,
    RelaxationTendencyComponent, SSPRungeKutta, ScalingWrapper, TendencyComponentComposite,
    UpdateFrequencyWrapper)
from mon.lib import (
    ALIASES, FAMILIES, NAMES, UNIT, Snapshot, Values, aligned_equal, close, convert, dim_lengths,
    exact, linear_units, properties_changes, properties_snapshot, quantity, quantity_changes,
    rate_of, rtol_for, some_time, spread)

CASES = {'quick': 5600, 'thorough': 36000}
REQUIRED = ('monitor:constant tendency', 'monitor:constant diagnostic', 'monitor:properties',
            'monitor:composite', 'monitor:scaled', 'monitor:slowed', 'monitor:stepped',
            'monitor:prescribed arrays', 'monitor:relaxation', 'monitor:relaxation properties',
            'monitor:state unchanged', 'monitor:keys', 'monitor:tendency diagnostics',
            'shared quantity', 'twice in a composite', 'nested use', 'many calls',
            'scalar', 'zero length', 'integer', 'missing dimension', 'offset units',
            'timescale units', 'equilibrium units', 'array timescale', 'scaled relaxation',
            'relaxation in composite', 'relaxation stepped', 'interval zero',
            'caller dictionary altered', 'special values', 'steps') + tuple(
                'stepper ' + s for s in ('AdamsBashforth', 'Leapfrog', 'SSPRungeKutta'))
RULE = ('prescribed dictionaries of 0-4 quantities of any dims, dtype, memory layout and units, used '
        'through histories of 3-8 uses: bare calls with any state, calls through composites (with '
        'other prescribed components giving the same quantity, and the component given twice), '
        'scaling and frequency wrappers, and steps of all three steppers; after each use the next '
        'bare call must again equal the prescribed quantities exactly and the declarations must be '
        'the same. Relaxation: value, equilibrium and timescale of any compatible units, dims '
        '(any part missing from any of them) and dtypes; compared by label with (equilibrium - '
        'value)/timescale worked out here. Distinct by quantities, units, dims and history.')
ASSUMPTIONS = ['the caller leaves the prescribed arrays alone (the documentation says they are not '
               'copied)', 'relaxed quantities of signed integers wide enough for the difference',
               'relaxation components work in units without offset']

RATES = ['s^-1', 'day^-1', 'hr^-1', 'min^-1']


def prescribed(ctx, vals, lengths, names, rate):
    out = {}
    for name in names:
        fam = ctx.pick(sorted(FAMILIES))
        units = ctx.pick(linear_units(fam) if rate else FAMILIES[fam])
        if rate:
            units = rate_of(ctx, units)
        dims = ctx.rng.sample(sorted(lengths), ctx.rng.randint(0, min(3, len(lengths))))
        out[name] = quantity(ctx, vals, dims, lengths, units, special=0.08, coords=0)
        if not dims:
            ctx.saw('scalar')
        if out[name].size == 0:
            ctx.saw('zero length')
        if out[name].dtype.kind == 'i':
            ctx.saw('integer')
        if out[name].dtype.kind == 'f' and not np.isfinite(out[name].values).all():
            ctx.saw('special values')
    return out


def judge(ctx, monitor, got, reference, what):
    """got: what was returned; reference: snapshots of what was prescribed."""
    ctx.check('keys', set(got) - {'time'} == set(reference), '{}: returned {}, not {}'.format(
        what, sorted(got), sorted(reference)))
    for name, (values, dims, units) in reference.items():
        q = got[name]
        ctx.check(monitor, type(q) is DataArray and tuple(q.dims) == dims and
                  exact(q.values, values), '{}: {} is {} of {} (dims {}), not {} of {} '
                  '(dims {})'.format(what, name, q.values, q.dtype, q.dims, values, values.dtype,
                                     dims))
        ctx.check(monitor, q.attrs.get('units') == units, '{}: units of {} are {!r}, not '
                  '{!r}'.format(what, name, q.attrs.get('units'), units))


def frozen(quantities):
    return {n: (np.array(q.values, copy=True), tuple(q.dims), q.attrs['units'])
            for n, q in quantities.items()}


def some_state(ctx, vals, lengths):
    state = {}
    for n in ctx.rng.sample(NAMES, ctx.rng.randint(0, 3)):
        dims = ctx.rng.sample(sorted(lengths), ctx.rng.randint(0, len(lengths)))
        state[n] = quantity(ctx, vals, dims, lengths, ctx.pick(FAMILIES['length']))
    state['time'] = some_time(ctx)
    return state


def constant_case(ctx):
    vals, lengths = Values(ctx), dim_lengths(ctx)
    names = ctx.rng.sample(NAMES, ctx.pick([1, 1, 2, 3, 4]))
    which = ctx.pick(['tendency', 'tendency', 'diagnostic'])
    td = ctx.chance(0.3) and which == 'tendency'
    if which == 'tendency':
        n = ctx.rng.randint(0, len(names))
        given_t = prescribed(ctx, vals, lengths, names[:n], True)
        given_d = prescribed(ctx, vals, lengths, ctx.pick(
            [names[n:], ['some_diagnostic']]), ctx.chance(0.3))
        kwargs = {'name': 'prescribed'} if ctx.chance(0.5) else {}
        if td:
            kwargs['tendencies_in_diagnostics'] = True
        args = [given_t]
        if given_d or ctx.chance(0.5):
            args.append(given_d)
        comp = ConstantTendencyComponent(*args, **kwargs)
    else:
        given_t = {}
        given_d = prescribed(ctx, vals, lengths, names, ctx.chance(0.3))
        comp = ConstantDiagnosticComponent(given_d)
    ref_t, ref_d = frozen(given_t), frozen(given_d)
    originals = dict(given_t), dict(given_d)
    snaps = Snapshot(given_t), Snapshot(given_d)
    if td:
        label = kwargs.get('name', 'ConstantTendencyComponent')
        for n, r in list(ref_t.items()):
            ref_d['{}_tendency_from_{}'.format(n, label)] = r
    if ctx.chance(0.3):
        ctx.saw('caller dictionary altered')
        for g in (given_t, given_d):
            if ctx.chance(0.5):
                g.clear()
            else:
                g['another'] = quantity(ctx, vals, [], {}, 'm')
    ctx.log(which, {n: (r[1], r[2], str(r[0].dtype)) for n, r in ref_t.items()},
            {n: (r[1], r[2], str(r[0].dtype)) for n, r in ref_d.items()})
    history = []

    def bare():
        state = some_state(ctx, vals, lengths)
        snap = Snapshot(state)
        if which == 'tendency':
            t, d = ctx.accepts('accepted', 'bare call', comp, state)
            judge(ctx, 'constant tendency', t, ref_t, 'after {}'.format(history))
        else:
            d = ctx.accepts('accepted', 'bare call', comp, state)
        judge(ctx, 'constant diagnostic', d, ref_d, 'after {}'.format(history))
        if td:
            for n in ref_t:
                ctx.check('tendency diagnostics', exact(
                    d['{}_tendency_from_{}'.format(n, label)].values, ref_t[n][0]), n)
        ctx.check('state unchanged', not snap.changes(state), snap.changes(state))
        ctx.check('properties', comp.input_properties == {}, 'inputs')
        if which == 'tendency':
            ctx.check('properties', {
                n: (tuple(p['dims']), p['units']) for n, p in comp.tendency_properties.items()
            } == {n: r[1:] for n, r in ref_t.items()}, 'tendency properties are {}'.format(
                comp.tendency_properties))
        ctx.check('properties', {
            n: (tuple(p['dims']), p['units']) for n, p in comp.diagnostic_properties.items()
        } == {n: r[1:] for n, r in ref_d.items()}, 'diagnostic properties are {}'.format(
            comp.diagnostic_properties))
        for o, s in zip(originals, snaps):
            ctx.check('prescribed arrays', not s.changes(o), 'prescribed arrays after {}: {}'.format(
                history, s.changes(o)))
        history.append('call')
        return t if which == 'tendency' else {}, d

    bare()
    kept = []
    for _ in range(ctx.rng.randint(2, 7)):
        what = ctx.pick(['call', 'composite', 'composite', 'scale', 'slow'] + (
            ['step', 'step'] if ref_t else []))
        state = some_state(ctx, vals, lengths)
        if what == 'call':
            # results of a call stay what they are
            got = bare()
            kept.append((got, Snapshot(got[0]), Snapshot(got[1])))
        elif what == 'composite':
            composite(ctx, comp, which, ref_t, ref_d, vals, lengths, state)
        elif what == 'scale':
            factors_t = {n: ctx.pick([0., 2., -3.]) for n in ref_t if ctx.chance(0.6)}
            factors_d = {n: ctx.pick([0., 2., -3.]) for n in ref_d if ctx.chance(0.6)}
            kw = {'diagnostic_scale_factors': factors_d}
            if which == 'tendency':
                kw['tendency_scale_factors'] = factors_t
            scaled = ScalingWrapper(comp, **kw)
            for _ in range(2):
                out = scaled(state)
                t, d = out if which == 'tendency' else ({}, out)
                for got, ref, fs in ((t, ref_t, factors_t), (d, ref_d, factors_d)):
                    for n, f in fs.items():
                        with np.errstate(invalid='ignore'):
                            want = ref[n][0] * f
                        ctx.check('scaled', aligned_equal(got[n], want, ref[n][1]),
                                  'scaled {} is {}, not {}'.format(n, got[n].values, want))
            ctx.saw('nested use')
        elif what == 'slow':
            interval = ctx.pick([timedelta(0), timedelta(hours=1)])
            ctx.saw('interval zero' if not interval else 'interval')
            slow = UpdateFrequencyWrapper(comp, interval)
            start = some_time(ctx)
            for i in range(3):
                state['time'] = start + timedelta(minutes=25 * i)
                out = slow(state)
                t, d = out if which == 'tendency' else ({}, out)
                judge(ctx, 'slowed', t, ref_t, 'slowed')
                judge(ctx, 'slowed', d, ref_d, 'slowed')
        else:
            stepped(ctx, comp, ref_t, vals, lengths)
        if what != 'call':
            history.append(what)
            if ctx.chance(0.6):
                bare()
    bare()
    if len(history) > 6:
        ctx.saw('many calls')
    for got, s1, s2 in kept:
        ctx.check('prescribed arrays', not s1.changes(got[0]) and not s2.changes(got[1]),
                  'results returned earlier changed: {}'.format(
                      s1.changes(got[0]) + s2.changes(got[1])))
    ctx.tag('constant', which, td, sorted((n, r[1], r[2]) for n, r in ref_t.items()),
            sorted((n, r[1], r[2]) for n, r in ref_d.items()), tuple(history))


def composite(ctx, comp, which, ref_t, ref_d, vals, lengths, state):
    if which == 'diagnostic':
        parts = [comp]
        if ctx.chance(0.5):
            other = prescribed(ctx, vals, lengths, ['other_diagnostic'], False)
            parts.insert(ctx.rng.randint(0, 1), ConstantDiagnosticComponent(other))
        got = DiagnosticComponentComposite(*parts)(state)
        judge(ctx, 'composite', {n: got[n] for n in ref_d}, ref_d, 'composite')
        return
    others = []
    # another component for the same quantities
    extra = {}
    for n, (values, dims, units) in ref_t.items():
        if ctx.chance(0.6):
            ctx.saw('shared quantity')
            extra[n] = DataArray(vals.take(values.shape), dims=dims, attrs={
                'units': ctx.pick([u for u in UNIT if UNIT[u][0] == UNIT[units][0]])})
    order = [comp]
    if extra:
        others = [ConstantTendencyComponent(extra, name='other')]
        order.insert(ctx.rng.randint(0, 1), others[0])
    twice = not ref_d and ctx.chance(0.3)
    if twice:
        ctx.saw('twice in a composite')
        order.insert(ctx.rng.randint(0, len(order)), comp)
    snap = Snapshot(extra)
    if ctx.chance(0.5):
        c = TendencyComponentComposite(*order)
        run = lambda: c(state)
    else:
        c = ImplicitTendencyComponentComposite(*order)
        run = lambda: c(state, timedelta(minutes=10))
    if len(order) > 1 and ctx.chance(0.3):
        c2 = TendencyComponentComposite(c) if isinstance(
            c, TendencyComponentComposite) else ImplicitTendencyComponentComposite(c)
        ctx.saw('nested use')
        run = (lambda: c2(state)) if isinstance(c2, TendencyComponentComposite) else (
            lambda: c2(state, timedelta(minutes=10)))
    for i in range(ctx.rng.randint(1, 3)):
        t, d = run()
        ctx.check('keys', set(t) - {'time'} == set(ref_t), 'composite gave {}'.format(sorted(t)))
        for n, (values, dims, units) in ref_t.items():
            k = 2 if twice else 1
            u = t[n].attrs['units']
            with np.errstate(invalid='ignore', over='ignore'):
                want = np.asarray(convert(values, units, u), dtype=np.float64) * k
                if n in extra:
                    want = want + convert(extra[n].values, extra[n].attrs['units'], u)
            ctx.check('composite', aligned_equal(t[n], want, dims, rtol_for(
                values) * 4), 'composite: {} in call {} is {} {}, not {}'.format(
                    n, i, t[n].values, u, want))
        judge(ctx, 'composite', d, ref_d, 'composite')
    ctx.check('prescribed arrays', not snap.changes(extra), 'other component: {}'.format(
        snap.changes(extra)))


def stepped(ctx, comp, ref_t, vals, lengths):
    """Steps with it; the tendencies are constant, so every stepper is exact
    but for the filter of leapfrog."""
    state = {'time': some_time(ctx)}
    for n, (values, dims, units) in ref_t.items():
        fam, factor, _ = UNIT[units]
        own = [u for u in UNIT if (u + ' s^-1').strip() in UNIT and
               UNIT[(u + ' s^-1').strip()][0] == fam and UNIT[u][2] == 0.]
        if fam == 'speed':
            own = FAMILIES['length']
        if not own:
            return
        state[n] = DataArray(vals.take(values.shape), dims=dims, attrs={'units': ctx.pick(own)})
    cls = ctx.pick([AdamsBashforth, Leapfrog, SSPRungeKutta])
    ctx.saw('stepper ' + cls.__name__)
    kw = {} if cls is Leapfrog else {'order' if cls is AdamsBashforth else 'stages': ctx.pick(
        [1, 2, 3, 4] if cls is AdamsBashforth else [2, 3])}
    if cls is Leapfrog:
        kw = {'asselin_strength': 0.}
    stepper = cls(comp, **kw)
    dt = ctx.pick([timedelta(seconds=1), timedelta(seconds=20), timedelta(minutes=3)])
    start = {n: np.array(q.values) for n, q in state.items() if n != 'time'}
    for i in range(ctx.rng.randint(1, 5)):
        _, new = stepper(state, dt)
        ctx.saw('steps')
        for n, (values, dims, units) in ref_t.items():
            u = state[n].attrs['units']
            with np.errstate(invalid='ignore', over='ignore'):
                inc = np.asarray(convert(values, units, (u + ' s^-1').strip()),
                                 dtype=np.float64) * dt.total_seconds()
                want = start[n] + (i + 1) * inc
            finite = np.isfinite(values) if values.dtype.kind == 'f' else np.ones(
                values.shape, bool)
            got = np.asarray(new[n].transpose(*dims).values, dtype=np.float64)
            scale = np.max(np.abs(inc[finite])) * (i + 1) if finite.any() else 0.
            ctx.check('stepped', new[n].attrs['units'] == u and set(new[n].dims) == set(dims) and
                      close(got[finite], want[finite], rtol_for(values) * 10, scale),
                      '{} {}: {} after step {} is {}, not {}'.format(
                          cls.__name__, kw, n, i + 1, got, want))
        state = dict(new, time=state['time'] + dt)


def relaxation_case(ctx):
    vals, lengths = Values(ctx), dim_lengths(ctx)
    name = ctx.pick(NAMES)
    fam = ctx.pick(sorted(set(FAMILIES) - {'angle'}))
    units = ctx.pick(linear_units(fam))
    td = ctx.chance(0.3)
    kwargs = {'name': 'nudge'} if ctx.chance(0.5) else {}
    label = kwargs.get('name', 'RelaxationTendencyComponent')
    if td:
        kwargs['tendencies_in_diagnostics'] = True
    comp = RelaxationTendencyComponent(name, units, **kwargs)
    eq_name, tau_name = 'equilibrium_' + name, name + '_relaxation_timescale'
    snap = properties_snapshot(comp)
    ctx.check('relaxation properties', set(comp.input_properties) == {name, eq_name, tau_name} and
              comp.input_properties[name]['units'] == units and
              comp.input_properties[eq_name]['units'] == units and
              UNIT[comp.input_properties[tau_name]['units']] == UNIT['s'] and
              set(comp.tendency_properties) == {name},
              'declared {} and {}'.format(comp.input_properties, comp.tendency_properties))
    uses = []
    all_dims = sorted(lengths)
    for i in range(ctx.rng.randint(1, 4)):
        state = {'time': some_time(ctx)}
        dims, shown = {}, {}
        for q in (name, eq_name, tau_name):
            dims[q] = ctx.rng.sample(all_dims, ctx.rng.randint(0, min(3, len(all_dims))))
            f = 'duration' if q == tau_name else fam
            u = ctx.pick(FAMILIES[f])
            if f != 'temperature' or q != name:
                pass
            shown[q] = u
            if UNIT[u][2]:
                ctx.saw('offset units')
            if q == tau_name and UNIT[u] != UNIT['s']:
                ctx.saw('timescale units')
            if q == eq_name and not (UNIT[u] == UNIT[units]):
                ctx.saw('equilibrium units')
            state[q] = quantity(ctx, vals, dims[q], lengths, u, coords=0,
                                dtype=ctx.pick([np.float64] * 4 + [np.float32, np.int64, np.int32]))
            if q == tau_name and state[q].size:
                values = np.array(state[q].values)
                values[values == 0] = 3
                state[q] = DataArray(values, dims=dims[q], attrs={'units': u})
            if q == tau_name and dims[q]:
                ctx.saw('array timescale')
        for n in ctx.rng.sample(NAMES, 1):
            if n not in state:
                state[n] = quantity(ctx, vals, [], {}, 'K')
        union = [d for d in all_dims if any(d in dims[q] for q in dims)]
        if any(set(dims[q]) != set(union) for q in dims):
            ctx.saw('missing dimension')

        def laid(q, to):
            u = state[q].attrs['units']
            return spread(convert(state[q].values, u, to), dims[q], union, lengths)
        with np.errstate(all='ignore'):
            want = (np.asarray(laid(eq_name, units), dtype=np.float64) -
                    laid(name, units)) / laid(tau_name, 's')     # in units s^-1
        arrays = [state[q].values for q in dims]
        tol = max(rtol_for(a) for a in arrays)
        # cancellation: errors are relative to the size of the operands
        size = max([0.] + [float(np.max(np.abs(np.asarray(laid(q, units), dtype=np.float64)))) for q in (
            eq_name, name) if want.size])
        if any(UNIT[shown[q]][2] for q in (name, eq_name)):
            size = max(size, 600. / UNIT[units][1])
        small = float(np.min(np.abs(laid(tau_name, 's')))) if want.size else 1.
        scale = size / small if small else None
        if want.size == 0:
            ctx.saw('zero length')

        def judge_relaxation(q, factor, what, to=(units + ' s^-1').strip()):
            u = q.attrs['units']
            known = u if u in UNIT else to
            ctx.check('relaxation', type(q) is DataArray and set(q.dims) == set(union),
                      '{}: dims are {}, not {}'.format(what, q.dims, union))
            expected = convert(want * factor, to, known)
            ctx.check('relaxation', aligned_equal(q, expected, union, tol * 8, None if (
                scale is None) else scale * abs(factor) * UNIT[to][1] / UNIT[known][1]),
                '{}: {} {} (dims {}), not {} (dims {})'.format(
                    what, q.values, u, q.dims, expected, union))
            try:
                ok = float(np.asarray(DataArray(1., attrs={'units': u}).to_units(to))) != 0
            except ValueError:
                ok = False
            ctx.check('relaxation properties', ok, 'units {!r} of the tendency are not those of '
                      '{}'.format(u, to))
        before = Snapshot(state)
        what = ctx.pick(['bare', 'bare', 'composite', 'scaled', 'stepped', 'twice'])
        uses.append(what)
        for _ in range(2 if what == 'twice' else 1):
            t, d = ctx.accepts('accepted', 'relaxation', comp, state)
            ctx.check('keys', set(t) - {'time'} == {name} and set(d) - {'time'} == (
                {'{}_tendency_from_{}'.format(name, label)} if td else set()),
                'returned {} and {}'.format(sorted(t), sorted(d)))
            judge_relaxation(t[name], 1., 'call')
            if td:
                judge_relaxation(d['{}_tendency_from_{}'.format(name, label)], 1., 'diagnostic')
        kept = Snapshot(t)
        if what == 'composite':
            ctx.saw('relaxation in composite')
            c = DataArray(0., attrs={'units': (units + ' s^-1').strip()})
            parts = [comp, ConstantTendencyComponent({name: c})]
            ctx.rng.shuffle(parts)
            ct, _ = ctx.accepts('accepted', 'composite', TendencyComponentComposite(*parts), state)
            judge_relaxation(ct[name], 1., 'composite')
        elif what == 'scaled':
            ctx.saw('scaled relaxation')
            f = ctx.pick([2., -1., 0.5])
            st, _ = ScalingWrapper(comp, tendency_scale_factors={name: f})(state)
            judge_relaxation(st[name], f, 'scaled')
        elif what == 'stepped' and set(dims[name]) == set(union) and want.size and (
                is_same_linear(shown[name])) and state[name].dtype.kind == 'f':
            ctx.saw('relaxation stepped')
            dt = timedelta(seconds=ctx.pick([1, 30]))
            stepper = ctx.pick([AdamsBashforth, SSPRungeKutta])
            stepper = AdamsBashforth(comp, order=1) if stepper is AdamsBashforth else (
                SSPRungeKutta(comp, stages=2))
            _, new = ctx.accepts('accepted', 'step', stepper, state, dt)
            if isinstance(stepper, AdamsBashforth):
                own = shown[name]
                inc = convert(want, (units + ' s^-1').strip(), (
                    own + ' s^-1').strip()) * dt.total_seconds()
                old = spread(state[name].values, dims[name], union, lengths)
                ctx.check('relaxation', aligned_equal(
                    new[name], old + inc, union, tol * 8,
                    None if scale is None else scale * dt.total_seconds() *
                    UNIT[units][1] / UNIT[own][1]), 'stepped: {} not {}'.format(
                        new[name].values, old + inc))
        ctx.check('state unchanged', not before.changes(state), before.changes(state))
        ctx.check('relaxation', not kept.changes(t), 'result changed later: {}'.format(
            kept.changes(t)))
        ctx.check('relaxation properties', not properties_changes(comp, snap),
                  properties_changes(comp, snap))
    ctx.tag('relaxation', name, units, td, tuple(sorted(shown.items())),
            tuple(sorted((q, tuple(d)) for q, d in dims.items())), tuple(uses))


def is_same_linear(u):
    return UNIT[u][2] == 0.


def case(ctx):
    if ctx.chance(0.5):
        constant_case(ctx)
    else:
        relaxation_case(ctx)
