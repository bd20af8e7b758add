"""C06: calls leave the caller's state, the properties and earlier results alone
and are repeatable."""
import os
from datetime import datetime, timedelta

import numpy as np
from sympl import (
    AdamsBashforth, ConstantDiagnosticComponent, ConstantTendencyComponent, DataArray,
    DiagnosticComponentComposite, ImplicitTendencyComponentComposite, Leapfrog, MonitorComposite,
    NetCDFMonitor, PlotFunctionMonitor, RelaxationTendencyComponent, RestartMonitor,
    SSPRungeKutta, ScalingWrapper, Stepper, TendencyComponentComposite, TimeDifferencingWrapper,
    UpdateFrequencyWrapper, get_component_aliases, get_numpy_arrays_with_properties,
    initialize_numpy_arrays_with_properties, restore_data_arrays_with_properties)
from mon.lib import (
    BASES, FAMILIES, Layout, Snapshot, Values, is_linear, linear_units, make_component,
    family, properties_changes, properties_snapshot, quantity, some_timestep)
from mon.model import Injected, Model

CASES = {'quick': 3400, 'thorough': 45000}
REQUIRED = ('monitor:state', 'monitor:properties', 'monitor:repeat', 'monitor:earlier results',
            'monitor:after error', 'monitor:own data', 'monitor:parts', 'fresh', 'view', 'cached',
            'stepper', 'tendency', 'implicit', 'diagnostic', 'scaling', 'frequency', 'differencing',
            'tendency composite', 'implicit composite', 'diagnostic composite', 'nested composite',
            'ab', 'ssprk', 'leapfrog', 'constant', 'relaxation', 'tendencies in diagnostics',
            'netcdf', 'restart', 'plot', 'read-only', 'helpers', 'tracked repeat', 'dictionaries kept')
RULE = ('zoos of objects of every kind (components returning fresh arrays, their input arrays or '
        'cached arrays; wrappers, composites, nested composites, steppers, built-in components, '
        'monitors, stand-alone helpers) called in random interleavings with several states, '
        'sometimes raising; deep snapshots of states, properties, arrays owned by components and '
        'results returned earlier are compared around every call, repeats are compared exactly. '
        'Distinct by the objects in the zoo and the layouts.')
ASSUMPTIONS = ['computations do not modify their arguments',
               'the leapfrog stepper may modify the quantities it steps in the state it is given']


class Item(object):
    """An object of the zoo. call(state) returns a list of dictionaries."""

    def __init__(self, label, obj, call, repeatable=True, parts=(), stepped=()):
        self.label, self.obj, self.call = label, obj, call
        self.latest = None
        self.repeatable, self.parts, self.stepped = repeatable, list(parts), set(stepped)


class Own(object):
    """Arrays and dictionaries owned by components, which nobody else may write to."""

    def __init__(self):
        self.pairs = []
        self.dicts = []

    def keep(self, array):
        self.pairs.append((array, np.array(array)))
        return array

    def keep_dict(self, d):
        self.dicts.append((d, dict(d)))
        return d

    def changed(self):
        if any(list(d) != list(was) or any(d[k] is not was[k] for k in was)
               for d, was in self.dicts):
            return True
        return any(not np.array_equal(a, b, equal_nan=a.dtype.kind == 'f') or a.dtype != b.dtype
                   for a, b in self.pairs)


def echo_component(ctx, lay, kind, own, index, faults, names=None):
    """A component whose results are its input arrays, cached arrays or fresh
    ones. Outputs have the dims and units of the inputs."""
    mode = ctx.pick(['fresh', 'view', 'cached'])
    ctx.saw(mode)
    ctx.saw(kind)
    usable = [n for n in lay.inputs if is_linear(lay.inputs[n]['units'])]
    names = names or [n for n in usable if ctx.chance(0.7)] or usable[:1]
    inputs = {n: dict(p) for n, p in lay.inputs.items()}
    outs, diags = {}, {}
    for n in names:
        u = inputs[n]['units']
        if kind in ('tendency', 'implicit'):
            outs[n] = {'units': (u + ' s^-1').strip()}
        elif kind == 'stepper':
            outs[n] = {'units': u}
        if kind == 'diagnostic' or ctx.chance(0.5):
            diags['d{}_{}'.format(index, n)] = {'units': u, 'dims': list(inputs[n]['dims'])}
    cache = {}
    init = {}
    if kind != 'diagnostic' and ctx.chance(0.4):
        ctx.saw('tendencies in diagnostics')
        init['tendencies_in_diagnostics'] = True
    init_name = 'echo{}'.format(index)
    if kind != 'diagnostic':
        init['name'] = init_name

    def array(key, source):
        if mode == 'view':
            return source
        if mode == 'fresh':
            return np.asarray(source * 2.)
        if key not in cache or cache[key].shape != source.shape:
            cache[key] = own.keep(np.array(source * 2.))
        return cache[key]

    def compute(raw, dt):
        if faults.get(index):
            raise Injected('on purpose')
        first = {n: array(n, raw[inputs[n].get('alias', n)]) for n in outs}
        second = {d: array(d, raw[inputs[d.split('_', 1)[1]].get('alias', d.split('_', 1)[1])])
                  for d in diags}
        if mode == 'cached' and keeps:
            ctx.saw('dictionaries kept')
            if 'kept' not in results or any(
                    a[k].shape != b[k].shape for a, b in zip(results['kept'], (first, second))
                    for k in b):
                results['kept'] = own.keep_dict(first), own.keep_dict(second)
            return results['kept']
        return first, second
    results, keeps = {}, ctx.chance(0.6)
    comp = make_component(ctx, kind, inputs, outs, diags, compute, init=init)
    comp.mode = mode
    return comp


def caller(kind, comp, timestep):
    if kind == 'diagnostic':
        return lambda s: [comp(s)]
    if kind == 'tendency':
        return lambda s: list(comp(s))
    return lambda s: list(comp(s, timestep))


def layout_zoo(ctx, own, faults):
    """Components of one layout with wrappers and composites around them."""
    lay = Layout(ctx, special=0.03, zero=0.02, linear=ctx.chance(0.6))
    if any(not v.values.flags.writeable for v in lay.state.values() if isinstance(v, DataArray)):
        ctx.saw('read-only')
    timestep = some_timestep(ctx)
    items, comps = [], []
    for i in range(ctx.rng.randint(1, 4)):
        kind = ctx.pick(['tendency', 'implicit', 'stepper', 'diagnostic'])
        comp = echo_component(ctx, lay, kind, own, i, faults)
        comps.append((kind, comp))
        # a cached result depends on the first call
        ok = comp.mode != 'cached'
        items.append(Item(kind + '/' + comp.mode, comp, caller(kind, comp, timestep), ok))
        ctx.tag(kind, comp.mode)
    for kind, comp in list(comps):
        r = ctx.rng.random()
        ok = comp.mode != 'cached'
        if r < 0.3:
            ctx.saw('scaling')
            kwargs = {}
            factor = lambda: ctx.pick([0.5, 2., -1., 3])
            kwargs['input_scale_factors'] = {
                n: factor() for n in comp.input_properties if ctx.chance(0.4) and n in lay.inputs}
            for word, props in (('output', 'output_properties'),
                                ('tendency', 'tendency_properties'),
                                ('diagnostic', 'diagnostic_properties')):
                if props in BASES[kind].__dict__ and ctx.chance(0.7):
                    kwargs[word + '_scale_factors'] = {
                        n: factor() for n in getattr(comp, props) if ctx.chance(0.5)}
            w = ScalingWrapper(comp, **kwargs)
            items.append(Item('scaled ' + kind, w, caller(kind, w, timestep), ok, [comp]))
        elif r < 0.55:
            ctx.saw('frequency')
            every = ctx.pick([timedelta(0), timedelta(hours=1)])
            w = UpdateFrequencyWrapper(comp, every)
            items.append(Item('slowed ' + kind, w, caller(kind, w, timestep),
                              ok and not every, [comp]))
        elif r < 0.8 and kind == 'stepper':
            ctx.saw('differencing')
            w = TimeDifferencingWrapper(comp)
            items.append(Item('differenced', w, caller('implicit', w, timestep), ok, [comp]))
    for kinds, cls, word in (
            (('tendency',), TendencyComponentComposite, 'tendency composite'),
            (('tendency', 'implicit'), ImplicitTendencyComponentComposite, 'implicit composite'),
            (('diagnostic',), DiagnosticComponentComposite, 'diagnostic composite')):
        parts = [c for k, c in comps if k in kinds]
        if parts and ctx.chance(0.75):
            ctx.saw(word)
            ctx.rng.shuffle(parts)
            c = cls(*parts)
            ok = all(p.mode != 'cached' for p in parts)
            kind = {'tendency composite': 'tendency', 'implicit composite': 'implicit'}.get(
                word, 'diagnostic')
            items.append(Item(word, c, caller(kind, c, timestep), ok, parts))
            if ctx.chance(0.4):
                ctx.saw('nested composite')
                c2 = cls(c)
                items.append(Item('nested ' + word, c2, caller(kind, c2, timestep), ok,
                                  parts + [c]))
    items += helpers(ctx, lay)
    states = [lay.state]
    for _ in range(ctx.rng.randint(0, 2)):
        other = {}
        for n, v in lay.state.items():
            if isinstance(v, DataArray):
                w = DataArray(np.array(v.values), dims=v.dims, attrs=dict(v.attrs),
                              coords=dict(v.coords))
                if w.values.dtype.kind == 'f':
                    w.values[...] = w.values * 0.5
                other[n] = w
            else:
                other[n] = v
        other['time'] = lay.state['time'] + timedelta(minutes=7)
        states.append(other)
    return items, states


def helpers(ctx, lay):
    """The stand-alone functions that components use."""
    ctx.saw('helpers')
    inputs = {n: dict(p) for n, p in lay.inputs.items()}
    out_props = {n: {'units': p['units']} for n, p in inputs.items()}

    class Holder(object):
        input_properties = inputs
        output_properties = out_props
    holder = Holder()

    def extract(state):
        raw = get_numpy_arrays_with_properties(state, holder.input_properties)
        return [{k: DataArray(np.array(v)) for k, v in raw.items()}]

    def there_and_back(state):
        raw = get_numpy_arrays_with_properties(state, holder.input_properties)
        return [restore_data_arrays_with_properties(
            raw, holder.output_properties, state, holder.input_properties)]

    def allocate(state):
        raw = get_numpy_arrays_with_properties(state, holder.input_properties)
        out = initialize_numpy_arrays_with_properties(
            holder.output_properties, raw, holder.input_properties)
        r = {k: DataArray(np.array(v)) for k, v in out.items()}
        for v in out.values():
            v[...] = 7.   # they are the caller's to fill
        return [r]

    def aliases(state):
        return [get_component_aliases(holder)]
    return [Item('extract', holder, extract), Item('restore', holder, there_and_back),
            Item('allocate', holder, allocate), Item('aliases', holder, aliases)]


def model_zoo(ctx, own, faults):
    """Steppers and composites of processes acting on one state."""
    leap = ctx.chance(0.35)
    model = Model(ctx, readonly=not leap and ctx.chance(0.5), zero=0.02)
    dt = model.timestep
    items = []
    parts = model.components()
    ok = all(not p.static for p in model.processes)
    for p in model.processes:
        faults.setdefault('processes', []).append(p)

    def step(obj):
        return lambda s: list(obj(s, dt))
    init = {}
    if ctx.chance(0.4):
        ctx.saw('tendencies in diagnostics')
        init = {'tendencies_in_diagnostics': True, 'name': 'whole'}
    for which in ctx.rng.sample(['ab', 'ssprk', 'leapfrog', 'composite'], ctx.rng.randint(1, 3)):
        ctx.tag(which)
        if which == 'ab':
            order = ctx.rng.randint(1, 4)
            st = AdamsBashforth(*parts, order=order, **init)
            items.append(Item('ab', st, step(st), ok and order == 1, parts))
        elif which == 'ssprk':
            st = SSPRungeKutta(*parts, stages=ctx.pick([2, 3]), **init)
            items.append(Item('ssprk', st, step(st), ok, parts))
        elif which == 'leapfrog' and leap:
            st = Leapfrog(*parts, **init)
            items.append(Item('leapfrog', st, step(st), False, parts, model.stepped))
        else:
            c = ImplicitTendencyComponentComposite(*parts)
            items.append(Item('implicit composite', c, step(c), ok, parts))
            which = 'implicit composite'
        if items[-1].label == which:
            ctx.saw(which)
    if ctx.chance(0.5):
        wrapper_of_stepper(ctx, items, parts, dt, ok)
    model.extra_quantities(model.state)
    states = [model.state]
    if not leap and ctx.chance(0.5):
        states.append(dict(model.state, time=model.state['time'] + timedelta(hours=1)))
    return items, states


def wrapper_of_stepper(ctx, items, parts, dt, ok):
    st = AdamsBashforth(*parts, order=1)
    factors = {n: 2. for n in st.output_properties if ctx.chance(0.5)}
    w = ScalingWrapper(st, output_scale_factors=factors, input_scale_factors={
        n: 0.5 for n in st.input_properties if ctx.chance(0.3)})
    ctx.saw('scaling')
    items.append(Item('scaled ab', w, lambda s: list(w(s, dt)), ok, [st] + parts))


def builtin_zoo(ctx, own, faults):
    """Prescribed and relaxation components, alone and in other objects."""
    vals = Values(ctx)
    lengths = {'x': ctx.rng.randint(1, 4), 'y': ctx.rng.randint(1, 3)}
    state = {}
    fam = ctx.pick(['length', 'temperature', 'pressure', 'mass'])
    name = ctx.pick(['air_temperature', 'q', 'T'])

    def q(units, dims=None):
        dims = dims if dims is not None else ctx.rng.sample(
            list(lengths), ctx.rng.randint(0, 2))
        return quantity(ctx, vals, dims, lengths, units, dtype=np.float64, coords=0.)
    full = ctx.rng.sample(list(lengths), 2)
    state[name] = quantity(ctx, vals, full, lengths, ctx.pick(linear_units(fam)),
                           dtype=np.float64, writable=True, coords=0.)
    state['equilibrium_' + name] = q(ctx.pick(linear_units(fam)))
    state[name + '_relaxation_timescale'] = q(ctx.pick(['s', 'hr', 'day']))
    state['time'] = datetime(2000, 1, 1)
    rate = (ctx.pick(linear_units(fam)) + ' s^-1').strip()
    prescribed = {name: DataArray(vals.take([lengths[d] for d in full]), dims=full,
                                  attrs={'units': rate})}
    diagnostics = {'dd': q('m'), 'ee': q('K')}
    for v in list(prescribed.values()) + list(diagnostics.values()):
        own.keep(v.values)
    ctx.saw('constant')
    ctx.saw('relaxation')
    dt = some_timestep(ctx)
    init = {'tendencies_in_diagnostics': True} if ctx.chance(0.4) else {}
    ct = ConstantTendencyComponent(prescribed, dict(diagnostics) if ctx.chance(0.5) else None,
                                   **init)
    cd = ConstantDiagnosticComponent({'ff': diagnostics['dd']})
    rx = RelaxationTendencyComponent(name, ctx.pick(linear_units(fam)), **init)
    items = [Item('constant tendency', ct, lambda s: list(ct(s))),
             Item('constant diagnostic', cd, lambda s: [cd(s)]),
             Item('relaxation', rx, lambda s: list(rx(s)))]
    parts = [ct, rx]
    if not init:
        ctx.rng.shuffle(parts)
        tc = TendencyComponentComposite(*parts)
        items.append(Item('tendency composite', tc, lambda s: list(tc(s)), parts=parts))
        ctx.saw('tendency composite')
    dc = DiagnosticComponentComposite(cd)
    items.append(Item('diagnostic composite', dc, lambda s: [dc(s)], parts=[cd]))
    sw = ScalingWrapper(ct, tendency_scale_factors={name: ctx.pick([2., 0., -1.])})
    items.append(Item('scaled constant', sw, lambda s: list(sw(s)), parts=[ct]))
    uf = UpdateFrequencyWrapper(rx, timedelta(0))
    items.append(Item('slowed relaxation', uf, lambda s: list(uf(s)), parts=[rx]))
    if not init:
        st = ctx.pick([AdamsBashforth, SSPRungeKutta])(*parts, **ctx.pick([{}, {
            'tendencies_in_diagnostics': True}]))
        items.append(Item('stepper of built-ins', st, lambda s: list(st(s, dt)),
                          isinstance(st, SSPRungeKutta), parts))
        st1 = AdamsBashforth(*parts, order=1)
        td = TimeDifferencingWrapper(st1)
        items.append(Item('differenced', td, lambda s: list(td(s, dt)), parts=[st1] + parts))
    ctx.tag('builtin', fam, len(state[name].dims), init)
    return items, [state]


def monitor_zoo(ctx, own, faults):
    vals = Values(ctx)
    lengths = {'x': ctx.rng.randint(1, 3), 'y': ctx.rng.randint(1, 3)}
    folder = ctx.scratch()
    states = []
    proto = {n: (ctx.rng.sample(list(lengths), ctx.rng.randint(0, 2)), ctx.pick(['m', 'K', '%']))
             for n in ctx.rng.sample(['T', 'p', 'air_pressure', 'q', 'long_name_of_it'], 3)}
    start = ctx.pick([datetime(2000, 1, 1), timedelta(0)])
    for i in range(ctx.rng.randint(1, 4)):
        s = {n: quantity(ctx, vals, d, lengths, u, dtype=np.float64, coords=0., extra_attrs=0.)
             for n, (d, u) in proto.items()}
        s['time'] = start + timedelta(hours=i)
        states.append(s)
    seen = []

    def plot(fig, state):
        seen.append(Snapshot(state))
        for k in list(state):
            if isinstance(state[k], DataArray):
                state[k].values[...] = -1.
                state[k].attrs['units'] = 'changed'
                state[k].attrs['more'] = 1
        state['extra'] = 1
        state.pop('time')
    kwargs = {'aliases': {'air_pressure': 'ap'}} if ctx.chance(0.5) else {}
    if ctx.chance(0.3):
        kwargs['store_names'] = sorted(proto)[:2]
    if ctx.chance(0.4):
        kwargs['write_on_store'] = True
    nm = NetCDFMonitor(os.path.join(folder, 'a.nc'), **kwargs)
    rm = RestartMonitor(os.path.join(folder, 'r.nc'))
    pm = PlotFunctionMonitor(plot, interactive=ctx.chance(0.5))
    mc = MonitorComposite(pm, rm)

    def store(m):
        return lambda s: [{}] if m.store(s) is None else [{}]

    def write(s):
        nm.write()
        return [{}]

    def load(s):
        rm.store(s)
        return [rm.load()]
    for w in ('netcdf', 'restart', 'plot'):
        ctx.saw(w)
    ctx.tag('monitors', sorted(kwargs), *[len(d) for d, _ in proto.values()])
    stored = set()

    def nc_store(s):
        if s['time'] not in stored:   # the same time twice is refused
            stored.add(s['time'])
            nm.store(s)
        return [{}]
    return [Item('netcdf', nm, nc_store), Item('write', nm, write), Item('restart', rm, store(rm)),
            Item('load', rm, load), Item('plot', pm, store(pm)), Item('both', mc, store(mc))
            ], states


def case(ctx):
    own, faults = Own(), {}
    zoo = ctx.pick([layout_zoo] * 6 + [model_zoo] * 4 + [builtin_zoo] * 2 + [monitor_zoo])
    ctx.tag(zoo.__name__)
    items, states = zoo(ctx, own, faults)
    results = {}     # (item, state) -> snapshots of the first result
    earlier = []     # (label, snapshot, result) of everything returned
    leapfrog = any(i.stepped for i in items)
    all_props = [(o, properties_snapshot(o)) for i in items for o in [i.obj] + i.parts
                 if not isinstance(o, (NetCDFMonitor, RestartMonitor))]
    for turn in range(ctx.rng.randint(3, 9)):
        i = ctx.rng.randrange(len(items))
        j = ctx.rng.randrange(len(states))
        item, state = items[i], states[j]
        fail = ctx.chance(0.12) and zoo in (layout_zoo, model_zoo)
        if fail:
            if zoo is layout_zoo:
                faults.update({n: True for n in range(6)})
            else:
                ctx.pick(faults['processes']).fail = True
        before = [Snapshot(s) for s in states]
        ctx.log('call', item.label, 'with state', j, 'failing' if fail else '')
        failed = False
        try:
            result = item.call(state)
        except Injected:
            failed = True
        for n in range(6):
            faults.pop(n, None)
        for p in faults.get('processes', []):
            p.fail = False
        for k, s in enumerate(states):
            ignore = item.stepped if k == j and not failed else ()
            changes = before[k].changes(s, ignore)
            ctx.check('after error' if failed else 'state', not changes,
                      '{} changed state {}: {}'.format(item.label, k, changes))
        for n in item.stepped if not failed else ():
            a = before[j].items[n]
            ctx.check('state', a[2] == tuple(state[n].dims) and a[3] == dict(state[n].attrs),
                      'leapfrog changed dims or attributes of {}'.format(n))
        for o, props in all_props:
            changes = properties_changes(o, props)
            ctx.check('properties' if o is item.obj else 'parts', not changes,
                      'calling {} changed properties of {}: {}'.format(
                          item.label, type(o), changes))
        ctx.check('own data', not own.changed(),
                  '{} modified an array that belongs to a component'.format(item.label))
        if not leapfrog:
            for label, snaps, old in earlier:
                for s, r in zip(snaps, old):
                    changes = s.changes(r)
                    ctx.check('earlier results', not changes,
                              'calling {} changed what {} had returned: {}'.format(
                                  item.label, label, changes))
        if failed:
            continue
        snaps = [Snapshot(r) for r in result]
        repeatable = item.repeatable
        if item.label.startswith('slowed'):
            # what it keeps is of the latest time, also for earlier ones
            repeatable = repeatable and not (
                item.latest is not None and state['time'] < item.latest)
            item.latest = state['time'] if item.latest is None else max(
                item.latest, state['time'])
        if repeatable:
            if (i, j) in results:
                ctx.saw('tracked repeat')
                for s, r in zip(results[i, j], result):
                    changes = s.changes(r)
                    ctx.check('repeat', not changes, 'calling {} again gave something else: {}'
                              .format(item.label, changes))
            elif not leapfrog:
                results[i, j] = snaps
        earlier.append((item.label, snaps, result))
