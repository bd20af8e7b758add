"""C18: tracers reach components and return."""
import itertools
from datetime import timedelta

import numpy as np
from sympl import (
    AdamsBashforth, Leapfrog, ImplicitTendencyComponentComposite, ScalingWrapper,
    TendencyComponentComposite, UpdateFrequencyWrapper, register_tracer)
from sympl._core.tracers import reset_tracers
from mon.lib import (
    FAMILIES, UNIT, Layout, Outputs, Snapshot, aligned_equal, call, close, convert, family,
    is_linear, linear_units, make_component, properties_changes, properties_snapshot, quantity, rtol_for,
    some_timestep, spread, unit_scale)
from mon.model import Ref
from mon.steppers import AB

CASES = {'quick': 16000, 'thorough': 120000}
REQUIRED = ('monitor:array', 'monitor:shape', 'monitor:returned', 'monitor:untouched',
            'monitor:others', 'monitor:composite inputs', 'monitor:stepped', 'no tracers', 'registered later', 'overlap',
            'prepended', 'wildcard', 'missing dim', 'scaling', 'frequency', 'composite',
            'input is a tracer', 'no other inputs', 'many', 'kept results', 'registered anew', 'first stepped later')
RULE = ('random components of every kind that use tracers, with random registered and own '
        'tracers (overlapping, registered before construction, after it or between calls), '
        'tracer axis position, dims, state layouts and units, alone and in wrappers, '
        'composites and steppers; the array the computation gets and the quantities that '
        'come back are compared by label. Distinct by tracer sources, dims and wrapping.')
ASSUMPTIONS = ["the other inputs have all dims that '*' matches, if any of them has a '*'",
               'a dimension is not both listed and matched by a wildcard']
TRACERS = ['tr_a', 'tr_b', 'cloud_water', 'cloud_ice', 'ozone', 'co2', 'passive_1', 'salt']


class Setup(object):
    def __init__(self, ctx, kind, linear=False):
        self.ctx, self.kind = ctx, kind
        if ctx.chance(0.15):
            ctx.saw('no other inputs')
            self.lay = Layout(ctx, n_inputs=0, wildcard=False, zero=0.)
        else:
            self.lay = Layout(ctx, zero=0.02, special=0.)
        lay = self.lay
        lengths = lay.present_lengths()
        wild = lay.wildcard_set()
        explicit = [d for d in lengths if d not in wild]
        dims = ctx.rng.sample(explicit, ctx.rng.randint(0, len(explicit)))
        self.lengths = dict(lengths)
        if ctx.chance(0.25):
            dims.insert(ctx.rng.randint(0, len(dims)), 'only_tracers')
            self.lengths['only_tracers'] = ctx.rng.randint(1, 3)
        self.wild = []
        if ctx.chance(0.6):
            ctx.saw('wildcard')
            if lay.any_wild:
                self.wild = list(wild)
            else:
                self.lengths.update({'w_1': ctx.rng.randint(1, 3), 'w_2': 2})
                others = [d for d in explicit if d not in dims] + ['w_1', 'w_2']
                self.wild = ctx.rng.sample(others, ctx.rng.randint(0, min(2, len(others))))
            dims.insert(ctx.rng.randint(0, len(dims)), '*')
        self.qdims = dims
        self.tracer_dims = list(dims)
        self.index = ctx.rng.randint(0, len(dims))
        self.tracer_dims.insert(self.index, 'tracer')
        self.registered = {}      # name -> units, in order
        self.prepended = {}
        self.linear = linear or kind != 'stepper'
        self.pool = list(TRACERS)
        ctx.rng.shuffle(self.pool)

    def pick_units(self, fam=None):
        fam = fam or self.ctx.pick([f for f in FAMILIES if f not in ('angle', 'duration')])
        return self.ctx.pick(linear_units(fam) if self.linear else FAMILIES[fam])

    def add_quantity(self, name, units):
        ctx = self.ctx
        target = [d for d in self.qdims if d != '*'] + (self.wild if '*' in self.qdims else [])
        present = [d for d in target if ctx.chance(0.8)]
        if len(present) < len(target):
            ctx.saw('missing dim')
        ctx.rng.shuffle(present)
        self.lay.state[name] = quantity(
            ctx, self.lay.vals, present, self.lengths, self.pick_units(family(units)),
            dtype=np.float64 if self.linear and self.kind == 'stepping' else None,
            writable=True, coords=0.)

    def renew(self):
        """Forgets the registered tracers and registers some of them again."""
        self.ctx.saw('registered anew')
        reset_tracers()
        was = list(self.registered.items())
        self.registered.clear()
        self.ctx.rng.shuffle(was)
        for name, units in was[:self.ctx.rng.randint(1, len(was))]:
            register_tracer(name, units)
            self.registered[name] = units

    def register(self):
        """Registers one more tracer."""
        if not self.pool:
            return
        if self.prepended and self.ctx.chance(0.3):
            names = [n for n in self.prepended if n not in self.registered]
            if names:
                name = self.ctx.pick(names)
                self.ctx.saw('overlap')
                units = self.pick_units(family(self.prepended[name]))
                register_tracer(name, units)
                self.registered[name] = units
                return
        name = self.pool.pop()
        units = self.pick_units()
        register_tracer(name, units)
        self.registered[name] = units
        self.add_quantity(name, units)

    def prepend(self):
        ctx = self.ctx
        if self.registered and ctx.chance(0.4):
            name = ctx.pick(sorted(self.registered))
            if name not in self.prepended:
                ctx.saw('overlap')
                self.prepended[name] = self.pick_units(family(self.registered[name]))
                return
        if self.pool:
            name = self.pool.pop()
            units = self.pick_units()
            self.prepended[name] = units
            self.add_quantity(name, units)

    # ---- the reference
    def names(self):
        return list(self.prepended) + [n for n in self.registered if n not in self.prepended]

    def units(self, name):
        return self.prepended.get(name, self.registered.get(name))

    def present(self):
        """Lengths of dims that some input or tracer has, and what '*' matches."""
        out = self.lay.present_lengths()
        wild = list(self.lay.wildcard_set())
        for n in self.names():
            q = self.lay.state[n]
            out.update(zip(q.dims, q.shape))
            for d in q.dims:
                if d not in self.qdims and d not in wild:
                    wild.append(d)
        return out, wild

    def expand(self, order):
        out = []
        for d in self.qdims:
            out.extend(order if d == '*' else [d])
        return out

    def expected(self, order):
        """The array for this order of the wildcard dims, before flattening."""
        lengths, _ = self.present()
        state = self.lay.state
        return [spread(convert(state[n].values, state[n].attrs['units'], self.units(n)),
                       state[n].dims, self.expand(order), lengths) for n in self.names()]

    def split(self, array, order):
        """The parts of a tracer array, with the wildcard axis expanded, or None
        if it has the wrong shape."""
        lengths, _ = self.present()
        shape = []
        for d in self.qdims:
            shape.append(int(np.prod([lengths[w] for w in order])) if d == '*'
                         else lengths.get(d, 1))
        full = list(shape)
        full.insert(self.index, len(self.names()))
        if list(np.shape(array)) != full:
            return None
        expanded = [lengths.get(d, 1) for d in self.expand(order)]
        return [np.take(array, i, axis=self.index).reshape(expanded)
                for i in range(len(self.names()))]

    def orders(self, raw):
        """Wildcard orders under which the tracer array, and the other inputs,
        hold what they should."""
        out = []
        _, wild = self.present()
        for order in itertools.permutations(wild):
            parts = self.split(raw['tracers'], order)
            if parts is None:
                continue
            want = self.expected(order)
            state = self.lay.state
            if all(close(p, w, rtol_for(state[n].values), unit_scale(
                    self.units(n), state[n].attrs['units']))
                    for p, w, n in zip(parts, want, self.names())):
                if not self.lay.any_wild or all(
                        self.lay._matches(n, raw, order) for n in self.lay.inputs):
                    out.append(order)
        return out


def fill(ctx, s):
    for _ in range(ctx.rng.choice([0, 1, 1, 2, 3, 4])):
        s.register()
    for _ in range(ctx.rng.choice([0, 0, 1, 2] * 6 + [5])):
        s.prepend()


def input_is_tracer(ctx, s):
    """One of the tracers is also an input of the component."""
    names = [n for n in s.names() if n in s.lay.state]
    if names and ctx.chance(0.25) and ('*' not in s.qdims or s.lay.any_wild):
        n = ctx.pick(names)
        # it must not widen what the wildcard or the dims cover
        if set(s.lay.state[n].dims) <= set(s.lay.present_lengths()):
            s.lay.inputs[n] = {'dims': list(s.qdims),
                               'units': s.pick_units(family(s.units(n)))}
            ctx.saw('input is a tracer')


def component_case(ctx):
    kind = ctx.pick(['tendency', 'implicit', 'stepper'])
    s = Setup(ctx, kind)
    lay = s.lay
    fill(ctx, s)
    if ctx.chance(0.12):
        s.registered.clear()
        s.prepended.clear()
        from mon.lib import reset_globals
        reset_globals()
    input_is_tracer(ctx, s)
    avoid = set(TRACERS) | {'tracers'}
    what = 'output' if kind == 'stepper' else 'tendency'
    outs = Outputs(ctx, lay, what, n=ctx.rng.randint(0, 2), avoid=avoid)
    diags = Outputs(ctx, lay, 'diagnostic', n=ctx.rng.randint(0, 1), avoid=avoid)
    got, given = {}, {}

    def compute(raw, dt):
        got.clear()
        got.update({k: np.array(v) if k != 'time' else v for k, v in raw.items()})
        if keeps and 'kept' in given and given['tracers'].shape == raw['tracers'].shape:
            ctx.saw('kept results')
            return given['kept']
        given['out'], given['diag'] = outs.make(), diags.make()
        given['tracers'] = lay.vals.take(raw['tracers'].shape)
        out = outs.keyed(given['out'])
        out['tracers'] = np.array(given['tracers'])
        given['kept'] = out, diags.keyed(given['diag'])
        return given['kept']
    keeps = ctx.chance(0.3)   # a component that keeps what it returned, for later calls
    attrs = {'uses_tracers': True, 'tracer_dims': ctx.pick([list, tuple])(s.tracer_dims)}
    if s.prepended or ctx.chance(0.3):
        if s.prepended:
            ctx.saw('prepended')
        attrs['prepend_tracers'] = ctx.pick([list, tuple])(
            [(n, u) for n, u in s.prepended.items()])
    time_unit = 's^-1'
    if kind != 'stepper' and ctx.chance(0.4):
        time_unit = attrs['tracer_tendency_time_unit'] = ctx.pick(
            ['s^-1', 'day^-1', 'hr^-1', 'min^-1'])
    comp = make_component(ctx, kind, lay.inputs, outs.properties, diags.properties, compute,
                          **attrs)
    wrapping = ctx.pick(['none', 'none', 'scaling', 'frequency', 'composite'])
    if wrapping == 'composite' and kind == 'stepper':
        wrapping = 'none'
    if ctx.chance(0.3):
        ctx.saw('registered later')
        s.register()
    obj, factors = comp, {}
    if wrapping == 'scaling':
        ctx.saw('scaling')
        factors = {n: ctx.pick([2., 0.5, -1.]) for n in lay.inputs
                   if n not in s.names() and ctx.chance(0.5) and
                   is_linear(lay.inputs[n]['units']) and
                   is_linear(lay.state[n].attrs['units'])}
        obj = ScalingWrapper(comp, input_scale_factors=dict(factors))
    elif wrapping == 'frequency':
        ctx.saw('frequency')
        obj = UpdateFrequencyWrapper(comp, timedelta(0))
    elif wrapping == 'composite':
        # a composite states the tracers it knows of among its inputs
        ctx.saw('composite')
        obj = ctx.pick([TendencyComponentComposite, ImplicitTendencyComponentComposite])(
            comp) if kind == 'tendency' else ImplicitTendencyComponentComposite(comp)
        for n in s.names():
            p = obj.input_properties.get(n)
            ctx.check('composite inputs', p is not None and
                      UNIT.get(p['units'], (None,))[0] == family(s.units(n)) and
                      set(p['dims']) == set(s.qdims),
                      'composite declares {} for tracer {}'.format(p, n))
    ctx.tag(kind, wrapping, 'at{}of{}'.format(s.index, len(s.tracer_dims)),
            'reg{}'.format(len(s.registered)), 'pre{}'.format(len(s.prepended)), time_unit)
    for i in range(ctx.rng.randint(1, 3)):
        if i and ctx.chance(0.4):
            ctx.saw('registered later')
            s.register()
        if i and s.registered and wrapping != 'composite' and ctx.chance(0.2):
            s.renew()
        timestep = some_timestep(ctx)
        ctx.log('call', i, 'tracer dims', s.tracer_dims, 'registered', s.registered,
                'own', s.prepended)
        snap, props = Snapshot(lay.state), properties_snapshot(obj)
        if kind == 'tendency' and isinstance(obj, ImplicitTendencyComponentComposite):
            out, diag = obj(lay.state, timestep)
        else:
            out, diag = call(kind, obj, lay.state, timestep)
        ctx.check('untouched', not snap.changes(lay.state), str(snap.changes(lay.state)))
        ctx.check('untouched', not properties_changes(obj, props),
                  str(properties_changes(obj, props)))
        judge(ctx, s, got, given, out, outs, factors, '' if kind == 'stepper' else time_unit)
        ctx.check('others', set(out) == set(outs.properties) | set(s.names()),
                  'returned {} for {} and tracers {}'.format(
                      sorted(out), sorted(outs.properties), s.names()))
        orders = list(itertools.permutations(lay.wildcard_set()))
        if wrapping != 'composite':
            for n in outs.properties:
                bad = outs.mismatch(n, given['out'][n], out[n], orders)
                ctx.check('others', bad is None, '{} {}'.format(n, bad))
        ctx.check('others', set(diag) == set(diags.properties), 'diagnostics {}'.format(
            sorted(diag)))


def judge(ctx, s, got, given, out, outs, factors, time_unit):
    names = s.names()
    array = got['tracers']
    if len(names) > 3:
        ctx.saw('many')
    if not names:
        ctx.saw('no tracers')
        ctx.check('shape', array.ndim == len(s.tracer_dims) and array.shape[s.index] == 0,
                  'tracer array of shape {} without tracers'.format(array.shape))
        return
    if factors:   # undo, to compare the inputs
        for n, f in factors.items():
            key = s.lay.key(n)
            got[key] = got[key] / f
    ctx.check('shape', array.ndim == len(s.tracer_dims) and
              array.shape[s.index] == len(names), 'tracer array of shape {} for {} {}'.format(
                  array.shape, s.tracer_dims, names))
    orders = s.orders(got)
    ctx.check('array', orders, 'tracer array does not hold {} in order, units and place'.format(
        names), 'dims', s.tracer_dims, array.tolist(),
        *[(n, s.units(n), s.lay.state[n]) for n in names])
    for i, n in enumerate(names):
        ctx.check('returned', n in out, 'no {} returned'.format(n))
        want_units = (s.units(n) + ' ' + time_unit).strip()
        have = out[n].attrs.get('units', '').strip()
        ctx.check('returned', have == want_units or UNIT.get(have, 0) == UNIT.get(
            want_units, 1), '{} in {!r} instead of {!r}'.format(n, have, want_units))
        ok = False
        for order in orders:
            parts = s.split(given['tracers'], order)
            if parts is not None and aligned_equal(out[n], parts[i], s.expand(order), 0.):
                ok = True
        ctx.check('returned', ok, '{} does not come back as given'.format(n),
                  out[n], given['tracers'].tolist())
        wild = set(s.present()[1])
        kept = [d for d in out[n].dims if d not in wild]
        ctx.check('returned', kept == [d for d in s.qdims if d != '*'],
                  '{} comes back with dims {} for {}'.format(n, out[n].dims, s.qdims))


def stepping_case(ctx):
    """Tracers are stepped like other quantities."""
    kind = ctx.pick(['tendency', 'implicit'])
    s = Setup(ctx, 'stepping', linear=True)
    lay = s.lay
    fill(ctx, s)
    if not s.names():
        s.register()
    given = {}

    def compute(raw, dt):
        given['raw'] = {k: np.array(v) if k != 'time' else v for k, v in raw.items()}
        given['tracers'] = lay.vals.take(raw['tracers'].shape) * 1e-4
        return {'tracers': np.array(given['tracers'])}, {}
    attrs = {'uses_tracers': True, 'tracer_dims': list(s.tracer_dims)}
    if s.prepended:
        attrs['prepend_tracers'] = list(s.prepended.items())
    time_unit = attrs['tracer_tendency_time_unit'] = ctx.pick(['s^-1', 'hr^-1', 'day^-1'])
    comp = make_component(ctx, kind, lay.inputs, {}, {}, compute, **attrs)
    order, nu, alpha = ctx.pick([1, 2, 3, 4]), ctx.pick([0.05, 0.3]), ctx.pick([1., 0.5])
    if ctx.chance(0.35):
        order = None
        stepper = Leapfrog(comp, asselin_strength=nu, alpha=alpha)
    else:
        stepper = AdamsBashforth(comp, order=order)
    timestep = some_timestep(ctx)
    dt = timestep.total_seconds()
    ctx.tag('stepping', kind, len(s.names()), s.tracer_dims, str(order))
    rates, previous = {}, {}   # by tracer: latest first; the filtered value before
    state = lay.state
    for step in range(ctx.rng.randint(1, 5)):
        snap = Snapshot(state)
        values = {n: Ref.of(state[n]) for n in s.names()}
        # what it was before it may be filtered
        s.lay.state = {k: v.copy(deep=True) if hasattr(v, 'dims') else v
                       for k, v in state.items()}
        ctx.log('step', step, {n: state[n].dims for n in s.names()}, s.tracer_dims, order)
        diag, new = stepper(state, timestep)
        filters = [n for n in s.names() if n in previous] if order is None else []
        changes = snap.changes(state, filters)
        ctx.check('untouched', not changes, str(changes))
        orders = s.orders(given['raw'])
        ctx.check('array', orders, 'tracer array does not hold {}'.format(s.names()))
        if step and len(orders) > 1:
            return
        if any(n not in rates for n in s.names()) and step:
            ctx.saw('first stepped later')
        candidates = []
        for o in orders:
            parts, want, size, kept = s.split(given['tracers'], o), {}, {}, {}
            filtered = dict(values)
            for i, n in enumerate(s.names()):
                f, a, b = UNIT[(s.units(n) + ' ' + time_unit).strip()]
                rate = Ref(parts[i] * a, s.expand(o))
                past = [rate] + rates.get(n, [])
                kept[n] = past
                if order is None:
                    want[n] = values[n] + rate * dt if n not in previous else (
                        previous[n] + rate * (2. * dt))
                    terms = [values[n], previous.get(n, values[n]), rate * dt]
                    if n in previous:
                        shift = (previous[n] + values[n] * -2. + want[n]) * (.5 * nu)
                        want[n] = want[n] + shift * (alpha - 1.)
                        filtered[n] = values[n] + shift * alpha
                else:
                    want[n] = values[n]
                    for c, r in zip(AB[min(order, len(past))], past):
                        want[n] = want[n] + r * (c * dt)
                    terms = [values[n]] + [r * dt for r in past[:order]]
                size[n] = max([0.] + [float(np.max(np.abs(r.values))) for r in terms
                                      if r.values.size])
            candidates.append((want, size, kept, filtered))
        for n in s.names():
            ctx.check('stepped', n in new and any(
                want[n].matches(new[n], 1e-9, size[n]) for want, size, _, _ in candidates),
                'step {}: tracer {} not stepped by its tendency'.format(step, n), new.get(n),
                [want[n].values for want, _, _, _ in candidates])
        if len(orders) > 1:
            return
        rates = {n: r[:3] for n, r in candidates[0][2].items()}
        previous = candidates[0][3]
        for n in filters:
            ctx.check('stepped', previous[n].matches(state[n], 1e-9, candidates[0][1][n]),
                      'step {}: {} is not filtered as it should be'.format(step, n),
                      state[n], previous[n].values)
        state = dict(new)
        state['time'] = state['time'] + timestep
        dims = s.present()
        if ctx.chance(0.4):
            s.register()
        if s.present() != dims:
            return  # the tracers would get more dims than they have
        for n in s.names():
            state.setdefault(n, s.lay.state.get(n))
            if not state[n].values.flags.writeable or state[n].dtype != np.float64:
                state[n] = state[n].astype(np.float64)


def case(ctx):
    if ctx.chance(0.8):
        component_case(ctx)
    else:
        stepping_case(ctx)
