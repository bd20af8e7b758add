"""C33: copies of objects that are in use."""
import copy
import pickle
from datetime import timedelta

import numpy as np
from sympl import (
    AdamsBashforth, ConstantDiagnosticComponent, ConstantTendencyComponent, DataArray,
    DiagnosticComponent, DiagnosticComponentComposite, ImplicitTendencyComponent,
    ImplicitTendencyComponentComposite, Leapfrog, RelaxationTendencyComponent, ScalingWrapper,
    SSPRungeKutta, Stepper, TendencyComponent, TendencyComponentComposite,
    TimeDifferencingWrapper, UpdateFrequencyWrapper, register_tracer)
from mon.lib import (
    Snapshot, Values, properties_changes, properties_snapshot, quantity, quantity_changes,
    some_time)

CASES = {'quick': 1500, 'thorough': 12000}
REQUIRED = ('monitor:continues', 'monitor:original', 'monitor:properties', 'monitor:quantity',
            'monitor:alike', 'deepcopy', 'pickle', 'copy of a copy', 'after calls', 'tendency',
            'implicit', 'stepper', 'diagnostic', 'scaling', 'frequency', 'differencing', 'composite',
            'AdamsBashforth', 'Leapfrog', 'SSPRungeKutta', 'constant', 'relaxation', 'tracers',
            'tendencies in diagnostics', 'other steps', 'wrapper in a wrapper')
RULE = ('random objects (components with a memory of their own, built-in components, wrappers, '
        'composites and steppers, nested) are built several times alike; after some calls one is '
        'copied with copy.deepcopy or through pickle, perhaps twice, and the copy and the '
        'original go on with different calls, in a random order. Every result must be exactly '
        'that of an object built alike which was never copied and got only the calls that the '
        'copy (or the original) got. Distinct by the structure of the object, way of copying '
        'and numbers of calls.')
ASSUMPTIONS = ['the classes of components are importable (as pickle requires)',
               'tracers are registered before the copy is made']
LENGTHS = {'x': 3, 'y': 2}
NAMES = ['q0', 'q1', 'q2']


class _Law(object):
    """A computation with a memory: every call counts."""

    def _setup(self, inputs, outputs, diagnostics, coefficients):
        self.input_properties = {n: {'dims': list(d), 'units': u} for n, (d, u) in inputs.items()}
        self._outputs, self._diagnostics = dict(outputs), dict(diagnostics)
        self.coefficients = dict(coefficients)
        self.memory = np.zeros(())
        self.count = [0]

    def _values(self, state, names):
        out = {}
        for n in names:
            c = self.coefficients[n]
            value = c * 1e-3 * (1. + self.count[0]) + self.memory * 1e-4
            out[n] = state[n.replace('d_', '')] * c + value
        return out

    def _remember(self, state):
        self.count[0] += 1
        self.memory = self.memory + float(sum(
            np.sum(v) for k, v in state.items() if k in NAMES)) * 1e-3


class Tend(_Law, TendencyComponent):
    input_properties = tendency_properties = diagnostic_properties = None

    def __init__(self, inputs, outputs, diagnostics, coefficients, tracers, **kwargs):
        self._setup(inputs, outputs, diagnostics, coefficients)
        self.tendency_properties = {n: {'units': u} for n, u in outputs.items()}
        self.diagnostic_properties = {n: {'dims': d, 'units': u}
                                      for n, (d, u) in diagnostics.items()}
        if tracers:
            self.uses_tracers, self.tracer_dims = True, ['tracer', 'x']
        super(Tend, self).__init__(**kwargs)

    def array_call(self, state):
        self._remember(state)
        out = self._values(state, self._outputs)
        if self.uses_tracers:
            out['tracers'] = state['tracers'] * 1e-3 * self.count[0]
        return out, self._values(state, self._diagnostics)


class Impl(_Law, ImplicitTendencyComponent):
    input_properties = tendency_properties = diagnostic_properties = None

    def __init__(self, inputs, outputs, diagnostics, coefficients, tracers, **kwargs):
        self._setup(inputs, outputs, diagnostics, coefficients)
        self.tendency_properties = {n: {'units': u} for n, u in outputs.items()}
        self.diagnostic_properties = {n: {'dims': d, 'units': u}
                                      for n, (d, u) in diagnostics.items()}
        if tracers:
            self.uses_tracers, self.tracer_dims = True, ['tracer', 'x']
        super(Impl, self).__init__(**kwargs)

    def array_call(self, state, timestep):
        self._remember(state)
        out = self._values(state, self._outputs)
        if self.uses_tracers:
            out['tracers'] = state['tracers'] * 1e-3 * self.count[0]
        return out, self._values(state, self._diagnostics)


class Step(_Law, Stepper):
    input_properties = output_properties = diagnostic_properties = None

    def __init__(self, inputs, outputs, diagnostics, coefficients, tracers, **kwargs):
        self._setup(inputs, outputs, diagnostics, coefficients)
        self.output_properties = {n: {'units': u} for n, u in outputs.items()}
        self.diagnostic_properties = {n: {'dims': d, 'units': u}
                                      for n, (d, u) in diagnostics.items()}
        if tracers:
            self.uses_tracers, self.tracer_dims = True, ['tracer', 'x']
        super(Step, self).__init__(**kwargs)

    def array_call(self, state, timestep):
        self._remember(state)
        out = self._values(state, self._outputs)
        if self.uses_tracers:
            out['tracers'] = state['tracers'] * 1e-3 * self.count[0]
        return self._values(state, self._diagnostics), out


class Diag(_Law, DiagnosticComponent):
    input_properties = diagnostic_properties = None

    def __init__(self, inputs, outputs, diagnostics, coefficients, tracers, **kwargs):
        self._setup(inputs, outputs, diagnostics, coefficients)
        self.diagnostic_properties = {n: {'dims': d, 'units': u}
                                      for n, (d, u) in diagnostics.items()}
        super(Diag, self).__init__(**kwargs)

    def array_call(self, state):
        self._remember(state)
        return self._values(state, self._diagnostics)


CLASSES = {'tendency': Tend, 'implicit': Impl, 'stepper': Step, 'diagnostic': Diag}


class Plan(object):
    """What to build: build() gives objects that are alike."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.vals = Values(ctx)
        self.dims = {n: ctx.pick([['x'], ['x', 'y'], ['y']]) for n in NAMES}
        self.units = {n: ctx.pick(['m', 'K', 'kg']) for n in NAMES}
        self.tracers = ctx.chance(0.25)
        if self.tracers:
            ctx.saw('tracers')
            register_tracer('tr', 'kg')
        self.count = 0
        self.timestep = timedelta(seconds=ctx.pick([1, 60, 600]))
        self.kind = None

    def state(self, i):
        state = {'time': self.start + i * self.timestep}
        for n in NAMES:
            state[n] = quantity(self.ctx, self.vals, self.dims[n], LENGTHS, self.units[n],
                                dtype=np.float64, writable=True)
        state['tr'] = quantity(self.ctx, self.vals, ['x'], LENGTHS, 'kg', dtype=np.float64,
                               writable=True)
        for n in ('q0',):
            state['equilibrium_' + n] = quantity(
                self.ctx, self.vals, self.dims[n], LENGTHS, self.units[n], dtype=np.float64)
            state[n + '_relaxation_timescale'] = DataArray(
                np.full([LENGTHS[d] for d in self.dims[n]], 50.), dims=self.dims[n],
                attrs={'units': 's'})
        return state

    def component(self, kind):
        """A recipe for a component of the kind."""
        ctx = self.ctx
        self.count += 1
        index = self.count
        ctx.saw(kind)
        if kind == 'tendency' and ctx.chance(0.3):
            n = ctx.pick(NAMES)
            if ctx.chance(0.5):
                ctx.saw('constant')
                given = quantity(ctx, self.vals, self.dims[n], LENGTHS, self.units[n] + ' s^-1',
                                 dtype=np.float64)
                name = 'constant{}'.format(index)
                return 'constant', lambda: ConstantTendencyComponent(
                    {n: given}, tendencies_in_diagnostics=True, name=name)
            ctx.saw('relaxation')
            name = 'relax{}'.format(index)
            on = ctx.chance(0.5)
            return 'relaxation', lambda: RelaxationTendencyComponent(
                'q0', self.units['q0'], tendencies_in_diagnostics=on, name=name)
        if kind == 'diagnostic' and ctx.chance(0.2):
            given = quantity(ctx, self.vals, ['x'], LENGTHS, 'm', dtype=np.float64)
            return 'constant', lambda: ConstantDiagnosticComponent({'d{}'.format(index): given})
        inputs = {n: (self.dims[n], self.units[n]) for n in NAMES}
        names = [n for n in NAMES if ctx.chance(0.6)] or NAMES[:1]
        outputs = {n: self.units[n] + ('' if kind == 'stepper' else ' s^-1') for n in names}
        diagnostics = {}
        coefficients = {n: ctx.pick([1e-3, -2e-3, .5]) for n in NAMES}
        if kind == 'diagnostic' or (ctx.chance(0.4) and not self.clash):
            self.clash = True  # diagnostics have the same names in all of them
            for n in names:
                diagnostics['d_' + n] = (self.dims[n], self.units[n])
                coefficients['d_' + n] = 2.
        kwargs = {}
        if kind != 'diagnostic':
            kwargs['name'] = 'part{}'.format(index)
            if ctx.chance(0.3):
                ctx.saw('tendencies in diagnostics')
                kwargs['tendencies_in_diagnostics'] = True
        tracers = self.tracers and kind != 'diagnostic'
        cls = CLASSES[kind]
        return cls.__name__, lambda: cls(
            inputs, outputs, diagnostics, coefficients, tracers, **kwargs)

    def wrapped(self, kind):
        ctx = self.ctx
        label, make = self.component(kind)
        depth = 0
        while ctx.chance(0.35) and depth < 3:
            depth += 1
            label, make = self.wrapper(label, make)
        if depth > 1:
            ctx.saw('wrapper in a wrapper')
        return label, make, kind

    def wrapper(self, label, make):
        ctx = self.ctx
        if ctx.chance(0.5) and not label.startswith('frequency'):
            ctx.saw('scaling')
            names = [n for n in NAMES if ctx.chance(0.6)]
            factor = ctx.pick([2., .5, -1.])

            def build():
                inner = make()
                return ScalingWrapper(inner, input_scale_factors={
                    n: factor for n in names if n in inner.input_properties})
            return 'scaling({})'.format(label), build
        ctx.saw('frequency')
        interval = self.timestep * ctx.pick([0, 1, 2, 3])
        return 'frequency({})'.format(label), lambda: UpdateFrequencyWrapper(make(), interval)

    def top(self):
        """(label, recipe, how to call it)"""
        ctx = self.ctx
        self.clash = False
        self.start = some_time(ctx)
        if hasattr(self.start, 'year') and self.start.year > 9000:
            self.start = timedelta(0)
        r = ctx.rng.random()
        if r < 0.35:
            kind = ctx.pick(sorted(CLASSES))
            return self.wrapped(kind)
        if r < 0.45:
            ctx.saw('differencing')
            label, make = self.component('stepper')
            while ctx.chance(0.3):
                ctx.saw('wrapper in a wrapper')
                label, make = self.wrapper(label, make)
            if 'frequency' in label or 'scaling' in label:
                return label, make, 'stepper'
            build = lambda: TimeDifferencingWrapper(make())
            return 'differencing({})'.format(label), build, 'implicit'
        parts = [self.wrapped(ctx.pick(['tendency', 'tendency', 'implicit']))
                 for _ in range(ctx.rng.randint(1, 3))]
        label = '+'.join(p[0] for p in parts)
        if r < 0.55:
            ctx.saw('composite')
            if ctx.chance(0.3):
                parts = [self.wrapped('diagnostic')]
                return 'composite({})'.format(parts[0][0]), lambda: DiagnosticComponentComposite(
                    *[p[1]() for p in parts]), 'diagnostic'
            return 'composite({})'.format(label), lambda: ImplicitTendencyComponentComposite(
                *[p[1]() for p in parts]), 'implicit'
        cls = ctx.pick([AdamsBashforth, Leapfrog, SSPRungeKutta])
        ctx.saw(cls.__name__)
        kwargs = {'name': 'stepper', 'tendencies_in_diagnostics': ctx.chance(0.3)}
        if cls is AdamsBashforth:
            kwargs['order'] = ctx.pick([1, 2, 3, 4])
        elif cls is SSPRungeKutta:
            kwargs['stages'] = ctx.pick([2, 3])
        elif ctx.chance(0.5):
            kwargs['asselin_strength'] = ctx.pick([0.2, 0.01])

        together = ctx.chance(0.2) and all(p[2] == 'tendency' for p in parts)

        def build():
            made = [p[1]() for p in parts]
            if together:
                made = [TendencyComponentComposite(*made)]
            return cls(*made, **kwargs)
        return '{}({})'.format(cls.__name__, label), build, 'stepper'


def perform(obj, kind, state, timestep):
    state = {k: v.copy(deep=True) if hasattr(v, 'dims') else v for k, v in state.items()}
    if kind == 'tendency':
        result = obj(state)
    elif kind == 'diagnostic':
        result = (obj(state),)
    else:
        result = obj(state, timestep)
    return [Snapshot(r) for r in result] + [Snapshot(state)], list(result) + [state]


def make_copy(ctx, obj):
    if ctx.chance(0.5):
        ctx.saw('deepcopy')
        return copy.deepcopy(obj)
    ctx.saw('pickle')
    return pickle.loads(pickle.dumps(obj, protocol=ctx.pick([2, 3, 4, pickle.HIGHEST_PROTOCOL])))


def object_case(ctx):
    plan = Plan(ctx)
    label, make, kind = plan.top()
    before = ctx.rng.randint(0, 4)
    ctx.tag(label, 'before {}'.format(before))
    ctx.log('object', label, 'copied after', before, 'calls')
    if before:
        ctx.saw('after calls')
    copied, untouched = make(), make()
    states = [plan.state(i) for i in range(before)]
    props = properties_snapshot(copied)
    changes = properties_changes(untouched, props)
    ctx.check('alike', not changes, 'objects built alike differ: {}'.format(changes))
    for s in states:
        a, _ = perform(copied, kind, s, plan.timestep)
        _, b = perform(untouched, kind, s, plan.timestep)
        for x, y in zip(a, b):
            ctx.check('alike', not x.changes(y), 'objects built alike differ: {}'.format(
                x.changes(y)))
    lines = [(copied, 'original', [])]
    for _ in range(ctx.pick([1, 1, 2])):
        source = ctx.pick(lines)[0]
        if source is not copied:
            ctx.saw('copy of a copy')
        new = make_copy(ctx, source)
        ctx.check('properties', type(new) is type(source) and new is not source,
                  'copy of type {}'.format(type(new)))
        for o in (new, source):
            changes = properties_changes(o, props)
            ctx.check('properties', not changes, 'properties differ: {}'.format(changes))
        lines.append((new, 'continues', []))
    # objects alike which only get the calls of one line
    references = []
    for _ in lines:
        reference = make()
        for s in states:
            perform(reference, kind, s, plan.timestep)
        references.append(reference)
    for _ in range(ctx.rng.randint(2, 7)):
        i = ctx.rng.randrange(len(lines))
        obj, monitor, done = lines[i]
        s = plan.state(before + len(done))
        done.append(s)
        timestep = plan.timestep
        if any(len(d) for o, m, d in lines if d is not done):
            ctx.saw('other steps')
        want, _ = perform(references[i], kind, s, timestep)
        _, got = perform(obj, kind, s, timestep)
        ctx.log('call', len(done), 'of', i, monitor)
        for w, g in zip(want, got):
            changes = w.changes(g)
            ctx.check(monitor, not changes, 'after copying {}, call {} of {} gave something else: '
                      '{}'.format(label, len(done), 'the copy' if i else 'the original', changes))
    for obj, monitor, done in lines:
        changes = properties_changes(obj, props)
        ctx.check('properties', not changes, 'properties differ: {}'.format(changes))


def quantity_case(ctx):
    vals = Values(ctx)
    q = quantity(ctx, vals, ctx.rng.sample(['x', 'y'], ctx.rng.randint(0, 2)), LENGTHS,
                 ctx.pick(['m', 'degC', 'km', 'g kg^-1']), dtype=np.float64)
    state = {'time': some_time(ctx), 'q': q}
    snap = Snapshot(state)
    new = make_copy(ctx, state)
    ctx.tag('quantity', q.attrs['units'], str(q.ndim))
    ctx.check('quantity', not snap.changes(new), str(snap.changes(new)))
    ctx.check('quantity', type(new['q']) is DataArray and
              (not q.size or not np.may_share_memory(new['q'].values, q.values)),
              'the copy is a {} that may share memory'.format(type(new['q'])))
    new['q'].attrs['units'] = 'other'
    if new['q'].size and new['q'].values.flags.writeable:
        new['q'].values[...] = 0.
    ctx.check('quantity', not snap.changes(state), str(snap.changes(state)))


def case(ctx):
    if ctx.chance(0.05):
        quantity_case(ctx)
    else:
        object_case(ctx)
