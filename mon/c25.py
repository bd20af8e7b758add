"""C25: a replacement backend is used for every access to the state."""
import itertools
from datetime import timedelta

import numpy as np
import sympl
from sympl import (
    AdamsBashforth, DataArray, DataArrayBackend, DiagnosticComponentComposite,
    ImplicitTendencyComponentComposite, InvalidStateError, Leapfrog, SSPRungeKutta, StateBackend,
    TendencyComponentComposite, UpdateFrequencyWrapper, get_backend,
    get_numpy_arrays_with_properties, restore_data_arrays_with_properties, set_backend)
from mon import c18
from mon.lib import (
    KINDS, UNIT, Layout, Outputs, Snapshot, call, convert, make_component, properties_changes,
    properties_snapshot, quantity_changes, rtol_for, same_unit, some_timestep, spread)
from mon.model import Model

CASES = {'quick': 6000, 'thorough': 44000}
REQUIRED = ('monitor:received', 'monitor:returned', 'monitor:same as default', 'monitor:through',
            'monitor:others idle', 'monitor:refused', 'monitor:current', 'monitor:untouched',
            'monitor:standalone', 'monitor:stepped', 'monitor:backend error', 'tracers', 'wildcard',
            'switched back', 'composite', 'frequency', 'several recorders', 'subclass',
            'look-alike containers')
RULE = ('random components of every kind (wildcards, aliases, missing dims, tracers, wrapped) are '
        'called with states of DataArrays under the default backend and of opaque containers under '
        'recording backends, with random switches between them and refused installations; arrays '
        'and results are compared by label with the reference model and with each other. Steppers '
        'are run with a container class of their own. Distinct by declarations and switches.')
ASSUMPTIONS = ['composites that add tendencies, steppers and monitors need containers with the '
               'arithmetic and attributes of DataArray']


def box_class(label, lying=False):
    class Box(object):
        """Opaque: has none of the attributes of a DataArray."""
        __slots__ = ('_v', '_d', '_u')

        def __init__(self, v, d, u):
            self._v, self._d, self._u = v, tuple(d), u

        def __deepcopy__(self, memo):
            return Box(self._v.copy(), self._d, self._u)
    class Lying(Box):
        """Has attributes of the names a DataArray has, with other meanings."""
        __slots__ = ()
        dims = ('not', 'dims')
        shape = (97, 89)
        ndim = 5
        dtype = 'letters'
        values = property(lambda self: np.full((97, 89), 1e300))
        attrs = property(lambda self: {'units': 'furlong', 'dims': ('not', 'dims')})
        coords = {}
        name = 'a box'

        def to_units(self, units):
            return self

        def __deepcopy__(self, memo):
            return Lying(self._v.copy(), self._d, self._u)
    cls = Lying if lying else Box
    cls.label = label
    return cls


class Recorder(StateBackend):
    """An own implementation of the backend on opaque containers."""

    def __init__(self, label, lying=False):
        self.label = label
        self.Box = box_class(label, lying)
        self.calls = []

    def get_array(self, state_value, name, target_units, target_dims, dim_lengths):
        self.calls.append(('array', name, state_value, target_units, tuple(target_dims)))
        b = state_value
        if UNIT.get(b._u, (b._u,))[0] != UNIT.get(target_units, (target_units,))[0]:
            raise InvalidStateError('units')
        values = b._v if b._u == target_units else convert(b._v, b._u, target_units)
        return np.array(spread(values, b._d, list(target_dims), dim_lengths))

    def create_quantity(self, data, name, units, dims, reference_state=None):
        self.calls.append(('create', name, units, tuple(dims), reference_state))
        return self.Box(np.array(data), dims, units)

    def get_dims(self, state_value):
        self.calls.append(('dims', state_value))
        return state_value._d

    def get_shape(self, state_value):
        self.calls.append(('shape', state_value))
        return state_value._v.shape

    def get_container_type(self):
        return self.Box

    # ---- for the harness
    def box(self, state):
        return {k: self.Box(np.array(v.values), v.dims, v.attrs['units'])
                if isinstance(v, DataArray) else v for k, v in state.items()}

    def unbox(self, quantities):
        return {k: DataArray(v._v, dims=v._d, attrs={'units': v._u}) if isinstance(v, self.Box)
                else v for k, v in quantities.items()}


class Fake(object):
    """Has the methods but is not a backend."""
    get_array = create_quantity = get_dims = get_shape = get_container_type = lambda *a: None


def freeze(boxes, cls):
    return {k: (v._v.copy(), v._d, v._u) if isinstance(v, cls) else v for k, v in boxes.items()}


def thaw_changes(before, boxes, cls):
    if set(before) != set(boxes):
        return 'keys'
    for k, v in boxes.items():
        if isinstance(v, cls):
            a, d, u = before[k]
            if not np.array_equal(a, v._v, equal_nan=a.dtype.kind == 'f') or (d, u) != (
                    v._d, v._u):
                return k
    return ''


class Subject(object):
    """A component with a computation that is a function of nothing but the
    case, and the oracle for one call of it."""

    def __init__(self, ctx):
        self.ctx = ctx
        kind = self.kind = ctx.pick(KINDS)
        self.setup = None
        if kind != 'diagnostic' and ctx.chance(0.4):
            ctx.saw('tracers')
            s = self.setup = c18.Setup(ctx, kind)
            self.lay = s.lay
            c18.fill(ctx, s)
            c18.input_is_tracer(ctx, s)
            avoid = set(c18.TRACERS) | {'tracers'}
        else:
            self.lay = Layout(ctx)
            avoid = ()
        lay = self.lay
        if lay.any_wild:
            ctx.saw('wildcard')
        what = 'tendency' if kind in ('tendency', 'implicit') else 'output'
        self.outs = Outputs(ctx, lay, what, n=0 if kind == 'diagnostic' else None, avoid=avoid)
        self.diags = Outputs(ctx, lay, 'diagnostic', avoid=avoid)
        self.got, self.given = {}, {}
        self.arrays, self.diag_arrays = self.outs.make(), self.diags.make()
        attrs = {}
        if self.setup:
            attrs = {'uses_tracers': True, 'tracer_dims': self.setup.tracer_dims,
                     'prepend_tracers': list(self.setup.prepended.items())}
        self.component = make_component(
            ctx, kind, lay.inputs, self.outs.properties, self.diags.properties, self.compute,
            **attrs)
        self.timestep = some_timestep(ctx)
        self.runs = 0
        self.tracer_values = None
        ctx.tag(kind)

    def compute(self, raw, dt):
        self.runs += 1
        self.got = {k: np.array(v) if k != 'time' else v for k, v in raw.items()}
        out = self.outs.keyed(self.arrays)
        if self.setup:
            if self.tracer_values is None or self.tracer_values.shape != raw['tracers'].shape:
                self.tracer_values = self.lay.vals.take(raw['tracers'].shape)
            out['tracers'] = np.array(self.tracer_values)
        return out, self.diags.keyed(self.diag_arrays)

    def judge(self, out, diag):
        """out and diag as labelled arrays."""
        ctx, lay = self.ctx, self.lay
        orders = lay.matching_orders(self.got)
        ctx.check('received', orders, 'no order of {} explains what the computation got'.format(
            lay.wildcard_set()), {k: v.tolist() for k, v in self.got.items() if k != 'time'})
        ctx.check('received', self.got['time'] == lay.state['time'], 'time')
        for o, a, r in ((self.outs, self.arrays, out), (self.diags, self.diag_arrays, diag)):
            extra = set(self.setup.names()) if self.setup and o is self.outs else set()
            ctx.check('returned', set(r) == set(o.properties) | extra,
                      'returned {} for {}'.format(sorted(r), sorted(o.properties)))
            for n in o.properties:
                why = o.mismatch(n, a[n], r[n], orders)
                ctx.check('returned', why is None, '{} {}'.format(n, why))
        if self.setup:
            c18.judge(ctx, self.setup, dict(self.got), {'tracers': self.tracer_values}, out,
                      self.outs, {}, '' if self.kind == 'stepper' else 's^-1')

    def expected_names(self):
        return set(self.lay.inputs) | (set(self.setup.names()) if self.setup else set())

    def through(self, backend, state, calls):
        """The calls of the backend explain the whole call of the component."""
        ctx = self.ctx
        arrays = [c for c in calls if c[0] == 'array']
        ctx.check('through', {c[1] for c in arrays} == self.expected_names(),
                  'arrays asked for {} instead of {}'.format(
                      sorted(c[1] for c in arrays), sorted(self.expected_names())))
        for c in arrays:
            ctx.check('through', c[2] is state[c[1]],
                      'the array of {} was taken from another object'.format(c[1]))
        created = {c[1] for c in calls if c[0] == 'create'}
        want = set(self.outs.properties) | set(self.diags.properties)
        if self.setup:
            want |= set(self.setup.names())
        ctx.check('through', created == want, 'created {} instead of {}'.format(
            sorted(created), sorted(want)))


def component_case(ctx):
    sub = Subject(ctx)
    lay = sub.lay
    default = get_backend()
    ctx.check('current', isinstance(default, DataArrayBackend), 'default backend is {}'.format(
        default))
    wrapping = ctx.pick(['none', 'none', 'none', 'frequency', 'composite'])
    if wrapping == 'composite' and (sub.kind == 'stepper'):
        wrapping = 'none'
    obj = sub.component
    if wrapping == 'frequency':
        ctx.saw('frequency')
        obj = UpdateFrequencyWrapper(obj, timedelta(0))
    recorders = [Recorder('r{}'.format(i), ctx.chance(0.4)) for i in range(ctx.rng.randint(1, 3))]
    if any(hasattr(r.Box, 'dims') for r in recorders):
        ctx.saw('look-alike containers')
    if len(recorders) > 1:
        ctx.saw('several recorders')
    if wrapping == 'composite':
        # one component: nothing is added up, so any container will do
        if sub.kind == 'diagnostic':
            obj = DiagnosticComponentComposite(obj)
            ctx.saw('composite')
        else:
            wrapping = 'none'
    boxed = {r.label: r.box(lay.state) for r in recorders}
    current, base = default, None
    ctx.tag(wrapping, len(recorders))
    for step in range(ctx.rng.randint(2, 6)):
        action = ctx.pick(['set', 'set', 'refuse', 'default', 'call'])
        if action == 'set':
            current = ctx.pick(recorders)
            set_backend(current)
        elif action == 'default':
            if current is not default:
                ctx.saw('switched back')
            current = default
            set_backend(default)
        elif action == 'refuse':
            bad = ctx.pick([None, 3, Fake(), Fake, 'backend', DataArrayBackend, Recorder, {},
                            DataArray(1.), current.get_array])
            ctx.refuses('refused', TypeError, 'backend {!r}'.format(bad), set_backend, bad)
        ctx.log(action, getattr(current, 'label', 'default'))
        ctx.tag(action)
        ctx.check('current', get_backend() is current, 'get_backend() gives {} instead of the '
                  'most recent one'.format(get_backend()))
        before = {r.label: len(r.calls) for r in recorders}
        runs = sub.runs
        if current is default:
            snap, props = Snapshot(lay.state), properties_snapshot(obj)
            out, diag = call(sub.kind, obj, lay.state, sub.timestep)
            ctx.check('untouched', not snap.changes(lay.state), str(snap.changes(lay.state)))
            ctx.check('untouched', not properties_changes(obj, props), 'properties')
        else:
            state = boxed[current.label]
            frozen = freeze(state, current.Box)
            props = properties_snapshot(obj)
            out, diag = call(sub.kind, obj, state, sub.timestep)
            ctx.check('untouched', not thaw_changes(frozen, state, current.Box),
                      thaw_changes(frozen, state, current.Box))
            ctx.check('untouched', not properties_changes(obj, props), 'properties')
            for r in (out, diag):
                for k, v in r.items():
                    ctx.check('through', type(v) is current.Box,
                              '{} returned as {}'.format(k, type(v)))
            sub.through(current, state, current.calls[before[current.label]:])
            out, diag = current.unbox(out), current.unbox(diag)
        for r in recorders:
            if r is not current:
                ctx.check('others idle', len(r.calls) == before[r.label],
                          'a backend that is not installed was used', r.calls[-3:])
        ctx.check('returned', sub.runs == runs + 1, 'computation ran {} times'.format(
            sub.runs - runs))
        sub.judge(out, diag)
        if base is None:
            base = (out, diag, sub.got)
        else:
            # bit for bit apart from the conversion of units
            for a, b in ((base[0], out), (base[1], diag)):
                bad = quantity_changes(a, b, 0.)
                ctx.check('same as default', not bad, str(bad))
        standalone(ctx, sub, current, lay, boxed)
    if ctx.chance(0.3):
        error_case(ctx, sub, recorders[0], boxed)


def standalone(ctx, sub, current, lay, boxed):
    if not ctx.chance(0.4):
        return
    state = boxed[current.label] if isinstance(current, Recorder) else lay.state
    raw = get_numpy_arrays_with_properties(state, lay.inputs)
    orders = lay.matching_orders(raw)
    ctx.check('standalone', orders, 'stand-alone extraction differs')
    r = restore_data_arrays_with_properties(
        sub.diags.keyed(sub.diag_arrays), sub.diags.properties, state, lay.inputs)
    if isinstance(current, Recorder):
        r = current.unbox(r)
    for n in sub.diags.properties:
        why = sub.diags.mismatch(n, sub.diag_arrays[n], r[n], orders)
        ctx.check('standalone', why is None, '{} {}'.format(n, why))


def error_case(ctx, sub, recorder, boxed):
    """Errors of the backend reach the caller and nothing is computed."""
    names = sorted(sub.lay.inputs)
    if not names:
        return
    set_backend(recorder)
    state = dict(boxed[recorder.label])
    name = ctx.pick(names)
    b = state[name]
    fam = UNIT[b._u][0]
    other = 'kg' if fam != 'mass' else 'm'
    state[name] = recorder.Box(b._v, b._d, other)
    runs = sub.runs
    ctx.refuses('backend error', InvalidStateError, 'units {} for {}'.format(other, fam),
                call, sub.kind, sub.component, state, sub.timestep)
    ctx.check('backend error', sub.runs == runs, 'computed all the same')
    # containers of the wrong kind are not read behind the backend's back
    ctx.refuses('backend error', Exception, 'a DataArray with a backend for boxes',
                call, sub.kind, sub.component, dict(state, **{name: sub.lay.state[name]}),
                sub.timestep)


class Own(DataArray):
    __slots__ = ()


class OwnBackend(DataArrayBackend):
    created = 0

    def create_quantity(self, data, name, units, dims, reference_state=None):
        self.created += 1
        return Own(data, dims=dims, attrs={'units': units})

    def get_container_type(self):
        return Own


def own_state(state):
    return {k: Own(np.array(v.values), dims=v.dims, attrs=dict(v.attrs), coords=dict(v.coords))
            if isinstance(v, DataArray) else v for k, v in state.items()}


def stepping_case(ctx):
    """Steppers, composites and constants with a container class of their own
    give what they give with the default one."""
    ctx.saw('subclass')
    which = ctx.pick(['ab', 'leapfrog', 'ssprk', 'composite', 'implicit'])
    # everything of one kind, as wrapping decides nothing here
    model = Model(ctx, kinds=['tendency'] if which == 'composite' else None)
    ctx.tag('own', which)
    make = {'ab': lambda: AdamsBashforth(*model.components(), order=order),
            'leapfrog': lambda: Leapfrog(*model.components()),
            'ssprk': lambda: SSPRungeKutta(*model.components(), stages=stages),
            'composite': lambda: TendencyComponentComposite(*model.components()),
            'implicit': lambda: ImplicitTendencyComponentComposite(*model.components())}[which]
    order, stages = ctx.rng.randint(1, 4), ctx.pick([2, 3])
    n = ctx.rng.randint(1, 5)

    def run(state):
        obj = make()
        results = []
        for _ in range(n):
            if which == 'composite':
                results.append(obj(state))
            elif which == 'implicit':
                results.append(obj(state, model.timestep))
            else:
                diag, state = obj(state, model.timestep)
                results.append((state, diag))
        return results
    first = own_state(model.state)
    second = {k: DataArray(v, attrs=dict(v.attrs)) if isinstance(v, Own) else v
              for k, v in own_state(model.state).items()}
    want = run(second)
    backend = OwnBackend()
    default = get_backend()
    set_backend(backend)
    value = ctx.rng.uniform(1, 100)
    sympl.set_constant('my_constant', value, 'km')
    ctx.check('stepped', abs(sympl.get_constant('my_constant', 'm') - value * 1e3) <= 1e-9 * value
              * 1e3, 'constant')
    got = run(first)
    ctx.check('stepped', backend.created > 0, 'the backend created nothing')
    for (a, da), (b, db) in zip(want, got):
        for x, y in ((a, b), (da, db)):
            bad = quantity_changes(x, y, 0.)
            ctx.check('stepped', not bad, str(bad))
            for k, v in y.items():
                if isinstance(v, DataArray):
                    ctx.check('stepped', isinstance(v, Own), '{} is {}'.format(k, type(v)))
    set_backend(default)
    again = run({k: DataArray(v, attrs=dict(v.attrs)) if isinstance(v, Own) else v
                 for k, v in own_state(model.state).items()})
    for (a, da), (b, db) in zip(want, again):
        bad = quantity_changes(a, b, 0.) + quantity_changes(da, db, 0.)
        ctx.check('same as default', not bad, 'after restoring the backend: ' + str(bad))


def case(ctx):
    if ctx.chance(0.8):
        component_case(ctx)
    else:
        stepping_case(ctx)
