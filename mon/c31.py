"""C31: printing objects of the framework."""
import copy
from datetime import timedelta

import numpy as np
from sympl import (
    AdamsBashforth, ConstantDiagnosticComponent, ConstantTendencyComponent,
    DiagnosticComponentComposite, ImplicitTendencyComponentComposite, Leapfrog, Monitor,
    MonitorComposite, NetCDFMonitor, PlotFunctionMonitor, RelaxationTendencyComponent,
    RestartMonitor, SSPRungeKutta, ScalingWrapper, TendencyComponentComposite,
    TimeDifferencingWrapper, UpdateFrequencyWrapper)
from mon.lib import (
    KINDS, Layout, Outputs, Snapshot, Values, call, dim_lengths, make_component, properties_changes,
    properties_snapshot, quantity, quantity_changes, rate_of, some_time, some_timestep)

CASES = {'quick': 6000, 'thorough': 36000}
REQUIRED = ('monitor:prints', 'monitor:repeats', 'monitor:names the class', 'monitor:lists',
            'monitor:unchanged properties', 'monitor:unchanged results', 'monitor:unchanged history',
            'monitor:holds back', 'self reference', 'mutual reference', 'inside containers', 'composite',
            'nested composite', 'stepper', 'printed mid-history', 'after a failure',
            'wrapper', 'monitor object', 'while constructing', 'braces in names') + tuple(
                'kind ' + k for k in KINDS)
RULE = ('str, repr, format and % of components of all kinds (any declarations, and attributes holding '
        'arrays, themselves, one another, names with braces and percent signs), composites of them, '
        'wrappers, steppers before and between steps, and monitors: text must come out the same twice '
        'in a row, name the class and list the declared quantities; declarations, results and the '
        'course of a time series must be those of an identical object that is never printed. '
        'Distinct by object and declared quantities.')
ASSUMPTIONS = ['attributes the user adds can themselves be printed']


def printed(ctx, obj, what, changes_nothing=True):
    texts = {}
    order = [('str', str), ('repr', repr), ('format', '{}'.format), ('percent', lambda o: '%s' % (o,)),
             ('percent r', lambda o: '%r' % (o,)), ('in a list', lambda o: repr([o]))]
    ctx.rng.shuffle(order)
    for name, f in order:
        texts[name] = ctx.accepts('prints', '{} of {}'.format(name, what), f, obj)
        ctx.check('prints', isinstance(texts[name], str) and texts[name],
                  '{} of {} is {!r}'.format(name, what, texts[name]))
    ctx.check('repeats', texts['format'] == texts['str'] == texts['percent'] and
              texts['percent r'] == texts['repr'] and texts['in a list'] == '[' + texts[
                  'repr'] + ']', '{}: {}'.format(what, texts))
    ctx.check('repeats', str(obj) == texts['str'] and repr(obj) == texts['repr'],
              '{} prints differently again'.format(what))
    return texts


def names_class(ctx, obj, texts, what):
    cls = type(obj).__name__
    ctx.check('names the class', cls in texts['str'] and cls in texts['repr'],
              '{}: {} is not in {!r} or {!r}'.format(what, cls, texts['str'], texts['repr']))


def lists(ctx, text, component, what):
    for att in ('input_properties', 'output_properties', 'tendency_properties',
                'diagnostic_properties'):
        for name in getattr(component, att, {}):
            ctx.check('lists', name in text, '{}: {} of {} is not in {!r}'.format(
                what, name, att, text))


def some_component(ctx, kind=None):
    kind = kind or ctx.pick(KINDS)
    ctx.saw('kind ' + kind)
    lay = Layout(ctx, linear=True)
    what = 'output' if kind == 'stepper' else 'tendency'
    outs = Outputs(ctx, lay, what, n=0 if kind == 'diagnostic' else None)
    diags = Outputs(ctx, lay, 'diagnostic', n=ctx.rng.randint(0, 2))
    values = outs.make(), diags.make()

    def function(raw, dt):
        return outs.keyed({k: v.copy() for k, v in values[0].items()}), diags.keyed(
            {k: v.copy() for k, v in values[1].items()})
    extra = {}
    init = {}
    if kind != 'diagnostic' and ctx.chance(0.3):
        init['name'] = ctx.pick(['rad{}', '100%s', 'a name', '{0.x}', '%d%%'])
        ctx.saw('braces in names')

    def make():
        return make_component(ctx, kind, copy.deepcopy(lay.inputs), copy.deepcopy(outs.properties),
                              copy.deepcopy(diags.properties), function, init=init,
                              style='instance', **extra)
    return kind, make, lay


def decorate(ctx, comp, others=()):
    """Adds attributes such as a user's component has."""
    for i in range(ctx.rng.randint(0, 3)):
        what = ctx.pick(['self', 'other', 'list', 'dict', 'array', 'text', 'none', 'big'])
        if what == 'self':
            ctx.saw('self reference')
            value = comp
        elif what == 'other' and others:
            ctx.saw('mutual reference')
            value = ctx.pick(others)
            if ctx.chance(0.7):
                value.friend = comp
        elif what == 'list':
            ctx.saw('inside containers')
            value = [1, [comp], (comp, 'x')]
        elif what == 'dict':
            ctx.saw('inside containers')
            value = {'me': comp, 3: list(others)}
        elif what == 'array':
            value = np.arange(4.)
        elif what == 'text':
            value = '{} %s {key!r} \n \\ ' + u'°'
        elif what == 'big':
            value = np.zeros((200, 30))
        else:
            value = None
        setattr(comp, ctx.pick(['extra', 'cache', '_private', 'friend', 'items', 'attr_%s', '{}']),
                value)


def component_case(ctx):
    kind, make, lay = some_component(ctx)
    comp, twin = make(), make()
    decorate(ctx, comp, [some_component(ctx)[1]() for _ in range(ctx.rng.randint(0, 2))])
    ctx.tag('component', kind, sorted(comp.input_properties))
    snap = properties_snapshot(comp)
    before = {k: id(v) for k, v in vars(comp).items() if not k.startswith('_making')}
    texts = printed(ctx, comp, kind)
    names_class(ctx, comp, texts, kind)
    lists(ctx, texts['str'], comp, kind)
    lists(ctx, texts['repr'], comp, kind)
    if getattr(comp, 'name', None) and 'name' in vars(comp):
        ctx.check('lists', repr(comp.name) in texts['repr'], 'name is not in {!r}'.format(
            texts['repr']))
    ctx.check('holds back', 'recursive' in texts['repr'] or not any(
        v is comp for v in vars(comp).values()), 'reference to itself: {!r}'.format(texts['repr']))
    ctx.check('unchanged properties', not properties_changes(comp, snap),
              properties_changes(comp, snap))
    after = {k: id(v) for k, v in vars(comp).items() if not k.startswith('_making')}
    ctx.check('unchanged properties', before == after, 'attributes {} changed'.format(
        sorted(set(before.items()) ^ set(after.items()))))
    dt = some_timestep(ctx)
    state = dict(lay.state)
    snapshot = Snapshot(state)
    one = call(kind, comp, state, dt)
    if ctx.chance(0.5):
        printed(ctx, comp, kind)
    two = call(kind, twin, state, dt)
    for a, b in zip(one, two):
        ctx.check('unchanged results', not Snapshot(a).changes(b), Snapshot(a).changes(b))
    ctx.check('unchanged results', not snapshot.changes(state), snapshot.changes(state))
    # a refused call leaves it printable
    if comp.input_properties:
        ctx.saw('after a failure')
        bad = dict(state)
        bad.pop(ctx.pick(sorted(comp.input_properties)))
        try:
            call(kind, comp, bad, dt)
        except Exception:
            pass
        again = printed(ctx, comp, kind + ' after a failure')
        ctx.check('repeats', again['str'] == texts['str'], 'text differs after a failed call')
    # wrappers
    ctx.saw('wrapper')
    for w in (ScalingWrapper(comp), UpdateFrequencyWrapper(comp, timedelta(hours=1)),
              ScalingWrapper(UpdateFrequencyWrapper(comp, timedelta(0)))):
        printed(ctx, w, 'wrapper')
        ctx.check('unchanged properties', not properties_changes(comp, snap), 'by wrapper')
    if kind == 'stepper' and all(p['units'] and 'units' in p for p in
                                 comp.output_properties.values()):
        try:
            w = TimeDifferencingWrapper(make())
        except Exception:
            w = None
        if w is not None:
            texts = printed(ctx, w, 'time differencing')
            names_class(ctx, w, texts, 'time differencing')
    # composites
    composites = {'tendency': [TendencyComponentComposite, ImplicitTendencyComponentComposite],
                  'implicit': [ImplicitTendencyComponentComposite],
                  'diagnostic': [DiagnosticComponentComposite], 'stepper': []}[kind]
    for cls in composites:
        parts = [comp]
        if cls is not DiagnosticComponentComposite:
            parts.append(ConstantTendencyComponent({}, name='second'))
        else:
            parts.append(ConstantDiagnosticComponent({}))
        ctx.rng.shuffle(parts)
        c = cls(*parts)
        ctx.saw('composite')
        texts = printed(ctx, c, cls.__name__)
        names_class(ctx, c, texts, cls.__name__)
        for p in parts:
            for f in (str, repr):
                ctx.check('lists', f(p) in texts[f.__name__], '{} of the parts of a composite: '
                          '{!r} is not in {!r}'.format(f.__name__, f(p), texts[f.__name__]))
        c2 = cls(c)
        ctx.saw('nested composite')
        texts = printed(ctx, c2, 'nested ' + cls.__name__)
        ctx.check('lists', str(c) in texts['str'] and repr(c) in texts['repr'], 'nested composite')
        empty = printed(ctx, cls(), 'empty ' + cls.__name__)
        names_class(ctx, cls(), empty, 'empty composite')


def stepper_case(ctx):
    """A time series with and without printing."""
    vals, lengths = Values(ctx), dim_lengths(ctx, zero=0.)
    state = {'time': some_time(ctx)}
    names = ctx.rng.sample(['a', 'b', 'air_temperature'], ctx.rng.randint(1, 3))
    tendencies = {}
    for n in names:
        dims = ctx.rng.sample(sorted(lengths), ctx.rng.randint(0, min(2, len(lengths))))
        state[n] = quantity(ctx, vals, dims, lengths, 'm', dtype=np.float64, writable=True)
        tendencies[n] = quantity(ctx, vals, dims, lengths, rate_of(ctx, 'm'), dtype=np.float64,
                                 coords=0)
    relax = ctx.chance(0.4)
    if relax:
        state['equilibrium_a'] = quantity(ctx, vals, [], {}, 'm', dtype=np.float64)
        state['a_relaxation_timescale'] = quantity(ctx, vals, [], {}, 'day', dtype=np.float64)
        if 'a' not in state:
            state['a'] = quantity(ctx, vals, [], {}, 'm', dtype=np.float64, writable=True)

    interval = timedelta(minutes=25)

    def build(talk):
        parts = [ConstantTendencyComponent(tendencies, name='first')]
        if relax:
            parts.append(UpdateFrequencyWrapper(RelaxationTendencyComponent('a', 'm'), interval))
        s = cls(*parts, **kw)
        if ctx.chance(0.4):
            s.me = s
            ctx.saw('self reference')
        return s, parts
    cls = ctx.pick([AdamsBashforth, Leapfrog, SSPRungeKutta])
    kw = {} if cls is Leapfrog else {'order': ctx.rng.randint(1, 4)} if cls is AdamsBashforth \
        else {'stages': ctx.pick([2, 3])}
    loud, parts = build(True)
    quiet, _ = build(False)
    ctx.saw('stepper')
    ctx.tag('stepper', cls.__name__, sorted(kw.items()), relax, tuple(sorted(names)))
    one = {k: (v.copy(deep=True) if k != 'time' else v) for k, v in state.items()}
    two = {k: (v.copy(deep=True) if k != 'time' else v) for k, v in state.items()}
    for i in range(ctx.rng.randint(2, 6)):
        if ctx.chance(0.7):
            ctx.saw('printed mid-history' if i else 'printed at the start')
            texts = printed(ctx, loud, cls.__name__)
            names_class(ctx, loud, texts, cls.__name__)
            for p in parts[:1]:
                ctx.check('lists', type(p).__name__ in texts['str'] and type(
                    p).__name__ in texts['repr'], 'components of {}'.format(cls.__name__))
        d1, n1 = loud(one, timedelta(minutes=10))
        d2, n2 = quiet(two, timedelta(minutes=10))
        for a, b, what in ((d1, d2, 'diagnostics'), (n1, n2, 'new states'), (one, two, 'states')):
            ctx.check('unchanged history', not Snapshot(a).changes(b),
                      '{} at step {}: {}'.format(what, i, Snapshot(a).changes(b)))
        one.update(n1)
        two.update(n2)
        one['time'] = two['time'] = state['time'] + (i + 1) * timedelta(minutes=10)


def monitor_case(ctx):
    ctx.saw('monitor object')
    log = []

    class Recorder(Monitor):
        def store(self, state):
            log.append(state)

    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    path = ctx.scratch()
    made = [Recorder(), NetCDFMonitor(path + '/a.nc', store_names=ctx.pick([None, ['a']])),
            RestartMonitor(path + '/b.nc'),
            PlotFunctionMonitor(lambda fig, state: log.append(state), interactive=False)]
    if ctx.chance(0.5):
        made[0].me = made
        made[0].twin = Recorder()
        made[0].twin.twin = made[0]
        ctx.saw('mutual reference')
    state = {'time': some_time(ctx)}
    for m in made:
        texts = printed(ctx, m, type(m).__name__)
        names_class(ctx, m, texts, type(m).__name__)
    c = MonitorComposite(*made)
    texts = printed(ctx, c, 'MonitorComposite')
    names_class(ctx, c, texts, 'MonitorComposite')
    for m in made:
        ctx.check('lists', str(m) in texts['str'] and repr(m) in texts['repr'],
                  '{} in a composite'.format(type(m).__name__))
    made[0].store(state)
    ctx.check('unchanged results', log == [state], 'store after printing')
    printed(ctx, made[0], 'recorder')
    ctx.tag('monitor', made[0].__dict__.keys())
    plt.close('all')


def construction_case(ctx):
    """Printed by its own constructor, before the attributes are there."""
    ctx.saw('while constructing')
    kind, make, lay = some_component(ctx)
    comp = make()
    cls = type(comp)

    class Early(cls):
        def __init__(self):
            self.texts = repr(self)
            cls.__init__(self)
            self.again = repr(self)
    early = ctx.accepts('prints', 'a component in its constructor', Early)
    ctx.check('names the class', 'Early' in early.texts and 'Early' in early.again, early.texts)
    texts = printed(ctx, early, 'component printed in its constructor')
    names_class(ctx, early, texts, 'component printed in its constructor')
    ctx.tag('construction', kind, sorted(comp.input_properties))


def case(ctx):
    which = ctx.pick(['component'] * 6 + ['stepper'] * 2 + ['monitor', 'construction'])
    globals()[which + '_case'](ctx)
