"""C26: which objects count as which type of component."""
import functools

from datetime import timedelta

import numpy as np
import sympl
from sympl import (
    AdamsBashforth, ConstantDiagnosticComponent, ConstantTendencyComponent, DataArray,
    DiagnosticComponent, DiagnosticComponentComposite, ImplicitTendencyComponent,
    ImplicitTendencyComponentComposite, Leapfrog, MonitorComposite, NetCDFMonitor,
    RelaxationTendencyComponent, RestartMonitor, SSPRungeKutta, ScalingWrapper, Stepper,
    TendencyComponent, TendencyComponentComposite, TendencyStepper, TimeDifferencingWrapper,
    UpdateFrequencyWrapper)
from mon.lib import KINDS, Layout, Outputs, call, make_component, some_timestep

ATTRIBUTES = ['input_properties', 'tendency_properties', 'diagnostic_properties',
              'output_properties', 'array_call', 'tendencies_in_diagnostics', 'name']
# None: no call at all; else (takes the timestep, may omit it)
SIGNATURES = {
    'absent': None,
    'state': (False, False),
    'state, timestep': (True, False),
    'state, timestep=None': (True, True),
    'state, extra=None': (False, False),
    'state, timestep, extra=None': (True, False),
    'state, extra=1, timestep=None': (True, True),
    'state, timestep=None, extra=1': (True, True),
    'timestep, state=None': (True, False),
}
NEEDS = {
    'tendency': {'input_properties', 'tendency_properties', 'diagnostic_properties',
                 'array_call', 'tendencies_in_diagnostics', 'name'},
    'implicit': {'input_properties', 'tendency_properties', 'diagnostic_properties',
                 'array_call', 'tendencies_in_diagnostics', 'name'},
    'stepper': {'input_properties', 'output_properties', 'diagnostic_properties',
                'array_call', 'tendencies_in_diagnostics'},
    'diagnostic': {'input_properties', 'diagnostic_properties', 'array_call'},
}
TYPES = {'tendency': TendencyComponent, 'implicit': ImplicitTendencyComponent,
         'stepper': Stepper, 'diagnostic': DiagnosticComponent}
TAKES = {'tendency': False, 'implicit': True, 'stepper': True, 'diagnostic': False}
DERIVED = [TendencyComponentComposite, ImplicitTendencyComponentComposite,
           DiagnosticComponentComposite, ConstantTendencyComponent,
           ConstantDiagnosticComponent, RelaxationTendencyComponent, TimeDifferencingWrapper,
           TendencyStepper, AdamsBashforth, Leapfrog, SSPRungeKutta]

TABLE = [(bits, sig) for bits in range(2 ** len(ATTRIBUTES)) for sig in SIGNATURES]
CASES = {'quick': 20 * len(TABLE), 'thorough': 150 * len(TABLE)}
REQUIRED = ('monitor:duck', 'monitor:derived types', 'monitor:inherits', 'monitor:real',
            'monitor:accepted', 'monitor:refused', 'recognised tendency', 'recognised implicit',
            'recognised stepper', 'recognised diagnostic', 'recognised as two', 'by getattr',
            'by slots', 'by property', 'by instance', 'by class', 'by base', 'multiple inheritance',
            'wrapped', 'deeper')
RULE = ('the full truth table of interface attributes and call signatures ({} rows), with the '
        'attributes given by class, instance, property, plain base class, slots or __getattr__ '
        'and of any value, and inheriting classes that add or lack any of them; isinstance and '
        'the constructors that depend on it are compared with the table. Distinct by row and '
        'style.'.format(len(TABLE)))
ASSUMPTIONS = ['the timestep is a named positional parameter of __call__ if it is taken']


def expected(kind, has, signature):
    if signature is None:
        return False
    takes, may_omit = signature
    others = set(ATTRIBUTES) - NEEDS[kind] - {'name'}
    return (NEEDS[kind] <= has and not (others & has) and
            (takes == TAKES[kind] or may_omit))


def make_call(sig):
    scope = {}
    exec('def __call__(self, {}):\n    return None'.format(sig), scope)
    return scope['__call__']


def value_of(ctx, name):
    if name.endswith('properties'):
        return ctx.pick([{}, {}, {'q': {'dims': ['x'], 'units': (
            'm s^-1' if name == 'tendency_properties' else 'm')}}])
    if name == 'name':
        return ctx.pick(['', None, 'a name'])
    if name == 'tendencies_in_diagnostics':
        return ctx.pick([False, True])
    return ctx.pick([None, lambda *args: ({}, {})])


def duck(ctx, has, sig):
    body, instance = {}, {}
    style = ctx.pick(['class', 'instance', 'property', 'base', 'getattr', 'slots', 'mixed'])
    base, later = {}, {}
    for n in sorted(has):
        v = value_of(ctx, n)
        how = ctx.pick(['class', 'instance', 'property', 'base', 'getattr']) if (
            style == 'mixed') else style
        ctx.saw('by ' + how)
        if how == 'class':
            body[n] = v
        elif how in ('instance', 'slots'):
            instance[n] = v
        elif how == 'property':
            body[n] = property(lambda self, v=v: v)
        elif how == 'base':
            base[n] = v
        else:
            later[n] = v
    if sig != 'absent':
        function = make_call(sig)
        (base if style == 'base' else body)['__call__'] = function
    if later:
        def __getattr__(self, item):
            try:
                return later[item]
            except KeyError:
                raise AttributeError(item)
        body['__getattr__'] = __getattr__
    if style == 'slots':
        body['__slots__'] = tuple(sorted(has))
    elif ctx.chance(0.2):
        body['irrelevant_properties'] = {}
    cls = type('Duck', (type('PlainBase', (object,), dict(base, __slots__=())),), body)
    obj = cls()
    for n, v in instance.items():
        setattr(obj, n, v)
    ctx.tag(style)
    return obj


def duck_case(ctx, row):
    bits, sig = TABLE[row]
    has = {n for i, n in enumerate(ATTRIBUTES) if bits >> i & 1}
    ctx.tag(bits, sig)
    obj = duck(ctx, has, sig)
    ctx.log('object with', sorted(has), 'and call', sig)
    found = []
    order = list(KINDS)
    ctx.rng.shuffle(order)
    for kind in order:
        want = expected(kind, has, SIGNATURES[sig])
        got = isinstance(obj, TYPES[kind])
        ctx.check('duck', got is want, 'object with {} and call({}) is {} as {}'.format(
            sorted(has), sig, 'recognised' if got else 'not recognised', TYPES[kind].__name__))
        if want:
            found.append(kind)
            ctx.saw('recognised ' + kind)
    if len(found) > 1:
        ctx.saw('recognised as two')
    cls = ctx.pick(DERIVED)
    ctx.check('derived types', not isinstance(obj, cls),
              'object with {} is recognised as {}'.format(sorted(has), cls.__name__))
    for base in (TendencyComponent, Stepper):
        own = type('Own', (base,), {})
        ctx.check('derived types', not isinstance(obj, own), 'recognised as a subclass of {}'
                  .format(base))
    # what depends on it: composites and the scaling wrapper (on the real interface)
    for cls, kinds in ((TendencyComponentComposite, {'tendency'}),
                       (ImplicitTendencyComponentComposite, {'tendency', 'implicit'}),
                       (DiagnosticComponentComposite, {'diagnostic'}),
                       (ScalingWrapper, set(KINDS))):
        if not kinds & set(found):
            ctx.refuses('refused', TypeError, '{} of this object'.format(cls.__name__), cls, obj)
        elif ctx.chance(0.3):
            ctx.accepts('accepted', '{} of {}'.format(cls.__name__, found), cls, obj)
    if not ({'tendency', 'implicit'} & set(found)):
        stepper = ctx.pick([AdamsBashforth, Leapfrog, SSPRungeKutta])
        ctx.refuses('refused', TypeError, '{} of this object'.format(stepper.__name__),
                    stepper, obj)


def inheritance_case(ctx):
    """Objects that inherit are recognised by that alone."""
    bases = ctx.rng.sample(sorted(TYPES), ctx.pick([1, 1, 1, 2]))
    if len(bases) == 2:
        ctx.saw('multiple inheritance')
    classes = [TYPES[b] for b in bases]
    body = {}
    sig = ctx.pick([s for s in SIGNATURES])
    if sig != 'absent':
        body['__call__'] = make_call(sig)
    for n in ATTRIBUTES:
        if n == 'tendencies_in_diagnostics' or ctx.chance(0.6):
            body[n] = value_of(ctx, n)

    def broken(self):
        raise AttributeError('not there')
    for n in ctx.rng.sample(ATTRIBUTES, 2):
        if ctx.chance(0.4):
            body[n] = property(broken)
    for n in ('input_properties', 'tendency_properties', 'diagnostic_properties',
              'output_properties', 'array_call'):
        body.setdefault(n, {})      # no abstract methods left
    body['__init__'] = lambda self: None
    if ctx.chance(0.4):
        ctx.saw('deeper')
        plain = type('Mixin', (object,), {'something': 1})
        cls = type('Deeper', (plain, type('Middle', tuple(classes), dict(body))), {})
    else:
        cls = type('Inherits', tuple(classes), body)
    obj = cls()
    ctx.tag('inherit', sorted(bases), sig, sorted(body))
    for kind, t in TYPES.items():
        got = isinstance(obj, t)
        ctx.check('inherits', got is (kind in bases), 'subclass of {} is {}recognised as {}'.format(
            bases, '' if got else 'not ', t.__name__))
    for t in DERIVED:
        ctx.check('derived types', not isinstance(obj, t), 'subclass of {} is recognised as {}'
                  .format(bases, t.__name__))
    ctx.check('inherits', isinstance(obj, cls) and isinstance(obj, object), 'own class')


def real_case(ctx):
    """Each type of component is recognised as itself, wrapped ones as what
    they wrap."""
    kind = ctx.pick(KINDS)
    lay = Layout(ctx, linear=True)
    what = 'output' if kind == 'stepper' else 'tendency'
    outs = Outputs(ctx, lay, what, n=0 if kind == 'diagnostic' else None)
    diags = Outputs(ctx, lay, 'diagnostic', n=1)
    comp = make_component(ctx, kind, lay.inputs, outs.properties, diags.properties,
                          lambda raw, dt: (outs.keyed(outs.make()), diags.keyed(diags.make())))
    ctx.tag('real', kind)

    def judge(obj, kinds, what):
        for k, t in TYPES.items():
            got = isinstance(obj, t)
            ctx.check('real', got is (k in kinds), '{} of {} is {}recognised as {}'.format(
                what, kind, '' if got else 'not ', t.__name__))
    judge(comp, {kind}, 'component')
    ctx.saw('wrapped')
    # the call of a wrapper may omit the timestep
    both = {'tendency': {'tendency', 'implicit'}, 'implicit': {'tendency', 'implicit'}}.get(
        kind, {kind})
    judge(ScalingWrapper(comp), both, 'scaled component')
    judge(UpdateFrequencyWrapper(comp, timedelta(0)), both, 'slowed component')
    judge(ScalingWrapper(ScalingWrapper(comp)), both, 'twice scaled component')
    judge(UpdateFrequencyWrapper(ScalingWrapper(comp), timedelta(0)), both, 'scaled and slowed')
    if kind == 'tendency':
        judge(TendencyComponentComposite(comp), {'tendency'}, 'composite')
        judge(ImplicitTendencyComponentComposite(comp), {'implicit'}, 'composite')
    elif kind == 'implicit':
        judge(ImplicitTendencyComponentComposite(comp), {'implicit'}, 'composite')
    elif kind == 'diagnostic':
        judge(DiagnosticComponentComposite(comp), {'diagnostic'}, 'composite')
    elif kind == 'stepper':
        if all(p['units'] for p in outs.properties.values()):
            judge(TimeDifferencingWrapper(comp), {'implicit'}, 'differenced stepper')
    q = DataArray(np.zeros(2), dims=['x'], attrs={'units': 'm s^-1'})
    ct = ConstantTendencyComponent({'a': q})
    judge(ct, {'tendency'}, 'constant tendency')
    judge(ConstantDiagnosticComponent({'a': q}), {'diagnostic'}, 'constant diagnostic')
    judge(RelaxationTendencyComponent('a', 'm'), {'tendency'}, 'relaxation')
    for cls in (AdamsBashforth, Leapfrog, SSPRungeKutta):
        st = cls(ct)
        judge(st, {'stepper'}, cls.__name__)
        ctx.check('real', isinstance(st, TendencyStepper) and isinstance(st, cls), 'own class')
        for other in {AdamsBashforth, Leapfrog, SSPRungeKutta} - {cls}:
            ctx.check('real', not isinstance(st, other), '{} is recognised as {}'.format(
                cls, other))
    for other in ctx.pick([None, 3, 'text', {}, [], object(), lambda state: None,
                           lambda state, timestep: None, np.zeros(3), sympl, int,
                           functools.partial(int)]),:
        judge(other, set(), '{!r}'.format(other))


def case(ctx):
    if ctx.index < CASES[ctx.tier] * 3 // 4:
        duck_case(ctx, ctx.index % len(TABLE))
    elif ctx.chance(0.6):
        inheritance_case(ctx)
    else:
        real_case(ctx)
