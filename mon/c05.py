"""C05: declarations, when a component is constructed."""
import copy
from sympl import (
    ImplicitTendencyComponentComposite, InvalidPropertyDictError, TendencyStepper)
from mon.lib import (
    BASES, DISJOINT, FAMILIES, KINDS, OUT_ATT, Layout, Outputs, call, family,
    is_linear, make_component, rate_units, some_count, some_timestep)

CASES = {'quick': 60000, 'thorough': 500000}
FAULTS = ['no units', 'no dims', 'shared alias', 'inconvertible', 'not a dict', 'missing']
REQUIRED = tuple('monitor:' + f for f in FAULTS) + (
    'one class', 'monitor:accepted', 'monitor:uninitialised refused')
RULE = ('random valid declaration, constructed as it is or with one fault put into one '
        'of its dictionaries. Distinct by kind, style, fault, place and declaration.')
ASSUMPTIONS = ['units with an offset (degC) have no tendency units',
               'a missing dictionary may also be refused as an abstract class']


def disjoint(fam):
    rate = fam.endswith('/time')
    base = fam[:-5] if rate else fam
    base = 'fraction' if base == 'angle' else base
    return base, rate


def case(ctx):
    lay = Layout(ctx)
    kind = ctx.pick(KINDS)
    what = 'tendency' if kind in ('tendency', 'implicit') else 'output'
    outs = Outputs(ctx, lay, what, n=0 if kind == 'diagnostic' else some_count(ctx, 0, 4))
    diags = Outputs(ctx, lay, 'diagnostic', n=some_count(ctx, 0, 4))
    d = {'input_properties': copy.deepcopy(lay.inputs),
         'diagnostic_properties': copy.deepcopy(diags.properties)}
    if kind != 'diagnostic':
        d[OUT_ATT[kind]] = copy.deepcopy(outs.properties)
    style = ctx.pick(['class', 'instance', 'property', 'one class'])
    ran = []

    one = {}

    def build():
        if style == 'one class':
            # another instance of one class, with its own declaration
            return one['class'](d)
        return make_component(
            ctx, kind, d['input_properties'], d.get(OUT_ATT.get(kind)),
            d['diagnostic_properties'], lambda raw, dt: ran.append(1) or ({}, {}),
            style=style)
    ctx.tag(kind, style)
    if style == 'one class':
        ctx.saw('one class')
        base = BASES[kind]

        def __init__(self, own):
            self.__dict__.update(own)
            base.__init__(self)
        one['class'] = type('Made' + kind.title(), (base,), dict(
            {k: None for k in d}, __init__=__init__,
            array_call=lambda self, *args: ran.append(1) or ({}, {})))
        if ctx.chance(0.7):
            good = copy.deepcopy(d)
            if ctx.chance(0.3):
                other = ctx.pick(sorted(good))
                good[other] = {}
                if other == 'input_properties':
                    for k in d:   # nothing to inherit dims from
                        good[k] = {}
            ctx.accepts('accepted', 'the first of its class {}'.format(good),
                        one['class'], good)
        if ctx.chance(0.2):
            try:
                one['class'](dict(d, diagnostic_properties=None))
            except InvalidPropertyDictError:
                pass
    r = ctx.rng.random()
    if r < 0.3:
        ctx.log('valid', d)
        ctx.accepts('accepted', 'a valid declaration {}'.format(d), build)
        return
    if r < 0.36:
        uninitialised(ctx, kind, lay)
        return
    fault = ctx.pick(FAULTS)
    att = ctx.pick(list(d))
    ctx.tag(fault, att)
    if fault in ('not a dict', 'missing'):
        if style == 'property':
            style = 'class'
        if fault == 'not a dict':
            d[att] = ctx.pick([None, ['air_temperature'], ('a', 'b'), 'air_temperature',
                               3, {'a', 'b'}])
            ctx.log(att, 'is', d[att])
            ctx.refuses(fault, InvalidPropertyDictError, '{} = {!r}'.format(att, d[att]), build)
        else:
            base = BASES[kind]
            body = {k: v for k, v in d.items() if k != att}
            body['array_call'] = lambda self, *args: None
            ctx.refuses(fault, (InvalidPropertyDictError, TypeError), 'no ' + att,
                        lambda: type('Made', (base,), body)())
        return
    props = d[att]
    if fault == 'shared alias':
        if len(props) < 2:
            return
        a, b = ctx.rng.sample(list(props), 2)
        alias = props[a].get('alias') or props[b].get('alias') or 'shared'
        props[a]['alias'] = props[b]['alias'] = alias
    else:
        if not props:
            return
        name = ctx.pick(list(props))
        if fault == 'no units':
            del props[name]['units']
        elif fault == 'no dims':
            if att != 'input_properties' and name in d['input_properties']:
                return
            props[name].pop('dims', None)
        elif fault == 'inconvertible':
            if att == 'input_properties' or not d['input_properties']:
                return
            shared = [n for n in props if n in d['input_properties']]
            if not shared:
                name = ctx.pick([n for n in d['input_properties']])
                props[name] = {}
            else:
                name = ctx.pick(shared)
            units = d['input_properties'][name]['units']
            fam = disjoint(family(units))[0]
            if att == 'tendency_properties':
                if not is_linear(units):
                    return
                # units of the quantity itself, or per time but of something else
                if ctx.chance(0.4) and fam != 'duration':
                    props[name]['units'] = units
                else:
                    props[name]['units'] = rate_units(
                        ctx, ctx.pick([f for f in DISJOINT if f not in (fam, 'duration')]))
                    if fam == 'length' and 'speed' in family(props[name]['units']):
                        return
                    if fam == 'energy':
                        return
            else:
                props[name]['units'] = ctx.pick(
                    FAMILIES[ctx.pick([f for f in DISJOINT if f != fam])])
    ctx.log('faulty', att, d)
    ctx.refuses(fault, InvalidPropertyDictError,
                '{} in {}: {}'.format(fault, att, props), build)


def uninitialised(ctx, kind, lay):
    """A class that forgets to call the __init__ of its base."""
    base = BASES[kind]
    ran = []
    body = {'input_properties': lay.inputs, 'diagnostic_properties': {},
            '__init__': lambda self: None,
            'array_call': lambda self, *args: ran.append(1) or (
                {} if kind == 'diagnostic' else ({}, {}))}
    if kind != 'diagnostic':
        body[OUT_ATT[kind]] = {}
    comp = type('Forgetful', (base,), body)()
    ctx.refuses('uninitialised refused', Exception, 'an uninitialised component',
                call, kind, comp, lay.state, some_timestep(ctx))
    ctx.check('uninitialised refused', not ran, 'the computation ran')
    if ctx.chance(0.3):
        def forget(self):
            self.prognostic = ImplicitTendencyComponentComposite()
        stepper = type('ForgetfulStepper', (TendencyStepper,), {
            '__init__': forget, '_call': lambda self, *args: ran.append(1) or ({}, {})})()
        ctx.refuses('uninitialised refused', (RuntimeError, AssertionError),
                    'an uninitialised stepper', stepper, lay.state, some_timestep(ctx))
        ctx.check('uninitialised refused', not ran, 'the computation ran')
