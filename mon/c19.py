"""C19: the tracer registry."""
from sympl import (
    InvalidPropertyDictError, get_tracer_names, get_tracer_unit_dict, register_tracer)
from mon.lib import DISJOINT, FAMILIES, family, make_component, rate_units, same_unit

CASES = {'quick': 30000, 'thorough': 240000}
REQUIRED = ('monitor:registry', 'monitor:new', 'monitor:repeated', 'monitor:other units',
            'monitor:conflict with output', 'monitor:construction', 'monitor:conflicting construction',
            'monitor:views', 'monitor:tracer dims', 'other spelling', 'own tracer conflict',
            'after refused construction')
RULE = ('random histories of registrations (new, repeated, respelled, other units, taken by '
        'a component), component constructions (valid, conflicting, malformed) and tampering '
        'with returned views; the registry views are compared with an ordered-dictionary '
        'model after every operation. Distinct by the sequence of operations.')
ASSUMPTIONS = ['components stay alive while the model is in use', 'valid unit strings']
NAMES = ['tr_a', 'tr_b', 'tr_c', 'cloud', 'ozone', 'salt', 'dye', 'tracer', 'T']


class History(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.model = {}          # name -> units, ordered
        self.taken = {}          # name -> a live component outputs it
        self.alive = []
        self.refused = set()     # outputs of components that were refused

    def observe(self, after):
        ctx = self.ctx
        names, units = get_tracer_names(), get_tracer_unit_dict()
        ctx.check('registry', list(names) == list(self.model),
                  'after {} names are {} instead of {}'.format(
                      after, names, list(self.model)))
        ctx.check('registry', dict(units) == self.model,
                  'after {} units are {} instead of {}'.format(after, units, self.model))
        ctx.check('registry', isinstance(names, tuple), 'names are a {}'.format(type(names)))

    def register(self):
        ctx = self.ctx
        r = ctx.rng.random()
        free = [n for n in NAMES if n not in self.model and n not in self.taken]
        if self.model and r < 0.25:
            name = ctx.pick(list(self.model))
            units = self.model[name]
            if ctx.chance(0.6):
                units = ctx.pick([u for u in FAMILIES[family(units)]
                                  if same_unit(u, units)])
                if units != self.model[name]:
                    ctx.saw('other spelling')
            ctx.accepts('repeated', 'registering {} again in {}'.format(name, units),
                        register_tracer, name, units)
            return 'repeat', name
        if self.model and r < 0.45:
            name = ctx.pick(list(self.model))
            fam = family(self.model[name])
            pool = [u for f in DISJOINT for u in FAMILIES[f]
                    if f != fam and 'angle' != fam]
            if ctx.chance(0.5):    # convertible but different
                pool = [u for u in FAMILIES[fam]
                        if not same_unit(u, self.model[name])] or pool
            if not pool:
                return 'nothing', ''
            units = ctx.pick(pool)
            ctx.refuses('other units', ValueError, '{} in {} after {}'.format(
                name, units, self.model[name]), register_tracer, name, units)
            return 'other units', name
        if self.taken and r < 0.65:
            name = ctx.pick(list(self.taken))
            ctx.refuses('conflict with output', InvalidPropertyDictError,
                        'tracer {} that a component outputs'.format(name),
                        register_tracer, name, ctx.pick(FAMILIES['fraction']))
            return 'taken', name
        if not free:
            return 'nothing', ''
        name = ctx.pick(free)
        if name in self.refused:
            ctx.saw('after refused construction')
        units = ctx.pick(FAMILIES[ctx.pick(list(FAMILIES))])
        ctx.accepts('new', 'registering {} in {}'.format(name, units),
                    register_tracer, name, units)
        self.model[name] = units
        return 'new', name

    def construct(self):
        ctx = self.ctx
        kind = ctx.pick(['tendency', 'implicit', 'stepper'])
        props = {}
        own = []
        pool = [n for n in NAMES if n not in self.model]
        for name in ctx.rng.sample(pool, min(len(pool), ctx.rng.randint(0, 2))):
            fam = ctx.pick(list(FAMILIES))
            props[name] = {'dims': ['x'], 'units': (
                ctx.pick(FAMILIES[fam]) if kind == 'stepper' else rate_units(ctx, fam))}
        props['plain_output'] = {
            'dims': ['x'], 'units': 'm' if kind == 'stepper' else 'm s^-1'}
        items = list(props.items())
        ctx.rng.shuffle(items)
        props = dict(items)
        for name in ctx.rng.sample(NAMES, ctx.rng.randint(0, 2)):
            if name not in props:
                own.append((name, ctx.pick(FAMILIES['fraction'])))
        conflict = None
        r = ctx.rng.random()
        if r < 0.25 and self.model:
            conflict = ctx.pick(list(self.model))
        elif r < 0.4:
            conflict = ctx.pick([n for n in NAMES if n not in props])
            ctx.saw('own tracer conflict')
            own = [o for o in own if o[0] != conflict]
            own.insert(ctx.rng.randint(0, len(own)), (conflict, 'kg/kg'))
        if conflict is not None:
            fam = 'fraction'
            props[conflict] = {'dims': ['x'], 'units': (
                ctx.pick(FAMILIES[fam]) if kind == 'stepper' else rate_units(ctx, fam))}
            items = list(props.items())
            ctx.rng.shuffle(items)
            props = dict(items)
        inputs = {'an_input': {'dims': ['x'], 'units': 'm'}}
        attrs = {'uses_tracers': True, 'tracer_dims': ctx.pick([
            ['tracer', 'x'], ('x', 'tracer'), ['tracer', '*'], ['tracer']])}
        if own or ctx.chance(0.3):
            attrs['prepend_tracers'] = own

        def build():
            return make_component(ctx, kind, inputs, props, {}, lambda raw, dt: ({}, {}),
                                  **attrs)
        if ctx.chance(0.15):
            bad = ctx.pick(['none', 'no tracer'])
            attrs['tracer_dims'] = None if bad == 'none' else ctx.pick([['x'], [], ['*', 'x']])
            ctx.refuses('tracer dims', (ValueError, InvalidPropertyDictError),
                        'tracer_dims {}'.format(attrs['tracer_dims']), build)
            self.refused.update(n for n in props if n not in self.model)
            return 'bad dims', kind
        if conflict is not None:
            ctx.refuses('conflicting construction', InvalidPropertyDictError,
                        'a component that outputs {} with tracers {} and own tracers {}'.format(
                            conflict, list(self.model), own), build)
            self.refused.update(n for n in props if n not in self.model)
            return 'conflicting', kind
        comp = ctx.accepts('construction', 'a component with outputs {} and tracers {}'.format(
            sorted(props), list(self.model)), build)
        self.alive.append(comp)
        for n in props:
            self.taken[n] = True
        self.refused -= set(props)
        return 'construct', kind

    def tamper(self):
        """Whatever is done to returned views, the registry stays as it is."""
        ctx = self.ctx
        units = get_tracer_unit_dict()
        what = ctx.pick(['clear', 'add', 'change'])
        if what == 'clear':
            units.clear()
        elif what == 'add':
            units['intruder'] = 'm'
        else:
            for k in list(units):
                units[k] = 'parsec'
        ctx.counts['monitor:views'] += 1
        return 'tamper', what


def case(ctx):
    h = History(ctx)
    h.observe('reset')
    ops = []
    for i in range(ctx.rng.randint(4, 14)):
        r = ctx.rng.random()
        op = h.register() if r < 0.6 else h.construct() if r < 0.9 else h.tamper()
        ctx.log(*op)
        ops.append(op[0])
        h.observe(op)
    ctx.tag('>'.join(ops))
