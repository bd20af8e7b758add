"""C09: combined property requirements."""
import itertools

import numpy as np
from sympl import (
    AdamsBashforth, DiagnosticComponentComposite, ImplicitTendencyComponentComposite,
    InvalidPropertyDictError, TendencyComponentComposite, combine_component_properties,
    register_tracer)
from sympl._core.combine_properties import combine_dims
from mon.lib import (
    DISJOINT, FAMILIES, UNIT, family, is_linear, linear_units, make_component, rate_of)

CASES = {'quick': 40000, 'thorough': 300000}
REQUIRED = ('monitor:dims', 'monitor:refused', 'monitor:names', 'monitor:units',
            'monitor:order', 'tracers', 'composite', 'stepper', 'tendencies')
RULE = ('1 to 4 random components (each a random set of quantities with dims with or '
        'without *, units from up to two families, some using tracers) combined in all or '
        'several orders, by the function, composites and steppers. The set of dimension '
        'sets described by the result is compared with the intersection of those of the '
        'requirements by enumeration over all subsets of the named dimensions plus one '
        'other. Distinct by the requirements.')
ASSUMPTIONS = ['no quantity requires a dimension twice']
QUANTITIES = ['a', 'b', 'air_temperature', 'c']
DIMS = ['x', 'y', 'z', 'lat']


def random_dims(ctx, base=None):
    if base is not None and ctx.chance(0.7):
        dims = list(base)
        ctx.rng.shuffle(dims)
        if ctx.chance(0.5):
            dims = [d for d in dims if ctx.chance(0.6)] + ['*']
    else:
        dims = ctx.rng.sample(DIMS, ctx.rng.randint(0, 4))
        if ctx.chance(0.5):
            dims.append('*')
    ctx.rng.shuffle(dims)
    out = []
    for d in dims:
        if d not in out:
            out.append(d)
    return ctx.pick([list, tuple])(out)


def described(dims):
    """The dimension sets that satisfy a requirement, within DIMS + one more."""
    plain = frozenset(d for d in dims if d != '*')
    universe = DIMS + ['some_other']
    if '*' not in dims:
        return {plain}
    out = set()
    for n in range(len(universe) + 1):
        for s in itertools.combinations(universe, n):
            if plain <= set(s):
                out.add(frozenset(s))
    return out


def units_pool(ctx):
    fam = ctx.pick(DISJOINT)
    return FAMILIES[fam]


def case(ctx):
    r = ctx.rng.random()
    if r < 0.25:
        return pair_case(ctx)
    if r < 0.45:
        return inherited_case(ctx)
    n = ctx.rng.randint(1, 4)
    what = ctx.pick(['input', 'input', 'tendency'])
    bases = {q: ctx.rng.sample(DIMS, ctx.rng.randint(0, 4)) for q in QUANTITIES}
    pools = {q: linear_units(ctx.pick(DISJOINT)) for q in QUANTITIES}
    clash_units = ctx.chance(0.15)
    free_dims = ctx.chance(0.3)
    tracers = {}
    if ctx.chance(0.35):
        for name in ctx.rng.sample(['tr1', 'tr2', 'c'], ctx.rng.randint(1, 2)):
            units = ctx.pick(pools.get(name, ['kg/kg', 'g/kg']))
            register_tracer(name, units)
            tracers[name] = units
    reqs, comps = {}, []
    per_component = []
    tracer_base = ctx.rng.sample(DIMS, 2)
    for i in range(n):
        kind = ctx.pick(['tendency', 'implicit', 'stepper', 'diagnostic']
                        if what == 'input' else ['tendency', 'implicit'])
        mine = {}
        for q in ctx.rng.sample(QUANTITIES, ctx.rng.randint(0, 3)):
            units = ctx.pick(pools[q])
            if clash_units and ctx.chance(0.4):
                units = ctx.pick(linear_units(ctx.pick(DISJOINT)))
            mine[q] = {'dims': random_dims(ctx, None if free_dims else bases[q]),
                       'units': units}
        attrs, init = {}, {}
        uses = what == 'input' and kind in ('tendency', 'implicit', 'stepper') and \
            ctx.chance(0.4)
        all_req = {q: [(p['dims'], p['units'])] for q, p in mine.items()}
        if uses:
            tdims = random_dims(ctx, tracer_base)
            full = list(tdims)
            full.insert(ctx.rng.randint(0, len(full)), 'tracer')
            attrs = {'uses_tracers': True, 'tracer_dims': ctx.pick([list, tuple])(full)}
            own = dict(tracers)
            if ctx.chance(0.5):
                pre = [('tr3', ctx.pick(['kg/kg', 'g/kg', '%']))]
                if 'tr1' in tracers and ctx.chance(0.4):
                    pre.append(('tr1', tracers['tr1']))
                attrs['prepend_tracers'] = pre
                own.update(dict(pre))
            for t, u in own.items():
                all_req.setdefault(t, []).append((tdims, u))
            ctx.saw('tracers')
        inputs, outputs = mine, {}
        if what == 'tendency':
            outputs, inputs = {}, {}
            for q, p in mine.items():
                outputs[q] = {'units': rate_of(ctx, p['units']), 'dims': p['dims']}
                all_req[q] = [(p['dims'], outputs[q]['units'])]
        comps.append(make_component(ctx, kind, inputs, outputs, {}, lambda r, d: ({}, {}),
                                    style=ctx.pick(['class', 'instance']), **attrs))
        per_component.append((kind, all_req))
        for q, rs in all_req.items():
            reqs.setdefault(q, []).extend(rs)
    ctx.log('requirements', per_component)
    ctx.tag(what, n, sorted((q, len(r), sorted('*' in d for d, _ in r))
                            for q, r in reqs.items()))
    possible = {}
    ok = True
    for q, rs in reqs.items():
        sets = None
        for dims, _ in rs:
            sets = described(dims) if sets is None else sets & described(dims)
        possible[q] = sets
        fams = {fam_of(u) for _, u in rs}
        if not sets or len(fams) > 1:
            ok = False
            ctx.tag('impossible')
    props = None
    att = 'input_properties' if what == 'input' else 'tendency_properties'
    orders = list(itertools.permutations(range(n)))
    ctx.rng.shuffle(orders)
    for order in orders[:4]:
        parts = [comps[i] for i in order]
        if what == 'tendency':
            ctx.saw('tendencies')

        def combine():
            return combine_component_properties(parts, att)
        how = 'function'
        builder = None
        names = {per_component[i][0] for i in order}
        if what == 'input' and ctx.chance(0.5):
            if names <= {'tendency'}:
                builder = TendencyComponentComposite
            elif names <= {'tendency', 'implicit'}:
                builder = ImplicitTendencyComponentComposite
            elif names == {'diagnostic'}:
                builder = DiagnosticComponentComposite
            if builder is not None:
                ctx.saw('composite')
                if 'diagnostic' not in names and ctx.chance(0.4):
                    builder = AdamsBashforth
                    ctx.saw('stepper')

                def combine():
                    return builder(*parts).input_properties
        if not ok:
            ctx.refuses('refused', InvalidPropertyDictError,
                        'combining {}'.format(reqs), combine)
            continue
        props = ctx.accepts('order', 'combining {} in order {}'.format(reqs, order), combine)
        ctx.check('names', set(props) == set(reqs), 'combined {} instead of {}'.format(
            sorted(props), sorted(reqs)))
        for q in reqs:
            ctx.check('dims', described(props[q]['dims']) == possible[q] and
                      len(set(props[q]['dims'])) == len(list(props[q]['dims'])),
                      '{} combined from {} to {}'.format(q, [d for d, _ in reqs[q]],
                                                         props[q]['dims']))
            u = props[q]['units']
            ctx.check('units', fam_of(u) == fam_of(reqs[q][0][1]),
                      '{} combined from {} to {}'.format(q, [x for _, x in reqs[q]], u))


def fam_of(units):
    f = family(units)
    return 'fraction' if f == 'angle' else f


def pair_case(ctx):
    d1 = random_dims(ctx)
    d2 = random_dims(ctx, [d for d in d1 if d != '*'])
    want = described(d1) & described(d2)
    ctx.tag('pair', len(d1), len(d2), '*' in d1, '*' in d2, len(set(d1) & set(d2)))
    for a, b in ((d1, d2), (d2, d1)):
        copies = type(a)(a), type(b)(b)
        if not want:
            ctx.refuses('refused', InvalidPropertyDictError, 'combining {} and {}'.format(
                a, b), combine_dims, a, b)
        else:
            got = ctx.accepts('order', 'combining {} and {}'.format(a, b),
                              combine_dims, a, b)
            ctx.check('dims', described(got) == want, '{} and {} combined to {}'.format(
                a, b, got))
        ctx.check('dims', copies == (a, b), 'arguments changed')


def inherited_case(ctx):
    """Tendencies of a composite or stepper, of which some take the dims of the
    input of the same name."""
    n = ctx.rng.randint(1, 3)
    q = 'air_temperature'
    base = ctx.rng.sample(DIMS, ctx.rng.randint(0, 4))
    units = linear_units(ctx.pick(DISJOINT))
    inputs, tendencies, comps = [], [], []
    inherits = False
    for i in range(n):
        ip, tp = {}, {}
        if ctx.chance(0.8):
            ip[q] = {'dims': random_dims(ctx, base), 'units': ctx.pick(units)}
            inputs.append(ip[q]['dims'])
        if ctx.chance(0.8):
            tp[q] = {'units': rate_of(ctx, ctx.pick(units))}
            if q in ip and ctx.chance(0.5):
                inherits = True
            else:
                tp[q]['dims'] = random_dims(ctx, base)
                tendencies.append(tp[q]['dims'])
        comps.append(make_component(ctx, 'tendency', ip, tp, {}, lambda r, d: ({}, {})))
    def common(reqs):
        out = None
        for dims in reqs:
            out = described(dims) if out is None else out & described(dims)
        return out
    possible_inputs = common(inputs)
    possible = common(tendencies + (inputs if inherits else []))
    ctx.log('inputs', inputs, 'tendencies', tendencies, 'inherits', inherits)
    ctx.tag('inherited', n, len(inputs), len(tendencies), inherits,
            possible_inputs is None or bool(possible_inputs), bool(possible))
    bad = possible_inputs is not None and not possible_inputs or \
        possible is not None and not possible
    cls = ctx.pick([TendencyComponentComposite, ImplicitTendencyComponentComposite])
    for _ in range(2):
        ctx.rng.shuffle(comps)
        if bad:
            ctx.refuses('refused', InvalidPropertyDictError, 'combining', cls, *comps)
            continue
        comp = ctx.accepts('order', 'combining', cls, *comps)
        ctx.saw('tendencies')
        tp = comp.tendency_properties
        if possible is None:
            ctx.check('names', not tp, 'tendencies {} of nothing'.format(tp))
        else:
            ctx.check('dims', described(tp[q]['dims']) == possible,
                      'combined to {}'.format(tp[q]['dims']))
