"""C04: what the computation returns against what is declared."""
from sympl import ComponentExtraOutputError, ComponentMissingOutputError
from mon.lib import KINDS, Layout, NAMES, Outputs, call, make_component, some_count, some_timestep
from mon.c03 import wrap

CASES = {'quick': 24000, 'thorough': 140000}
REQUIRED = ('monitor:missing rejected', 'monitor:extra rejected', 'monitor:matching accepted',
            'missing output', 'missing diagnostic', 'extra output', 'extra diagnostic', 'later call', 'namesake')
RULE = ('random declaration, satisfying state and right arrays, of which some are '
        'dropped and some undeclared ones added, in either returned dictionary, at up to three calls of the '
        'same component. Distinct '
        'by declaration, what was changed and the way the component is called.')


def case(ctx):
    lay = Layout(ctx, zero=0.02)
    kind = ctx.pick(KINDS)
    what = 'tendency' if kind in ('tendency', 'implicit') else 'output'
    tid = kind in ('tendency', 'implicit') and ctx.chance(0.2)
    outs = Outputs(ctx, lay, what, n=0 if kind == 'diagnostic' else some_count(ctx, 0, 4),
                   namesakes=not tid)
    diags = Outputs(ctx, lay, 'diagnostic', n=some_count(ctx, 0, 4), namesakes=not tid)
    returned = [None, None]
    ctx.log('outputs', outs.properties, outs.keys)
    ctx.log('diagnostics', diags.properties, diags.keys)
    init = {}
    if tid:
        init = {'tendencies_in_diagnostics': True, 'name': 'comp'}
    comp = make_component(
        ctx, kind, dict(lay.inputs), dict(outs.properties), dict(diags.properties),
        lambda raw, dt: (dict(returned[0]), dict(returned[1])), init=init)
    how, target = wrap(ctx, kind, comp)
    dt = some_timestep(ctx)
    ctx.tag(kind, how, len(outs.properties), len(diags.properties))
    # a slowed component may answer with what it kept
    for i in range(1 if how == 'frequency' else ctx.pick([1, 1, 2, 3])):
        if i:
            ctx.saw('later call')
            lay = lay.revised()
            outs, diags = outs.rebind(lay), diags.rebind(lay)
        returned[:] = [outs.keyed(outs.make()), diags.keyed(diags.make())]
        once(ctx, lay, kind, target, dt, outs, diags, returned, tid)


def once(ctx, lay, kind, target, dt, outs, diags, returned, tid):
    missing = extra = 0
    action = ctx.rng.randrange(4)
    label = {0: 'output', 1: 'diagnostic'}
    if action in (1, 3):
        for i, o in ((0, outs), (1, diags)):
            if o.properties and ctx.chance(0.6):
                for name in ctx.rng.sample(
                        list(o.properties), ctx.rng.randint(1, len(o.properties))):
                    if ctx.chance(0.8):
                        del returned[i][o.keys[name]]
                        ctx.log('dropped', label[i], name)
                        ctx.saw('missing ' + label[i])
                        missing += 1
                if ctx.chance(0.3):  # given under two names, which replaces nothing
                    name = ctx.pick(list(o.properties))
                    key = ctx.pick(o.possible_keys(name))
                    if o.keys[name] in returned[i] and missing and not any(
                            key in o.possible_keys(n) for n in o.properties if n != name):
                        returned[i].setdefault(key, returned[i][o.keys[name]])
    if action in (2, 3):
        for i, o in ((0, outs), (1, diags)):
            if kind == 'diagnostic' and i == 0:
                continue
            if ctx.chance(0.6):
                allowed = set()
                for name in o.properties:
                    allowed.update(o.possible_keys(name))
                if i == 1 and tid:
                    allowed.update(n + '_tendency_from_comp' for n in outs.properties)
                # things that look declared: inputs, their aliases, outputs of
                # the other dictionary, or an entirely new name
                pool = list(lay.inputs) + [p['alias'] for p in lay.inputs.values()
                                           if 'alias' in p]
                pool += list(outs.properties) + list(diags.properties) + NAMES + ['surprise']
                pool += [p['alias'] for q in (outs, diags) for p in q.properties.values()
                         if 'alias' in p]
                pool = sorted(set(x for x in pool if x not in allowed))
                name = ctx.pick(pool)
                returned[i][name] = lay.vals.take([2])
                ctx.log('added', label[i], name)
                ctx.saw('extra ' + label[i])
                extra += 1
    if missing or extra:
        ctx.tag('missing={}'.format(missing), 'extra={}'.format(extra))
        if missing and extra:
            ctx.refuses('missing rejected',
                        (ComponentMissingOutputError, ComponentExtraOutputError),
                        'dropped and added outputs', call, kind, target, lay.state, dt)
        elif missing:
            ctx.refuses('missing rejected', ComponentMissingOutputError,
                        'a dropped output', call, kind, target, lay.state, dt)
        else:
            ctx.refuses('extra rejected', ComponentExtraOutputError,
                        'an added output', call, kind, target, lay.state, dt)
        return
    result = ctx.accepts('matching accepted', 'what is declared',
                         call, kind, target, lay.state, dt)
    want = set(diags.properties)
    if tid:
        want |= {n + '_tendency_from_comp' for n in outs.properties}
    ctx.check('matching accepted', set(result[0]) == set(outs.properties),
              'got {} for declared {}'.format(sorted(result[0]), sorted(outs.properties)))
    ctx.check('matching accepted', set(result[1]) == want,
              'got {} for declared {}'.format(sorted(result[1]), sorted(want)))
