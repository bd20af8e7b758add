"""C02: how what the computation returns comes back to the caller."""
import numpy as np
from sympl import restore_data_arrays_with_properties
from mon.lib import KINDS, Layout, Outputs, call, make_component, some_timestep

CASES = {'quick': 22000, 'thorough': 120000}
REQUIRED = ('monitor:labelled', 'monitor:standalone', 'monitor:wrong shape rejected',
            'wildcard output', 'inherited dims', 'keyed by own alias',
            'keyed by input alias', 'new dim', 'monitor:partly', 'some outputs', 'not an array',
            'missing by alias', 'another state', 'changed in place', 'decoy',
            'namesake')
RULE = ('random declaration of inputs and outputs with a satisfying state; the '
        'computation returns arrays of unique values; every returned quantity is '
        'compared by label. A third of the calls return one array of a shape that does '
        'not fit; the same component is called with up to three states. Distinct by kinds, dims and units of the declarations.')
ASSUMPTIONS = ['dims matched by * are not also listed by an output',
               'an axis for a dim that no input has may have any length']


def case(ctx):
    lay = Layout(ctx)
    kind = ctx.pick(KINDS)
    ctx.tag(kind)
    what = 'tendency' if kind in ('tendency', 'implicit') else 'output'
    outs = Outputs(ctx, lay, what, namesakes=True) if kind != 'diagnostic' else Outputs(ctx, lay, what, n=0)
    diags = Outputs(ctx, lay, 'diagnostic', n=None if kind != 'diagnostic' else
                    ctx.rng.randint(1, 4), namesakes=True)
    arrays, diag_arrays = outs.make(), diags.make()
    for o in (outs, diags):
        ctx.log(o.what, o.properties, o.keys)
        for name in o.properties:
            ctx.tag('{}:{}'.format(o.what, len(o.dims(name))))
    seen = []

    def compute(raw, dt):
        seen.append({k: np.array(v) for k, v in raw.items() if k != 'time'})
        return now[0].keyed(now[1]), now[2].keyed(now[3])
    now = [outs, arrays, diags, diag_arrays]
    comp = make_component(ctx, kind, lay.inputs, outs.properties, diags.properties, compute)
    timestep = some_timestep(ctx)

    for _ in range(ctx.pick([1, 1, 2, 3])):
        outs, arrays, diags, diag_arrays = now
        if ctx.chance(0.3):
            target, target_arrays = ctx.pick([(outs, dict(arrays)), (diags, dict(diag_arrays))])
            if target.properties:
                now[1 if target is outs else 3] = target_arrays
                spoil(ctx, kind, comp, lay, timestep, target, target_arrays)
                now[1 if target is outs else 3] = arrays if target is outs else diag_arrays
        elif not once(ctx, lay, kind, comp, timestep, now, seen):
            return
        lay = lay.revised()
        outs, diags = outs.rebind(lay), diags.rebind(lay)
        now[:] = [outs, outs.make(), diags, diags.make()]


def once(ctx, lay, kind, comp, timestep, now, seen):
    outs, arrays, diags, diag_arrays = now
    del seen[:]
    out, diag = call(kind, comp, lay.state, timestep)
    orders = lay.matching_orders(seen[0])
    if not orders:
        return False  # what the computation received is wrong already: C01's matter
    judge(ctx, 'labelled', outs, arrays, out, orders)
    judge(ctx, 'labelled', diags, diag_arrays, diag, orders)
    for o, a in ((outs, arrays), (diags, diag_arrays)):
        alone = restore_data_arrays_with_properties(
            o.keyed(a), o.properties, lay.state, lay.inputs)
        judge(ctx, 'standalone', o, a, alone, orders)
    partly(ctx, lay, ctx.pick([(outs, arrays), (diags, diag_arrays)]), orders)
    return True


def partly(ctx, lay, pair, orders):
    """Restoring only some outputs, from numbers and lists as well as arrays."""
    outs, arrays = pair
    names = [n for n in outs.properties if ctx.chance(0.6)]
    raw = outs.keyed({n: arrays[n] for n in names})
    if len(raw) != len(names):
        return
    for key in list(raw):
        if raw[key].size and ctx.chance(0.4):
            raw[key] = raw[key].tolist()  # a number if there are no dims
            ctx.saw('not an array')
    rest = [n for n in outs.properties if n not in names]
    given = dict(raw)
    if ctx.chance(0.5):
        kwargs = {'ignore_missing': True}
        if ctx.chance(0.3):
            kwargs['ignore_names'] = ctx.pick([list, tuple, set])(names[:1])
            names = names[1:]
    else:
        kwargs = {'ignore_names': ctx.pick([list, tuple, set])(rest)}
    if 'ignore_missing' in kwargs and set(raw) - set(outs.properties):
        ctx.saw('missing by alias')
    ctx.saw('some outputs')
    got = restore_data_arrays_with_properties(raw, outs.properties, lay.state, lay.inputs, **kwargs)
    ctx.check('partly', set(got) == set(names), 'restoring {} with {} gave {}'.format(
        sorted(raw), kwargs, sorted(got)))
    for name in names:
        why = outs.mismatch(name, arrays[name], got[name], orders)
        ctx.check('partly', why is None, '{} {}'.format(name, why), outs.properties[name])
    ctx.check('partly', list(raw) == list(given) and all(raw[k] is given[k] for k in raw),
              'the given dictionary of arrays was changed')


def judge(ctx, monitor, outs, arrays, returned, orders):
    ctx.check(monitor, set(returned) == set(outs.properties),
              'returned names {} instead of {}'.format(
                  sorted(returned), sorted(outs.properties)))
    for name in outs.properties:
        why = outs.mismatch(name, arrays[name], returned[name], orders)
        ctx.check(monitor, why is None, '{} {} {}'.format(outs.what, name, why),
                  outs.properties[name])
        if '*' in outs.dims(name):
            ctx.saw('wildcard output')
        if 'dims' not in outs.properties[name]:
            ctx.saw('inherited dims')
        if any(d.startswith('new') for d in outs.dims(name)):
            ctx.saw('new dim')
        if outs.keys[name] == outs.properties[name].get('alias'):
            ctx.saw('keyed by own alias')
        elif outs.keys[name] != name:
            ctx.saw('keyed by input alias')


def wrong_shapes(ctx, outs, name):
    shape = list(outs.shape(name))
    out = [shape + [1], [1] + shape, [2] + shape]
    if len(shape) > 0:
        out += [shape[1:], shape[:-1], [int(np.prod(shape))], shape[::-1], []]
        for i in range(len(shape)):
            s = list(shape)
            s[i] += 1
            out.append(s)
            s = list(shape)
            s[i] = 1
            out.append(s)
            if shape[i] % 2 == 0 and shape[i] > 0:
                for j in range(len(shape)):
                    if i != j:
                        s = list(shape)
                        s[i] //= 2
                        s[j] *= 2
                        out.append(s)
        p = list(shape)
        ctx.rng.shuffle(p)
        out.append(p)
    return [s for s in out if not outs.fits(name, s)]


def spoil(ctx, kind, comp, lay, timestep, outs, arrays):
    name = ctx.pick(list(outs.properties))
    shapes = wrong_shapes(ctx, outs, name)
    if not shapes:
        return
    shape = ctx.pick(shapes)
    arrays[name] = lay.vals.take(shape)
    what = '{} {} with dims {} and shape {} (fitting: {})'.format(
        outs.what, name, outs.dims(name), shape, outs.shape(name))
    if int(np.prod(shape)) == int(np.prod(outs.shape(name))):
        ctx.saw('wrong shape of the same size')
    ctx.refuses('wrong shape rejected', Exception, what,
                call, kind, comp, lay.state, timestep)
    ctx.refuses('wrong shape rejected', Exception, what + ' (stand-alone)',
                restore_data_arrays_with_properties, outs.keyed(arrays),
                outs.properties, lay.state, lay.inputs)
