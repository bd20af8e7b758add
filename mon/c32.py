"""C32: small public helpers: labelled arithmetic that keeps attributes,
aliases of components, shared keys, the public names, jit."""
import numpy as np
import sympl
import xarray as xr
from sympl import (
    DataArray, ScalingWrapper, SharedKeyError, UpdateFrequencyWrapper, ensure_no_shared_keys,
    get_component_aliases, jit)
from datetime import timedelta
from mon.lib import (
    ALIASES, FAMILIES, KINDS, NAMES, Snapshot, Values, dim_lengths, exact, make_component, quantity,
    rate_of)

CASES = {'quick': 24000, 'thorough': 200000}
REQUIRED = ('monitor:sum', 'monitor:attributes', 'monitor:not shared', 'monitor:operands unchanged',
            'monitor:aliases', 'monitor:components unchanged', 'monitor:shared keys',
            'monitor:no shared keys', 'monitor:names', 'monitor:star import', 'monitor:jit',
            'monitor:in place', 'priority', 'several components', 'same priority', 'wrapped',
            'no alias', 'plain operand', 'array operand', 'labels differ', 'broadcast', 'chain',
            'no attributes', 'nested attribute')
RULE = ('a + b, a - b and chains of them for a any sympl DataArray and b any DataArray, xarray array, '
        'numpy array or number, aligned by labels: values and dims as xarray gives for the same '
        'operands, attributes those of the left operand, and independent of it afterwards; aliases of '
        'any lists of components, declared at any of four places for a name, against the documented '
        'priority; all pairs of dictionaries of up to 6 keys for shared keys; the whole list of public '
        'names. Distinct by operands or declarations.')
ASSUMPTIONS = ['an alias is declared once per priority for a quantity, or any of them is right']


def some_operand(ctx, vals, lengths, dims=None):
    dims = ctx.rng.sample(sorted(lengths), ctx.rng.randint(0, min(3, len(lengths)))) if (
        dims is None) else dims
    q = quantity(ctx, vals, dims, lengths, ctx.pick(FAMILIES['length']), special=0.1, coords=0)
    if ctx.chance(0.15):
        q.attrs.clear()
        ctx.saw('no attributes')
    if ctx.chance(0.2):
        q.attrs['history'] = ['one']
        ctx.saw('nested attribute')
    if ctx.chance(0.2):
        q.name = 'quantity'
    return q


def plain(q):
    return xr.DataArray(q.values, dims=q.dims, coords=q.coords) if isinstance(
        q, xr.DataArray) else q


def arithmetic_case(ctx):
    vals, lengths = Values(ctx), dim_lengths(ctx)
    a = some_operand(ctx, vals, lengths)
    what = ctx.pick(['same', 'other', 'other', 'xarray', 'array', 'number'])
    if what == 'same':
        b = some_operand(ctx, vals, lengths, list(a.dims))
    elif what == 'other':
        b = some_operand(ctx, vals, lengths)
        if set(b.dims) != set(a.dims):
            ctx.saw('broadcast')
    elif what == 'xarray':
        b = plain(some_operand(ctx, vals, lengths))
        b.attrs['units'] = 'other'
    elif what == 'array':
        ctx.saw('array operand')
        b = vals.take(a.shape)
    else:
        ctx.saw('plain operand')
        b = ctx.pick([2, -1.5, np.float32(3), np.int64(4), True, np.array(2.5)])
    if isinstance(b, xr.DataArray) and ctx.chance(0.4):
        for d in set(a.dims) & set(b.dims):
            n = lengths[d]
            a = a.assign_coords({d: np.arange(n)})
            b = b.assign_coords({d: np.arange(n) + ctx.pick([0, 0, 1])})
            ctx.saw('labels differ')
    ctx.tag(what, a.shape, a.dims, getattr(b, 'dims', None), str(a.dtype), sorted(a.attrs))
    before = Snapshot({'a': a, 'b': b})
    attrs = dict(a.attrs)
    old = np.seterr(all='ignore')
    try:
        for op, f in (('+', lambda x, y: x + y), ('-', lambda x, y: x - y)):
            if op == '-' and (isinstance(b, bool)):
                continue
            want = f(plain(a), plain(b))
            got = ctx.accepts('accepted', 'a {} b'.format(op), f, a, b)
            ctx.check('sum', type(got) is DataArray and got.dims == want.dims and exact(
                got.values, want.values) and set(got.coords) == set(want.coords) and all(
                    exact(got.coords[c].values, want.coords[c].values) for c in want.coords),
                'a {} b is {}, not {}'.format(op, got, want))
            ctx.check('attributes', dict(got.attrs) == attrs and list(got.attrs) == list(attrs),
                      'attributes of a {} b are {}, not {}'.format(op, got.attrs, attrs))
            ctx.check('operands unchanged', not before.changes({'a': a, 'b': b}),
                      before.changes({'a': a, 'b': b}))
            got.attrs['units'] = 'changed'
            got.attrs['new'] = 1
            if got.dtype.kind == 'f' and got.values.flags.writeable:
                got.values[...] = 7
            ctx.check('not shared', not before.changes({'a': a, 'b': b}), 'altering a {} b '
                      'alters the operands: {}'.format(op, before.changes({'a': a, 'b': b})))
            # chains: the leftmost attributes
            ctx.saw('chain')
            other = some_operand(ctx, vals, lengths, list(a.dims))
            chain = f(f(a, b), 2) + plain(a)
            ctx.check('attributes', dict(chain.attrs) == attrs, 'chain has attributes {}, not '
                      '{}'.format(chain.attrs, attrs))
            back = f(other, a)
            ctx.check('attributes', dict(back.attrs) == dict(other.attrs), 'attributes are those '
                      'of the right operand')
        # in place
        if a.dtype.kind == 'f' and not isinstance(b, xr.DataArray):
            c = a.copy(deep=True)
            alias = c
            c += b
            ctx.check('in place', c is alias and dict(c.attrs) == attrs and exact(
                c.values, np.array(a.values + b, dtype=a.dtype)), 'a += b is {}'.format(c))
        ctx.check('operands unchanged', not before.changes({'a': a, 'b': b}),
                  before.changes({'a': a, 'b': b}))
    finally:
        np.seterr(**old)


PLACES = {'tendency': ['input', 'diagnostic', 'tendency'],
          'implicit': ['input', 'diagnostic', 'tendency'],
          'stepper': ['input', 'output', 'diagnostic'], 'diagnostic': ['input', 'diagnostic']}
PRIORITY = ['input', 'output', 'diagnostic', 'tendency']


class Duck(object):
    """Anything with property dictionaries."""


def alias_case(ctx):
    components, found = [], {}
    n = ctx.rng.randint(0, 5)
    if n > 1:
        ctx.saw('several components')
    names = ctx.rng.sample(NAMES, 4)
    snaps = []
    for i in range(n):
        kind = ctx.pick(KINDS)
        props = {}
        for place in PLACES[kind]:
            props[place] = {}
            for name in names:
                if ctx.chance(0.5):
                    units = 's' if place != 'tendency' else 's s^-1'
                    p = {'dims': ['x'], 'units': units}
                    # within a component, aliases agree as the code needs
                    if ctx.chance(0.6):
                        p['alias'] = '{}_{}_{}'.format(name, place, ctx.rng.randint(0, 3))
                        found.setdefault(name, {}).setdefault(place, []).append(p['alias'])
                    else:
                        ctx.saw('no alias')
                    props[place][name] = p
        if ctx.chance(0.5):
            comp = Duck()
            for place, value in props.items():
                setattr(comp, place + '_properties', value)
        else:
            comp = Duck()
            comp = type('Component', (Duck,), {
                place + '_properties': property(lambda self, v=value: v)
                for place, value in props.items()})()
        if ctx.chance(0.15):
            ctx.saw('wrapped')
            comp = Wrapped(comp)
        components.append(comp)
        snaps.append((props, repr(props)))
    if any(len(a) > 1 for f in found.values() for a in f.values()):
        ctx.saw('same priority')
    if any(len(f) > 1 for f in found.values()):
        ctx.saw('priority')
    got = ctx.accepts('accepted', 'aliases', get_component_aliases, *components)
    ctx.check('aliases', isinstance(got, dict) and set(got) == set(found), 'aliases for {}, not '
              '{}'.format(sorted(got), sorted(found)))
    for name, places in found.items():
        first = next(p for p in PRIORITY if p in places)
        ctx.check('aliases', got[name] in places[first], 'alias of {} is {}, not one of {} ({}); '
                  'all are {}'.format(name, got[name], places[first], first, places))
    ctx.check('components unchanged', all(repr(p) == r for p, r in snaps), 'declarations changed')
    ctx.tag('alias', tuple(sorted((n, tuple(sorted(f))) for n, f in found.items())), n)


class Wrapped(object):
    def __init__(self, component):
        self._wrapped = component

    def __getattr__(self, name):
        return getattr(self._wrapped, name)


def real_alias_case(ctx):
    """The same of real components, bare and wrapped."""
    kind = ctx.pick(KINDS)
    names = ctx.rng.sample(NAMES, 3)
    aliases = dict(zip(names, ALIASES))
    inputs = {n: {'dims': ['x'], 'units': 'm', 'alias': aliases[n]} for n in names[:2]}
    outs = {} if kind == 'diagnostic' else {names[0]: {'dims': ['x'], 'units': 'm' if (
        kind == 'stepper') else 'm s^-1'}}
    if ctx.chance(0.5) and outs:
        outs[names[0]]['alias'] = aliases[names[0]]
    diags = {names[2]: {'dims': ['x'], 'units': 'm', 'alias': aliases[names[2]]}}
    comp = make_component(ctx, kind, inputs, outs, diags, lambda raw, dt: ({}, {}))
    for c in (comp, ScalingWrapper(comp), UpdateFrequencyWrapper(comp, timedelta(0))):
        if c is not comp:
            ctx.saw('wrapped')
        got = get_component_aliases(c)
        ctx.check('aliases', got == aliases, 'aliases are {}, not {}'.format(got, aliases))
        ctx.check('aliases', get_component_aliases(c, comp, c) == aliases, 'given three times')
    ctx.check('aliases', get_component_aliases() == {}, 'aliases of nothing')
    ctx.tag('real', kind, tuple(names), 'alias' in outs.get(names[0], {}))


def keys_case(ctx):
    pool = ['a', 'b', 'A', '', 'time', ('t', 1), 3, 'air_temperature']
    one = {k: ctx.rng.random() for k in ctx.rng.sample(pool, ctx.rng.randint(0, 4))}
    two = {k: one.get(k, 1) if ctx.chance(0.5) else 5
           for k in ctx.rng.sample(pool, ctx.rng.randint(0, 4))}
    before = dict(one), dict(two)
    shared = [k for k in one if k in two]
    ctx.tag('keys', sorted(map(str, one)), sorted(map(str, two)))
    if shared:
        err = None
        try:
            ensure_no_shared_keys(one, two)
        except SharedKeyError as e:
            err = e
        ctx.check('shared keys', err is not None, 'shared keys {} are accepted'.format(shared))
        ctx.check('shared keys', all(str(k) in str(err) for k in shared), 'shared keys {} are not '
                  'all in {}'.format(shared, err))
    else:
        out = ctx.accepts('no shared keys', 'no shared keys in {} and {}'.format(
            list(one), list(two)), ensure_no_shared_keys, one, two)
        ctx.check('no shared keys', out is None, 'returned {!r}'.format(out))
    ctx.check('shared keys', (one, two) == before, 'dictionaries changed')


PUBLIC = '''TendencyComponent DiagnosticComponent Stepper Monitor ImplicitTendencyComponent
TendencyComponentComposite ImplicitTendencyComponentComposite DiagnosticComponentComposite
MonitorComposite TendencyStepper Leapfrog AdamsBashforth SSPRungeKutta InvalidStateError
SharedKeyError DependencyError InvalidPropertyDictError ComponentExtraOutputError
ComponentMissingOutputError units_are_same units_are_compatible is_valid_unit DataArray get_constant
set_constant set_condensible_name reset_constants get_constants_string TimeDifferencingWrapper
ensure_no_shared_keys set_backend get_backend StateBackend DataArrayBackend get_numpy_array jit
register_tracer get_tracer_unit_dict get_tracer_input_properties get_tracer_names restore_dimensions
get_numpy_arrays_with_properties restore_data_arrays_with_properties
initialize_numpy_arrays_with_properties get_component_aliases combine_component_properties
PlotFunctionMonitor NetCDFMonitor RestartMonitor ConstantTendencyComponent ConstantDiagnosticComponent
RelaxationTendencyComponent UpdateFrequencyWrapper ScalingWrapper datetime timedelta'''.split()


def names_case(ctx):
    scope = {}
    ctx.accepts('star import', 'from sympl import *', exec, 'from sympl import *', scope)
    for name in PUBLIC:
        ctx.check('names', hasattr(sympl, name), '{} is not in sympl'.format(name))
        ctx.check('star import', scope.get(name) is getattr(sympl, name),
                  '{} is not imported by *'.format(name))
    ctx.check('names', isinstance(sympl.__version__, str), 'version')
    for name, base in (('InvalidStateError', Exception), ('SharedKeyError', Exception),
                       ('InvalidPropertyDictError', Exception), ('DependencyError', Exception),
                       ('ComponentExtraOutputError', Exception),
                       ('ComponentMissingOutputError', Exception)):
        ctx.check('names', issubclass(getattr(sympl, name), base), name)
    ctx.check('names', issubclass(sympl.TendencyStepper, sympl.Stepper) and issubclass(
        sympl.DataArrayBackend, sympl.StateBackend) and isinstance(
            sympl.get_backend(), sympl.StateBackend), 'types')
    ctx.tag('names', ctx.rng.randrange(3))


def jit_case(ctx):
    k = ctx.rng.randint(-5, 5)

    def f(x, y=2):
        return x * y + k
    forms = {'bare': lambda: jit(f), 'called': lambda: jit()(f),
             'nopython': lambda: jit(nopython=True)(f), 'cached': lambda: jit(nogil=True)(f)}
    form = ctx.pick(sorted(forms))
    g = ctx.accepts('jit', 'jit ' + form, forms[form])
    for x in (ctx.rng.randint(-9, 9), ctx.rng.random(), np.arange(3.)):
        ctx.check('jit', np.array_equal(g(x), f(x)) and np.array_equal(g(x, 5), f(x, 5)),
                  'jit {} gives {}, not {}'.format(form, g(x), f(x)))
    ctx.tag('jit', form, k)


def case(ctx):
    which = ctx.pick(['arithmetic'] * 10 + ['alias'] * 6 + ['real_alias', 'keys', 'keys', 'names',
                                                            'jit'])
    globals()[which + '_case'](ctx)
