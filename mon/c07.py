"""C07: unit conversion and unit predicates."""
import numpy as np
from sympl import DataArray, is_valid_unit, units_are_compatible, units_are_same
from mon.lib import (
    DISJOINT, FAMILIES, UNIT, Snapshot, Values, close, convert, dim_lengths, exact, family,
    quantity, rtol_for, same_unit, unit_scale)

CASES = {'quick': 40000, 'thorough': 400000}
REQUIRED = ('monitor:values', 'monitor:metadata', 'monitor:original', 'monitor:refused',
            'monitor:compatible', 'monitor:same', 'monitor:valid', 'monitor:invalid',
            'monitor:garbage', 'compound', 'offset', 'no units', 'geographic', 'percent', 'large integers',
            'lookalike', 'nearly alike')
RULE = ('random labelled arrays (dtypes, dims, coordinates, attributes, NaN) converted '
        'between random units of a family with known factors and offsets, or random '
        'compound units built from a table of SI units; predicates on random pairs; '
        'random strings for the validity predicate. Distinct by pair of units and dtype.')
ASSUMPTIONS = ['numerical tolerance 1e-9 (float32: 3e-6) relative to the largest value',
               'unit strings without a numeric factor']
# dimension (length, mass, time, temperature), factor
PREFIX = [('p', 1e-12), ('n', 1e-9), ('u', 1e-6), ('m', 1e-3), ('', 1.), ('k', 1e3),
          ('M', 1e6), ('G', 1e9), ('T', 1e12)]


def prefixed(unit, factor=1.):
    return [(p + unit, k * factor) for p, k in PREFIX]


SI = {
    'length': ((1, 0, 0, 0), prefixed('m') + [
        ('cm', 1e-2), ('meter', 1.), ('meters', 1.), ('kilometer', 1e3), ('ft', .3048),
        ('inch', .0254), ('mile', 1609.344)]),
    'mass': ((0, 1, 0, 0), prefixed('g', 1e-3) + [
        ('gram', 1e-3), ('kilogram', 1.), ('lb', .45359237)]),
    'time': ((0, 0, 1, 0), [
        ('s', 1.), ('ms', 1e-3), ('us', 1e-6), ('ns', 1e-9), ('min', 60.), ('hr', 3600.),
        ('day', 86400.), ('second', 1.), ('seconds', 1.), ('minute', 60.), ('hour', 3600.),
        ('week', 604800.)]),
    'temperature': ((0, 0, 0, 1), prefixed('K') + [('kelvin', 1.)]),
    'pressure': ((-1, 1, -2, 0), prefixed('Pa') + [
        ('hPa', 1e2), ('bar', 1e5), ('mbar', 1e2), ('atm', 101325.), ('pascal', 1.)]),
    'energy': ((2, 1, -2, 0), prefixed('J') + [('joule', 1.), ('cal', 4.184)]),
    'power': ((2, 1, -3, 0), prefixed('W') + [('watt', 1.)]),
    'force': ((1, 1, -2, 0), prefixed('N') + [('newton', 1.)]),
}
# units that differ in case, or that are written with the letters of other units
LOOKALIKE = [(p + u, q + u) for u in ('m', 'g', 'K', 'Pa', 'J', 'W', 'N')
             for p, q in (('m', 'M'), ('M', 'm'))]

# units that differ by less than a percent, in the first of each pair's base
CLOSE = [('year', 31557600., 'common_year', 31536000.), ('day', 86400., 'sidereal_day', 86164.0905308),
         ('cal', 4.184, 'international_calorie', 4.1868),
         ('ft', .3048, 'survey_foot', 1200. / 3937), ('mile', 1609.344, 'survey_mile', 5280 * 1200. / 3937)]


def compound(ctx, kinds):
    """A unit string for the product of (kind, power), its dimension and factor."""
    dim = np.zeros(4)
    factor = 1.
    text = []
    kinds = list(kinds)
    ctx.rng.shuffle(kinds)
    style = ctx.pick(['^', '**', '/'])
    if kinds[0][1] < 0:
        style = '^'
    for i, (kind, power) in enumerate(kinds):
        d, units = SI[kind]
        u, f = ctx.pick(units)
        dim = dim + np.array(d) * power
        factor *= f ** power
        if style == '/':
            p = abs(power)
            piece = u if p == 1 else '{}^{}'.format(u, p)
            text.append(('' if i == 0 else ' / ' if power < 0 else ' * ') + piece)
        else:
            piece = u if power == 1 else '{}{}{}'.format(u, style, power)
            text.append(('' if i == 0 else ctx.pick([' ', '*', ' * '])) + piece)
    return ''.join(text), tuple(dim), factor


def table_case(ctx):
    vals = Values(ctx)
    lengths = dim_lengths(ctx, n=ctx.rng.randint(1, 3))
    if ctx.chance(0.7):
        fam = ctx.pick(list(FAMILIES))
        pool = FAMILIES[fam] if ctx.chance(0.7) else [u for u in UNIT if family(u) == fam]
        u1, u2 = ctx.pick(pool), ctx.pick(pool)
        f1, b1, f2, b2 = UNIT[u1][1], UNIT[u1][2], UNIT[u2][1], UNIT[u2][2]
        if b1 or b2:
            ctx.saw('offset')
        if fam == 'angle':
            ctx.saw('geographic')
        if '%' in (u1, u2):
            ctx.saw('percent')
        same = UNIT[u1] == UNIT[u2]
        scale, back_scale = unit_scale(u2, u1), unit_scale(u1, u2)
    else:
        ctx.saw('compound')
        kinds = []
        for k in ctx.rng.sample(sorted(SI), ctx.rng.randint(1, 3)):
            kinds.append((k, ctx.pick([1, 1, -1, 2, -2, 3, -3])))
        while True:
            u1, d1, f1 = compound(ctx, kinds)
            u2, d2, f2 = compound(ctx, kinds)
            if 1e-25 < f1 / f2 < 1e25:  # within the range of float32
                break
        if ctx.chance(0.2):
            ctx.saw('lookalike')
            u1, u2 = ctx.pick(LOOKALIKE)
            f1, f2 = [f for _, units in SI.values() for u, f in units if u == u1] + [
                f for _, units in SI.values() for u, f in units if u == u2]
            if ctx.chance(0.5):
                u1, u2 = u1 + ' s^-1', u2 + ' s^-1'
        if ctx.chance(0.1):
            ctx.saw('nearly the same')
            u1, f1, u2, f2 = ctx.pick(CLOSE)
            if ctx.chance(0.5):
                u1, f1, u2, f2 = u2, f2, u1, f1
            if ctx.chance(0.5):
                u1, u2 = ctx.pick([u1 + ' K', u1 + ' s^-1', u1]), u2
                u2 = u2 + u1[len(u1.split(' ')[0]):]
        b1 = b2 = 0.
        same = abs(f1 / f2 - 1) < 1e-12
        scale = back_scale = None
    ctx.tag(u1, u2)
    q = quantity(ctx, vals, ctx.rng.sample(list(lengths), ctx.rng.randint(0, len(lengths))),
                 lengths, u1, special=0.1)
    if q.dtype.kind in 'iu' and ctx.chance(0.6) or ctx.chance(0.05):
        ctx.saw('large integers')
        dtype = np.dtype(ctx.pick(['int8', 'int16', 'uint16', 'int32', 'int32', 'uint32', 'int64']))
        top = min(np.iinfo(dtype).max, 10 ** 12)
        big = np.asarray([ctx.rng.randint(0, top) for _ in range(q.size)], dtype).reshape(q.shape)
        if dtype.kind == 'i' and ctx.chance(0.5):
            big = -big
        q = DataArray(big, dims=q.dims, coords=q.coords, attrs=q.attrs)
    if ctx.chance(0.2):
        q.name = 'named'
    snap = Snapshot({'q': q})
    ctx.log('convert', u1, 'to', u2, q.dtype, q.shape)
    out = q.to_units(u2)
    if same:
        want = np.array(q.values)
    else:
        want = (np.asarray(q.values, np.float64) * f1 + (b1 - b2)) / f2
    ctx.check('values', close(out.values, want, rtol_for(q.values), scale),
              '{} {} in {} came out as {}'.format(q.values.tolist(), u1, u2,
                                                  out.values.tolist()))
    units = out.attrs.get('units')
    ctx.check('metadata', units == u2 or (same and units == u1),
              'units are {} after conversion to {}'.format(units, u2))
    ctx.check('metadata', out.dims == q.dims and isinstance(out, DataArray), 'dims or type')
    rest = lambda d: {k: v for k, v in d.items() if k != 'units'}
    ctx.check('metadata', rest(out.attrs) == rest(q.attrs), 'attributes {} became {}'.format(
        q.attrs, out.attrs))
    ctx.check('metadata', set(out.coords) == set(q.coords) and all(
        exact(out.coords[c].values, q.coords[c].values) for c in q.coords), 'coordinates')
    ctx.check('original', not snap.changes({'q': q}), str(snap.changes({'q': q})))
    # there and back
    back = out.to_units(u1)
    ctx.check('values', close(back.values, q.values, rtol_for(q.values) * 4, back_scale),
              'not the same after conversion there and back')
    ctx.check('compatible', units_are_compatible(u1, u2) is True and
              units_are_compatible(u2, u1) is True, '{} and {}'.format(u1, u2))
    if same or abs(f1 / f2 - 1) > 1e-6 or b1 != b2:
        # exact equality of differently composed factors is a matter of rounding
        if not same or f1 == f2:
            got = units_are_same(u1, u2)
            if not same or u1 in UNIT:
                ctx.check('same', bool(got) == same, '{} and {} reported {}'.format(
                    u1, u2, got))
    ctx.check('valid', is_valid_unit(u1) is True and is_valid_unit(u2) is True,
              '{} or {}'.format(u1, u2))


# spelled nearly alike, but not convertible
NEARLY = [(u'm' + a, u'm ' + a) for a in ('s', 'm', 'K', 'g', 'N', 'J', 'W', 'Pa', 's^-1',
                                         'K^-1', 'm^-2')] + [
    ('m/s^2', '(m/s)^2'), ('m s^-2', '(m s)^-2'),
    ('J/kg*K', 'J/(kg*K)'), ('m/s*K', 'm/(s*K)'), ('m s^-1', 'm s'), ('m^2', 'm^3'),
    ('s', 'S'), ('m^-1', 'm'), ('s^-1', 's^-2'), ('mol', 'm')]


def refusal_case(ctx):
    f1, f2 = ctx.rng.sample(DISJOINT, 2)
    u1, u2 = ctx.pick(FAMILIES[f1]), ctx.pick(FAMILIES[f2])
    if ctx.chance(0.25):
        ctx.saw('nearly alike')
        u1, u2 = ctx.pick(NEARLY)
        if ctx.chance(0.5):
            u1, u2 = u2, u1
    elif ctx.chance(0.3):
        while True:
            kinds1 = [(k, ctx.pick([1, -1, 2])) for k in ctx.rng.sample(sorted(SI), 2)]
            kinds2 = [(k, ctx.pick([1, -1, 2])) for k in ctx.rng.sample(sorted(SI), 2)]
            u1, d1, _ = compound(ctx, kinds1)
            u2, d2, _ = compound(ctx, kinds2)
            if d1 != d2:
                break
    ctx.tag(u1, u2, 'refuse')
    vals = Values(ctx)
    q = DataArray(vals.take([2]), dims=['x'], attrs={'units': u1, 'k': 1})
    snap = Snapshot({'q': q})
    ctx.refuses('refused', ValueError, '{} to {}'.format(u1, u2), q.to_units, u2)
    ctx.check('original', not snap.changes({'q': q}), str(snap.changes({'q': q})))
    ctx.check('compatible', units_are_compatible(u1, u2) is False,
              '{} and {} reported compatible'.format(u1, u2))
    ctx.check('same', not units_are_same(u1, u2), '{} and {} reported same'.format(u1, u2))
    ctx.saw('no units')
    bare = DataArray(vals.take([2]), dims=['x'], attrs={'k': 1})
    if ctx.chance(0.3):
        bare.attrs.clear()
    ctx.refuses('refused', KeyError, 'an array without units', bare.to_units, u2)


WORDS = ['m', 's', 'K', 'kg', 'Pa', '/', '*', '**', '^', '(', ')', '-1', '2', ' ', 'qq', '%',
         u'°', '-', '+', '.', ',', '=', '[', '{', '!', '1e5', 'nan', 'inf', '__', 'def', '\n',
         '\t', '0', '^-', '//', 'for', 'lambda', '"', "'", '#', '@', u'é', '\\', 'e', '^^', '1']
DEGREES = [u'°', u'°C', u'°N', u'°E', u'°F', u'K/°', u'% °N^-1', u'%/s', u'm °^-1',
           'degrees_north', 'degrees_east', 'degree', 'degC', '%', '', 'percent']
NOT_UNITS = ['blorg', 'nosuchunit', 'm blorg', 'kg/qwerty', 'K ^ blorg', 'xyzzy s^-1']


def string_case(ctx):
    text = ''.join(ctx.pick(WORDS) for _ in range(ctx.rng.randint(1, 6)))
    ctx.tag(text)
    got = ctx.accepts('garbage', 'is_valid_unit({!r})'.format(text), is_valid_unit, text)
    ctx.check('garbage', got is True or got is False, 'returned {!r}'.format(got))
    good = ctx.pick(DEGREES)
    ctx.check('valid', is_valid_unit(good) is True, good)
    bad = ctx.pick(NOT_UNITS)
    ctx.check('invalid', is_valid_unit(bad) is False, bad)
    try:
        from sympl._core.units import unit_registry
    except ImportError:
        return
    try:
        unit_registry(text)
        parses = True
    except Exception:
        parses = False
    ctx.check('garbage', got == parses, 'is_valid_unit({!r}) is {} but parsing {}'.format(
        text, got, 'succeeds' if parses else 'fails'))


def case(ctx):
    r = ctx.rng.random()
    if r < 0.65:
        table_case(ctx)
    elif r < 0.85:
        refusal_case(ctx)
    else:
        string_case(ctx)
