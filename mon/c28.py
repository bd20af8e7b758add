"""C28: get_numpy_array and restore_dimensions."""
import itertools

import numpy as np
import xarray as xr
from sympl import DataArray, get_numpy_array, restore_dimensions

NAMES = ['x', 'y', 'z', 'lat', 'mid_levels', 'column', 'x_edge', 'time']
DTYPES = [np.float64, np.float64, np.float32, np.int64, np.int16, np.bool_, np.complex128, 'U3',
          'M8[ns]', object]

CASES = {'quick': 30000, 'thorough': 180000}
REQUIRED = ('monitor:values', 'monitor:shape', 'monitor:dtype', 'monitor:matches',
            'monitor:restored dims', 'monitor:restored values', 'monitor:restored coordinates',
            'monitor:restored attributes', 'monitor:inputs unchanged', 'monitor:refused',
            'monitor:foreign values', 'no dims', 'zero length', 'placeholder', 'wildcard of none',
            'wildcard of several', 'wildcard in the middle', 'non-contiguous', 'coordinates',
            'refused absent', 'refused dropped', 'refused shape', 'sum over labels',
            'required order', 'read-only', 'repeated')
RULE = ('arrays with 0 to 5 dims of lengths 0 to 5 (equal lengths weighted), distinct values of any '
        'dtype, any memory layout, with or without coordinates; every requested order of the dims '
        'with any consecutive part replaced by "*" in any place, placeholders for absent x, y, z; '
        'each element is compared with the element at its labels in the original, then restored '
        '(the result and other values in its place). Requests naming absent dims, dropping dims, '
        'repeating dims, and arrays of other sizes must be refused. Distinct by dims, lengths and '
        'request.')
ASSUMPTIONS = ['quantities have each dimension once']


def make_values(ctx, shape, dtype):
    n = int(np.prod(shape)) if shape else 1
    start = ctx.rng.randint(0, 50)
    if dtype == 'U3':
        flat = np.array(['{:03d}'.format(i + start) for i in range(n)], dtype='U3')
    elif dtype == 'M8[ns]':
        flat = (np.arange(n) + start).astype('M8[D]').astype('M8[ns]')
    elif dtype is object:
        flat = np.empty(n, dtype=object)
        flat[:] = ['o{}'.format(i) for i in range(n)]
    elif dtype is np.bool_:
        flat = np.array([ctx.chance(0.5) for _ in range(n)], dtype=bool)
    else:
        flat = (np.arange(n) + start).astype(dtype)
        if dtype in (np.float64, np.float32) and n and ctx.chance(0.2):
            flat[ctx.rng.randrange(n)] = ctx.pick([np.nan, np.inf, -0.0])
    order = ctx.pick(['C', 'C', 'F', 'strided', 'reversed', 'transposed'])
    out = flat.reshape(shape)
    if order == 'F' and shape:
        out = np.asfortranarray(out)
    elif order == 'strided' and shape:
        wide = np.zeros(tuple(2 * s for s in shape), dtype=out.dtype)
        view = wide[tuple(slice(None, None, 2) for _ in shape)]
        view[...] = out
        out = view
        ctx.saw('non-contiguous')
    elif order == 'reversed' and shape:
        out = out[::-1].copy()[::-1]
        ctx.saw('non-contiguous')
    elif order == 'transposed' and len(shape) > 1:
        out = np.ascontiguousarray(out.T).T
        ctx.saw('non-contiguous')
    return out


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind in 'fc':
        return np.array_equal(a, b, equal_nan=True) and np.array_equal(
            np.signbit(a.real), np.signbit(b.real))
    return np.array_equal(a, b)


def some_array(ctx):
    dims = ctx.rng.sample(NAMES, ctx.pick([0, 1, 2, 2, 3, 3, 4, 5]))
    common = ctx.rng.randint(2, 3)
    lengths = {d: ctx.pick([common, common, 1, 2, 3, 4, 5] + [0] * ctx.chance(0.15))
               for d in dims}
    shape = tuple(lengths[d] for d in dims)
    dtype = ctx.pick(DTYPES if dims else DTYPES[:7])
    values = make_values(ctx, shape, dtype)
    coords = {}
    for d in dims:
        if ctx.chance(0.35):
            ctx.saw('coordinates')
            vals = ctx.pick([
                lambda: np.linspace(-5., 5., lengths[d]), lambda: np.arange(lengths[d]) * 10,
                lambda: np.arange(lengths[d])[::-1].copy(),
                lambda: np.array(['c{}'.format(i) for i in range(lengths[d])], dtype='U4')])()
            coords[d] = xr.DataArray(vals, dims=[d], attrs=ctx.pick(
                [{}, {'units': 'degrees_north'}]))
    attrs = ctx.pick([{}, {'units': 'm'}, {'units': 'K', 'long_name': 'temperature'}])
    if ctx.chance(0.15):
        values.flags.writeable = False
        ctx.saw('read-only')
    cls = DataArray if ctx.chance(0.9) else xr.DataArray
    return cls(values, dims=dims, coords=coords, attrs=dict(attrs)), dims, lengths, values


def some_request(ctx, dims):
    """A request that keeps all dims: (request, the dims each entry takes)."""
    order = list(dims)
    ctx.rng.shuffle(order)
    absent = [d for d in 'xyz' if d not in dims]
    request = [(d, [d]) for d in order]
    if ctx.chance(0.5):
        n = ctx.rng.randint(0, len(order))
        taken = [d for d in dims if d in order[:n]]
        request = [(d, [d]) for d in order[n:]]
        at = ctx.rng.randint(0, len(request))
        request.insert(at, ('*', taken))
        if n == 0:
            ctx.saw('wildcard of none')
        if n > 1:
            ctx.saw('wildcard of several')
        if 0 < at < len(request) - 1:
            ctx.saw('wildcard in the middle')
    for d in absent:
        if ctx.chance(0.3):
            ctx.saw('placeholder')
            request.insert(ctx.rng.randint(0, len(request)), (d, []))
    return request


def element(da_dims, values, request, lengths, index):
    """The element of values at the labels of an index into the result."""
    at = {}
    for (_, names), i in zip(request, index):
        for d in reversed(names):
            at[d] = i % lengths[d]
            i //= lengths[d]
        if i:
            return None
    return values[tuple(at[d] for d in da_dims)]


def case(ctx):
    da, dims, lengths, values = some_array(ctx)
    original, before_coords = values.copy(), {
        d: np.array(da.coords[d].values) for d in dims if d in da.coords}
    attrs = dict(da.attrs)
    if not dims:
        ctx.saw('no dims')
    if 0 in lengths.values():
        ctx.saw('zero length')
    request = some_request(ctx, dims)
    names = [r[0] for r in request]
    ctx.log('dims', dims, 'lengths', lengths, 'dtype', str(values.dtype), 'request', names)
    ctx.tag(tuple(dims), tuple(sorted(lengths.items())), tuple(names), str(values.dtype))
    asked = ctx.pick([list, tuple])(names)

    if ctx.chance(0.25):
        refusals(ctx, da, dims, lengths, values, names)
        return
    required = None
    if '*' in names and ctx.chance(0.3):
        # the flattened dims in the order they were matched in another quantity
        taken = dict(request)['*']
        order = list(taken)
        ctx.rng.shuffle(order)
        if order != taken:
            ctx.saw('required order')
        required = {'*': order}
        request = [(d, order if d == '*' else n) for d, n in request]
    extra = {} if required is None else {'require_wildcard_matches': required}
    if '*' in names and ctx.chance(0.5):
        got, matches = ctx.accepts('accepted', 'extraction', get_numpy_array, da, asked,
                                   return_wildcard_matches=True, **extra)
        if not (len(dims) == 0 and len(names) == 0):
            ctx.check('matches', list(matches) == ['*'] and list(matches['*']) == dict(
                request)['*'], 'matches are {}, not {}'.format(matches, dict(request)['*']))
    else:
        got = ctx.accepts('accepted', 'extraction', get_numpy_array, da, asked, **extra)
    expected_shape = tuple(int(np.prod([lengths[d] for d in n])) if n else 1
                           for _, n in request)
    ctx.check('shape', isinstance(got, np.ndarray) and got.shape == expected_shape,
              'shape is {}, not {}'.format(np.shape(got), expected_shape))
    ctx.check('dtype', got.dtype == values.dtype, 'dtype is {}'.format(got.dtype))
    expected = np.empty(expected_shape, dtype=values.dtype)
    for index in itertools.product(*[range(n) for n in expected_shape]):
        expected[index] = element(dims, original, request, lengths, index)
    ctx.check('values', same(got, expected), 'values for {} are {}, not {}'.format(
        names, got, expected))
    if ctx.chance(0.3):
        ctx.saw('repeated')
        more = get_numpy_array(da, asked, **extra)
        ctx.check('values', same(more, expected), 'second extraction differs')

    def unchanged():
        ok = (same(da.values, original) and list(da.dims) == dims and dict(da.attrs) == attrs and
              {d for d in dims if d in da.coords} == set(before_coords) and
              all(same(da.coords[d].values, v) for d, v in before_coords.items()) and
              list(asked) == names)
        ctx.check('inputs unchanged', ok, 'the array or the request was altered')
    unchanged()
    if required is not None and required['*'] != [d for d in dims if d in required['*']]:
        return
    # restoring: the same values, then other values of another dtype
    for other in (False, True):
        if other:
            raw = make_values(ctx, expected_shape, ctx.pick(DTYPES[:-1])) if (
                expected_shape) else np.array(ctx.rng.random())
            raw_before = raw.copy()
        else:
            raw, raw_before = got, expected
        given = ctx.pick([None, {}, {'units': 'W'}, {'units': 'Pa', 'long_name': 'p'}])
        given_before = None if given is None else dict(given)
        back = ctx.accepts('accepted', 'restoring', restore_dimensions, raw,
                           ctx.pick([list, tuple])(names), da,
                           *([] if given is None and ctx.chance(0.5) else [given]))
        ctx.check('restored dims', isinstance(back, DataArray) and list(back.dims) == dims and
                  back.shape == da.shape, 'restored {} of shape {}, not {} of shape {}'.format(
                      back.dims, back.shape, dims, da.shape))
        ctx.check('restored attributes', dict(back.attrs) == (given_before or {}) and (
            given == given_before), 'restored attributes are {}, not {}'.format(
                back.attrs, given_before))
        want = original
        if other:
            want = np.empty(da.shape, dtype=raw.dtype)
            for index in itertools.product(*[range(n) for n in expected_shape]):
                at = {}
                for (_, ns), i in zip(request, index):
                    for d in reversed(ns):
                        at[d] = i % lengths[d]
                        i //= lengths[d]
                want[tuple(at[d] for d in dims)] = raw_before[index]
        ctx.check('foreign values' if other else 'restored values', same(back.values, want),
                  'restored values are {}, not {}'.format(back.values, want))
        coords = {str(c) for c in back.coords}
        ctx.check('restored coordinates', coords == set(before_coords) and all(
            same(back.coords[d].values, v) for d, v in before_coords.items()),
            'restored coordinates are {}, not those of {}'.format(
                dict(back.coords), sorted(before_coords)))
        ctx.check('inputs unchanged', same(raw, raw_before), 'the numpy array was altered')
        unchanged()
        if other and raw.dtype.kind == 'f' and values.dtype.kind == 'f' and 0 not in da.shape:
            ctx.saw('sum over labels')
            total = back + da
            ctx.check('restored coordinates', total.sizes == da.sizes,
                      'restored and original array do not align')


def refusals(ctx, da, dims, lengths, values, names):
    what = ctx.pick(['absent', 'dropped', 'shape', 'twice'])
    ctx.log('refusal', what)
    if what == 'absent':
        ctx.saw('refused absent')
        name = ctx.pick([n for n in NAMES + ['X', 'lat_', ''] if n not in dims and
                         n not in ('x', 'y', 'z')])
        wrong = list(names)
        wrong.insert(ctx.rng.randint(0, len(wrong)), name)
        ctx.refuses('refused', ValueError, 'extraction of absent {!r}'.format(name),
                    get_numpy_array, da, wrong)
    elif what == 'dropped' and dims:
        ctx.saw('refused dropped')
        keep = [d for d in names if d != '*' and d in dims]
        if len(keep) == len(dims):
            keep.remove(ctx.pick(keep))
        if ctx.chance(0.3):
            keep += [d for d in 'xyz' if d not in dims]
        ctx.refuses('refused', ValueError, 'extraction of {} only'.format(keep),
                    get_numpy_array, da, keep)
    elif what == 'twice' and dims:
        ctx.saw('refused twice')
        d = ctx.pick(dims)
        wrong = [n for n in names if n != '*'] + [d] + (['*'] if '*' in names else [])
        if wrong.count(d) < 2:
            wrong.append(d)
        ctx.refuses('refused', ValueError, 'extraction of {}'.format(wrong),
                    get_numpy_array, da, wrong)
    elif what == 'shape':
        got = get_numpy_array(da, names)
        size = got.size
        other = ctx.pick([s for s in (size + 1, size * 2, size - 1, 0, 1) if s != size and s >= 0])
        ctx.saw('refused shape')
        ctx.refuses('refused', Exception, 'restoring {} values to {}'.format(other, da.shape),
                    restore_dimensions, np.zeros(other), names, da)
