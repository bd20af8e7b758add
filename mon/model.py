"""Random small models: a state of labelled quantities and components that give
tendencies for them, with a reference evaluation in base units."""
from datetime import timedelta

import numpy as np
from sympl import DataArray

from mon.lib import (
    FAMILIES, UNIT, NAMES, Values, convert, dim_lengths, family, linear_units,
    make_component, quantity, rate_of, some_time, some_timestep, spread)


class Injected(RuntimeError):
    """An error raised by a component on purpose."""


class Ref(object):
    """A labelled array of the reference model, in base units."""

    def __init__(self, values, dims):
        self.values, self.dims = np.asarray(values, dtype=np.float64), tuple(dims)
        assert self.values.ndim == len(self.dims), (self.values.shape, dims)

    @classmethod
    def of(cls, da):
        f, a, b = UNIT[da.attrs['units'].strip()]
        return cls(np.asarray(da.values, dtype=np.float64) * a + b, da.dims)

    def on(self, dims, lengths):
        return spread(self.values, self.dims, list(dims), lengths)

    def lengths(self):
        return dict(zip(self.dims, self.values.shape))

    def _op(self, other, op):
        if not isinstance(other, Ref):
            return Ref(op(self.values, other), self.dims)
        dims = self.dims + tuple(d for d in other.dims if d not in self.dims)
        lengths = dict(other.lengths(), **self.lengths())
        return Ref(op(self.on(dims, lengths), other.on(dims, lengths)), dims)

    def __add__(self, other):
        return self._op(other, np.add)

    def __sub__(self, other):
        return self._op(other, np.subtract)

    def __mul__(self, other):
        return self._op(other, np.multiply)

    __rmul__ = __mul__
    __radd__ = __add__

    def matches(self, da, rtol=1e-9, scale=0.):
        """Is the labelled array the same quantity?"""
        units = str(da.attrs.get('units')).strip()
        if units not in UNIT:
            return False
        return self.matches_in(da, UNIT[units][1], UNIT[units][2], rtol, scale)

    def matches_in(self, da, factor, offset=0., rtol=1e-9, scale=0.):
        if set(da.dims) != set(self.dims) or len(da.dims) != len(self.dims):
            return False
        got = np.asarray(da.values, dtype=np.float64).transpose(
            [list(da.dims).index(d) for d in self.dims])
        if got.shape != self.values.shape:
            return False
        got = got * factor + offset
        if got.size == 0:
            return True
        if not np.array_equal(np.isnan(got), np.isnan(self.values)):
            return False
        ok = ~np.isnan(got)
        if not ok.any():
            return True
        s = max(np.max(np.abs(self.values[ok])), scale)
        return bool(np.max(np.abs(got[ok] - self.values[ok])) <= rtol * s + 1e-290)


class Process(object):
    """One component of the model: for each of its quantities q the tendency
    C0 + C1 q + C2 f (base units per second), f another quantity."""

    def __init__(self, ctx, model, index, names, wildcard=None, kind=None, init=None,
                 diagnostics=True, style=None, alias=True, static=None):
        self.ctx, self.model, self.index = ctx, model, index
        self.kind = kind or ctx.pick(['tendency', 'tendency', 'implicit'])
        self.name = 'process{}'.format(index)
        self.calls = []       # (time, timestep, raw copies)
        self.fail = False
        # a static process keeps its result and returns the same arrays always
        self.static = ctx.chance(0.15) if static is None else static
        self.kept = None
        self.corrupted = None
        self.terms = {}
        inputs, tendencies, diags = {}, {}, {}
        wildcard = ctx.chance(0.35) if wildcard is None else wildcard
        scale = 1. / model.timestep.total_seconds()
        for name in names:
            q = model.state[name]
            dims = list(q.dims)
            helpers = [n for n in model.forcings
                       if set(model.forcing_dims[n]) == set(dims)]
            f = ctx.pick(helpers) if helpers and ctx.chance(0.8) else None
            if wildcard:
                decl = ['*'] + ctx.rng.sample(dims, ctx.rng.randint(0, len(dims)))
                ctx.rng.shuffle(decl)
            else:
                decl = ctx.rng.sample(dims, len(dims))
            tdecl = list(decl)
            explicit = [d for d in decl if d != '*']
            ctx.rng.shuffle(explicit)
            tdecl = list(decl) if ctx.chance(0.5) else (
                explicit if not wildcard else decl)
            units = ctx.pick(linear_units(family(q.attrs['units'])))
            inputs[name] = {'dims': ctx.pick([list, tuple])(decl), 'units': units}
            if alias and ctx.chance(0.25):
                inputs[name]['alias'] = 'al_' + name
            if f is not None:
                if f in inputs:
                    if tuple(inputs[f]['dims']) != tuple(decl):
                        f = None
                else:
                    inputs[f] = {'dims': list(decl), 'units': ctx.pick(
                        FAMILIES[family(model.state[f].attrs['units'])])}
            tunits = rate_of(ctx, ctx.pick(linear_units(family(q.attrs['units']))))
            tendencies[name] = {'units': tunits}
            if ctx.chance(0.6) or tuple(tdecl) != tuple(decl):
                tendencies[name]['dims'] = ctx.pick([list, tuple])(tdecl)
            if alias and ctx.chance(0.2):
                tendencies[name]['alias'] = 'tal_' + name
            term = {
                'f': f, 'decl': decl, 'tdecl': tdecl,
                'C0': ctx.rng.uniform(-1, 1) * scale,
                'C1': ctx.rng.uniform(-0.3, 0.3) * scale,
                'C2': ctx.rng.uniform(-0.3, 0.3) * scale,
                'key': ctx.pick([name] + [p['alias'] for p in (
                    inputs[name], tendencies[name]) if 'alias' in p]),
            }
            if self.static:
                term['C1'] = term['C2'] = 0.
            self.terms[name] = term
            if diagnostics and not self.static and ctx.chance(0.6):
                term['diag'] = '{}_of_{}'.format(self.name, name)
                diags[term['diag']] = {
                    'units': ctx.pick(linear_units(family(q.attrs['units']))),
                    'dims': list(decl)}
        self.inputs, self.tendencies, self.diagnostics = inputs, tendencies, diags
        self.component = make_component(
            ctx, self.kind, inputs, tendencies, diags, self.compute,
            init=dict(init or {}, name=self.name), style=style)
        ctx.log('process', index, self.kind, 'inputs', inputs, 'tendencies', tendencies,
                'diagnostics', diags)

    def compute(self, raw, timestep):
        self.calls.append((raw.get('time'), timestep, {
            k: np.array(v) for k, v in raw.items() if k != 'time'}))
        if self.fail:
            raise Injected('on purpose')
        if self.kept is not None:
            for k, (array, copy) in self.kept.items():
                if not np.array_equal(array, copy):
                    self.corrupted = k
            return {k: array for k, (array, _) in self.kept.items()}, {}
        out, diag = {}, {}
        for name, term in self.terms.items():
            a_t = UNIT[self.tendencies[name]['units']][1]
            q = raw[self.inputs[name].get('alias', name)]
            a_q = UNIT[self.inputs[name]['units']][1]
            t = term['C0'] + term['C1'] * a_q * q
            if term['f'] is not None:
                fam, a_f, b_f = UNIT[self.inputs[term['f']]['units']]
                t = t + term['C2'] * (a_f * raw[
                    self.inputs[term['f']].get('alias', term['f'])] + b_f)
            t = np.asarray(t / a_t)
            if term['tdecl'] != term['decl']:
                t = t.transpose([term['decl'].index(d) for d in term['tdecl']])
            out[term['key']] = t
            if 'diag' in term:
                diag[term['diag']] = np.asarray(
                    3 * q * a_q / UNIT[self.diagnostics[term['diag']]['units']][1])
        if self.static:
            self.kept = {k: (np.array(v), np.array(v)) for k, v in out.items()}
            return {k: array for k, (array, _) in self.kept.items()}, diag
        return out, diag

    # ---- reference
    def reference(self, values):
        """values: {name: Ref} in base units; returns tendencies per second and
        diagnostics as Refs, by name."""
        lengths, wild = {}, []
        for n, prop in self.inputs.items():
            lengths.update(values[n].lengths())
            wild += [d for d in values[n].dims if d not in prop['dims'] and d not in wild]
        out, diag = {}, {}
        for name, term in self.terms.items():
            dims = []
            for d in term['decl']:
                dims.extend(wild if d == '*' else [d])
            q = Ref(values[name].on(dims, lengths), dims)
            t = q * term['C1'] + term['C0']
            if term['f'] is not None:
                t = t + values[term['f']] * term['C2']
            out[name] = t
            if 'diag' in term:
                diag[term['diag']] = q * 3.
        return out, diag


class Model(object):
    """A state and processes acting on it."""

    def __init__(self, ctx, n_quantities=None, n_processes=None, dtype=np.float64,
                 zero=0.04, kinds=None, init=None, wildcard=None, diagnostics=True,
                 style=None, alias=True, readonly=False, one_quantity=False):
        self.ctx = ctx
        self.vals = Values(ctx)
        self.timestep = some_timestep(ctx) * (-1 if ctx.chance(0.06) else 1)
        self.lengths = dim_lengths(ctx, n=ctx.rng.randint(1, 3), zero=zero)
        dims = list(self.lengths)
        names = ctx.rng.sample([n for n in NAMES if n not in ('T', 'p')], 6)
        n = n_quantities or ctx.rng.randint(1, 3)
        self.names, self.forcings = names[:n], names[n:n + 2]
        self.state = {}
        fams = ['length', 'pressure', 'temperature', 'fraction', 'speed', 'mass', 'energy']
        for name in self.names:
            qdims = ctx.rng.sample(dims, ctx.rng.randint(0, len(dims)))
            self.state[name] = quantity(
                ctx, self.vals, qdims, self.lengths,
                ctx.pick(linear_units(ctx.pick(fams))), dtype=dtype, special=0.,
                writable=not readonly)
        self.forcing_dims = {}   # as what dims components ask for them
        for name in self.forcings:
            base = ctx.pick(self.names)
            self.forcing_dims[name] = tuple(self.state[base].dims)
            qdims = [d for d in self.state[base].dims if ctx.chance(0.7)]
            ctx.rng.shuffle(qdims)
            self.state[name] = quantity(
                ctx, self.vals, qdims, self.lengths, ctx.pick(FAMILIES[ctx.pick(fams)]),
                dtype=ctx.pick([np.float64, np.float64, np.int32]), special=0.)
        self.state['time'] = some_time(ctx)
        self.processes = []
        n_proc = n_processes or ctx.rng.randint(1, 3)
        for i in range(n_proc):
            chosen = ctx.rng.sample(self.names, 1 if one_quantity else
                                    ctx.rng.randint(1, len(self.names)))
            wild = ctx.chance(0.35) if wildcard is None else wildcard
            if wild:  # one wildcard stands for the dims of one quantity
                chosen = chosen[:1]
            self.processes.append(Process(
                ctx, self, i, chosen, wildcard=wild, kind=ctx.pick(kinds) if kinds else None,
                init=init, diagnostics=diagnostics, style=style, alias=alias))
        self.stepped = [x for x in self.names
                        if any(x in p.terms for p in self.processes)]
        ctx.tag('q={}'.format(len(self.names)), 'p={}'.format(n_proc), *[
            '{}{}'.format(p.kind[0], len(p.terms)) for p in self.processes])
        for k in self.names + self.forcings:
            v = self.state[k]
            ctx.log('state', k, v.dims, v.shape, v.dtype, v.attrs['units'])
        ctx.log('timestep', self.timestep)

    def another(self, same_lengths=False):
        """Another state for the same processes: other values, units, orders of
        dims, times and, if no process has kept arrays, lengths."""
        ctx = self.ctx
        lengths = dict(self.lengths)
        if not same_lengths and not any(p.static for p in self.processes) and ctx.chance(0.7):
            pool = ctx.pick([[1, 2, 3], [2, 2], [3, 5], [1, 4]])
            lengths = {d: ctx.pick(pool) for d in lengths}
        state = {}
        for name in self.names + self.forcings:
            q = self.state[name]
            dims = ctx.rng.sample(list(q.dims), q.ndim)
            fam = family(q.attrs['units'])
            state[name] = quantity(
                ctx, self.vals, dims, lengths,
                ctx.pick(linear_units(fam) if name in self.names else FAMILIES[fam]),
                dtype=q.dtype, special=0., writable=True)
        state['time'] = some_time(ctx)
        ctx.saw('unrelated state')
        ctx.log('unrelated state', {n: (q.dims, q.shape, q.attrs['units'])
                                    for n, q in state.items() if n != 'time'})
        return state

    def components(self):
        return [p.component for p in self.processes]

    def clear(self):
        for p in self.processes:
            del p.calls[:]

    def values(self, state):
        return {n: Ref.of(state[n]) for n in self.names + self.forcings}

    def tendencies(self, values):
        """Reference: the summed tendencies and all diagnostics."""
        total, diags = {}, {}
        for p in self.processes:
            t, d = p.reference(values)
            for name in t:
                total[name] = total[name] + t[name] if name in total else t[name]
            diags.update(d)
        return total, diags

    def scale(self, values):
        """How large the numbers that were added up may have been."""
        return {n: float(np.max(np.abs(v.values))) if v.values.size else 0.
                for n, v in values.items()}

    def extra_quantities(self, state):
        """Quantities nobody steps, of many kinds."""
        ctx = self.ctx
        pool = {
            'a_string': 'text', 'a_number': 7, 'a_none': None,
            'an_array': np.arange(3), 'a_list': [1, 'a'],
            'bools': DataArray(np.array([True, False]), dims=['b'], attrs={'units': ''}),
            'ints': DataArray(np.arange(4), dims=['i'], attrs={'units': 'm', 'k': 1}),
            'f4': DataArray(np.arange(3, dtype=np.float32), dims=['i3'],
                            attrs={'units': 'K'}, coords={'i3': [3, 4, 5]}),
            'unitless': DataArray(np.arange(2.), dims=['u']),
            'nan': DataArray(np.array([np.nan, 1., np.inf]), dims=['n'],
                             attrs={'units': 'Pa'}),
            'strings': DataArray(np.array(['a', 'b']), dims=['s'], attrs={'units': ''}),
            'scalar': DataArray(3.5, attrs={'units': 'degC'}),
        }
        for k in ctx.rng.sample(sorted(pool), ctx.rng.randint(0, 5)):
            state[k] = pool[k]
