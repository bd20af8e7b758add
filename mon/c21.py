"""C21: the constants library."""
import re

import numpy as np
from sympl import (
    get_constant, get_constants_string, reset_constants, set_condensible_name, set_constant)
from mon.lib import DISJOINT, FAMILIES, UNIT, close, convert, family

CASES = {'quick': 3000, 'thorough': 18000}
REQUIRED = ('monitor:value', 'monitor:unknown', 'monitor:inconvertible', 'monitor:invalid units',
            'monitor:listing', 'monitor:defaults', 'set by alias', 'read by alias',
            'condensible', 'reset', 'new name', 'undefined phase', 'converted', 'set default')
RULE = ('random histories of setting, reading, choosing the condensible, listing, resetting '
        'and refused operations over the documented names, their other names and new names; '
        'every read and listing is compared with a dictionary model. Distinct by the '
        'sequence of operations.')
ASSUMPTIONS = ['values are finite numbers']
HC, LH, TC, DE = 'J kg^-1 K^-1', 'J kg^-1', 'W m^-1 K^-1', 'kg m^-3'
DEFAULTS = {
    'stefan_boltzmann_constant': (5.670367e-8, 'W m^-2 K^-4'),
    'gravitational_acceleration': (9.80665, 'm s^-2'),
    'heat_capacity_of_dry_air_at_constant_pressure': (1004.64, HC),
    'heat_capacity_of_water_vapor_at_constant_pressure': (1846.0, HC),
    'specific_enthalpy_of_water_vapor': (2500.0, LH),
    'heat_capacity_of_liquid_water': (4185.5, HC),
    'freezing_temperature_of_liquid_water': (273.0, 'K'),
    'thermal_conductivity_of_liquid_water': (0.57, TC),
    'heat_capacity_of_solid_water_as_ice': (2108., HC),
    'thermal_conductivity_of_solid_water_as_ice': (2.22, TC),
    'heat_capacity_of_solid_water_as_snow': (2108., HC),
    'thermal_conductivity_of_solid_water_as_snow': (0.2, TC),
    'reference_air_pressure': (1.0132e5, 'Pa'),
    'reference_air_temperature': (300., 'degK'),
    'thermal_conductivity_of_dry_air': (0.026, TC),
    'gas_constant_of_dry_air': (287., HC),
    'gas_constant_of_water_vapor': (461.5, HC),
    'planetary_rotation_rate': (7.292e-5, 's^-1'),
    'planetary_radius': (6.371e6, 'm'),
    'latent_heat_of_vaporization_of_water': (2.5e6, LH),
    'latent_heat_of_fusion_of_water': (333550.0, LH),
    'density_of_liquid_water': (1e3, DE),
    'density_of_solid_water_as_ice': (916.7, DE),
    'density_of_solid_water_as_snow': (100.0, DE),
    'solar_constant': (1367., 'W m^-2'),
    'planck_constant': (6.62607004e-34, 'J s'),
    'speed_of_light': (299792458., 'm s^-1'),
    'seconds_per_day': (86400., 'dimensionless'),
    'avogadro_constant': (6.022140857e23, 'mole^-1'),
    'boltzmann_constant': (1.38064852e-23, 'J K^-1'),
    'loschmidt_constant': (2.6516467e25, 'm^-3'),
    'universal_gas_constant': (8.3144598, 'J mole^-1 K^-1'),
}
# the same units written otherwise: (text, factor, offset): value * factor + offset
OTHER = {
    'W m^-2 K^-4': [('kW m^-2 K^-4', 1e-3), ('kg s^-3 K^-4', 1.)],
    'm s^-2': [('km s^-2', 1e-3), ('m/s^2', 1.), ('cm s^-2', 100.)],
    HC: [('kJ kg^-1 K^-1', 1e-3), ('m^2 s^-2 K^-1', 1.), ('J g^-1 K^-1', 1e-3)],
    LH: [('kJ kg^-1', 1e-3), ('m^2 s^-2', 1.), ('J/g', 1e-3)],
    'K': [('mK', 1e3), ('degK', 1.)], 'degK': [('K', 1.), ('mK', 1e3)],
    TC: [('kW m^-1 K^-1', 1e-3), ('W cm^-1 K^-1', 1e-2)],
    'Pa': [('hPa', 1e-2), ('mbar', 1e-2), ('kg m^-1 s^-2', 1.)],
    's^-1': [('day^-1', 86400.), ('hr^-1', 3600.)],
    'm': [('km', 1e-3), ('cm', 100.)],
    DE: [('g m^-3', 1e3), ('g cm^-3', 1e-3)],
    'W m^-2': [('kW m^-2', 1e-3), ('J s^-1 m^-2', 1.)],
    'J s': [('kJ s', 1e-3), ('W s^2', 1.)],
    'm s^-1': [('km s^-1', 1e-3), ('km/hr', 3.6)],
    'dimensionless': [('', 1.), ('kg/kg', 1.), ('percent', 100.)],
    'mole^-1': [], 'J K^-1': [('kJ K^-1', 1e-3)], 'm^-3': [('cm^-3', 1e-6)],
    'J mole^-1 K^-1': [('kJ mole^-1 K^-1', 1e-3)],
}
ALIASES = {
    'latent_heat_of_condensation': 'latent_heat_of_vaporization',
    'enthalpy_of_fusion': 'latent_heat_of_fusion',
    'stellar_irradiance': 'solar_constant',
    'heat_capacity_of_ice': 'heat_capacity_of_solid_phase_as_ice',
    'heat_capacity_of_snow': 'heat_capacity_of_solid_phase_as_snow',
    'thermal_conductivity_of_ice': 'thermal_conductivity_of_solid_phase_as_ice',
    'thermal_conductivity_of_snow': 'thermal_conductivity_of_solid_phase_as_snow',
    'density_of_ice': 'density_of_solid_phase_as_ice',
    'density_of_snow': 'density_of_solid_phase_as_snow',
}
PHASE = {
    'gas_constant_of_vapor_phase': 'gas_constant_of_{}_vapor',
    'heat_capacity_of_vapor_phase': 'heat_capacity_of_{}_vapor_at_constant_pressure',
    'specific_enthalpy_of_vapor_phase': 'specific_enthalpy_of_{}_vapor',
    'density_of_liquid_phase': 'density_of_liquid_{}',
    'heat_capacity_of_liquid_phase': 'heat_capacity_of_liquid_{}',
    'latent_heat_of_vaporization': 'latent_heat_of_vaporization_of_{}',
    'freezing_temperature_of_liquid_phase': 'freezing_temperature_of_liquid_{}',
    'thermal_conductivity_of_liquid_phase': 'thermal_conductivity_of_liquid_{}',
    'latent_heat_of_fusion': 'latent_heat_of_fusion_of_{}',
    'density_of_solid_phase_as_ice': 'density_of_solid_{}_as_ice',
    'density_of_solid_phase_as_snow': 'density_of_solid_{}_as_snow',
    'heat_capacity_of_solid_phase_as_ice': 'heat_capacity_of_solid_{}_as_ice',
    'heat_capacity_of_solid_phase_as_snow': 'heat_capacity_of_solid_{}_as_snow',
    'thermal_conductivity_of_solid_phase_as_ice': 'thermal_conductivity_of_solid_{}_as_ice',
    'thermal_conductivity_of_solid_phase_as_snow': 'thermal_conductivity_of_solid_{}_as_snow',
}
CONDENSIBLES = ['water', 'methane', 'carbon_dioxide', 'ammonia']
NEW = ['my_constant', 'processor_count', 'another_constant', 'a', 'x y', 'density_of_liquid']
NEVER = ['nothing', 'density', 'density_of_liquid_phas', '', 'heat_capacity_of_nothing']
BAD_UNITS = ['blorg', 'm blorg', 'kg^^', 'K ^ blorg', 'notaunit/s', '((', 'm**']


class Model(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.values = dict(DEFAULTS)
        self.condensible = 'water'

    def canonical(self, name):
        name = ALIASES.get(name, name)
        if name in PHASE:
            name = PHASE[name].format(self.condensible)
        return name

    def defined(self):
        """All names that can be read."""
        out = set(self.values)
        out |= {n for n in list(ALIASES) + list(PHASE) if self.canonical(n) in self.values}
        return out

    def wanted(self, name, units):
        value, have = self.values[self.canonical(name)]
        if units == have:
            return value
        for text, factor in OTHER.get(have, ()):
            if text == units:
                return value * factor
        return float(convert(value, have, units))


def other_units(ctx, have):
    pool = [have] + [o[0] for o in OTHER.get(have, ())]
    if have not in OTHER:
        pool += FAMILIES.get(family(have), [])
    return ctx.pick(pool)


def unlike(ctx, have):
    """Units that cannot be converted from these."""
    fam = None
    if have in UNIT:
        fam = family(have)
    elif have in OTHER:
        fam = None
    if fam == 'angle':
        fam = 'fraction'
    if fam == 'speed/time' or fam is None:
        return ctx.pick(['K m', 'kg K', 'mole m'])
    return ctx.pick([u for f in DISJOINT if f != fam for u in FAMILIES[f]])


def read(ctx, m, name):
    value, have = m.values[m.canonical(name)]
    units = other_units(ctx, have)
    if units != have:
        ctx.saw('converted')
    if m.canonical(name) != name:
        ctx.saw('read by alias')
    got = ctx.accepts('value', 'reading {} in {}'.format(name, units),
                      get_constant, name, units)
    want = m.wanted(name, units)
    scale = 1e3 if UNIT.get(have, (0, 0, 0))[2] or UNIT.get(units, (0, 0, 0))[2] else None
    ctx.check('value', np.ndim(got) == 0 and isinstance(got, (int, float)) and
              close(got, want, 1e-9, scale),
              '{} is {} {} instead of {}'.format(name, got, units, want))


def listing(ctx, m):
    text = ctx.accepts('listing', 'listing the constants', get_constants_string)
    ctx.check('listing', isinstance(text, str), 'not a string')
    lines = {}
    for line in text.splitlines():
        found = re.match(r'^\s+(.+?): (\S+)(.*)$', line)
        if found:
            ctx.check('listing', found.group(1) not in lines, '{} listed twice'.format(
                found.group(1)))
            lines[found.group(1)] = (found.group(2), found.group(3).strip())
    defined = m.defined()
    ctx.check('listing', set(lines) == defined, 'listed {} more, {} missing'.format(
        sorted(set(lines) - defined), sorted(defined - set(lines))))
    for name, (value, units) in lines.items():
        want, have = m.values[m.canonical(name)]
        ctx.check('listing', float(value) == float(want),
                  '{} listed as {} instead of {}'.format(name, value, want))
        ctx.check('listing', units.replace('dimensionless', '') == have.replace(
            'dimensionless', ''), '{} listed in {!r} instead of {!r}'.format(
                name, units, have))


def verify_all(ctx, m, monitor='value'):
    for name in sorted(m.defined()):
        value, have = m.values[m.canonical(name)]
        got = get_constant(name, have)
        ctx.check(monitor, got == value, '{} is {} instead of {}'.format(name, got, value))


def case(ctx):
    m = Model()
    reset_constants()
    ops = []
    known = list(DEFAULTS) + list(ALIASES) + list(PHASE)
    for i in range(ctx.rng.randint(4, 16)):
        r = ctx.rng.random()
        if r < 0.3:
            name = ctx.pick(ctx.pick([known, list(PHASE), list(ALIASES), NEW, [
                p.format(c) for p in PHASE.values() for c in CONDENSIBLES]]))
            c = m.canonical(name)
            if name != c:
                ctx.saw('set by alias')
            if name in NEW:
                ctx.saw('new name')
            if c in DEFAULTS:
                ctx.saw('set default')
            fam = ctx.pick(list(FAMILIES))
            units = ctx.pick(ctx.pick([FAMILIES[fam], list(OTHER)]))
            value = ctx.pick([ctx.rng.uniform(-100, 100), ctx.rng.randint(1, 9), 0.,
                              1e-30, np.float64(3.25), 4.5e20])
            set_constant(name, value, units)
            m.values[c] = (float(value) if not isinstance(value, int) else value, units)
            ops.append('set')
            ctx.log('set', name, value, units)
        elif r < 0.55:
            name = ctx.pick(sorted(m.defined()))
            if i and m.values != DEFAULTS and ctx.chance(0.6):
                changed = [n for n in sorted(m.defined()) if
                           m.values[m.canonical(n)] != DEFAULTS.get(m.canonical(n))]
                name = ctx.pick(changed or [name])
            read(ctx, m, name)
            ops.append('get')
        elif r < 0.68:
            m.condensible = ctx.pick(CONDENSIBLES)
            set_condensible_name(m.condensible)
            ctx.saw('condensible')
            ops.append('condensible')
            ctx.log('condensible', m.condensible)
        elif r < 0.74:
            name = ctx.pick(NEVER + [n for n in list(PHASE) + list(ALIASES) + NEW
                                     if n not in m.defined()])
            if name in PHASE:
                ctx.saw('undefined phase')
            ctx.refuses('unknown', KeyError, 'reading {}'.format(name),
                        get_constant, name, 'm')
            ops.append('unknown')
        elif r < 0.8:
            name = ctx.pick(sorted(m.defined()))
            units = unlike(ctx, m.values[m.canonical(name)][1])
            ctx.refuses('inconvertible', ValueError, 'reading {} in {}'.format(name, units),
                        get_constant, name, units)
            ops.append('inconvertible')
        elif r < 0.87:
            name = ctx.pick(known + NEW)
            ctx.refuses('invalid units', ValueError, 'setting {}'.format(name),
                        set_constant, name, 1., ctx.pick(BAD_UNITS))
            ops.append('invalid')
        elif r < 0.94:
            listing(ctx, m)
            ops.append('list')
        else:
            reset_constants()
            m.reset()
            ctx.saw('reset')
            ops.append('reset')
            ctx.log('reset')
            verify_all(ctx, m, 'defaults')
        for name in ctx.rng.sample(sorted(m.defined()), 3):
            read(ctx, m, name)
        if ctx.chance(0.1):
            for name in NEVER:
                ctx.refuses('unknown', KeyError, 'reading ' + name, get_constant, name, 'm')
    verify_all(ctx, m)
    listing(ctx, m)
    reset_constants()
    m.reset()
    verify_all(ctx, m, 'defaults')
    ctx.tag('>'.join(ops))
