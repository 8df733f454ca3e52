"""C17 constants."""
from .common import *
from . import numtypes

# name given by the user -> stored constant ({c}: the current condensible)
RESOLVE = {
    'gravitational_acceleration': 'gravitational_acceleration', 'planetary_radius': 'planetary_radius',
    'my_constant': 'my_constant', 'solar_constant': 'solar_constant', 'stellar_irradiance': 'solar_constant',
    'latent_heat_of_condensation': 'latent_heat_of_vaporization_of_{c}',
    'latent_heat_of_vaporization': 'latent_heat_of_vaporization_of_{c}',
    'latent_heat_of_vaporization_of_water': 'latent_heat_of_vaporization_of_water',
    'latent_heat_of_fusion': 'latent_heat_of_fusion_of_{c}', 'enthalpy_of_fusion': 'latent_heat_of_fusion_of_{c}',
    'density_of_liquid_phase': 'density_of_liquid_{c}', 'density_of_liquid_water': 'density_of_liquid_water',
    'density_of_liquid_ammonia': 'density_of_liquid_ammonia',
    'density_of_ice': 'density_of_solid_{c}_as_ice', 'density_of_snow': 'density_of_solid_{c}_as_snow',
    'density_of_solid_phase_as_ice': 'density_of_solid_{c}_as_ice',
    'density_of_solid_phase_as_snow': 'density_of_solid_{c}_as_snow',
    'heat_capacity_of_ice': 'heat_capacity_of_solid_{c}_as_ice', 'heat_capacity_of_snow': 'heat_capacity_of_solid_{c}_as_snow',
    'heat_capacity_of_solid_phase_as_ice': 'heat_capacity_of_solid_{c}_as_ice',
    'heat_capacity_of_solid_phase_as_snow': 'heat_capacity_of_solid_{c}_as_snow',
    'thermal_conductivity_of_ice': 'thermal_conductivity_of_solid_{c}_as_ice',
    'thermal_conductivity_of_snow': 'thermal_conductivity_of_solid_{c}_as_snow',
    'thermal_conductivity_of_solid_phase_as_ice': 'thermal_conductivity_of_solid_{c}_as_ice',
    'thermal_conductivity_of_solid_phase_as_snow': 'thermal_conductivity_of_solid_{c}_as_snow',
    'thermal_conductivity_of_liquid_phase': 'thermal_conductivity_of_liquid_{c}',
    'freezing_temperature_of_liquid_phase': 'freezing_temperature_of_liquid_{c}',
    'heat_capacity_of_liquid_phase': 'heat_capacity_of_liquid_{c}',
    'heat_capacity_of_vapor_phase': 'heat_capacity_of_{c}_vapor_at_constant_pressure',
    'specific_enthalpy_of_vapor_phase': 'specific_enthalpy_of_{c}_vapor',
    'gas_constant_of_vapor_phase': 'gas_constant_of_{c}_vapor',
}
# physical value in the given units, and how far a default may be from it
DEFAULTS = {
    'stefan_boltzmann_constant': (5.67037e-8, 'W m^-2 K^-4', 1e-3),
    'gravitational_acceleration': (9.80665, 'm s^-2', 1e-2),
    'heat_capacity_of_dry_air_at_constant_pressure': (1004.6, 'J kg^-1 K^-1', 1e-2),
    'heat_capacity_of_water_vapor_at_constant_pressure': (1846., 'J kg^-1 K^-1', 5e-2),
    'heat_capacity_of_liquid_water': (4185.5, 'J kg^-1 K^-1', 1e-2),
    'freezing_temperature_of_liquid_water': (273.15, 'K', 2e-3),
    'thermal_conductivity_of_liquid_water': (0.57, 'W m^-1 K^-1', 0.1),
    'heat_capacity_of_solid_water_as_ice': (2108., 'J kg^-1 K^-1', 5e-2),
    'thermal_conductivity_of_solid_water_as_ice': (2.22, 'W m^-1 K^-1', 5e-2),
    'reference_air_pressure': (1.0132e5, 'Pa', 2e-2),
    'thermal_conductivity_of_dry_air': (0.026, 'W m^-1 K^-1', 0.1),
    'gas_constant_of_dry_air': (287., 'J kg^-1 K^-1', 1e-2),
    'gas_constant_of_water_vapor': (461.5, 'J kg^-1 K^-1', 1e-2),
    'planetary_rotation_rate': (7.292e-5, 's^-1', 1e-2), 'planetary_radius': (6.371e6, 'm', 1e-2),
    'latent_heat_of_vaporization_of_water': (2.5e6, 'J kg^-1', 2e-2),
    'latent_heat_of_fusion_of_water': (333550., 'J kg^-1', 1e-2),
    'density_of_liquid_water': (1000., 'kg m^-3', 1e-2), 'density_of_solid_water_as_ice': (916.7, 'kg m^-3', 1e-2),
    'solar_constant': (1365., 'W m^-2', 1e-2), 'planck_constant': (6.62607e-34, 'J s', 1e-3),
    'speed_of_light': (299792458., 'm s^-1', 1e-6), 'seconds_per_day': (86400., 'dimensionless', 1e-2),
    'avogadro_constant': (6.02214e23, 'mole^-1', 1e-3), 'boltzmann_constant': (1.38065e-23, 'J K^-1', 1e-3),
    'loschmidt_constant': (2.68678e25, 'm^-3', 2e-2), 'universal_gas_constant': (8.31446, 'J mole^-1 K^-1', 1e-3),
}
# (units set, units asked, factor, offset)
UNITS = [('m', 'm', F(1), F(0)), ('km', 'm', F(1000), F(0)), ('K', 'degC', F(1), F(-27315, 100)),
         ('degC', 'K', F(1), F(27315, 100)), ('%', '', F(1, 100), F(0)), ('J kg^-1', 'kJ kg^-1', F(1, 1000), F(0))]
_START = {}


def parse():
    """names and values shown to the user"""
    out = {}
    for line in sympl.get_constants_string().split('\n'):
        if line.startswith('\t') and ': ' in line:
            n, rest = line.strip().split(': ', 1)
            v, _, u = rest.partition(' ')
            out[n] = (v, u.strip())
    return out


def resolve(n, c):
    return RESOLVE[n].format(c=c)


def history(ctx, B):
    if not _START:
        _START.update(parse())
    cond = 'water'
    model = {}                    # stored name -> (value, unit index) for constants set since the last reset
    names = B['names']

    def verify(tag):
        for n in names:
            s = resolve(n, cond)
            if s in model:
                v, (u, asked, f, o) = model[s]
                g = sympl.get_constant(n, asked)
                want = v * (f if ctx.symbolic else float(f)) + (o if ctx.symbolic else float(o))
                ctx.close(g, want, '%s: %s in %s, set in %s' % (tag, n, asked, u), tol=1e-6)
                if u != asked and o == 0:
                    ctx.close(sympl.get_constant(n, u), v, '%s: %s in %s' % (tag, n, u), tol=1e-6)
                bad = 's' if u != 's' else 'm'
                ctx.expect_exc(lambda: sympl.get_constant(n, bad), Exception, 'inconvertible units')
            elif s in _START:
                v, u = _START[s]
                g = sympl.get_constant(n, u or 'dimensionless')
                ctx.close(g, F(v) if ctx.symbolic else float(v), '%s: default of %s' % (tag, n), tol=1e-9)
            else:
                ctx.expect_exc(lambda: sympl.get_constant(n, 'm'), KeyError, '%s: %s is undefined' % (tag, n))
    verify('start')
    for k in range(B['ops']):
        op = ctx.choice('op%d' % k, B['optypes'])
        if op == 0:
            n = ctx.choose('name%d' % k, names)
            un = ctx.choose('units%d' % k, B['units'])
            v = ctx.real('v%d' % k)
            sympl.set_constant(n, v, un[0])
            model[resolve(n, cond)] = (v, un)
        elif op == 1:
            cond = ctx.choose('condensible%d' % k, ['ammonia', 'water'])
            sympl.set_condensible_name(cond)
        elif op == 2:
            sympl.reset_constants()
            cond, model = 'water', {}
        else:
            n = ctx.choose('bad%d' % k, names)
            ctx.expect_exc(lambda: sympl.set_constant(n, ctx.real('w%d' % k), 'notaunit'), ValueError, 'invalid units')
        verify('after op %d' % k)
    sympl.get_constants_string()
    sympl.reset_constants()
    ctx.check(parse() == _START, 'reset restores every constant')
    ctx.reach('done')


def defaults(ctx, B):
    if not _START:
        _START.update(parse())
    g = ctx.choice('group', 4)
    for i, (n, (v, u, tol)) in enumerate(sorted(DEFAULTS.items())):
        if i % 4 != g:
            continue
        x = sympl.get_constant(n, u)
        ctx.check(abs(x - v) <= tol * abs(v), '%s is %r %s, expected about %r' % (n, x, u, v))
        ctx.check(n in _START, '%s is listed' % n)
    if g == 0:
        for a in RESOLVE:
            s = resolve(a, 'water')
            if s in _START and a in _START and a != s:
                ctx.check(_START[a] == _START[s], 'alias %s of %s' % (a, s))
            elif s in _START and a != s:
                v, u = _START[s]
                ctx.check(sympl.get_constant(a, u or 'dimensionless') == float(v), 'alias %s of %s' % (a, s))
    ctx.reach('done')


N1 = ['gravitational_acceleration', 'my_constant', 'stellar_irradiance', 'solar_constant']
N2 = ['latent_heat_of_condensation', 'latent_heat_of_vaporization_of_water', 'density_of_liquid_phase',
      'density_of_liquid_water', 'density_of_liquid_ammonia', 'density_of_ice']
REST = [n for n in RESOLVE if n not in N1]
HARNESSES = [
    Harness('plain', history, dict(names=N1, ops=2, optypes=4, units=UNITS),
            dict(names=N1, ops=3, optypes=4, units=UNITS), reach=['done']),
    Harness('condensible', history, dict(names=N2, ops=3, optypes=2, units=UNITS[1:2]),
            dict(names=N2, ops=4, optypes=3, units=UNITS[1:2]), reach=['done']),
    Harness('aliases', history, dict(names=REST, ops=1, optypes=2, units=UNITS[1:3]),
            dict(names=REST, ops=2, optypes=2, units=UNITS[1:2]), reach=['done']),
    Harness('defaults', defaults, dict(), reach=['done']),
    numtypes.CONSTANTS,
]
ASSUMPTIONS = ['the physical values of the defaults are compared with the reference values in this file, within 0.1 % to 10 %']
