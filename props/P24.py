"""
Derived meteorological variables.

meteo.* functions and OpenAmundsen._process_meteo_data run with symbolic temperature, humidity, elevation and wind; the oracle are the
documented formulas (Magnus, hydrostatic atmosphere, psychrometer), inverse relations and monotonicity.
"""
from symex.api import *

from ._ml import hash_str

scenario = Registry()
BOUNDS = (
    "temperature 220..330 K, relative humidity 0.1..100 % (0..100 where no logarithm is involved), elevation -400..8850 m, wind 0..60 m/s and all "
    "directions; missing values per pixel; three pixels"
)
OUTSIDE = (
    "the wet-bulb secant iteration for the nonlinear vapour pressure curve (decided for curves linear in temperature, and for what its stopping criterion implies); rounding"
)
T0 = 273.15
ICE = (610.71, 22.44, 272.44)
WATER = (610.78, 17.08, 234.18)
CP, RD, RV, G, P0, TS = 1004.68506, 287.058, 461.52, 9.80665, 101325.0, 15 + 273.15
PIX = [(0, 0), (1, 1), (2, 1)]
ROI = np.zeros((3, 3), int)
for _p in PIX:
    ROI[_p] = 1


def es(t, over=None):
    a, b, c = {None: WATER if t >= T0 else ICE, "water": WATER, "ice": ICE}[over]
    tc = t - T0
    return a * sexp(b * tc / (c + tc))


@scenario
def vapour(ctx):
    """Saturation vapour pressure over water and ice, and humidity measures derived from it."""
    from openamundsen import meteo

    t, rh, p = ctx.real("t", 220, 330), ctx.real("rh", 0, 100), ctx.real("p", 30000, 105000)
    for over in (None, "water", "ice"):
        s = meteo.saturation_vapor_pressure(arr(ctx, [t, float("nan")]), over=over)
        ctx.claim_eq("magnus", s[0], es(t, over), 1e-6)
        ctx.claim("missing", isnan(s[1]), "vapour pressure from nothing")
        ctx.claim_lt("positive", 0.0, s[0])
        e = meteo.vapor_pressure(t, rh, over=over)
        ctx.claim_eq("vapour", e * 100, es(t, over) * rh, 1e-6)
    e = ctx.real("e", 0, 20000)
    q = meteo.specific_humidity(p, e)
    ctx.claim_eq("specific", q * (p - 0.378 * e), 0.622 * e, 1e-6)
    ctx.claim_ge("specific-min", q, 0.0, 0)
    ctx.claim_lt("specific-max", q, 1.0)
    ah = meteo.absolute_humidity(t, e)
    ctx.claim_eq("absolute", ah * (RV * t), e, 1e-6)
    ctx.claim_eq("relative", meteo.relative_humidity(t, ah) * es(t), 100 * e, 1e-4)
    ctx.claim_eq("heat-capacity", meteo.specific_heat_capacity_moist_air(q), CP * (1 + 0.84 * q), 1e-6)
    lv = meteo.latent_heat_of_vaporization(t)
    ctx.claim_eq("latent", lv, 2.5008e6 - 2361.0 * (t - T0), 2e3)
    ctx.claim_eq("precipitable", meteo.precipitable_water(t, e) * t, 46.5 * e / 100 * 10, 1e-6)


@scenario
def density(ctx):
    from openamundsen import meteo

    t, p = ctx.real("t", 220, 330), ctx.real("p", 30000, 105000)
    ctx.claim_eq("density", meteo.dry_air_density(t, p) * (RD * t), p, 1e-3)


@scenario
def monotone(ctx):
    """Warmer air holds more vapour; pressure decreases with height."""
    from openamundsen import meteo

    a, b = ctx.real("a", 220, 330), ctx.real("b", 220, 330)
    ctx.assume(a < b if not ctx.symbolic else core.to_expr(a) < core.to_expr(b))
    for over in ("water", "ice"):
        ctx.claim_le("vapour", meteo.saturation_vapor_pressure(a, over), meteo.saturation_vapor_pressure(b, over), 1e-9)
    x, y = ctx.real("x", -400, 8850), ctx.real("y", -400, 8850)
    ctx.assume(x < y if not ctx.symbolic else core.to_expr(x) < core.to_expr(y))
    px, py = meteo.atmospheric_pressure(x), meteo.atmospheric_pressure(y)
    ctx.claim_ge("pressure", px, py, 1e-9)
    ctx.claim_lt("pressure-min", 25000.0, py)
    ctx.claim_le("pressure-max", px, P0 if x >= 0 else 130000.0, 1e-9)
    h = ctx.real("h", 30000, 105000)
    z, z1 = meteo.pressure_to_altitude(h), meteo.pressure_to_altitude(h + 1000.0)
    ctx.claim_ge("altitude", z, z1, 1e-9)


@scenario
def barometric(ctx):
    """Pressure follows the hydrostatic equation with constant lapse rate, and the altitude function inverts it."""
    from openamundsen import meteo

    n = CP * 0.02896968 / 8.314462618
    for z in (0.0, 1500.0, 3000.0, 8000.0):
        p = meteo.atmospheric_pressure(z)
        ctx.claim_eq("value", p, P0 * (1 - G * z / (CP * TS)) ** n, 5.0)
        ctx.claim_eq("inverse", meteo.pressure_to_altitude(p), z, 1e-5)
    z = ctx.real("z", -400, 8850)
    x = 1 - G * z / (CP * TS)
    p = meteo.atmospheric_pressure(z)
    ctx.claim_eq("all", p, P0 * core.fn_pow(x, n), 5.0)


@scenario(cross=True)
def dew_point(ctx):
    """Dew point and relative humidity are inverse functions; saturated air is at its dew point."""
    from openamundsen import meteo

    t, rh = ctx.real("t", 220, 330), ctx.real("rh", 0.1, 100)
    td = meteo.dew_point_temperature(t, rh)
    ctx.claim_le("below", td, t, 1e-6)
    ctx.claim_eq("vapour", meteo.saturation_vapor_pressure(td, over="water"), es(t, "water") * rh / 100, 1e-4)
    d = ctx.real("d", 180, 330)
    ctx.claim_eq("inverse", meteo.relative_humidity_from_dew_point_temperature(t, d) * es(t, "water"), 100 * es(d, "water"), 1e-4)
    ctx.claim_eq("round-trip", meteo.relative_humidity_from_dew_point_temperature(t, td), rh, 1e-4)


@scenario(cross=True)
def saturated(ctx):
    from openamundsen import meteo

    t = ctx.real("t", 220, 330)
    ctx.claim_eq("dew-point", meteo.dew_point_temperature(t, 100.0), t, 1e-6)
    ctx.claim_eq("humidity", meteo.relative_humidity_from_dew_point_temperature(t, t), 100.0, 1e-6)
    ctx.claim_eq("inverse", meteo.relative_humidity(t, meteo.absolute_humidity(t, meteo.saturation_vapor_pressure(t))), 100.0, 1e-6)


@scenario
def clouds(ctx):
    """Cloud factor and cloud fraction are inverse to each other and bounded."""
    from openamundsen import meteo

    f, g = ctx.real("f", 0, 1), ctx.real("g", 0, 1)
    cf, cg = meteo.cloud_factor_from_cloud_fraction(arr(ctx, [f, g]))
    ctx.claim_eq("factor", cf, 1 - 0.233 * f - 0.415 * f * f, 1e-9)
    ctx.claim_ge("min", cf, 0.352, 1e-9)
    ctx.claim_le("max", cf, 1.0, 0)
    if f <= g:
        ctx.claim_ge("clouds-shade", cf, cg, 1e-9)
    r = meteo.cloud_fraction_from_cloud_factor(arr(ctx, [f, float("nan")]))
    ctx.claim("missing", isnan(r[1]), "cloud fraction from nothing")
    ctx.claim_ge("fraction-min", r[0], 0.0, 0)
    ctx.claim_le("fraction-max", r[0], 1.0, 0)
    if f >= 0.352:
        ctx.claim_eq("inverse", 1 - 0.233 * r[0] - 0.415 * r[0] * r[0], f, 1e-6)
    else:
        ctx.claim_eq("overcast", r[0], 1.0, 1e-9)


@scenario
def cloud_humidity(ctx):
    """Cloud fraction from humidity at the 700 hPa level."""
    from openamundsen import meteo

    rh = ctx.real("rh", 0.1, 100)
    t, z = [(275.0, 1000.0), (290.0, 500.0), (263.0, 3000.0)][ctx.choose(3, "site")]
    lt, ld = [(-0.0065, -0.005), (-0.004, -0.006)][ctx.choose(2, "lapse")]
    got = meteo.cloud_fraction_from_humidity(arr(ctx, [t]), arr(ctx, [rh]), z, lt, ld)[0]
    dz = z - float(meteo.pressure_to_altitude(70000.0))
    td = meteo.dew_point_temperature(t, rh) - ld * dz
    r7 = 100 * es(td) / es(t - lt * dz)
    ctx.claim_eq("value", got, smin(0.832 * sexp((r7 - 100) / 41.6), 1.0), 1e-6)
    ctx.claim_ge("min", got, 0.0, 0)
    ctx.claim_le("max", got, 1.0, 0)


@scenario
def emissivity(ctx):
    from openamundsen import meteo

    w, v = ctx.real("w", 0, 80), ctx.real("v", 0, 80)
    e = meteo.clear_sky_emissivity(arr(ctx, [w, v]))
    x = w / 10
    ctx.claim_eq("prata", e[0], 1 - (1 + x) * sexp(-core.fn_sqrt(1.2 + 3 * x)), 1e-9)
    ctx.claim_le("max", e[0], 1.0, 0)
    ctx.claim_ge("min", e[0], 0.3, 0)


@scenario
def wind(ctx):
    """Wind components: length and direction are preserved."""
    from openamundsen import meteo

    k = ctx.choose(24, "direction") * 15.0
    w = ctx.real("w", 0.1, 60)
    u, v = meteo.wind_to_uv(w, k)
    ctx.claim_eq("from", u, -w * np.sin(np.deg2rad(k)), 1e-7)
    ctx.claim_eq("to", v, -w * np.cos(np.deg2rad(k)), 1e-7)
    ws, wd = meteo.wind_from_uv(u, v)
    ctx.claim_eq("speed", ws, w, 1e-6)


@scenario
def wind_back(ctx):
    from openamundsen import meteo

    w = ctx.real("w", 0.1, 60)
    for k, (a, b) in {0.0: (0, -1), 90.0: (-1, 0), 180.0: (0, 1), 270.0: (1, 0), 45.0: (-1, -1), 135.0: (-1, 1), 225.0: (1, 1), 315.0: (1, -1)}.items():
        ws, wd = meteo.wind_from_uv(a * w, b * w)
        ctx.claim_eq("direction", wd if k or wd < 180 else 360.0 - wd, k, 1e-6)
        ctx.claim_eq("speed", ws * ws, w * w * (a * a + b * b), 1e-5)
    u, v = ctx.real("u", -50, 50), ctx.real("v", -50, 50)
    ws, wd = meteo.wind_from_uv(u, v)
    ctx.claim_eq("length", ws * ws, u * u + v * v, 1e-6)
    ctx.claim_ge("dir-min", wd, 0.0, 0)
    ctx.claim_le("dir-max", wd, 360.0, 0)


@scenario
def profile(ctx):
    """Logarithmic wind profile."""
    from openamundsen import meteo

    w = ctx.real("w", 0, 60)
    z0 = ctx.real("z0", 0.001, 0.5)
    ctx.claim_eq("reference", meteo.log_wind_profile(w, 10.0, 10.0, z0), w, 1e-9)
    lo = meteo.log_wind_profile(w, 10.0, 2.0, z0)
    ctx.claim_le("lower", lo, w, 1e-9)
    ctx.claim_ge("nonneg", lo, 0.0, 0)
    ctx.claim_eq("logarithmic", lo * core.fn_log(10.0 / z0), w * core.fn_log(2.0 / z0), 1e-6)
    ctx.claim_eq("back", meteo.log_wind_profile(lo, 2.0, 10.0, z0), w, 1e-6)


@scenario
def wet_bulb(ctx):
    """Psychrometer equation for vapour pressure curves linear in temperature; missing values; independence of the pixels."""
    from openamundsen.meteo import atmosphere

    slope, e0 = ctx.real("slope", 10, 300), ctx.real("e0", 300, 900)
    lin = lambda t, over=None: e0 + slope * (t - T0)  # noqa: E731
    t = [ctx.real("t0", 260, 310), ctx.real("t1", 260, 310), 280.0, float("nan")]
    e = [ctx.real("e0_", 100, 3000), 500.0, float("nan"), 700.0]
    gam = [64.0, ctx.real("gam", 30, 80), 50.0, 50.0]
    with stubbed((atmosphere, "saturation_vapor_pressure", lin)):
        r = atmosphere.wet_bulb_temperature(arr(ctx, t), None, arr(ctx, e), arr(ctx, gam))
    for k in range(2):
        # within the tolerance of the iteration (0.01 K)
        root = (e[k] - e0 + gam[k] * (t[k] - T0)) / (slope + gam[k]) + T0
        ctx.claim_eq("root", r[k], root, 0.0100001)
    ctx.claim("missing", isnan(r[2]) and isnan(r[3]), f"wet-bulb temperature from nothing {r}")


@scenario(cross=True)
def fields(ctx):
    """Derived fields of the model, with missing data in one pixel."""
    from openamundsen import meteo

    m = prepare(ctx, "p24", roi=ROI, config={"meteo": {"precipitation_phase": {"method": "temp"}}})
    s = m.state.meteo
    miss = ctx.choose(3, "missing")
    t = [ctx.real("t0", 230, 310), 283.15, 268.15]
    rh = [ctx.real("rh0", 1, 100), 50.0, 80.0]
    if miss == 1:
        t[1] = float("nan")
    if miss == 2:
        rh[1] = float("nan")
    for n, p in enumerate(PIX):
        s.temp[p], s.rel_hum[p], s.precip[p] = t[n], rh[n], 1.0
    wb = arr(ctx, [250.0, 260.0, 270.0])
    args = {}

    def wet(temp, rel_hum=None, vap_press=None, psych_const=None):
        args.update(temp=temp.copy(), vap=vap_press.copy(), psych=psych_const.copy())
        return wb.copy()

    with stubbed((meteo, "wet_bulb_temperature", wet)):
        m._process_meteo_data()
    for n, p in enumerate(PIX):
        z = m.state.base.dem[p]
        pr = P0 * (1 - G * z / (CP * TS)) ** (CP * 0.02896968 / 8.314462618)
        ctx.claim_eq("pressure", s.atmos_press[p], pr, 5.0)
        ctx.claim_eq("wet-bulb", s.wet_bulb_temp[p], wb[n], 0)
        if isnan(t[n]):
            ctx.claim("missing", all(isnan(s[v][p]) for v in ("sat_vap_press", "vap_press", "spec_hum", "dew_point_temp", "lat_heat_vap", "dry_air_density", "precipitable_water")), "value from nothing")
            continue
        ctx.claim_eq("saturation", s.sat_vap_press[p], es(t[n]), 1e-6)
        ctx.claim_eq("density", s.dry_air_density[p] * (RD * t[n]), s.atmos_press[p], 1e-3)
        lv = s.lat_heat_vap[p]
        ctx.claim_eq("latent", lv, 2.5008e6 - 2361.0 * (t[n] - T0), 2e3)
        if isnan(rh[n]):
            ctx.claim("missing-humidity", all(isnan(s[v][p]) for v in ("vap_press", "spec_hum", "dew_point_temp", "precipitable_water")), "humidity from nothing")
            continue
        e = s.vap_press[p]
        ctx.claim_eq("vapour", e, es(t[n]) * rh[n] / 100, 1e-6)
        ctx.claim_le("undersaturated", e, s.sat_vap_press[p], 1e-6)
        q = s.spec_hum[p]
        ctx.claim_eq("specific", q * (s.atmos_press[p] - 0.378 * e), 0.622 * e, 1e-6)
        ctx.claim_eq("heat-capacity", s.spec_heat_cap_moist_air[p], CP * (1 + 0.84 * q), 1e-6)
        ctx.claim_eq("psychrometer", s.psych_const[p] * 0.622 * lv, s.spec_heat_cap_moist_air[p] * s.atmos_press[p], 1.0)
        ctx.claim_eq("wet-bulb-input", args["vap"][n], e, 0)
        ctx.claim_eq("wet-bulb-input", args["psych"][n], s.psych_const[p], 0)
        ctx.claim_eq("wet-bulb-input", args["temp"][n], t[n], 0)
        ctx.claim_eq("precipitable", s.precipitable_water[p] * t[n], 4.65 * e, 1e-6)
        ctx.claim_le("dew-point", s.dew_point_temp[p], t[n], 1e-6)
