"""
Soil thermal properties.

The real soil.initialize and soil.soil_properties run with symbolic texture, moisture and temperature; the oracle is the
freezing curve of Cox et al. (1999) and the enthalpy it implies.
"""
from symex.api import *

from . import _ml as ml
from ._ml import I, J, T0, hash_str

scenario = Registry()
BOUNDS = (
    "one pixel, four soil layers with independent temperatures 220..320 K and moisture contents (arbitrary up to saturation, or 0, 5, 50 and 100 % "
    "of saturation where the curve itself is compared), three soil textures (arbitrary texture for the initial state), several layer thicknesses"
)
OUTSIDE = "soil moisture changes (the model keeps soil moisture constant); rounding"
RW, RI, CW, CI, LF = 1000.0, 917.0, 4180.0, 2100.0, 0.334e6
KAPPA = RI / RW * LF / (273.15 * 9.80665)
TEX = {"loam": (0.6, 0.3), "sand": (1.0, 0.0), "clay": (0.1, 0.9)}


def model(ctx, tex="loam"):
    sand, clay = TEX[tex]
    return ml.model(ctx, soil={"sand_fraction": sand, "clay_fraction": clay, "thickness": [0.1, 0.25, 0.4, 0.8]})


def pos_pow(x, p):
    return core.fn_pow(x, p)


def curve(theta, sat, b, psi, t):
    """(unfrozen water content, its temperature derivative)"""
    if theta == 0:
        return 0.0, 0.0
    tmax = T0 - psi / KAPPA * pos_pow(sat / theta, b)
    if t < tmax:
        x = (T0 - t) * (KAPPA / psi)
        u = pos_pow(x, -1 / b) * sat
        return smin(u, theta), pos_pow(x, -1 / b - 1) * (KAPPA * sat / (b * psi))
    return theta, 0.0


@scenario(params={f"{x}-{f}": dict(tex=x, frac=f) for x in TEX for f in (0.0, 0.05, 0.5, 1.0)}, merged=True)
def freezing(ctx, tex, frac):
    """Water split, heat capacity and conductivity of one layer; the other layers have other states."""
    m = model(ctx, tex)
    s = m.state.soil
    g = lambda v: s[v][I, J]
    sat, b, psi, cdry, kdry = (g(v) for v in ("vol_moisture_content_sat", "clapp_hornberger", "sat_water_pressure", "vol_heat_cap_dry", "therm_cond_dry"))
    k = ctx.choose(4, "layer")
    t = ctx.real("t", 220, 320)
    for q in range(4):
        s.temp[q, I, J] = 285.0 if q % 2 else 262.0
        s.vol_moisture_content[q, I, J] = 0.1
    s.temp[k, I, J] = t
    theta = frac * sat
    s.vol_moisture_content[k, I, J] = theta
    from openamundsen.modules import soil

    soil.soil_properties(m)
    dz = [0.1, 0.25, 0.4, 0.8][k]
    u, du = curve(theta, sat, b, psi, t)
    ice = (theta - u) * (RW / RI)
    hc, kc = s.heat_cap[k, I, J], s.therm_cond[k, I, J]
    ctx.observe("heat_cap", [hc])
    ctx.observe("therm_cond", [kc])
    # enthalpy: d/dT (cdry T + rw cw u T + ri ci ice T + rw LF u), T in degrees Celsius
    exp = (cdry + RW * CW * u + RI * CI * ice + RW * ((CW - CI) * (t - T0) + LF) * du) * dz
    ctx.claim_eq("heat-capacity", hc, exp, 5.0)
    ctx.claim_ge("heat-capacity-positive", hc, cdry * dz, 5.0)
    if frac == 0:
        ctx.claim_eq("dry-conductivity", kc, kdry, 1e-9)
        return
    fu, ff = s.frac_unfrozen_moisture_content[k, I, J], s.frac_frozen_moisture_content[k, I, J]
    ctx.claim_eq("unfrozen", fu, u / sat, 1e-6)
    ctx.claim_eq("water-split", fu + ff, frac, 1e-9)
    ctx.claim_ge("frozen", ff, 0.0, 1e-9)
    ctx.claim_ge("unfrozen-positive", fu, 0.0, 1e-9)
    if t >= T0:
        ctx.claim_eq("thawed", ff, 0.0, 1e-9)
    su = sat * (u / (u + (theta - u)))
    ksat = kdry * pos_pow(0.56, su) * pos_pow(2.24, sat - su) / 0.025**sat
    ctx.claim_eq("conductivity", kc, (ksat - kdry) * frac + kdry, 1e-5)
    ctx.claim_ge("conductivity-wet", kc, kdry, 1e-9)


@scenario
def split(ctx):
    """Water is split into ice and liquid for every moisture content; layers are independent of each other."""
    m = model(ctx)
    s = m.state.soil
    sat = s.vol_moisture_content_sat[I, J]
    th = [ctx.real(f"theta{k}", 0.001, 0.36) for k in range(2)] + [0.0, 0.3]
    t = [ctx.real(f"t{k}", 220, 320) for k in range(2)] + [260.0, 280.0]
    for k in range(4):
        s.vol_moisture_content[k, I, J] = th[k]
        s.temp[k, I, J] = t[k]
    from openamundsen.modules import soil

    soil.soil_properties(m)
    for k in range(2):
        fu, ff = s.frac_unfrozen_moisture_content[k, I, J], s.frac_frozen_moisture_content[k, I, J]
        ctx.claim_eq("water", (fu + ff) * sat, th[k], 1e-9)
        ctx.claim_ge("ice", ff, 0.0, 1e-9)
        ctx.claim_ge("liquid", fu, 0.0, 1e-9)
        if t[k] >= T0:
            ctx.claim_eq("thawed", ff, 0.0, 1e-9)
        ctx.claim_eq("moisture-kept", s.vol_moisture_content[k, I, J], th[k], 0)
        ctx.claim_eq("temp-kept", s.temp[k, I, J], t[k], 0)
    ctx.claim_eq("dry", s.heat_cap[2, I, J], s.vol_heat_cap_dry[I, J] * 0.4, 1e-6)
    ctx.claim_eq("dry-k", s.therm_cond[2, I, J], s.therm_cond_dry[I, J], 1e-9)


@scenario
def initial(ctx):
    """Initial state for every texture, temperature and moisture fraction."""
    m = model(ctx)
    c = m.config.soil
    sand = ctx.real("sand", 0.05, 1)
    clay = ctx.real("clay", 0, 0.95)
    if ctx.symbolic:
        ctx.assume(core.to_expr(sand) + core.to_expr(clay) <= 1)
    else:
        ctx.assume(sand + clay <= 1)
    t, w = ctx.real("t", 250, 300), ctx.real("w", 0, 1)
    c.sand_fraction, c.clay_fraction, c.init_temp, c.init_moisture_content = sand, clay, t, w
    s = m.state.soil
    for v in ("temp", "thickness", "vol_moisture_content"):
        s[v][:, I, J] = float("nan")
    from openamundsen.modules import soil

    soil.initialize(m)
    sat = s.vol_moisture_content_sat[I, J]
    ctx.claim_eq("saturation", sat, 0.505 - 0.037 * clay - 0.142 * sand, 1e-9)
    for k, z in enumerate([0.1, 0.25, 0.4, 0.8]):
        ctx.claim_eq("temp", s.temp[k, I, J], t, 0)
        ctx.claim_eq("thickness", s.thickness[k, I, J], z, 0)
        ctx.claim_eq("moisture", s.vol_moisture_content[k, I, J], w * sat, 1e-9)
    hc = s.vol_heat_cap_dry[I, J]
    ctx.claim_eq("dry-heat-cap", hc * (sand + clay), 2.128e6 * sand + 2.385e6 * clay, 1.0)
    b = s.clapp_hornberger[I, J]
    ctx.claim_eq("clapp", b, 3.1 + 15.7 * clay - 0.3 * sand, 1e-9)
    ctx.claim_lt("clapp-positive", 0.0, b)
    ctx.claim_lt("pressure-positive", 0.0, s.sat_water_pressure[I, J])
    ctx.claim_lt("conductivity-positive", 0.0, s.therm_cond_dry[I, J])
    psi = s.sat_water_pressure[I, J]
    ctx.claim_eq("pressure", psi, pos_pow(10.0, 0.17 - 0.63 * clay - 1.58 * sand), 1e-9)
    ctx.claim_eq("critical", s.vol_moisture_content_crit[I, J], sat * pos_pow(psi / 3.364, 1 / b), 1e-9)
    km = pos_pow(1.16, clay) * pos_pow(1.57, 1 - clay)
    ctx.claim_eq("minerals", s.therm_cond_minerals[I, J], km, 1e-9)
    ctx.claim_eq("dry-conductivity", s.therm_cond_dry[I, J], pos_pow(0.025, sat) * pos_pow(km, 1 - sat), 1e-9)
