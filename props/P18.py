"""
Turbulent exchange and surface layer.

surface.stability_factor, surface.surface_properties and surface.calc_moisture_availability run with symbolic temperatures,
wind, snow depth and cover; the oracle is the bulk formulation of FSM (Essery 2015).
"""
from symex.api import *

from . import _ml as ml
from ._ml import I, J, hash_str, maybe_nan

scenario = Registry()
BOUNDS = (
    "one pixel (two for the stability factor); air and surface temperature 220..320 K, wind 0..40 m/s, snow depth 0..10 m, snow cover "
    "fraction 0..1, all unfrozen moisture and layer thicknesses; measurement heights 2/10, 1.5/3 and 10/10 m"
)
OUTSIDE = "roughness lengths other than the configured pairs; rounding"
K2 = 0.4**2
HEIGHTS = [(2.0, 10.0), (1.5, 3.0), (10.0, 10.0)]


def factor(t, ts, w, z0, ht, hw, b):
    if isnan(t) or isnan(ts) or isnan(w):
        return 1.0
    w = 0.5 if w == 0 else w
    ri = (t - ts) / (t * w * w) * (9.80665 * hw**2 / ht)
    if ri >= 0:
        return 1 / (1 + 3 * b * ri * core.fn_sqrt(1 + b * ri))
    c = 3 * b**2 * K2 * (hw / z0) ** 0.5 / np.log(hw / z0) ** 2
    return 1 - 3 * b * ri / (1 + c * core.fn_sqrt(-ri))


@scenario(params={f"{h}-{f}": dict(h=h, f=f) for h in range(3) for f in (0.0, 0.5, 1.0)}, merged=True)
def stability(ctx, h, f):
    """Value for all surface temperatures (several air temperatures and wind speeds), wind speeds in the second pixel."""
    from openamundsen import surface

    ht, hw = HEIGHTS[h]
    case = ctx.choose(5, "case2")
    t = [[280.0, 256.0, float("nan"), 300.0, 256.0][case], 280.0]
    w = [[4.0, 0.5, 4.0, 0.0, 0.0][case], ctx.real("w", 0.5, 20) if case == 0 and h == 0 and f == 1 else 2.0]
    ts = [ctx.real("ts", 220, 320), 270.0]
    w0 = list(w)
    wa = arr(ctx, w)
    sf = surface.stability_factor(arr(ctx, t), arr(ctx, ts), wa, np.array([f, 1.0]), 0.01, 0.1, ht, hw, 5.0)
    ctx.observe("sf", sf)
    for k in range(2):
        z0 = 0.01 ** [f, 1.0][k] * 0.1 ** (1 - [f, 1.0][k])
        ctx.claim_eq("value", sf[k], factor(t[k], ts[k], w[k], z0, ht, hw, 5.0), 1e-6)
        ctx.claim_eq("wind-kept", wa[k], w0[k], 0)


@scenario
def stability_sign(ctx):
    """Stable air damps, unstable air enhances the exchange, whatever the weather."""
    from openamundsen import surface

    t = maybe_nan(ctx, "t", 220, 320)
    ts = ctx.real("ts", 220, 320)
    w = 0.0 if ctx.choose(2, "calm") else ctx.real("w", 0.1, 40)
    f = [0.0, 0.5, 1.0][ctx.choose(3, "f")]
    sf = surface.stability_factor(arr(ctx, [t]), arr(ctx, [ts]), arr(ctx, [w]), np.array([f]), 0.01, 0.1, 2.0, 10.0, 5.0)[0]
    ctx.claim_lt("positive", 0.0, sf)
    if isnan(t):
        ctx.claim_eq("missing", sf, 1.0, 0)
    elif t == ts:
        ctx.claim_eq("neutral", sf, 1.0, 1e-9)
    elif t > ts:
        ctx.claim_le("stable", sf, 1.0, 1e-9)
    else:
        ctx.claim_ge("unstable", sf, 1.0, 1e-9)


CFG = {
    "plain": dict(),
    "stab": dict(meteo={"stability_correction": True}),
    "adj": dict(snow={"measurement_height_adjustment": True}),
    "adj-stab": dict(snow={"measurement_height_adjustment": True}, meteo={"stability_correction": True, "measurement_height": {"temperature": 3.0, "wind": 5.0}}),
    "rough": dict(snow={"roughness_length": 0.002}, soil={"roughness_length": 0.05}),
    "cryo": dict(snow={"model": "cryolayers", "measurement_height_adjustment": True}),
}


@scenario(params={f"{c}-{f}": dict(cfg=c, f=f) for c in CFG for f in (0.0, 0.25, 1.0)}, merged=True)
def exchange(ctx, cfg, f):
    """Roughness and exchange coefficient."""
    from openamundsen import surface

    c = CFG[cfg]
    m = ml.model(ctx, **c)
    s = m.state
    d = ctx.real("depth", 0, 10)
    t, ts, w = ctx.real("t", 240, 300), ctx.real("ts", 240, 300), ctx.real("w", 0.1, 20)
    s.snow.depth[I, J] = d
    s.snow.area_fraction[I, J] = f
    s.snow.albedo[I, J] = 0.8
    s.meteo.temp[I, J], s.surface.temp[I, J], s.meteo.wind_speed[I, J] = t, ts, w
    surface.surface_properties(m)
    zs, zg = m.config.snow.roughness_length, m.config.soil.roughness_length
    z0 = zs**f * zg ** (1 - f)
    ht, hw = (3.0, 5.0) if cfg == "adj-stab" else (2.0, 10.0)
    if cfg in ("adj", "adj-stab", "cryo"):
        ht = smax(ht - d, 1.0)
    ch = K2 / (core.fn_log(hw / z0) * core.fn_log(ht / (0.1 * z0)))
    if "stab" in cfg:
        w_ = w
        ri = (t - ts) / (ht * t * w_ * w_) * (9.80665 * hw**2)
        if ri >= 0:
            sf = 1 / (1 + 15 * ri * core.fn_sqrt(1 + 5 * ri))
        else:
            cc = 75 * K2 * (hw / z0) ** 0.5 / np.log(hw / z0) ** 2
            sf = 1 - 15 * ri / (1 + cc * core.fn_sqrt(-ri))
        ch = ch * sf
    got = s.surface.turbulent_exchange_coeff[I, J]
    ctx.observe("ch", [got])
    ctx.claim_eq("roughness", s.surface.roughness_length[I, J], z0, 1e-9)
    ctx.claim_eq("coefficient", got, ch, 1e-8)
    ctx.claim_lt("positive", 0.0, got)


@scenario
def roughness(ctx):
    """Roughness lies between those of snow and ground for every cover fraction."""
    from openamundsen import surface

    m = ml.model(ctx)
    s = m.state
    f = ctx.real("f", 0, 1)
    s.snow.area_fraction[I, J] = f
    s.snow.albedo[I, J] = 0.8
    s.meteo.temp[I, J], s.surface.temp[I, J], s.meteo.wind_speed[I, J] = 270.0, 268.0, 3.0
    surface.surface_properties(m)
    z = s.surface.roughness_length[I, J]
    ctx.claim_eq("mixed", z, core.fn_pow(m.config.snow.roughness_length, f) * core.fn_pow(m.config.soil.roughness_length, 1 - f), 1e-9)


@scenario(params={"a": dict(ks=0.5, ksoil=1.5, dz=0.1), "b": dict(ks=0.24, ksoil=0.3, dz=0.25)}, merged=True)
def layer(ctx, ks, ksoil, dz):
    """Effective surface layer for every snow depth, and surface conductance for every soil moisture."""
    from openamundsen import surface

    m = ml.model(ctx)
    s = m.state
    th, tsn, tso, fu = ctx.real("th", 0, 2), ctx.real("tsn", 220, 273.15), ctx.real("tso", 240, 310), ctx.real("fu", 0, 1)
    s.snow.thickness[0, I, J], s.snow.temp[0, I, J], s.soil.temp[0, I, J] = th, tsn, tso
    s.soil.thickness[0, I, J], s.snow.therm_cond[0, I, J], s.soil.therm_cond[0, I, J] = dz, ks, ksoil
    s.soil.frac_unfrozen_moisture_content[0, I, J] = fu
    sat, crit = s.soil.vol_moisture_content_sat[I, J], s.soil.vol_moisture_content_crit[I, J]
    s.snow.area_fraction[I, J], s.snow.albedo[I, J] = 1.0, 0.8
    s.meteo.temp[I, J], s.surface.temp[I, J], s.meteo.wind_speed[I, J] = 270.0, 268.0, 3.0
    surface.surface_properties(m)
    g = lambda v: s.surface[v][I, J]
    ctx.claim_eq("thickness", g("thickness"), smax(th, dz), 1e-9)
    if th > dz:
        ctx.claim_eq("deep-temp", g("layer_temp"), tsn, 1e-9)
    else:
        ctx.claim_eq("mixed-temp", g("layer_temp"), tso + (tsn - tso) * th / dz, 1e-7)
    lo, hi = smin(tsn, tso), smax(tsn, tso)
    ctx.claim_ge("temp-min", g("layer_temp"), lo, 1e-7)
    ctx.claim_le("temp-max", g("layer_temp"), hi, 1e-7)
    k = g("therm_cond")
    if 2 * th <= dz:
        ctx.claim_eq("series", k * (2 * th / ks + (dz - 2 * th) / ksoil), dz, 1e-7)
    else:
        ctx.claim_eq("snow-only", k, ks, 1e-9)
    ctx.claim_ge("k-min", k, min(ks, ksoil), 1e-9)
    ctx.claim_le("k-max", k, max(ks, ksoil), 1e-9)
    r = fu * sat / crit
    ctx.claim_eq("conductance", g("conductance"), 0.01 * smax(r * r, 1.0), 1e-9)


@scenario
def moisture_availability(ctx):
    from openamundsen import surface

    m = ml.model(ctx)
    s = m.state
    g, ch, w = ctx.real("g", 0.001, 0.1), ctx.real("ch", 1e-4, 0.1), ctx.real("w", 0.1, 40)
    qs, q = ctx.real("qs", 0, 0.03), ctx.real("q", 0, 0.03)
    swe = ctx.real("swe", 0, 100)
    s.surface.conductance[I, J], s.surface.turbulent_exchange_coeff[I, J], s.meteo.wind_speed[I, J] = g, ch, w
    s.surface.sat_spec_hum[I, J], s.meteo.spec_hum[I, J], s.snow.swe[I, J] = qs, q, swe
    surface.calc_moisture_availability(m, m.grid.roi)
    a = s.surface.moisture_availability[I, J]
    ctx.observe("a", [a])
    ctx.claim_ge("min", a, 0.0, 0)
    ctx.claim_le("max", a, 1.0, 1e-9)
    if swe > 0 or qs < q:
        ctx.claim_eq("unlimited", a, 1.0, 0)
    else:
        ctx.claim_eq("limited", a * (g + ch * w), g, 1e-9)
