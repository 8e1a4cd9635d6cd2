"""Snow albedo."""
import math

from symex.api import *

from . import _ml as ml
from ._ml import I, J, T0, get

scenario = Registry()
BOUNDS = (
    "one pixel; arbitrary initial albedo 0..1, temperature 240..290 K and snowfall 0..50 kg/m2 per step (or missing); "
    "default and alternative albedo parameters, both refresh methods, both temperature choices; time steps 0.5 h, 1 h, 3 h, 24 h"
)
OUTSIDE = "other parameter values; rounding"
HOURS = {"30min": 0.5, "h": 1.0, "3h": 3.0, "D": 24.0}
PARAMS = {
    "default": dict(min=0.55, max=0.85, cold_snow_decay_timescale=480, melting_snow_decay_timescale=200, refresh_snowfall=0.5),
    "alt": dict(min=0.4, max=0.9, cold_snow_decay_timescale=1000, melting_snow_decay_timescale=60, refresh_snowfall=2.0),
}


def setup(ctx, ts, prm, refresh, temp):
    a = dict(PARAMS[prm], refresh_method=refresh, decay_timescale_determination_temperature=temp)
    m = ml.model(ctx, timestep=ts, snow={"albedo": a})
    s = m.state
    s.snow.num_layers[I, J] = 1
    s.snow.thickness[0, I, J] = 0.3
    s.snow.ice_content[0, I, J] = 60.0
    s.snow.liquid_water_content[0, I, J] = 0.0
    m.snow.update_properties()
    return m, a


ALL = {
    f"{ts}-{p}-{r}-{t}": dict(ts=ts, prm=p, refresh=r, temp=t)
    for ts in HOURS for p in PARAMS for r in ("binary", "continuous") for t in ("surface", "air")
}


@scenario(params=ALL, merged=True)
def aging(ctx, ts, prm, refresh, temp):
    m, a = setup(ctx, ts, prm, refresh, temp)
    s = m.state
    a0 = ctx.real("albedo", 0, 1)
    s.snow.albedo[I, J] = a0
    t, other = ctx.real("T", 240, 290), ctx.real("Tother", 240, 290)
    s.surface.temp[I, J], s.meteo.temp[I, J] = (t, other) if temp == "surface" else (other, t)
    sf = ml.maybe_nan(ctx, "snowfall", 0, 50)
    s.meteo.snowfall[I, J] = sf
    m.snow.albedo_aging()
    a1 = get(m, "albedo")
    h = HOURS[ts]
    tau = a["melting_snow_decay_timescale"] if t >= T0 else a["cold_snow_decay_timescale"]
    aged = a["min"] + (a0 - a["min"]) * math.exp(-h / tau)
    rate = 0.0 if isnan(sf) else sf / h
    if refresh == "binary":
        exp = a["max"] if rate >= a["refresh_snowfall"] else aged
    else:
        exp = aged + (a["max"] - aged) * smin(1.0, rate / a["refresh_snowfall"])
    # stay away from the refresh threshold itself, where rounding decides
    if not isnan(sf) and abs(rate - a["refresh_snowfall"]) <= 1e-9:
        return
    ctx.claim_eq("albedo", a1, exp, 1e-7)
    if a0 >= a["min"] and a0 <= a["max"]:
        ctx.claim_ge("not-below-min", a1, a["min"], 1e-9)
        ctx.claim_le("not-above-max", a1, a["max"], 1e-9)
    if isnan(sf):
        ctx.claim_le("never-brightens-without-snowfall", a1, smax(a0, a["min"]), 1e-9)
    ctx.observe("a", [a1])


@scenario(params={t: dict(temp=t) for t in ("surface", "air")}, merged=True)
def independent_of_step_length(ctx, temp):
    """Without snowfall three 1 h steps age the snow as much as one 3 h step."""
    a0, t = ctx.real("albedo", 0, 1), ctx.real("T", 240, 290)
    res = []
    for ts, n in (("h", 3), ("3h", 1)):
        m, a = setup(ctx, ts, "default", "binary", temp)
        s = m.state
        s.snow.albedo[I, J] = a0
        s.surface.temp[I, J] = t
        s.meteo.temp[I, J] = t
        s.meteo.snowfall[I, J] = 0.0
        for _ in range(n):
            m.snow.albedo_aging()
        res.append(get(m, "albedo"))
    ctx.claim_eq("same", res[0], res[1], 1e-9)


@scenario(params={str(k): dict(depth_scale=k) for k in (0.0, 0.1)}, merged=True)
def surface_albedo(ctx, depth_scale):
    """Surface albedo is the snow/soil albedo mixed by snow cover fraction."""
    from openamundsen import surface

    m = ml.model(ctx, snow={"snow_cover_fraction_depth_scale": depth_scale})
    s = m.state
    n = ctx.choose(2, "snow")
    s.snow.num_layers[I, J] = n
    a0 = ctx.real("albedo", 0, 1)
    if n:
        s.snow.thickness[0, I, J] = ctx.real("depth", 0.001, 1)
        s.snow.ice_content[0, I, J] = 20.0
        s.snow.albedo[I, J] = a0
    else:
        s.snow.albedo[I, J] = float("nan")
    m.snow.update_properties()
    s.soil.therm_cond[:, I, J] = 1.0
    s.soil.frac_unfrozen_moisture_content[:, I, J] = 0.5
    s.meteo.temp[I, J] = 270.0
    s.meteo.wind_speed[I, J] = 2.0
    s.surface.temp[I, J] = 270.0
    frac = get(m, "area_fraction")
    with stubbed((surface, "calc_turbulent_exchange_coefficient", nop)):
        surface.surface_properties(m)
    soil = m.config.soil.albedo
    out = s.surface.albedo[I, J]
    if not n:
        ctx.claim_eq("bare-ground", out, soil, 0)
    else:
        ctx.claim_eq("mixed", out, frac * a0 + (1 - frac) * soil, 1e-9)
        if depth_scale == 0.0:
            ctx.claim_eq("full-cover", out, a0, 0)
        ctx.claim_ge("between", out, smin(a0, soil), 1e-9)
        ctx.claim_le("between", out, smax(a0, soil), 1e-9)


@scenario
def fresh_snow(ctx):
    """The first snow on bare ground has maximum albedo."""
    m = ml.model(ctx)
    s = m.state
    s.snow.num_layers[I, J] = 0
    m.snow.update_properties()
    s.meteo.snowfall[I, J] = ctx.real("snowfall", 0.001, 30)
    s.meteo.wet_bulb_temp[I, J] = 268.0
    m.snow.accumulation()
    ctx.claim_eq("max-albedo", get(m, "albedo"), 0.85, 0)
