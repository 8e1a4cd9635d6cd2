"""Multilayer snowpack: the state stays physically valid and the reported totals match the layers."""
from symex.api import *

from . import _ml as ml
from ._ml import I, J, NL, T0, get, layers, mass

scenario = Registry()
BOUNDS = (
    "one pixel, 0-3 snow layers in the quick tier for the cheap processes (0-2 for runoff and compaction, 3 in "
    "the thorough tier), layer thickness 1e-4..3 m, ice 0.001..1000 kg/m2 (not denser than ice), liquid water "
    "0..100 kg/m2, layer temperature 220..283 K, time step 3 h"
)
OUTSIDE = "more than 3 layers; rounding; layers denser than ice"
ASSUMPTIONS = ["the state a process starts from is itself valid (induction over processes)"]


def valid(ctx, m, max_temp=T0, temps=True):
    n = get(m, "num_layers")
    ctx.claim("layer-count", 0 <= n <= NL, f"num_layers={n}")
    for k in range(NL):
        for v in ("thickness", "ice_content", "liquid_water_content"):
            ctx.claim_ge(f"nonneg-{v}", get(m, v, k), 0, 1e-9)
        if k >= n:
            for v in ("thickness", "ice_content", "liquid_water_content"):
                ctx.claim_eq(f"empty-beyond-{v}", get(m, v, k), 0, 1e-9)
        if temps and k < n:
            ctx.claim_le("temp-max", get(m, "temp", k), max_temp, 1e-7)
            ctx.claim_ge("temp-min", get(m, "temp", k), 100, 0)
    ml.observe(ctx, m)


def totals(ctx, m):
    m.snow.update_properties()
    ctx.claim_eq("swe", get(m, "swe"), mass(m), 1e-7)
    ctx.claim_eq("depth", get(m, "depth"), ssum(layers(m, "thickness")), 1e-9)
    f = get(m, "area_fraction")
    ctx.claim_ge("fraction-min", f, 0, 0)
    ctx.claim_le("fraction-max", f, 1, 0)
    d = get(m, "depth")
    if d == 0:
        ctx.claim_eq("no-snow-no-cover", f, 0, 0)
    else:
        ctx.claim_lt("snow-covers", 0, f)
    for k in range(NL):
        ctx.claim_eq(
            "heat-capacity", get(m, "heat_cap", k),
            2100.0 * get(m, "ice_content", k) + 4180.0 * get(m, "liquid_water_content", k), 1e-6,
        )
    return f


N4 = {f"n{n}": dict(n=n) for n in range(4)}


@scenario(params={f"{d}-n{n}": dict(n=n, scale=s) for n in range(4) for d, s in (("binary", 0.0), ("tanh", 0.1))})
def reported(ctx, n, scale):
    m = ml.model(ctx, snow={"snow_cover_fraction_depth_scale": scale})
    ml.snowpack(ctx, m, n, ablated=True)
    f = totals(ctx, m)
    if scale == 0.0 and get(m, "depth") > 0:
        ctx.claim_eq("full-cover", f, 1, 0)
    valid(ctx, m)


@scenario(params=N4)
def accumulation(ctx, n):
    m = ml.model(ctx)
    ml.snowpack(ctx, m, n)
    s = m.state
    s.meteo.snowfall[I, J] = ml.maybe_nan(ctx, "snowfall", 0, 100)
    s.meteo.wet_bulb_temp[I, J] = ml.maybe_nan(ctx, "wb", 240, 300)
    s.meteo.temp[I, J] = ctx.real("ta", 220, 300)
    m.snow.accumulation()
    valid(ctx, m)
    totals(ctx, m)


@scenario(params=N4)
def melt(ctx, n):
    m = ml.model(ctx)
    ml.snowpack(ctx, m, n, max_temp=283)
    m.state.snow.melt[I, J] = ctx.real("melt", 0, 500)
    m.snow.melt()
    valid(ctx, m)
    totals(ctx, m)


@scenario(params=N4)
def sublimation(ctx, n):
    m = ml.model(ctx)
    ml.snowpack(ctx, m, n, ablated="top")
    s = m.state
    s.surface.moisture_flux[I, J] = ml.maybe_nan(ctx, "moisture_flux", -0.02, 0.02)
    s.surface.temp[I, J] = ctx.real("tsurf", 220, 300)
    s.meteo.wet_bulb_temp[I, J] = ctx.real("wb", 240, 285)
    s.meteo.temp[I, J] = ctx.real("ta", 240, 285)
    m.snow.sublimation()
    valid(ctx, m)


RUNOFF = {
    f"{meth}-n{n}": dict(n=n, method=meth, **({"_tiers": ("thorough",)} if n > 2 else {}))
    for n in range(4)
    for meth in ("pore_volume_fraction", "mass_fraction")
}


@scenario(params=RUNOFF)
def runoff(ctx, n, method):
    m = ml.model(ctx, snow={"liquid_water_content": {"method": method, "max": 0.04}})
    ml.snowpack(ctx, m, n, ablated=True)
    m.state.meteo.rainfall[I, J] = ml.maybe_nan(ctx, "rain", 0, 100)
    if method == "mass_fraction":
        cap = [0.04 * x for x in layers(m, "ice_content")]
    else:  # 4 % of the pore volume
        cap = [
            0.04 * (1000 * t - i * (1000 / 917.0)) for t, i in zip(layers(m, "thickness"), layers(m, "ice_content"))
        ]
    m.snow.runoff()
    valid(ctx, m)
    for k in range(n):
        ctx.claim_le("water-holding-capacity", get(m, "liquid_water_content", k), cap[k], 1e-6)


@scenario(
    params={
        f"{meth}-n{n}": dict(n=n, method=meth, **({"_tiers": ("thorough",)} if n > 2 else {}))
        for n in range(1, 4)
        for meth in ("anderson", "empirical")
    }
)
def compaction(ctx, n, method):
    m = ml.model(ctx, snow={"compaction": {"method": method}})
    ml.snowpack(ctx, m, n)
    m.state.meteo.temp[I, J] = ml.maybe_nan(ctx, "ta", 230, 300)
    m.snow.compaction()
    valid(ctx, m)
    for k in range(n):
        ctx.claim_lt("layer-remains", 0, get(m, "thickness", k))


@scenario(params=N4)
def update_layers(ctx, n):
    m = ml.model(ctx)
    ml.snowpack(ctx, m, n, ablated=True)
    for k in range(n):
        if get(m, "thickness", k) == 0:
            m.state.snow.liquid_water_content[k, I, J] = 0.0
    m.snow.update_properties()
    d0 = get(m, "depth")
    m.snow.update_layers()
    valid(ctx, m)
    nn = get(m, "num_layers")
    for k in range(nn):
        ctx.claim_lt("layer-thick", 0, get(m, "thickness", k))
    if d0 >= 1e-6:
        ctx.claim("snow-has-layers", nn >= 1)
        for k in range(nn):
            ctx.claim_eq(
                "density", get(m, "density", k) * get(m, "thickness", k),
                get(m, "ice_content", k) + get(m, "liquid_water_content", k), 1e-6,
            )
        ctx.claim("albedo-kept", get(m, "albedo") == get(m, "albedo"))
    elif d0 == 0:
        ctx.claim("no-layers", nn == 0)
        ctx.claim("albedo-cleared", isnan(get(m, "albedo")))


@scenario
def thin_remainder(ctx):
    """A numerically thin remainder is either kept as a layer or removed with everything that belongs to it."""
    m = ml.model(ctx)
    ml.snowpack(ctx, m, 1)
    s = m.state.snow
    th = ctx.real("thin", 1e-8, 2e-6)
    s.thickness[0, I, J] = th
    s.ice_content[0, I, J] = 300 * th
    s.liquid_water_content[0, I, J] = 10 * th
    m.snow.update_properties()
    m.snow.update_layers()
    valid(ctx, m)
    if get(m, "num_layers") == 0:
        ctx.claim("albedo-cleared", isnan(get(m, "albedo")))
    else:
        ctx.claim_lt("layer-thick", 0, get(m, "thickness", 0))
        ctx.claim("albedo-kept", not isnan(get(m, "albedo")))
    totals(ctx, m)
