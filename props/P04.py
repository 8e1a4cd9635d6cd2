"""Multilayer snowpack: melt and refreezing are paid for with energy."""
from symex.api import *

from . import _ml as ml
from ._ml import I, J, LF, NL, T0, get, layers

scenario = Registry()
BOUNDS = (
    "one pixel, 1-3 layers, thickness 1e-4..3 m, ice 0.001..1000 kg/m2, liquid water 0..100 kg/m2, layer "
    "temperatures 220..283 K, potential melt 0..500 kg/m2, rain 0..100 kg/m2 or missing; four and five layers: given thickness and ice, "
    "water and temperature of one layer arbitrary"
)
OUTSIDE = "more than 5 layers; rounding"


def excess_heat(old):
    e = 0.0
    for h, t in zip(old["heat_cap"], old["temp"]):
        if t > T0:
            e = e + h * (t - T0)
    return e


def state(m, n):
    return {
        v: [get(m, v, k) for k in range(n)]
        for v in ("ice_content", "liquid_water_content", "temp", "heat_cap", "thickness")
    }


@scenario(params={f"n{n}": dict(n=n) for n in range(1, 4)})
def melt(ctx, n):
    m = ml.model(ctx)
    ml.snowpack(ctx, m, n, max_temp=283)
    pot = ctx.real("melt", 0, 500)
    m.state.snow.melt[I, J] = pot
    old = state(m, n)
    exc = excess_heat(old)
    m.snow.melt()
    new = state(m, n)
    melted = [a - b for a, b in zip(old["ice_content"], new["ice_content"])]
    total = ssum(melted)
    ctx.claim_eq("reported", get(m, "melt"), total, 1e-7)
    ctx.claim_le("not-more-than-energy", total * LF, pot * LF + exc, 1e-1)
    for k in range(n):
        ctx.claim_ge("melts-only", melted[k], 0, 1e-9)
        ctx.claim_eq(
            "becomes-liquid", new["liquid_water_content"][k] - old["liquid_water_content"][k], melted[k], 1e-7
        )
        t0, t1 = old["temp"][k], new["temp"][k]
        if t0 > T0:
            ctx.claim_eq("excess-heat-used", t1, T0, 1e-9)
        else:
            ctx.claim_eq("cold-layer-temp", t1, t0, 1e-9)
    if new["ice_content"][n - 1] > 0:
        ctx.claim_eq("all-energy-used", total * LF, pot * LF + exc, 1e-1)
        # no ice survives above a layer that was reached by the energy of the surface
    ml.observe(ctx, m)


@scenario(params={f"n{n}": dict(n=n) for n in range(2, 4)})
def melt_from_top(ctx, n):
    """Without internal excess heat melt progresses downwards: a layer melts only after those above are gone."""
    m = ml.model(ctx)
    ml.snowpack(ctx, m, n)
    m.state.snow.melt[I, J] = ctx.real("melt", 0, 500)
    old = state(m, n)
    m.snow.melt()
    new = state(m, n)
    for k in range(1, n):
        if old["ice_content"][k] - new["ice_content"][k] > 1e-9:
            ctx.claim_le("upper-layers-gone", ssum(new["ice_content"][:k]), 0, 1e-7)
    ml.observe(ctx, m)


@scenario(
    params={
        f"{meth}-n{n}": dict(n=n, method=meth, **({"_tiers": ("thorough",)} if n > 2 else {}))
        for n in range(1, 4)
        for meth in ("pore_volume_fraction", "mass_fraction")
    }
)
def refreeze(ctx, n, method):
    m = ml.model(ctx, snow={"liquid_water_content": {"method": method}})
    ml.snowpack(ctx, m, n)
    m.state.meteo.rainfall[I, J] = ml.maybe_nan(ctx, "rain", 0, 100)
    old = state(m, n)
    m.snow.runoff()
    new = state(m, n)
    frozen = [b - a for a, b in zip(old["ice_content"], new["ice_content"])]
    ctx.claim_eq("reported", get(m, "refreezing"), ssum(frozen), 1e-7)
    for k in range(n):
        ctx.claim_ge("freezes-only", frozen[k], 0, 1e-9)
        dt = new["temp"][k] - old["temp"][k]
        ctx.claim_eq("latent-heat-warms", frozen[k] * LF, old["heat_cap"][k] * dt, 1.0)
        ctx.claim_le("not-above-melting-point", new["temp"][k], T0, 1e-6)
        if new["liquid_water_content"][k] > 1e-6:
            ctx.claim_ge("water-only-at-melting-point", new["temp"][k], T0, 1e-6)
    ml.observe(ctx, m)


@scenario
def no_snow(ctx):
    m = ml.model(ctx)
    ml.snowpack(ctx, m, 0)
    m.state.snow.melt[I, J] = ctx.real("melt", 0, 50)
    m.state.meteo.rainfall[I, J] = ctx.real("rain", 0, 50)
    m.snow.melt()
    m.snow.runoff()
    ctx.claim_eq("no-melt", get(m, "melt"), 0, 0)
    ctx.claim_eq("no-refreezing", get(m, "refreezing"), 0, 0)
    ctx.claim_eq("rain-runs-off", get(m, "runoff"), m.state.meteo.rainfall[I, J], 1e-9)


@scenario(params={f"n{n}": dict(n=n, _tiers=("quick", "thorough") if n == 5 else ("thorough",)) for n in (4, 5)}, merged=True)
def many_layers_melt(ctx, n):
    m = ml.five(ctx, n)
    pot = ctx.real("melt", 0, 500)
    m.state.snow.melt[I, J] = pot
    old = state(m, n)
    m.snow.melt()
    new = state(m, n)
    # from top to bottom: excess heat of the layer joins the energy left over by the layers above
    left, total = pot, 0.0
    for k in range(n):
        hot = old["temp"][k] > T0
        left = left + (old["heat_cap"][k] * (old["temp"][k] - T0) / LF if hot else 0.0)
        x = smin(left, old["ice_content"][k])
        left, total = left - x, total + x
        ctx.claim_eq("ice", new["ice_content"][k], old["ice_content"][k] - x, 1e-5)
        ctx.claim_eq("becomes-liquid", new["liquid_water_content"][k], old["liquid_water_content"][k] + x, 1e-5)
        ctx.claim_eq("temperature", new["temp"][k], T0 if hot else old["temp"][k], 1e-9)
    ctx.claim_eq("reported", get(m, "melt"), total, 1e-5)


@scenario(params={f"{meth}-n{n}": dict(n=n, method=meth, _tiers=("quick", "thorough") if n == 5 and meth[0] == "p" else ("thorough",)) for n in (4, 5) for meth in ("pore_volume_fraction", "mass_fraction")}, merged=True)
def many_layers_refreeze(ctx, n, method):
    m = ml.five(ctx, n, liquid_water_content={"method": method})
    m.state.snow.temp[:n, I, J] = [min(t, T0) if isinstance(t, float) else smin(t, T0) for t in m.state.snow.temp[:n, I, J]]
    m.state.meteo.rainfall[I, J] = rain = ctx.real("rain", 0, 100)
    old = state(m, n)
    m.snow.runoff()
    new = state(m, n)
    frozen = [b - a for a, b in zip(old["ice_content"], new["ice_content"])]
    ctx.claim_eq("reported", get(m, "refreezing"), ssum(frozen), 1e-7)
    water = lambda d: ssum(d["ice_content"]) + ssum(d["liquid_water_content"])  # noqa: E731
    ctx.claim_eq("closes", water(new), water(old) + rain - get(m, "runoff"), 1e-6)
    for k in range(n):
        ctx.claim_ge("freezes-only", frozen[k], 0, 1e-9)
        ctx.claim_eq("latent-heat-warms", frozen[k] * LF, old["heat_cap"][k] * (new["temp"][k] - old["temp"][k]), 1.0)
        ctx.claim_le("not-above-melting-point", new["temp"][k], T0, 1e-6)
