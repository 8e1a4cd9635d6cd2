"""Cryo layer scheme: water is conserved."""
from symex.api import *

from . import _cl as cl
from ._cl import FIRN, I, ICE, J, NL, NEW, OLD, get, layers, mass

scenario = Registry()
BOUNDS = (
    "one pixel, every subset of the four cryo layers (new snow, old snow, firn, ice), layer thickness 1e-4..20 m, ice "
    "0.001..1000 kg/m2, liquid water 0..100 kg/m2 in the snow layers, snowfall/rainfall 0..100 kg/m2 or missing, "
    "time step 3 h"
)
OUTSIDE = "rounding"
ASSUMPTIONS = [
    "step scenario: radiation, soil, surface energy balance and densification are replaced by arbitrary melt and moisture flux",
]


@scenario(params={k: dict(p=p) for k, p in cl.SOME.items()}, merged=True)
def accumulation(ctx, p):
    m = cl.model(ctx)
    cl.pack(ctx, m, p)
    sf = cl.maybe_nan(ctx, "snowfall", 0, 100)
    m.state.meteo.snowfall[I, J] = sf
    m.state.meteo.wet_bulb_temp[I, J] = cl.maybe_nan(ctx, "tw", 250, 280)
    w0, th0 = mass(m), get(m, "thickness", NEW)
    others = [(get(m, "ice_content", k), get(m, "liquid_water_content", k), get(m, "thickness", k)) for k in range(1, NL)]
    m.snow.accumulation()
    m.snow.update_properties()
    add = 0.0 if isnan(sf) else sf
    ctx.claim_eq("snowfall-added", mass(m), w0 + add, 1e-7)
    ctx.claim_eq("swe-reported", get(m, "swe"), mass(m), 1e-7)
    for k in range(1, NL):
        for a, v in zip(others[k - 1], ("ice_content", "liquid_water_content", "thickness")):
            ctx.claim_eq("other-layers-untouched", get(m, v, k), a, 0)
    if add > 0:
        ctx.claim_le("fresh-density-min", 50 * (get(m, "thickness", NEW) - th0), add, 1e-7)
        ctx.claim_le("fresh-density-max", add, 500 * (get(m, "thickness", NEW) - th0), 1e-7)
    cl.observe(ctx, m)


@scenario(params={k: dict(p=p) for k, p in cl.SOME.items()}, merged=True)
def melt(ctx, p):
    m = cl.model(ctx)
    cl.pack(ctx, m, p)
    ice0, l0, th0 = layers(m, "ice_content"), layers(m, "liquid_water_content"), layers(m, "thickness")
    mlt = ctx.real("melt", 0, 3000)
    ctx.assume((core.to_expr(mlt) <= core.to_expr(ssum(ice0))) if ctx.symbolic else mlt <= ssum(ice0) + 1e-9)
    m.state.snow.melt[I, J] = mlt
    m.snow.melt()
    ice1, l1, th1 = layers(m, "ice_content"), layers(m, "liquid_water_content"), layers(m, "thickness")
    ctx.claim_eq("melt-equals-ice-loss", ssum(ice0) - ssum(ice1), mlt, 1e-7)
    for k in range(NL):
        ctx.claim_eq("layer-water", ice1[k] + l1[k], ice0[k] + l0[k], 1e-7)
        ctx.claim_ge("nonneg", ice1[k], 0, 1e-9)
        ctx.claim_le("melts-only", ice1[k], ice0[k], 1e-9)
        ctx.claim_eq("thins-proportionally", th1[k] * ice0[k], th0[k] * ice1[k], 1e-6)
        if ice0[k] - ice1[k] > 1e-6:
            for q in range(k):
                ctx.claim_le("from-the-top", ice1[q], 0, 1e-6)
    ctx.claim_eq("reported-unchanged", get(m, "melt"), mlt, 0)
    cl.observe(ctx, m)


@scenario(params={k: dict(p=p) for k, p in cl.SOME.items()}, merged=True)
def sublimation(ctx, p):
    m = cl.model(ctx)
    cl.pack(ctx, m, p)
    m.state.surface.moisture_flux[I, J] = cl.maybe_nan(ctx, "moisture_flux", -0.1, 0.1)
    m.state.meteo.wet_bulb_temp[I, J] = cl.maybe_nan(ctx, "tw", 250, 280)
    ice0, l0 = layers(m, "ice_content"), layers(m, "liquid_water_content")
    m.snow.sublimation()
    sub = get(m, "sublimation")
    ice1, l1 = layers(m, "ice_content"), layers(m, "liquid_water_content")
    ctx.claim_eq("closes", ssum(ice0) - ssum(ice1), sub, 1e-7)
    mf = m.state.surface.moisture_flux[I, J]
    ctx.claim_le("not-more-than-ice", sub, ssum(ice0), 1e-9)
    for k in range(NL):
        ctx.claim_eq("liquid-untouched", l1[k], l0[k], 0)
        ctx.claim_ge("nonneg", ice1[k], 0, 1e-9)
    if p and not isnan(mf):
        ctx.claim_eq("follows-moisture-flux", sub, smin(-mf * 10800.0, ssum(ice0)), 1e-7)
    else:
        ctx.claim_eq("no-sublimation", sub, 0, 0)
    cl.observe(ctx, m)


@scenario(params={f"{k}-{me}": dict(p=p, me=me) for k, p in cl.SOME.items() for me in ("pore_volume_fraction", "mass_fraction")}, merged=True)
def runoff(ctx, p, me):
    m = cl.model(ctx, snow={"liquid_water_content": {"method": me}})
    cl.pack(ctx, m, p)
    rain = cl.maybe_nan(ctx, "rain", 0, 100)
    m.state.meteo.rainfall[I, J] = rain
    w0 = mass(m)
    ice0 = layers(m, "ice_content")
    m.snow.runoff()
    r = get(m, "runoff")
    ctx.claim_eq("closes", mass(m), w0 + (0.0 if isnan(rain) else rain) - r, 1e-7)
    ctx.claim_ge("runoff-nonneg", r, 0, 1e-9)
    frac = m.config.snow.liquid_water_content.max
    for k in range(NL):
        ctx.claim_eq("ice-untouched", get(m, "ice_content", k), ice0[k], 0)
        lw, th = get(m, "liquid_water_content", k), get(m, "thickness", k)
        ctx.claim_ge("nonneg", lw, 0, 1e-9)
        cap = 0.0
        if k < 2:
            cap = frac * ice0[k] if me == "mass_fraction" else frac * (1000 * th - 1000 / 917.0 * ice0[k])
        ctx.claim_le("holding-capacity", lw, cap, 1e-6)
    cl.observe(ctx, m)


@scenario(params={k: dict(p=p, _tiers=("thorough",) if "NO" in k else ("quick", "thorough")) for k, p in cl.SOME.items()}, max_paths=6000)
def compaction(ctx, p):
    m = cl.model(ctx)
    cl.pack(ctx, m, p)
    m.state.meteo.temp[I, J] = cl.maybe_nan(ctx, "temp", 240, 290)
    ice0, l0, th0 = layers(m, "ice_content"), layers(m, "liquid_water_content"), layers(m, "thickness")
    m.snow.compaction()
    for k in range(NL):
        ctx.claim_eq("ice", get(m, "ice_content", k), ice0[k], 0)
        ctx.claim_eq("liquid", get(m, "liquid_water_content", k), l0[k], 0)
        if k < 3:
            ctx.claim_le("settles", get(m, "thickness", k), th0[k], 1e-6)
    cl.observe(ctx, m)


@scenario(params={f"{k}-{d}": dict(p=p, date=d) for k, p in cl.PRESENT.items() for d in ("winter", "firn")}, merged=True, weight=8)
def update_layers(ctx, p, date):
    m = cl.model(ctx, start_date="2020-09-30 21:00", end_date="2020-10-01 06:00")
    m.date_idx = 0 if date == "winter" else 1
    m.date = m.dates[m.date_idx]
    cl.pack(ctx, m, p)
    ice0, l0, c0 = (ssum(layers(m, v)) for v in ("ice_content", "liquid_water_content", "cold_content"))
    m.snow.update_layers()
    ctx.claim_eq("ice", ssum(layers(m, "ice_content")), ice0, 1e-7)
    ctx.claim_eq("liquid", ssum(layers(m, "liquid_water_content")), l0, 1e-7)
    ctx.claim_eq("cold-content", ssum(layers(m, "cold_content")), c0, 1e-7)
    cl.observe(ctx, m)


@scenario(params={k: dict(p=cl.PRESENT[k], _tiers=("quick", "thorough") if k in ("N", "OI") else ("thorough",)) for k in ("none", "N", "O", "NO", "OI", "NOFI", "I")}, weight=9, max_paths=20000)
def step(ctx, p):
    import openamundsen.model as oamodel

    m = cl.model(ctx)
    s = m.state
    cl.concrete_pack(ctx, m, p)
    sf, rain = ctx.real("snowfall", 0, 50), ctx.real("rain", 0, 50)
    s.meteo.snowfall[I, J] = sf
    s.meteo.rainfall[I, J] = rain
    s.meteo.wet_bulb_temp[I, J] = 270.0
    s.meteo.temp[I, J] = 272.0
    s.surface.temp[I, J] = 272.0
    w0 = mass(m)

    def env(_m):
        ice = ssum(layers(m, "ice_content"))
        x = ctx.real("melt", 0, 300)
        s.snow.melt[I, J] = smin(x, ice)
        s.surface.moisture_flux[I, J] = ctx.real("moisture_flux", -0.005, 0.005)

    with stubbed(
        (m, "_irradiance", nop),
        (oamodel.surface, "surface_properties", nop),
        (oamodel.surface, "energy_balance", env),
        (m.snow, "compaction", nop),
        (oamodel.modules.soil, "soil_properties", nop),
        (oamodel.modules.soil, "soil_heat_flux", nop),
        (oamodel.modules.soil, "soil_temperature", nop),
    ):
        m._model_interface()
    change = sf + rain - get(m, "runoff") - get(m, "sublimation")
    ctx.claim_eq("layers-change", mass(m) - w0, change, 1e-6)
    ctx.claim_eq("reported-swe-change", get(m, "swe") - w0, change, 1e-6)
    cl.observe(ctx, m)
