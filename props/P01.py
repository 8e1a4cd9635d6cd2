"""Multilayer snowpack: every process conserves water, and the step closes."""
from symex.api import *

from . import _ml as ml
from ._ml import I, J, NL, get, layers, mass

scenario = Registry()
BOUNDS = (
    "one pixel, 0-3 snow layers, layer thickness 1e-4..3 m, ice 0.001..1000 kg/m2 (not denser than ice), "
    "liquid water 0..100 kg/m2, layer temperature 220 K..283 K, snowfall/rainfall 0..100 kg/m2 or missing, "
    "time step 3 h (compaction: also 1 h and 24 h); four and five layers: given thickness and ice"
)
OUTSIDE = (
    "more than 5 layers; remnants thinner than 1e-6 m, which the layer update discards by design; rounding"
)
ASSUMPTIONS = [
    "step scenario: surface energy balance, radiation, soil and conduction are replaced by arbitrary melt, "
    "moisture flux and temperatures",
]


@scenario(params={f"n{n}": dict(n=n) for n in range(4)})
def accumulation(ctx, n):
    m = ml.model(ctx)
    ml.snowpack(ctx, m, n)
    s = m.state
    sf = ml.maybe_nan(ctx, "snowfall", 0, 100)
    s.meteo.snowfall[I, J] = sf
    s.meteo.wet_bulb_temp[I, J] = ml.maybe_nan(ctx, "wb", 240, 285)
    s.meteo.temp[I, J] = ctx.real("ta", 240, 285)
    w0 = mass(m)
    th0 = ssum(layers(m, "thickness"))
    m.snow.accumulation()
    m.snow.update_properties()
    add = 0.0 if isnan(sf) else sf
    ctx.claim_eq("snowfall-added", mass(m), w0 + add, 1e-7)
    ctx.claim_eq("swe-reported", get(m, "swe"), mass(m), 1e-7)
    th1 = ssum(layers(m, "thickness"))
    ctx.claim_ge("depth-grows", th1, th0, 1e-9)
    if add > 0:
        ctx.claim("layer-exists", get(m, "num_layers") == max(n, 1))
        # fresh snow is between 50 kg/m3 and the density of water
        ctx.claim_le("fresh-density-min", 50 * (th1 - th0), add, 1e-7)
        ctx.claim_le("fresh-density-max", add, 1000 * (th1 - th0), 1e-7)
    ml.observe(ctx, m)


@scenario(params={f"n{n}": dict(n=n) for n in range(4)})
def melt(ctx, n):
    m = ml.model(ctx)
    ml.snowpack(ctx, m, n, max_temp=283)
    m.state.snow.melt[I, J] = ctx.real("melt", 0, 500)
    w0 = [a + b for a, b in zip(layers(m, "ice_content"), layers(m, "liquid_water_content"))]
    ice0 = ssum(layers(m, "ice_content"))
    m.snow.melt()
    for k in range(NL):
        ctx.claim_eq("layer-water", get(m, "ice_content", k) + get(m, "liquid_water_content", k), w0[k], 1e-7)
    ctx.claim_eq("reported-melt", get(m, "melt"), ice0 - ssum(layers(m, "ice_content")), 1e-7)
    ml.observe(ctx, m)


@scenario(params={f"n{n}": dict(n=n) for n in range(4)})
def sublimation(ctx, n):
    m = ml.model(ctx)
    ml.snowpack(ctx, m, n, ablated="top")
    s = m.state
    s.surface.moisture_flux[I, J] = ml.maybe_nan(ctx, "moisture_flux", -0.02, 0.02)
    s.surface.temp[I, J] = ctx.real("tsurf", 220, 300)
    s.meteo.wet_bulb_temp[I, J] = ctx.real("wb", 240, 285)
    s.meteo.temp[I, J] = ctx.real("ta", 240, 285)
    w0 = mass(m)
    lwc0 = ssum(layers(m, "liquid_water_content"))
    ice0 = ssum(layers(m, "ice_content"))
    m.snow.sublimation()
    sub = get(m, "sublimation")
    ctx.claim_eq("closes", w0 - mass(m), sub, 1e-7)
    ctx.claim_eq("liquid-untouched", ssum(layers(m, "liquid_water_content")), lwc0, 1e-9)
    ctx.claim_le("not-more-than-ice", sub, ice0, 1e-9)
    ml.observe(ctx, m)


@scenario(
    params={
        f"{meth}-n{n}": dict(n=n, method=meth, **({"_tiers": ("thorough",)} if n > 2 else {}))
        for n in range(4)
        for meth in ("pore_volume_fraction", "mass_fraction")
    }
)
def runoff(ctx, n, method):
    m = ml.model(ctx, snow={"liquid_water_content": {"method": method}})
    ml.snowpack(ctx, m, n, ablated=True)
    rain = ml.maybe_nan(ctx, "rain", 0, 100)
    m.state.meteo.rainfall[I, J] = rain
    w0 = mass(m)
    m.snow.runoff()
    r = get(m, "runoff")
    ctx.claim_eq("closes", mass(m), w0 + (0.0 if isnan(rain) else rain) - r, 1e-7)
    ctx.claim_ge("runoff-nonneg", r, 0, 1e-9)
    ml.observe(ctx, m)


@scenario(
    params={
        f"{meth}-{ts}-n{n}": dict(n=n, method=meth, ts=ts, **({"_tiers": ("thorough",)} if n > 2 else {}))
        for n in range(1, 4)
        for meth in ("anderson", "empirical")
        for ts in ("3h",)
    }
)
def compaction(ctx, n, method, ts):
    m = ml.model(ctx, snow={"compaction": {"method": method}}, timestep=ts)
    ml.snowpack(ctx, m, n)
    m.state.meteo.temp[I, J] = ml.maybe_nan(ctx, "ta", 230, 300)
    ice0, l0 = layers(m, "ice_content"), layers(m, "liquid_water_content")
    m.snow.compaction()
    for k in range(NL):
        ctx.claim_eq("ice-untouched", get(m, "ice_content", k), ice0[k], 0)
        ctx.claim_eq("liquid-untouched", get(m, "liquid_water_content", k), l0[k], 0)
    ml.observe(ctx, m)


@scenario(params={f"n{n}": dict(n=n) for n in range(4)}, weight=5)
def update_layers(ctx, n):
    m = ml.model(ctx)
    ml.snowpack(ctx, m, n, ablated=True)
    # water held by fully ablated layers has already drained (see runoff)
    for k in range(n):
        if get(m, "thickness", k) == 0:
            m.state.snow.liquid_water_content[k, I, J] = 0.0
    m.snow.update_properties()
    ice0, l0 = ssum(layers(m, "ice_content")), ssum(layers(m, "liquid_water_content"))
    m.snow.update_layers()
    ctx.claim_eq("ice", ssum(layers(m, "ice_content")), ice0, 1e-6)
    ctx.claim_eq("liquid", ssum(layers(m, "liquid_water_content")), l0, 1e-6)
    ml.observe(ctx, m)


PACKS = [(0.05, 10.0), (0.3, 90.0), (0.9, 300.0)]  # (thickness, ice) of the layers of the step scenario


def _step(ctx, n, method="pore_volume_fraction", ice=None):
    """A whole model step; everything that is not the snowpack is an arbitrary environment."""
    import openamundsen.model as oamodel

    m = ml.model(ctx, snow={"liquid_water_content": {"method": method}})
    s = m.state
    s.snow.num_layers[I, J] = n
    for k in range(n):
        th, ice = PACKS[k]
        s.snow.thickness[k, I, J] = th
        s.snow.ice_content[k, I, J] = ice
        s.snow.liquid_water_content[k, I, J] = ctx.real(f"lwc{k}", 0, 0.3 * th)
        s.snow.temp[k, I, J] = 273.15 - 3 * (k % 2)
    s.snow.albedo[I, J] = 0.8
    m.snow.update_properties()
    sf = ctx.real("snowfall", 0, 50)
    rain = ctx.real("rain", 0, 50)
    s.meteo.snowfall[I, J] = sf
    s.meteo.rainfall[I, J] = rain
    s.meteo.wet_bulb_temp[I, J] = 270.0
    s.meteo.temp[I, J] = 272.0
    s.surface.temp[I, J] = 272.0
    s.soil.temp[:, I, J] = 274.0
    w0 = mass(m)

    def env(_m):
        s.snow.melt[I, J] = ctx.real("melt", 0, 200)
        s.surface.moisture_flux[I, J] = ctx.real("moisture_flux", -0.005, 0.005)

    saved = {}

    def stub(obj, name, f):
        saved[(obj, name)] = getattr(obj, name)
        setattr(obj, name, f)

    nop = lambda *a, **k: None  # noqa: E731
    try:
        stub(m, "_irradiance", nop)
        stub(oamodel.surface, "surface_properties", nop)
        stub(oamodel.surface, "energy_balance", env)
        stub(m.snow, "heat_conduction", nop)
        stub(m.snow, "compaction", nop)
        stub(oamodel.modules.soil, "soil_properties", nop)
        stub(oamodel.modules.soil, "soil_heat_flux", nop)
        stub(oamodel.modules.soil, "soil_temperature", nop)
        m._model_interface()
    finally:
        for (obj, name), f in saved.items():
            setattr(obj, name, f)
            if obj is m or obj is m.snow:
                delattr(obj, name) if name in vars(obj) else None
    w1 = mass(m)
    depth = get(m, "depth")
    ctx.claim_eq("reported-swe-change", get(m, "swe") - w0, sf + rain - get(m, "runoff") - get(m, "sublimation"), 1e-6)
    if depth >= 1e-6:
        ctx.claim_eq("layers-change", w1 - w0, sf + rain - get(m, "runoff") - get(m, "sublimation"), 1e-6)
    else:
        ctx.claim_le("nothing-created", w1 - w0, sf + rain - get(m, "runoff") - get(m, "sublimation"), 1e-6)
    ml.observe(ctx, m)


@scenario(params={"n0": dict(n=0, _tiers=("thorough",)), "n1": dict(n=1)}, weight=9, max_paths=20000)
def step(ctx, n):
    _step(ctx, n)


@scenario(params={"n2": dict(n=2), "n1-mass_fraction": dict(n=1, method="mass_fraction")}, tiers=("thorough",), weight=9, max_paths=200000)
def step_deep(ctx, n, method="pore_volume_fraction"):
    _step(ctx, n, method)


@scenario(params={f"n{n}": dict(n=n) for n in (4, 5)}, merged=True)
def many_layers(ctx, n):
    """Accumulation, sublimation and snowfall on more than the default number of layers."""
    m = ml.five(ctx, n)
    s = m.state
    ice = [get(m, "ice_content", k) for k in range(n)]
    lwc = [get(m, "liquid_water_content", k) for k in range(n)]
    s.meteo.wet_bulb_temp[I, J], s.meteo.temp[I, J], s.surface.temp[I, J] = 265.0, 265.0, 268.0
    if ctx.choose(2, "process"):
        s.surface.moisture_flux[I, J] = flux = ctx.real("moisture_flux", -0.04, 0)
        left = -flux * 10800.0
        m.snow.sublimation()
        ctx.claim_eq("sublimation", get(m, "sublimation"), smin(left, ssum(ice)), 1e-6)
        for k in range(n):
            x = smin(left, ice[k])
            left = left - x
            ice[k] = ice[k] - x
    else:
        s.meteo.snowfall[I, J] = sf = ctx.real("snowfall", 0, 100)
        m.snow.accumulation()
        ice[0] = ice[0] + sf
    for k in range(n):
        ctx.claim_eq("ice", get(m, "ice_content", k), ice[k], 1e-6)
        ctx.claim_eq("liquid", get(m, "liquid_water_content", k), lwc[k], 1e-9)
