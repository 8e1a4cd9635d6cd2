"""Temperature index melt."""
from symex.api import *

from . import _cl as cl
from ._cl import I, J, NL, get, layers

scenario = Registry()
BOUNDS = (
    "one pixel, subsets of the four cryo layers, arbitrary ice content, air temperature 230..310 K, albedo, shortwave "
    "radiation; degree day factor 5.3, albedo factor 0.2, thresholds 271.15 to 273.15 K; time steps 0.5 h, 1 h, 3 h, 24 h"
)
OUTSIDE = "other factor values (melt is linear in them); rounding"
DDF, AF = 5.3, 0.2


def setup(ctx, method, thr, ts, p):
    cfg = dict(timestep=ts, snow={"melt": dict(method=method, threshold_temp=thr, degree_day_factor=DDF, albedo_factor=AF)})
    m = cl.model(ctx, **cfg)
    cl.pack(ctx, m, p)
    m.state.snow.melt[I, J] = 7.0  # stale
    return m


@scenario(params={
    f"{me}-{thr}-{ts}-{k}": dict(method=me, thr=thr, ts=ts, p=cl.PRESENT[k])
    for me in ("temperature_index", "enhanced_temperature_index") for thr, ts in ((273.15, "3h"), (271.15, "h"), (273.15, "D"), (272.15, "30min"))
    for k in ("none", "N", "O", "NO", "I", "NOFI")
}, merged=True)
def melt(ctx, method, thr, ts, p):
    m = setup(ctx, method, thr, ts, p)
    s = m.state
    t = ctx.real("T", 230, 310)
    s.meteo.temp[I, J] = t
    alb, sw = ctx.real("surf_alb", 0, 1), ctx.real("sw", 0, 1200)
    s.surface.albedo[I, J] = alb
    s.meteo.sw_in[I, J] = sw
    ice = ssum(layers(m, "ice_content"))
    before = [layers(m, v) for v in ("ice_content", "liquid_water_content", "thickness")]
    m.snow.temperature_index()
    dt = {"30min": 1 / 48, "h": 1 / 24, "3h": 0.125, "D": 1.0}[ts]
    out = get(m, "melt")
    pot = 0.0
    if t > thr:
        pot = DDF * (t - thr) * dt
        if method.startswith("enh"):
            pot = pot + AF * (1 - alb) * sw * dt
    ctx.claim_eq("melt", out, smin(pot, ice), 1e-6)
    ctx.claim_ge("nonneg", out, 0, 0)
    ctx.claim_le("limited-by-ice", out, ice, 1e-9)
    if not p:
        ctx.claim_eq("no-snow-no-melt", out, 0, 0)
    for v, b in zip(("ice_content", "liquid_water_content", "thickness"), before):
        for k in range(NL):
            ctx.claim_eq("layers-untouched", get(m, v, k), b[k], 0)
    ctx.observe("melt", [out])


@scenario(params={k: dict(p=cl.PRESENT[k]) for k in ("none", "NO")}, merged=True)
def step(ctx, p):
    """In a whole model step it is the temperature index melt that is applied to the snowpack."""
    import openamundsen.model as oamodel

    m = setup(ctx, "temperature_index", 273.15, "3h", 0)
    s = m.state
    cl.concrete_pack(ctx, m, p, lwc=False)
    t = ctx.real("T", 260, 300)
    s.meteo.temp[I, J] = t
    s.surface.temp[I, J] = 270.0
    s.meteo.snowfall[I, J] = 0.0
    s.meteo.rainfall[I, J] = 0.0
    s.meteo.wet_bulb_temp[I, J] = 270.0
    s.surface.moisture_flux[I, J] = float("nan")
    ice = ssum(layers(m, "ice_content"))
    with stubbed(
        (m, "_irradiance", nop),
        (oamodel.surface, "surface_properties", nop),
        (m.snow, "compaction", nop),
        (oamodel.modules.soil, "soil_properties", nop),
        (oamodel.modules.soil, "soil_heat_flux", nop),
        (oamodel.modules.soil, "soil_temperature", nop),
    ):
        m._model_interface()
    pot = DDF * (t - 273.15) * 0.125 if t > 273.15 else 0.0
    ctx.claim_eq("ice-melted", ice - ssum(layers(m, "ice_content")), smin(pot, ice), 1e-6)
    ctx.claim_eq("no-sublimation", get(m, "sublimation"), 0, 0)
