"""Cryo layer scheme: layer transitions and consistency of the layer state."""
from symex.api import *

from . import _cl as cl
from ._cl import FIRN, I, ICE, J, NEW, NL, OLD, get, layers

scenario = Registry()
BOUNDS = (
    "one pixel, every subset of the four cryo layers, layer thickness 1e-4..20 m, ice 0.001..1000 kg/m2, liquid water "
    "0..100 kg/m2 in the snow layers, arbitrary layer albedo and cold content; dates before, at and after the start of the "
    "firn transition month (October by default, also June; old snow alone: every month)"
)
OUTSIDE = "rounding"


def claim_state(ctx, m, reset=True):
    """Reported values are consistent with the layers."""
    n = 0
    for k in range(NL):
        th, ice, lw = get(m, "thickness", k), get(m, "ice_content", k), get(m, "liquid_water_content", k)
        ctx.claim_ge("thickness-nonneg", th, 0, 0)
        ctx.claim_ge("ice-nonneg", ice, 0, 1e-9)
        ctx.claim_ge("liquid-nonneg", lw, 0, 1e-9)
        if th > 0:
            n += 1
            ctx.claim_lt("layer-has-mass", 0, ice + lw)
            ctx.claim_eq("density-consistent", get(m, "density", k) * th, ice + lw, 1e-6)
        else:
            ctx.claim_eq("empty-ice", ice, 0, 0)
            ctx.claim_eq("empty-liquid", lw, 0, 0)
            if reset:
                ctx.claim_eq("empty-cold-content", get(m, "cold_content", k), 0, 0)
                ctx.claim("empty-albedo", isnan(get(m, "layer_albedo", k)))
    return n


def _transition(ctx, p, idx, month):
    dates = ("2020-09-30 21:00", "2020-10-01 03:00") if month == 10 else ("2020-05-31 21:00", "2020-06-01 03:00")
    m = cl.model(ctx, start_date=dates[0], end_date=dates[1], snow={"cryolayers": {"transition": {"firn": month}}})
    m.date_idx = idx
    m.date = m.dates[idx]
    cl.pack(ctx, m, p)
    old = {v: layers(m, v) for v in cl.VARS}
    # expected: masses moved along the chain
    ice, lwc, cc = list(old["ice_content"]), list(old["liquid_water_content"]), list(old["cold_content"])
    rho, alb = list(old["density"]), list(old["layer_albedo"])
    exists = [bool(p >> k & 1) for k in range(NL)]

    def move(a, b):
        if not exists[a]:
            return
        if exists[b]:
            w1, w2 = ice[a] + lwc[a], ice[b] + lwc[b]
            rho[b] = (w1 * rho[a] + w2 * rho[b]) / (w1 + w2)
            alb[b] = (w1 * alb[a] + w2 * alb[b]) / (w1 + w2)
        else:
            rho[b], alb[b] = rho[a], alb[a]
        for x in (ice, lwc, cc):
            x[b] = x[b] + x[a]
            x[a] = 0.0
        exists[a], exists[b] = False, True

    m.snow.update_layers()
    if exists[NEW] and rho[NEW] >= 200.0:
        move(NEW, OLD)
    if idx == 1:
        move(OLD, FIRN)
    if exists[FIRN] and rho[FIRN] >= 900.0:
        move(FIRN, ICE)
    n = claim_state(ctx, m)
    ctx.claim("layer-count", n == sum(exists) and get(m, "num_layers") == n)
    for k in range(NL):
        ctx.claim("layer-exists", bool(get(m, "thickness", k) > 0) == exists[k], f"layer {k}")
        ctx.claim_eq("ice", get(m, "ice_content", k), ice[k], 1e-7)
        ctx.claim_eq("liquid", get(m, "liquid_water_content", k), lwc[k], 1e-7)
        ctx.claim_eq("cold-content", get(m, "cold_content", k), cc[k], 1e-7)
        if exists[k]:
            ctx.claim_eq("density", get(m, "density", k), rho[k], 1e-6)
            ctx.claim_eq("albedo", get(m, "layer_albedo", k), alb[k], 1e-9)
    ctx.claim_eq("depth", get(m, "depth"), ssum(layers(m, "thickness")), 1e-9)
    cl.observe(ctx, m)


for _d, _i in (("start", 0), ("firn", 1), ("after", 2)):
    for _g in range(2):

        @scenario(name=f"transition[{_d}-{_g}]", params={
            f"{k}-{mo}": dict(p=p, idx=_i, month=mo, _tiers=("quick", "thorough") if mo == 10 else ("thorough",))
            for k, p in cl.PRESENT.items() for mo in (10, 6) if p & 1 == _g
        }, merged=True, max_paths=5000, weight=5)
        def transition(ctx, p, idx, month):
            _transition(ctx, p, idx, month)


@scenario(params={f"{mo}-{ts}": dict(month=mo, ts=ts, _tiers=("quick", "thorough") if (mo, ts) in ((1, "3h"), (12, "3h"), (1, "5D"), (10, "5D")) else ("thorough",)) for mo in range(1, 13) for ts in ("3h", "5D")}, merged=True)
def transition_month(ctx, month, ts):
    """Old snow becomes firn in the first time step of the month and in no other one, also in the first month of the year."""
    import pandas as pd

    first = pd.Timestamp(2019 + (month < 7), month, 1)
    d = pd.Timedelta(ts)
    start = first - 2 * d + (d / 5 * 2 if ts == "5D" else d * 0)
    freq = {} if ts == "3h" else {"output_data": {"timeseries": {"write_freq": "5D"}}}
    m = cl.model(ctx, timestep=ts, start_date=str(start), end_date=str(start + 9 * d), snow={"cryolayers": {"transition": {"firn": month}}}, **freq)
    k = ctx.choose(6, "step") if ts == "3h" else ctx.choose(10, "step")
    m.date_idx, m.date = k, m.dates[k]
    cl.pack(ctx, m, 0b0010)
    ice, lwc = get(m, "ice_content", OLD), get(m, "liquid_water_content", OLD)
    m.snow.update_layers()
    now = k > 0 and m.dates[k].month == month != m.dates[k - 1].month
    old, gone = (0.0, 1.0) if now else (1.0, 0.0)
    for v, x in (("ice_content", ice), ("liquid_water_content", lwc)):
        ctx.claim_eq("old", get(m, v, OLD), old * x, 1e-9)
        ctx.claim_eq("firn", get(m, v, FIRN) + get(m, v, ICE), gone * x, 1e-9)


@scenario(params={k: dict(p=p) for k, p in cl.PRESENT.items()}, merged=True)
def properties(ctx, p):
    """Totals, surface layer and albedo reported for the topmost layer."""
    m = cl.model(ctx)
    cl.pack(ctx, m, p)
    m.snow.update_properties()
    m.snow.update_surface_layer_type()
    claim_state(ctx, m)
    ctx.claim_eq("swe", get(m, "swe"), cl.mass(m), 1e-7)
    ctx.claim_eq("depth", get(m, "depth"), ssum(layers(m, "thickness")), 1e-9)
    top = next((k for k in range(NL) if p >> k & 1), None)
    ctx.claim("surface-layer", m.state.surface.layer_type[I, J] == (-1 if top is None else top))
    if top is None:
        ctx.claim("no-albedo", isnan(get(m, "albedo")))
    else:
        ctx.claim_eq("albedo-of-top-layer", get(m, "albedo"), get(m, "layer_albedo", top), 0)


@scenario(params={
    f"{k}-{ta}-{sg}": dict(p=p, ta=ta, single=sg)
    for k, p in cl.PRESENT.items() for ta in (265.0, 275.0) for sg in (True, False)
}, merged=True)
def albedo_aging(ctx, p, ta, single):
    import math

    m = cl.model(ctx, snow={"cryolayers": {"use_single_snow_albedo": single}})
    s = m.state
    cl.pack(ctx, m, p)
    s.meteo.temp[I, J] = ta
    s.surface.temp[I, J] = ta
    s.meteo.snowfall[I, J] = 0.0
    a0 = layers(m, "layer_albedo")
    m.snow.albedo_aging()
    m.snow.update_properties()
    a = m.config.snow.albedo
    tau = a.melting_snow_decay_timescale if ta > 273.15 else a.cold_snow_decay_timescale
    f = math.exp(-3.0 / tau)
    top = next((k for k in range(NL) if p >> k & 1), None)
    if top is None:
        ctx.claim("no-albedo", isnan(get(m, "albedo")))
        return
    if top in (NEW, OLD):
        ctx.claim_eq("snow-albedo-decays", get(m, "albedo"), a.min + (a0[top] - a.min) * f, 1e-7)
        if top == NEW and p >> OLD & 1:
            if single:
                ctx.claim_eq("single-albedo", get(m, "layer_albedo", OLD), get(m, "layer_albedo", NEW), 1e-9)
            else:
                ctx.claim_eq("buried-albedo-kept", get(m, "layer_albedo", OLD), a0[OLD], 1e-9)
    else:
        ctx.claim_eq("firn-ice-albedo", get(m, "albedo"), a.firn if top == FIRN else a.ice, 1e-9)
    ctx.observe("a", [get(m, "albedo")])


@scenario(params={f"{k}-{dt}": dict(p=p, dt=dt) for k, p in cl.PRESENT.items() if p & 12 and not p & 3 for dt in ("3h", "D")}, merged=True)
def firn_densification(ctx, p, dt):
    """Firn turns into ice density within ten years at a constant rate; glacier ice keeps its density."""
    m = cl.model(ctx, timestep=dt)
    cl.pack(ctx, m, p)
    m.state.meteo.temp[I, J] = 265.0
    r0 = get(m, "density", FIRN)
    m.snow.compaction()
    h = 3.0 if dt == "3h" else 24.0
    if p >> FIRN & 1:
        ctx.claim_eq("rate", get(m, "density", FIRN) - r0, 400.0 / (24 * 365.25 * 10) * h, 1e-5 * h)
        ctx.claim_eq("thickness", get(m, "thickness", FIRN) * get(m, "density", FIRN), get(m, "ice_content", FIRN), 1e-6)
    if p >> ICE & 1:
        ctx.claim_eq("ice-density", get(m, "density", ICE), 900.0, 1e-9)
        ctx.claim_eq("ice-thickness", get(m, "thickness", ICE) * 900.0, get(m, "ice_content", ICE), 1e-6)


@scenario(params={k: dict(p=cl.PRESENT[k]) for k in ("N", "O", "NO", "OI")}, merged=True, weight=4)
def sequence(ctx, p):
    """Melt, sublimation, runoff and layer update leave a consistent state."""
    m = cl.model(ctx)
    s = m.state
    cl.concrete_pack(ctx, m, p)
    ice = ssum(layers(m, "ice_content"))
    s.snow.melt[I, J] = smin(ctx.real("melt", 0, 300), ice)
    s.surface.moisture_flux[I, J] = ctx.real("moisture_flux", -0.005, 0.005)
    s.meteo.rainfall[I, J] = 2.0
    s.meteo.wet_bulb_temp[I, J] = 270.0
    m.snow.melt()
    m.snow.sublimation()
    m.snow.runoff()
    m.snow.update_properties()
    m.snow.update_layers()
    n = claim_state(ctx, m)
    ctx.claim("layer-count", get(m, "num_layers") == n)
    for k in range(NL):
        if get(m, "thickness", k) > 0:
            ctx.claim("albedo-known", not isnan(get(m, "layer_albedo", k)))
            ctx.claim_ge("density-min", get(m, "density", k), 40, 0)
    cl.observe(ctx, m)
