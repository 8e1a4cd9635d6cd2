"""
Canopy snow interception.

The real CanopyModel.snow runs with symbolic load, snowfall, rain, temperature, humidity, wind and radiation; the oracle is the
water balance of the canopy and the documented interception, sublimation and melt unload formulas.
"""
from symex.api import *

from ._can import A, B, C, D, hash_str, model
from ._ml import T0

scenario = Registry()
BOUNDS = (
    "four pixels (two forest classes, no forest, unknown class); intercepted load 0..100 kg/m2 (also above capacity), snowfall and rain 0..100 kg/m2 or "
    "missing, temperature 230..310 K or missing, humidity, wind and radiation; effective leaf area index 0, 0.5, 3.7 and 10.2; steps 1 h, 3 h, 24 h"
)
OUTSIDE = "fate of melt unload in time steps with missing precipitation; rounding"
R = 500e-6
PM = 4.0 / 3.0 * np.pi * 917.0 * R**3


def put(m, p, load, snow, rain, temp, lai, hum=70.0, wind=2.0, albedo=0.7, sw=300.0, es=500.0):
    s = m.state
    s.snow.canopy_intercepted_load[p] = load
    s.land_cover.lai_eff[p] = lai
    s.surface.albedo[p] = albedo
    for n, v in dict(snowfall=snow, rainfall=rain, temp=temp, rel_hum=hum, wind_speed=wind, top_canopy_sw_in=sw, sat_vap_press=es).items():
        s.meteo[n][p] = v
    s.meteo.precip[p] = snow + rain


def quiet(m, pixels):
    for p in pixels:
        put(m, p, 1.0 if p in (A, B) else float("nan"), 2.0, 1.0, 272.0, 5.0 if p in (A, B) else float("nan"))


def balance(ctx, m, p, load, snow, rain, lai, temp, dt):
    s = m.state
    g = lambda v: s.snow[v][p]
    icpt, sub, melt, after = g("canopy_intercepted_snowfall"), g("canopy_sublimation"), g("canopy_melt"), g("canopy_intercepted_load")
    cap = 4.4 * lai
    ctx.claim_eq("load-balance", after, load + icpt - sub - melt, 1e-6)
    ctx.claim_ge("load", after, 0.0, 1e-6)
    ctx.claim_ge("intercepted", icpt, 0.0, 0)
    ctx.claim_ge("sublimation", sub, 0.0, 0)
    ctx.claim_ge("melt", melt, 0.0, 1e-9)
    ctx.claim_le("not-overfilled", after, smax(load, cap), 1e-6)
    if not isnan(snow):
        ctx.claim_le("intercepted-max", icpt, 0.7 * snow, 1e-6)
        ctx.claim_eq("throughfall", s.meteo.snowfall[p], snow - icpt + melt, 1e-6)
        ctx.claim_eq("rain-kept", s.meteo.rainfall[p], rain, 0)
        ctx.claim_eq("precip", s.meteo.precip[p], snow - icpt + melt + rain, 1e-6)
    if not isnan(temp):
        pot = 5.0 * smax(temp - T0, 0.0) * dt / 86400.0
        ctx.claim_eq("unload", melt, smin(pot, load + icpt - sub), 1e-6)
    else:
        ctx.claim_eq("unload-missing", melt, 0.0, 0)
    return icpt, sub


DT = {"h": 3600.0, "3h": 10800.0, "D": 86400.0}


@scenario(params={f"{d}-{l}": dict(dt=d, lai=l, deciduous=q, _tiers=("quick", "thorough") if i in (0, 4, 8) else ("thorough",))
                  for i, (d, l, q) in enumerate((d, l, q) for q, d in enumerate(DT) for l in (3.7, 0.5, 10.2))}, merged=True)
def water(ctx, dt, lai, deciduous):
    """Canopy water balance for every load, precipitation and weather."""
    m = model(ctx, timestep=dt)
    p, q = (B, A) if deciduous == 1 else (A, B)
    quiet(m, (A, B, C, D))
    load, snow, rain = ctx.real("load", 0, 100), ctx.real("snow", 0, 100), ctx.real("rain", 0, 100)
    temp = ctx.real("temp", 230, 310)
    put(m, p, load, snow, rain, temp, lai, hum=ctx.real("hum", 0, 100))
    m.canopy.snow()
    ctx.observe("load", [m.state.snow.canopy_intercepted_load[p]])
    icpt, sub = balance(ctx, m, p, load, snow, rain, lai, temp, DT[dt])
    cap = 4.4 * lai
    if load < cap:
        ctx.claim_eq("interception", icpt, 0.7 * (cap - load) * (1 - sexp(-snow / cap)), 1e-6)
    else:
        ctx.claim_eq("full", icpt, 0.0, 1e-9)
    # other pixels
    for o in (C, D):
        ctx.claim_eq("no-forest", m.state.meteo.snowfall[o], 2.0, 0)
        ctx.claim_eq("no-forest-precip", m.state.meteo.precip[o], 3.0, 0)
        ctx.claim("no-forest-load", isnan(m.state.snow.canopy_intercepted_load[o]), "load outside of the forest")
    ctx.claim_le("other-forest", m.state.snow.canopy_intercepted_load[q], 3.0, 0)


MISS = ("snow", "temp", "hum", "wind", "all", "zero-lai", "zero-lai-snow")


@scenario(params={x: dict(what=x) for x in MISS}, merged=True)
def missing(ctx, what):
    """The canopy storage survives missing weather data and leafless canopies."""
    m = model(ctx)
    quiet(m, (A, B, C, D))
    nan = float("nan")
    load, snow, temp = ctx.real("load", 0, 60), ctx.real("snow", 0, 50), ctx.real("temp", 250, 290)
    hum, wind, rain, lai = 50.0, 2.0, 1.0, 5.0
    if what in ("snow", "all"):
        snow = rain = nan
    if what in ("temp", "all"):
        temp = nan
    if what in ("hum", "all"):
        hum = nan
    if what in ("wind", "all"):
        wind = nan
    if what.startswith("zero"):
        lai = 0.0
        if what == "zero-lai":
            snow = 0.0
    put(m, A, load, snow, rain, temp, lai, hum=hum, wind=wind)
    m.canopy.snow()
    ctx.observe("load", [m.state.snow.canopy_intercepted_load[A]])
    icpt, sub = balance(ctx, m, A, load, snow, rain, lai, temp, 10800.0)
    if what in ("temp", "hum", "wind", "all"):
        ctx.claim_eq("no-sublimation", sub, 0.0, 0)
    if what in ("snow", "all"):
        ctx.claim_eq("no-interception", icpt, 0.0, 0)
    if lai == 0:
        ctx.claim_eq("no-leaves", icpt, 0.0, 0)


W = [dict(temp=263.0, hum=60.0, wind=3.0, albedo=0.7, sw=400.0, es=260.0), dict(temp=272.0, hum=30.0, wind=0.001, albedo=0.5, sw=0.0, es=560.0),
     dict(temp=255.0, hum=100.0, wind=20.0, albedo=0.8, sw=800.0, es=125.0), dict(temp=270.0, hum=100.0, wind=1.0, albedo=0.9, sw=0.0, es=470.0)]


@scenario(params={f"{w}-{d}": dict(w=w, dt=d) for w in range(len(W)) for d in ("h", "D")}, merged=True)
def sublimation(ctx, w, dt):
    """Sublimation of the load for several weather situations."""
    m = model(ctx, timestep=dt)
    quiet(m, (A, B, C, D))
    x = W[w]
    load = ctx.real("load", 0, 40)
    put(m, A, load, 0.0, 0.0, x["temp"], 5.0, x["hum"], x["wind"], x["albedo"], x["sw"], x["es"])
    m.canopy.snow()
    sub = m.state.snow.canopy_sublimation[A]
    t = x["temp"]
    sp = np.pi * R**2 * (1 - x["albedo"]) * x["sw"]
    nu = 1.79 + 0.606 * min(max(2 * R * x["wind"] / 1.3e-5, 0.7), 10) ** 0.5
    dens = 0.622 * x["es"] / (461.52 * t)
    dv = 2.06e-5 * (t / 273) ** 1.75
    ls = 2.501e6 + 0.334e6
    om = (ls * 0.0180153 / (8.314462618 * t) - 1) / (0.025 * t * nu)
    rate = (2 * np.pi * R * (x["hum"] / 100 - 1) - sp * om) / (ls * om + 1 / (dv * dens * nu)) / PM
    if load == 0:
        ctx.claim_eq("empty", sub, 0.0, 0)
        return
    exp = 0.01 * core.fn_pow(load / 22.0, -0.4) * load * (-rate * DT[dt])
    ctx.claim_eq("rate", sub, smax(smin(exp, load), 0.0), 1e-4)


@scenario
def initial(ctx):
    """Forest starts without intercepted snow; steps chain through the storage."""
    m = model(ctx)
    for p in (A, B):
        m.state.snow.canopy_intercepted_load[p] = float("nan")
    m.canopy.initialize()
    for p in (A, B):
        ctx.claim_eq("start", m.state.snow.canopy_intercepted_load[p], 0.0, 0)
    quiet(m, (C, D, B))
    total, ground, subl = 0.0, 0.0, 0.0
    for k in range(2):
        sn = ctx.real(f"snow{k}", 0, 30)
        put(m, A, m.state.snow.canopy_intercepted_load[A], sn, 0.0, 276.0, 3.7 if k == 0 else 0.4)
        m.canopy.snow()
        total = total + sn
        ground = ground + m.state.meteo.snowfall[A]
        subl = subl + m.state.snow.canopy_sublimation[A]
    ctx.claim_eq("two-steps", total, ground + subl + m.state.snow.canopy_intercepted_load[A], 1e-6)
