"""Snow densification."""
import math

from symex.api import *

from . import _cl as cl
from . import _ml as ml
from ._ml import I, J, NL, T0, get, layers

scenario = Registry()
BOUNDS = (
    "one pixel, 1-3 layers of arbitrary thickness, ice and liquid water content (not denser than ice), air temperature "
    "240..290 K or missing, layer temperatures 240..273.15 K; time steps 0.5 h, 1 h, 3 h, 24 h; fresh snow density for wet-bulb "
    "temperatures 200..290 K or missing"
)
OUTSIDE = "anderson scheme: exact rates are compared for one layer only (monotonicity for all); rounding"
HOURS = {"30min": 0.5, "h": 1.0, "3h": 3.0, "D": 24.0}


@scenario
def fresh_density(ctx):
    from openamundsen.modules.snow.snow import fresh_snow_density

    t = ml.maybe_nan(ctx, "T", 200, 290)
    rho = fresh_snow_density(arr(ctx, [t]))[0]
    if isnan(t):
        ctx.claim_eq("missing", rho, 100.0, 0)
        return
    ctx.claim_ge("min", rho, 50, 0)
    if t <= T0 - 15:
        ctx.claim_eq("cold", rho, 50, 1e-9)
    else:
        x = t - (T0 - 15)
        # rho = 50 + 1.7 x^1.5
        ctx.claim_eq("curve", (rho - 50) ** 2, 1.7**2 * x**3, 1e-4)


@scenario(params={f"{ts}-{c}-{mm}": dict(ts=ts, cold=c, melting=mm) for ts in HOURS for c, mm in ((300, 500), (250, 350))}, merged=True)
def empirical(ctx, ts, cold, melting):
    """Density relaxes to the maximum density of cold/melting snow; denser snow keeps its density."""
    m = ml.model(ctx, timestep=ts, snow={"compaction": dict(method="empirical", timescale=200, max_cold_density=cold, max_melting_density=melting)})
    n = 2
    ml.snowpack(ctx, m, n)
    s = m.state
    th0, ice0, l0, t0 = (layers(m, v) for v in ("thickness", "ice_content", "liquid_water_content", "temp"))
    m.snow.compaction()
    f = math.exp(-HOURS[ts] / 200.0)
    for k in range(n):
        w = ice0[k] + l0[k]
        th1 = get(m, "thickness", k)
        rmax = cold if t0[k] < T0 else melting
        if w < rmax * th0[k]:
            # new density rmax + (rho - rmax) f; multiplied by the thicknesses
            ctx.claim_eq("relaxes", w * th0[k], th1 * (rmax * th0[k] * (1 - f) + w * f), 1e-6)
            ctx.claim_le("settles", th1, th0[k], 1e-9)
            ctx.claim_le("max-density", w, rmax * th1, 1e-6)
        else:
            ctx.claim_eq("dense-snow-kept", th1, th0[k], 0)
        ctx.claim_eq("ice", get(m, "ice_content", k), ice0[k], 0)
        ctx.claim_eq("liquid", get(m, "liquid_water_content", k), l0[k], 0)
    ctx.observe("th", [get(m, "thickness", k) for k in range(n)])


@scenario(params={ts: dict(ts=ts, _tiers=("quick", "thorough") if ts == "3h" else ("thorough",)) for ts in HOURS})
def anderson_rate(ctx, ts):
    m = ml.model(ctx, timestep=ts)
    s = m.state
    s.snow.num_layers[I, J] = 1
    th = 0.4
    s.snow.thickness[0, I, J] = th
    ice = ctx.real("ice", 0.4 * 60, 0.4 * 500)
    lw = ctx.real("lwc", 0, 10)
    s.snow.ice_content[0, I, J] = ice
    s.snow.liquid_water_content[0, I, J] = lw
    t = 268.15
    s.meteo.temp[I, J] = t
    m.snow.compaction()
    w = ice + lw
    rho = w / th
    c6 = sexp(-0.046 * (rho - 150.0)) if rho > 150.0 else 1.0
    c4 = 0.02 if lw > 0 else 0.01
    rate = 0.001 * (w / 2) * sexp(-0.08 * (T0 - t) - 0.021 * rho) + c4 * math.exp(-0.04 * (T0 - t)) * c6
    ctx.claim_eq("rate", w, get(m, "thickness", 0) * rho * (1 + rate * HOURS[ts]), 1e-4)
    ctx.observe("th", [get(m, "thickness", 0)])


@scenario(params={f"{ts}-n{n}": dict(ts=ts, n=n, _tiers=("quick", "thorough") if (ts, n) in (("3h", 2), ("D", 1)) else ("thorough",)) for ts in HOURS for n in (1, 2, 3)})
def anderson(ctx, ts, n):
    """Snow only ever settles, and without a temperature it is left alone."""
    m = ml.model(ctx, timestep=ts)
    s = m.state
    geo = [(0.1, 0.3, 0.8), (8.0, 60.0, 250.0)]
    s.snow.num_layers[I, J] = n
    for k in range(n):
        s.snow.thickness[k, I, J] = geo[0][k]
        s.snow.ice_content[k, I, J] = ctx.real(f"ice{k}", 5, 700 * geo[0][k])
        s.snow.liquid_water_content[k, I, J] = ctx.real(f"lwc{k}", 0, 10)
        s.snow.temp[k, I, J] = 270.0
    t = ml.maybe_nan(ctx, "T", 240, 290)
    s.meteo.temp[I, J] = t
    th0 = layers(m, "thickness")
    m.snow.compaction()
    for k in range(n):
        th1 = get(m, "thickness", k)
        ctx.claim_lt("remains", 0, th1)
        if isnan(t):
            ctx.claim_eq("missing-temperature", th1, th0[k], 1e-9)
        else:
            ctx.claim_lt("settles", th1, th0[k])
    for k in range(n, NL):
        ctx.claim_eq("unused", get(m, "thickness", k), 0, 0)


@scenario(params={f"{o}-n{n}": dict(op=o, n=n) for o in ("melt", "sublimation") for n in (1, 2, 3)}, merged=True)
def ablation_keeps_density(ctx, op, n):
    """Melt and sublimation thin a layer in proportion to the ice they remove."""
    m = ml.model(ctx)
    ml.snowpack(ctx, m, n)
    s = m.state
    th0, ice0 = layers(m, "thickness"), layers(m, "ice_content")
    if op == "melt":
        s.snow.melt[I, J] = ctx.real("melt", 0, 500)
        m.snow.melt()
    else:
        s.surface.moisture_flux[I, J] = ctx.real("mf", -0.05, -0.00001)
        s.meteo.wet_bulb_temp[I, J] = 270.0
        m.snow.sublimation()
    for k in range(n):
        ctx.claim_eq("proportional", get(m, "thickness", k) * ice0[k], th0[k] * get(m, "ice_content", k), 1e-6)


@scenario(params={ts: dict(ts=ts) for ts in HOURS}, merged=True)
def firn(ctx, ts):
    """Firn turns from the density of old snow into ice within ten years, ice keeps its density, both keep their mass."""
    m = cl.model(ctx, timestep=ts, snow={"cryolayers": {"transition": {"ice": 880.0}}})
    p = (0b0100, 0b1000, 0b1100, 0b1111)[ctx.choose(4, "layers")]
    s = m.state.snow
    rho = {}
    for k in range(4):
        if p >> k & 1:
            rho[k] = ctx.real(f"rho{k}", 500, 880) if k >= 2 else 250.0
            w = (64.0, 64.0, 256.0, 512.0)[k]
            s.density[k, I, J], s.ice_content[k, I, J], s.liquid_water_content[k, I, J], s.thickness[k, I, J] = rho[k], w, 0.0, w / rho[k]
    m.state.meteo.temp[I, J] = 265.0
    m.snow.compaction()
    for k in range(4):
        if not p >> k & 1:
            ctx.claim_eq("empty", get(m, "thickness", k), 0, 0)
            continue
        got, w = get(m, "density", k), get(m, "ice_content", k)
        ctx.claim_eq("mass", w, (64.0, 64.0, 256.0, 512.0)[k], 0)
        ctx.claim_eq("thickness", get(m, "thickness", k) * got, w, 1e-6)
        if k == 2:
            ctx.claim_eq("firn", got - rho[k], 380.0 / (10 * 365 * 24) * HOURS[ts], 1e-3 / 24 * HOURS[ts])
        elif k == 3:
            ctx.claim_eq("ice", got, 880.0, 0)
