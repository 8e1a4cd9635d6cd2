"""
Meteorology inside the canopy.

canopy.above_canopy_meteorology and CanopyModel.meteorology run over several time steps with symbolic weather and leaf area; the
oracle are the documented canopy formulas with the mean of the last 24 hours of above-canopy temperatures.
"""
from symex.api import *

from ._can import A, B, C, D, hash_str, model
from ._ml import T0

scenario = Registry()
BOUNDS = (
    "four pixels (two forest classes, no forest, unknown class), one to six time steps of 6, 12 and 24 h; temperature 230..310 K, humidity 0..100 %, wind, short- "
    "and longwave radiation arbitrary, missing temperatures in any pixel; effective leaf area index 0.1..15 (0, 0.5, 3.7 and 10.2 where products are compared)"
)
OUTSIDE = "more than six steps; rounding"
SIGMA = 5.670374419e-8
VARS = ("temp", "rel_hum", "wind_speed", "sw_in", "lw_in")


def frac(lai):
    if lai == 0:
        return 0.0
    f = 0.55 + 0.29 * core.fn_log(lai)
    return 0.0 if f <= 0 else 1.0 if f >= 1 else f


def clip(x, lo, hi):
    return lo if x <= lo else hi if x >= hi else x


def step(m, vals, lai):
    from openamundsen.modules import canopy

    s = m.state
    for p in (A, B, C, D):
        for v, x in zip(VARS, vals[p]):
            s.meteo[v][p] = x
        s.land_cover.lai_eff[p] = lai.get(p, float("nan"))
    canopy.above_canopy_meteorology(m)
    m.canopy.meteorology()


BASE = (270.0, 60.0, 3.0, 400.0, 250.0)


def kept(ctx, m, vals, pixels):
    for p in pixels:
        for v, x in zip(VARS, vals[p]):
            ctx.claim_eq("no-forest", m.state.meteo[v][p], x, 0)


@scenario(params={str(l): dict(lai=l) for l in (0.0, 0.1, 0.5, 3.7, 10.2)}, merged=True)
def values(ctx, lai):
    """All inside-canopy variables after the first step."""
    m = model(ctx, timestep="6h")
    m.state.meteo.last_24h_temps[:] = float("nan")
    t, h, w = ctx.real("t", 230, 310), ctx.real("h", 0, 100), ctx.real("w", 0.1, 40)
    sw, lw = ctx.real("sw", 0, 1200), ctx.real("lw", 100, 500)
    vals = {p: BASE for p in (A, B, C, D)}
    p = A if ctx.choose(2, "class") else B
    vals[p] = (t, h, w, sw, lw)
    step(m, vals, {A: 4.0, B: 4.0, p: lai})
    g = lambda v: m.state.meteo[v][p]
    f = frac(lai)
    dt = clip((t - T0) / 3, -2.0, 2.0)
    tin = t - f * dt
    ctx.claim_eq("temp", g("temp"), tin, 1e-6)
    ctx.claim_eq("sw", g("sw_in"), sw * np.exp(-0.71 * lai), 1e-6)
    ctx.claim_le("sw-shaded", g("sw_in"), sw, 1e-9)
    ctx.claim_eq("lw", g("lw_in"), (1 - f) * lw + f * SIGMA * g("temp") ** 4, 1e-4)
    ctx.claim_eq("hum", g("rel_hum"), clip(h * (1 + 0.1 * f), 0.0, 100.0), 1e-6)
    ctx.claim_ge("hum-min", g("rel_hum"), h, 1e-9)
    ctx.claim_le("hum-max", g("rel_hum"), 100.0, 0)
    ctx.claim_eq("wind", g("wind_speed"), w * np.exp(-0.4 * 0.9 * lai), 1e-6)
    ctx.claim_le("wind-sheltered", g("wind_speed"), w, 1e-9)
    for v, x in zip(VARS, vals[p]):
        ctx.claim_eq("above-canopy", m.state.meteo["top_canopy_" + v][p], x, 0)
    kept(ctx, m, vals, (C, D))


@scenario
def leaf_area(ctx):
    """Shading and sheltering for every leaf area."""
    m = model(ctx, timestep="6h")
    m.state.meteo.last_24h_temps[:] = float("nan")
    lai = ctx.real("lai", 0.1, 15)
    vals = {p: BASE for p in (A, B, C, D)}
    step(m, vals, {A: lai, B: 4.0})
    g = lambda v: m.state.meteo[v][A]
    f = frac(lai)
    ctx.claim_eq("sw", g("sw_in"), 400.0 * sexp(-0.71 * lai), 1e-6)
    ctx.claim_eq("wind", g("wind_speed"), 3.0 * sexp(-0.36 * lai), 1e-6)
    ctx.claim_eq("hum", g("rel_hum"), 60.0 * (1 + 0.1 * f), 1e-6)
    ctx.claim_eq("temp", g("temp"), 270.0 - f * (270.0 - T0) / 3, 1e-6)


@scenario(params={"6h": dict(ts="6h", n=6), "12h": dict(ts="12h", n=3), "D": dict(ts="D", n=2)}, merged=True)
def day_mean(ctx, ts, n):
    """The temperature damping uses the mean above-canopy temperature of the last 24 hours."""
    m = model(ctx, timestep=ts)
    m.state.meteo.last_24h_temps[:] = float("nan")
    slots = {"6h": 4, "12h": 2, "D": 1}[ts]
    lai = 3.7
    f = frac(lai)
    hist = []
    miss = ctx.choose(n, "missing")  # step with missing temperature (0: none)
    for k in range(n):
        # the values around the step of interest are symbolic
        t = float("nan") if miss and k == miss - 1 else ctx.real(f"t{k}", 230, 310) if k in (0, n - 2, n - 1) else 260.0 + 5 * k
        hist.append(t)
        vals = {p: BASE for p in (A, B, C, D)}
        vals[A] = (t,) + BASE[1:]
        step(m, vals, {A: lai, B: 4.0})
        got = m.state.meteo.temp[A]
        if isnan(t):
            ctx.claim("stays-missing", isnan(got), f"temperature {got} from nothing")
            continue
        if k != n - 1:
            continue
        last = [x for x in hist[-slots:] if not isnan(x)]
        tm = ssum(last) / len(last)
        dt = clip((tm - T0) / 3, -2.0, 2.0)
        ctx.claim_eq("damped", got, t - f * (t - (0.8 * (t - tm) + tm - dt)), 1e-6)
        ctx.claim_eq("above", m.state.meteo.top_canopy_temp[A], t, 0)


@scenario
def partly_missing(ctx):
    """Missing temperatures in one forest pixel do not affect the other."""
    m = model(ctx, timestep="6h")
    m.state.meteo.last_24h_temps[:] = float("nan")
    t, lw = ctx.real("t", 230, 310), ctx.real("lw", 100, 500)
    vals = {p: BASE for p in (A, B, C, D)}
    p, q = (A, B) if ctx.choose(2, "which") else (B, A)
    vals[p] = (float("nan"),) + BASE[1:]
    vals[q] = (t,) + BASE[1:4] + (lw,)
    step(m, vals, {p: 10.2, q: 3.7})
    f = frac(3.7)
    ctx.claim_eq("temp", m.state.meteo.temp[q], t - f * clip((t - T0) / 3, -2.0, 2.0), 1e-6)
    ctx.claim_eq("lw", m.state.meteo.lw_in[q], (1 - f) * lw + f * SIGMA * m.state.meteo.temp[q] ** 4, 1e-4)
    ctx.claim("missing", isnan(m.state.meteo.temp[p]), "temperature from nothing")
    ctx.claim_eq("sw-other", m.state.meteo.sw_in[p], 400.0 * np.exp(-0.71 * 10.2), 1e-9)
