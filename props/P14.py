"""
Correction of station precipitation for undercatch.

The real meteo.correct_station_precipitation runs on a dataset of two or three stations and two dates whose measurements are
symbolic; the oracle are the documented transfer functions applied per station and date.
"""
from types import SimpleNamespace as NS

from symex.api import *

from ._ml import hash_str

scenario = Registry()
BOUNDS = (
    "two stations, two dates (second station and date concrete where they only have to stay independent), precipitation 0..100 "
    "kg/m2, missing or zero, temperature 250..300 K, wind speed 0..30 m/s, snow correction factors 0.5..3, all documented gauges"
)
OUTSIDE = "interpolation of missing station data beyond the fixed lapse rate case (P16); rounding"
ROI = np.zeros((3, 3), int)
ROI[1, 1] = 1
THR, RNG = 273.65, 1.0
WIND_FACTOR = None
KOCH = {
    "us_un": (0.045, 1.21, 0.66, 8), "all_sa": (0.03, 1.04, 0.57, 12), "nor_sa": (0.05, 0.66, 0.23, 12), "us_sa": (0.03, 1.06, 0.63, 12),
    "us_da": (0.021, 0.74, 0.66, 8), "us_bda": (0.01, 0.48, 0.51, 8), "us_sdfir": (0.004, 0.0, 0.0, 8),
}
WMO = ("nipher", "tretyakov", "us_sh", "us_unsh", "hellmann")


class DS:
    """What correct_station_precipitation uses of the station dataset; arrays are (station, time)."""

    def __init__(self, ctx, **v):
        import pandas as pd

        self.indexes = {"time": pd.DatetimeIndex(["2020-01-15 00:00", "2020-01-15 03:00"])}
        self.v = {k: NS(values=arr(ctx, x)) for k, x in v.items()}

    def __getitem__(self, k):
        return self.v[k]


def run(ctx, corr, temp, hum, wind, precip, interp=None):
    from openamundsen import meteo

    cfg = {"meteo": {"precipitation_phase": dict(method="temp", threshold_temp=THR, temp_range=RNG), "precipitation_correction": corr}}
    if interp:
        cfg["meteo"]["interpolation"] = interp
    m = prepare(ctx, "p14_" + str(hash_str(repr(cfg))), roi=ROI, config=cfg)
    before = repr(m.config.toDict())
    m.meteo = DS(ctx, x=[0.0, 500.0], y=[0.0, 500.0], alt=[1000.0, 2000.0], temp=temp, rel_hum=hum, wind_speed=wind, precip=precip)
    meteo.correct_station_precipitation(m)
    ctx.claim("config-untouched", repr(m.config.toDict()) == before)
    return m, m.meteo["precip"].values


def frac(t):
    if isnan(t):
        return 0.0
    if t <= THR - RNG / 2:
        return 1.0
    if t >= THR + RNG / 2:
        return 0.0
    return (THR + RNG / 2 - t) / RNG


H = [[80.0, 80.0], [80.0, 80.0]]
NAN = float("nan")


@scenario(params={str(f): dict(scf=f) for f in (0.5, 1.0, 1.5, 3.0)}, merged=True)
def constant(ctx, scf):
    """Snowfall is multiplied with the factor, rain is not, mixed precipitation in proportion."""
    t = [[ctx.real("T00", 250, 300), 270.0], [ctx.real("T10", 250, 300), 280.0]]
    p = [[ctx.real("P00", 0, 100), ctx.real("P01", 0, 100)], [ctx.real("P10", 0, 100), NAN]]
    _, out = run(ctx, [dict(method="constant_scf", scf=scf)], t, H, [[NAN, NAN], [NAN, NAN]], p)
    for i in range(2):
        for k in range(2):
            if isnan(p[i][k]):
                ctx.claim("missing-stays-missing", isnan(out[i, k]))
            else:
                ctx.claim_eq("corrected", out[i, k], p[i][k] * (1 + frac(t[i][k]) * (scf - 1)), 1e-6)
    ctx.observe("p", [out[0, 0], out[0, 1], out[1, 0]])


def wmo_catch_ratio(gauge, f, u, t):
    """Percent; formulas of the WMO intercomparison."""
    if f == 0:
        return 100.0
    tc = t - 273.15
    u = smin(u, 7.0)
    snow = f == 1
    if gauge == "nipher":
        return 100 - 0.44 * u * u - 1.98 * u if snow else 97.29 - 3.18 * u - 0.09 * tc
    if gauge == "tretyakov":
        return 103.11 - 8.67 * u + 0.30 * tc if snow else 96.99 - 4.46 * u + 1.10 * tc
    if gauge == "us_sh":
        return sexp(4.61 - 0.04 * core.fn_pow(u, 1.75)) if snow else 101.04 - 5.62 * u
    if gauge == "us_unsh":
        return sexp(4.61 - 0.16 * core.fn_pow(u, 1.28)) if snow else 100.77 - 8.34 * u
    if gauge == "hellmann":
        return 100 + 1.13 * u * u - 19.45 * u if snow else 96.63 + 0.41 * u * u - 9.84 * u + 5.95 * tc


@scenario(params={g: dict(gauge=g) for g in WMO}, merged=True)
def wmo(ctx, gauge):
    import math

    t0 = [268.0, 273.4, 280.0][ctx.choose(3, "phase")]
    if gauge in ("nipher", "tretyakov", "hellmann"):
        t0 = t0 + ctx.real("dT", -0.2, 0.2)
    u0 = ctx.real("U0", 0, 30)
    t = [[t0, 270.0], [280.0, 268.0]]
    w = [[u0, 2.0], [4.0, NAN]]
    p = [[ctx.real("P00", 0, 100), 3.0], [1.0, ctx.real("P11", 0, 100)]]
    # the second station has no wind at the second date, and neither has the first one there: nothing to interpolate from
    w[0][1] = NAN
    m, out = run(ctx, [dict(method="wmo", gauge=gauge)], t, H, w, p)
    h = m.config.meteo.measurement_height
    z0 = m.config.snow.roughness_length
    fac = math.log(h.temperature / z0) / math.log(h.wind / z0)
    cr = wmo_catch_ratio(gauge, frac(t0), u0 * fac, t0)
    ctx.claim_eq("corrected", out[0, 0] * cr, p[0][0] * 100.0, 1e-4)
    ctx.claim_eq("rain-unchanged", out[1, 0], 1.0, 0)
    ctx.claim_eq("no-wind-unchanged", out[0, 1], 3.0, 0)
    ctx.claim_eq("no-wind-unchanged", out[1, 1], p[1][1], 0)
    ctx.observe("p", [out[0, 0], out[1, 1]])


@scenario(params={f"{g}-{t}": dict(gauge=g, t=t) for g in KOCH for t in (260.0, 273.65, 290.0)}, merged=True)
def kochendorfer(ctx, gauge, t):
    """Correction for any phase, never a reduction, more wind means a larger correction up to the wind limit."""
    import math

    a, b, c, umax = KOCH[gauge]
    u = [ctx.real("U0", 0, 30), ctx.real("U1", 0, 30)]
    p = ctx.real("P", 0, 100)
    zero = ctx.choose(2, "zero")
    _, out = run(ctx, [dict(method="kochendorfer", gauge=gauge)], [[t, t], [t, t]], H, [[u[0], NAN], [u[1], NAN]],
                 [[p, 2.0], [0.0 if zero else p, NAN]])
    ex = a * (1 - math.atan(b * (t - 273.15)) + c)
    if p > 0:
        ctx.claim_eq("corrected", out[0, 0], p * sexp(ex * smin(u[0], float(umax))), 1e-6)
        if ex < 0:  # some transfer functions reduce rain slightly
            return
        ctx.claim_ge("never-reduced", out[0, 0], p, 1e-9)
        if not zero and u[0] <= u[1]:
            ctx.claim_le("more-wind-more-correction", out[0, 0], out[1, 0], 1e-6)
    if zero:
        ctx.claim_eq("zero-stays-zero", out[1, 0], 0, 0)
    ctx.claim_eq("no-wind-unchanged", out[0, 1], 2.0, 0)
    ctx.claim("missing-stays-missing", isnan(out[1, 1]))


@scenario
def combined(ctx):
    """Several corrections are applied one after the other; srf does not concern the stations."""
    t = ctx.real("T", 250, 300)
    p = ctx.real("P", 0, 100)
    _, out = run(ctx, [dict(method="constant_scf", scf=1.5), dict(method="constant_scf", scf=2.0)], [[t, 270.0], [260.0, 290.0]], H,
                 [[NAN] * 2] * 2, [[p, 0.0], [1.0, 1.0]])
    f = frac(t)
    ctx.claim_eq("product", out[0, 0], p * (1 + f * 0.5) * (1 + f), 1e-6)
    ctx.claim_eq("product", out[1, 0], 3.0, 1e-9)
    ctx.claim_eq("rain", out[1, 1], 1.0, 0)


@scenario
def none_configured(ctx):
    p = ctx.real("P", 0, 100)
    _, out = run(ctx, [], [[260.0, 270.0], [260.0, 290.0]], H, [[3.0] * 2] * 2, [[p, 0.0], [1.0, 1.0]])
    ctx.claim_eq("unchanged", out[0, 0], p, 0)


@scenario
def missing_temperature(ctx):
    """A station without temperature gets it from the other one via the lapse rate (here fixed); the original data stay missing."""
    t = ctx.real("T", 265, 290)
    p = ctx.real("P", 0, 100)
    interp = {"temperature": {"trend_method": "fixed", "lapse_rate": [-0.0078125] * 12}}
    m, out = run(ctx, [dict(method="constant_scf", scf=2.0)], [[t, NAN], [NAN, NAN]], H, [[NAN] * 2] * 2, [[1.0, 4.0], [p, 5.0]], interp)
    ctx.claim_eq("interpolated-phase", out[1, 0], p * (1 + frac(t - 7.8125)), 1e-6)
    ctx.claim_eq("own-phase", out[0, 0], 1 + frac(t), 1e-6)
    ctx.claim_eq("no-temperature-unchanged", out[0, 1], 4.0, 0)
    ctx.claim_eq("no-temperature-unchanged", out[1, 1], 5.0, 0)
    ctx.claim("station-data-untouched", isnan(m.meteo["temp"].values[1, 0]))
