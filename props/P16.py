"""
Station interpolation of meteorological variables.

meteo.interpolate_param and meteo.interpolate_station_data are executed with symbolic station measurements; the oracle is
the closed form: elevation trend (regression, fixed monthly lapse rate, fractional, adjustment factor) plus inverse distance
weighted residuals, limited to the station range where extrapolation is disabled and to the physical range.
"""
from symex.api import *

from ._ml import hash_str

scenario = Registry()
BOUNDS = (
    "1-4 stations at concrete positions and elevations (also two at the same elevation) with arbitrary values or missing, targets at "
    "and between the stations; all trend methods; relative humidity 1..100 %, temperature 240..310 K"
)
OUTSIDE = (
    "piecewise linear regression (a stochastic global optimisation by the pwlf package); the direction of the interpolated wind vector "
    "(a transcendental function of the interpolated vector); rounding"
)
NAN = float("nan")
X = [0.0, 1000.0, 300.0, 700.0]
Y = [0.0, 0.0, 400.0, -800.0]
Z = [500.0, 1500.0, 1000.0, 1500.0]
TX = np.array([0.0, 500.0, 300.0, 2000.0])
TY = np.array([0.0, 100.0, 400.0, 900.0])
TZ = np.array([500.0, 1800.0, 1400.0, 200.0])
RATES = [(k - 6) / 1024.0 for k in range(12)]


def idw(v, x, y, n):
    d = [((x - X[k]) ** 2 + (y - Y[k]) ** 2) for k in range(n)]
    for k in range(n):
        if d[k] == 0:
            return v[k]
    w = [1 / q for q in d]
    return ssum(v[k] * (w[k] / sum(w)) for k in range(n))


def slope(v, n):
    if n < 2:
        return 0.0
    zm = sum(Z[:n]) / n
    q = sum((z - zm) ** 2 for z in Z[:n])
    return ssum(v[k] * ((Z[k] - zm) / q) for k in range(n))


def clip(ctx, v, vals, lo, extrapolate):
    if not extrapolate:
        mn, mx = vals[0], vals[0]
        for a in vals[1:]:
            mn, mx = smin(mn, a), smax(mx, a)
        v = smin(smax(v, mn), mx)
    return smax(v, lo) if lo is not None else v


def call(ctx, param, cfg, v, month=1, n=None, **kw):
    import pandas as pd
    from munch import Munch
    from openamundsen import meteo

    n = len(v) if n is None else n
    return meteo.interpolate_param(param, pd.Timestamp(2020, month, 15), Munch.fromDict(cfg), arr(ctx, v), np.array(X[:n]), np.array(Y[:n]),
                                   np.array(Z[:n]), TX, TY, TZ, **kw)[0]


RANGE = {"temp": (240, 310), "precip": (0, 50), "wind_speed": (0, 40), "wind_vec": (-40, 40)}
LOW = {"temp": 0.0, "precip": 0.0, "wind_speed": 0.1, "wind_vec": None}


@scenario(params={
    f"{p}-{me}-n{n}-{'ex' if e else 'lim'}-{mo}": dict(param=p, method=me, n=n, extrapolate=e, month=mo)
    for p, me, n, e, mo in (
        ("temp", "regression", 3, True, 1), ("temp", "regression", 2, True, 7), ("temp", "regression", 1, True, 7), ("temp", "regression", 2, False, 2),
        ("temp", "fixed", 2, True, 1), ("temp", "fixed", 2, True, 12), ("temp", "fixed", 2, True, 7), ("temp", "fixed", 1, False, 3),
        ("precip", "regression", 2, True, 1), ("precip", "fractional", 2, True, 2), ("precip", "fractional", 2, False, 12),
        ("precip", "adjustment_factor", 2, True, 1), ("precip", "adjustment_factor", 2, False, 8), ("precip", "regression", 1, False, 5),
        ("wind_speed", "regression", 2, False, 1), ("wind_speed", "fixed", 2, True, 4), ("wind_vec", "regression", 2, True, 4),
        ("precip", "adjustment_factor", 1, True, 10),
    )
}, merged=True, weight=3)
def trend(ctx, param, method, n, extrapolate, month):
    v = [ctx.real(f"v{k}", *RANGE[param]) for k in range(n)]
    out = call(ctx, param, dict(trend_method=method, extrapolate=extrapolate, lapse_rate=RATES), v, month)
    rate = RATES[month - 1]
    for t in range(len(TX)):
        x, y, z = TX[t], TY[t], TZ[t]
        if method == "adjustment_factor":
            dz = z - idw(Z, x, y, n)
            e = idw(v, x, y, n) * ((1 + rate * dz) / (1 - rate * dz))
        else:
            g = {"regression": lambda: slope(v, n), "fixed": lambda: rate, "fractional": lambda: rate * ssum(v) / n}[method]()
            e = idw([v[k] - g * Z[k] for k in range(n)], x, y, n) + g * z
        ctx.claim_eq("value", out[t], clip(ctx, e, v, LOW[param], extrapolate), 1e-4)
        if LOW[param] is not None:
            ctx.claim_ge("physical-range", out[t], LOW[param], 0)
    ctx.claim_eq("exact-at-station", out[0], clip(ctx, v[0], v, LOW[param], True), 1e-4)
    ctx.observe("v", out)


@scenario(params={f"n{n}": dict(n=n) for n in (2, 3, 4)}, merged=True)
def linear_field(ctx, n):
    """A field linear in elevation is reproduced everywhere by the regression."""
    a, b = ctx.real("a", 270, 310), ctx.real("b", -0.02, 0.02)
    out = call(ctx, "temp", dict(trend_method="regression", extrapolate=True, lapse_rate=RATES), [a + b * (Z[k] - 1000.0) for k in range(n)])
    for t in range(len(TX)):
        ctx.claim_eq("reproduced", out[t], a + b * (TZ[t] - 1000.0), 1e-5)


@scenario(params={p: dict(param=p) for p in ("temp", "precip", "wind_speed", "wind_vec", "rel_hum")}, merged=True)
def no_data(ctx, param):
    ctx.real("unused", 0, 1)
    kw = dict(temps=arr(ctx, []), target_temps=arr(ctx, [280.0] * 4)) if param == "rel_hum" else {}
    out = call(ctx, param, dict(trend_method="regression", extrapolate=True, lapse_rate=RATES), [], **kw)
    ctx.claim("shape", len(out) == 4)
    for v in out:
        if param == "precip":
            ctx.claim_eq("zero", v, 0, 0)
        else:
            ctx.claim("missing", isnan(v))


def linear_vapour_pressure(ctx):
    """
    Vapour pressure curve 10 * (T - 200) and the dew point belonging to it instead of the Magnus formula (whose functions
    are the subject of P24), so that the humidity conversion is decidable.
    """
    from openamundsen import meteo
    from openamundsen.meteo import atmosphere

    def es(temp, over=None):
        return (temp - 200.0) * 10.0

    def dew(temp, rel_hum):
        return 200.0 + rel_hum * (temp - 200.0) / 100.0

    return stubbed(*[(mod, n, f) for mod in (meteo, atmosphere) for n, f in (("saturation_vapor_pressure", es), ("dew_point_temperature", dew))])


@scenario(params={f"{e}": dict(extrapolate=e) for e in (True, False)}, merged=True)
def humidity(ctx, extrapolate):
    """One station: the dew point is carried over; never above 100 %; warmer targets are drier."""
    rh = ctx.real("rh", 1, 100)
    tt = [283.15, 285.15, 280.15, 293.15]
    with linear_vapour_pressure(ctx):
        out = call(ctx, "rel_hum", dict(trend_method="regression", extrapolate=extrapolate, lapse_rate=RATES), [rh],
                   temps=arr(ctx, [283.15]), target_temps=arr(ctx, tt))
    for k in range(4):
        if extrapolate:
            ctx.claim_eq("dew-point-kept", out[k], smin(rh * (83.15 / (tt[k] - 200)), 100.0), 1e-5)
        else:
            ctx.claim_eq("limited-to-station", out[k], rh, 1e-6)
        ctx.claim_le("max", out[k], 100, 1e-9)
        ctx.claim_ge("min", out[k], 0, 0)
    ctx.observe("rh", out)


@scenario(params={f"{e}-{m}": dict(extrapolate=e, method=m) for e in (True, False) for m in ("fixed", "regression")}, merged=True)
def humidity_trend(ctx, extrapolate, method):
    """Two stations: the dew point is what follows the trend; without extrapolation humidity stays within the station range."""
    rh = [ctx.real("rh0", 1, 100), ctx.real("rh1", 1, 100)]
    ts, tt = [283.15, 278.15], [283.15, 290.15, 270.15, 275.0]
    with linear_vapour_pressure(ctx):
        out = call(ctx, "rel_hum", dict(trend_method=method, extrapolate=extrapolate, lapse_rate=RATES), rh, temps=arr(ctx, ts), target_temps=arr(ctx, tt))
    td = [200 + rh[k] * (ts[k] - 200) / 100 for k in range(2)]
    g = slope(td, 2) if method == "regression" else RATES[0]
    lo, hi = smin(rh[0], rh[1]), smax(rh[0], rh[1])
    for k in range(4):
        e = 100 * (idw([td[q] - g * Z[q] for q in range(2)], TX[k], TY[k], 2) + g * TZ[k] - 200) / (tt[k] - 200)
        if not extrapolate:
            e = smin(smax(e, lo), hi)
        ctx.claim_eq("value", out[k], smin(smax(e, 0.0), 100.0), 1e-4)
    ctx.observe("rh", out)


ROI = np.zeros((3, 3), int)
for _p in ((0, 0), (1, 1), (2, 2)):
    ROI[_p] = 1


def dataset(ctx, names, temp, precip, hum, wind, extra=None):
    import pandas as pd
    import xarray as xr

    times = pd.DatetimeIndex(["2020-01-15 00:00", "2020-01-15 03:00"])

    def a(v):  # (station, time); the second date must not matter
        x = arr(ctx, [[q, -777.0] for q in v])
        return np.array(x.tolist(), dtype=object) if ctx.symbolic else x

    d = {k: (("station", "time"), a(v)) for k, v in dict(temp=temp, precip=precip, rel_hum=hum, wind_speed=wind, **(extra or {})).items()}
    n = len(temp)
    return xr.Dataset({**d, "x": ("station", np.array([640050.0, 640250.0, 640050.0][:n])), "y": ("station", np.array([5180250.0, 5180050.0, 5180050.0][:n])),
                       "alt": ("station", np.array([2000.0, 2080.0, 1970.0][:n]))},
                      coords={"station": [f"s{k}" for k in range(n)], "time": times})


@scenario(params={str(k): dict(miss=k) for k in range(4)}, merged=True)
def fields(ctx, miss):
    """Whole step: stations with missing values are left out per variable, only the region of interest is written."""
    from openamundsen import meteo

    cfg = {"meteo": {"interpolation": {
        "temperature": {"trend_method": "fixed", "lapse_rate": [-0.0078125] * 12},
        "precipitation": {"trend_method": "fractional", "lapse_rate": [0.0] * 12},
        "humidity": {"trend_method": "fixed", "lapse_rate": [0.0] * 12},
        "wind": {"trend_method": "fixed", "lapse_rate": [0.0] * 12, "extrapolate": True},
    }}}
    m = prepare(ctx, "p16f", roi=ROI, config=cfg)
    s = m.state
    m._has_wind_gusts = False
    t = [ctx.real("t0", 260, 300), 280.0, NAN]
    p = [NAN, ctx.real("p1", 0, 50), NAN]
    h = [80.0, 70.0, 60.0]
    w = [ctx.real("w0", 0, 30), ctx.real("w1", 0, 30), NAN]
    if miss == 1:
        t[0], p[1] = NAN, NAN
    elif miss == 2:
        w = [NAN] * 3
    elif miss == 3:
        t = [NAN] * 3
    for v in ("temp", "precip", "rel_hum", "wind_speed"):
        s.meteo[v][:] = -5.0
    m.meteo = dataset(ctx, None, t, p, h, w)
    with linear_vapour_pressure(ctx):
        meteo.interpolate_station_data(m)
    # targets at stations 0 and 1 and in the middle between them
    def check(name, out, vals, zs, lo, rate=0.0, fill=NAN):
        ok = [k for k in range(3) if not isnan(vals[k])]
        for (i, j), pos, z in (((0, 0), 0, 2000.0), ((1, 1), None, 2020.0), ((2, 2), 1, 2080.0)):
            v = out[i, j]
            if not ok:
                if isnan(fill):
                    ctx.claim(name + "-missing", isnan(v))
                else:
                    ctx.claim_eq(name + "-none", v, fill, 0)
                continue
            if pos in ok:
                e = vals[pos]
            elif len(ok) == 1:
                e = vals[ok[0]] + rate * (z - zs[ok[0]])
            else:  # equidistant
                e = ssum(vals[k] + rate * (z - zs[k]) for k in ok) / len(ok)
            ctx.claim_eq(name, v, smax(e, lo), 1e-5)

    zs = [2000.0, 2080.0, 1970.0]
    check("temp", s.meteo.temp, t, zs, 0.0, -0.0078125)
    check("precip", s.meteo.precip, p, zs, 0.0, 0.0, 0.0)
    check("wind", s.meteo.wind_speed, w, zs, 0.1)
    known = [k for k in range(3) if not isnan(t[k])]
    for i, j in ((0, 0), (1, 1), (2, 2)):
        v = s.meteo.rel_hum[i, j]
        if known:
            ctx.claim_le("humidity-max", v, 100, 1e-9)
            ctx.claim_lt("humidity-min", 0, v)
        else:
            ctx.claim("humidity-missing", isnan(v))
    if 1 in known:
        ctx.claim_eq("humidity-at-station", s.meteo.rel_hum[2, 2], 70.0, 1e-3)
    for v in ("temp", "precip", "rel_hum", "wind_speed"):
        for i in range(3):
            for j in range(3):
                if not ROI[i, j]:
                    ctx.claim_eq("outside-roi-untouched", s.meteo[v][i, j], -5.0, 0)


@scenario(params={"gust": dict(gust=True), "plain": dict(gust=False)}, merged=True)
def wind_vector(ctx, gust):
    """Terrain corrected wind: the wind vectors of the stations are interpolated and scaled with the curvature."""
    from openamundsen import meteo

    cfg = {"meteo": {"interpolation": {"wind": {"method": "liston", "trend_method": "fixed", "lapse_rate": [0.0] * 12,
                                                "slope_weight": 0.0, "curvature_weight": 0.5}}}}
    m = prepare(ctx, "p16l", roi=ROI, config=cfg)
    s = m.state
    m._has_wind_gusts = gust
    v = [ctx.real("w0", 0.5, 30), ctx.real("w1", 0.5, 30), NAN]
    w, g = ([3.0, 5.0, NAN], v) if gust else (v, v)
    extra = dict(wind_dir=[0.0, 90.0, NAN])
    if gust:
        extra["wind_speed_gust"] = g
        if "wind_speed_gust" not in s.meteo:
            s.meteo.add_variable("wind_speed_gust", "m s-1", "gust")
            s.meteo["wind_speed_gust"] = arr(ctx, np.full((3, 3), NAN).tolist())
    m.meteo = dataset(ctx, None, [280.0] * 3, [0.0] * 3, [50.0] * 3, w, extra)
    curv = [-0.5, 0.25, 0.5]
    for k in range(3):
        s.base.slope[k, k] = 10.0 * k
        s.base.aspect[k, k] = 90.0 * k
        s.base.scaled_curvature[k, k] = curv[k]
    # the direction of the mean vector is transcendental (wind_from_uv is decided in P24): taken as north here
    with linear_vapour_pressure(ctx), stubbed((meteo, "wind_from_uv", lambda u, v: ((u**2 + v**2) ** 0.5, arr(ctx, [0.0] * 3)))):
        meteo.interpolate_station_data(m)

    def check(name, out, v):
        # equal distances in the middle; northerly wind: v < 0, easterly: u < 0
        vec = [(v[0] * v[0]), (v[0] * v[0] + v[1] * v[1]) / 4, v[1] * v[1]]
        for k in range(3):
            f = 1 + 0.5 * curv[k]
            sp = out[k, k]
            if sp > 0.1:
                ctx.claim_eq(name, sp * sp, vec[k] * f * f, 1e-3)
            else:
                ctx.claim_eq(name + "-min", sp, 0.1, 0)
                ctx.claim_le(name + "-calm", vec[k] * f * f, 0.01, 1e-6)

    check("speed", s.meteo.wind_speed, w)
    if gust:
        check("gust", s.meteo.wind_speed_gust, g)


@scenario(params={"varied": dict(kind=0), "uniform": dict(kind=1), "flat": dict(kind=2)}, merged=True)
def wind_slope(ctx, kind):
    """Terrain corrected wind: windward slopes speed up, lee slopes slow down, uniform terrain has no effect."""
    from openamundsen import meteo

    cfg = {"meteo": {"interpolation": {"wind": {"method": "liston", "trend_method": "fixed", "lapse_rate": [0.0] * 12,
                                                "slope_weight": 0.5, "curvature_weight": 0.25}}}}
    m = prepare(ctx, "p16s", roi=ROI, config=cfg)
    s = m.state
    m._has_wind_gusts = False
    w = ctx.real("w", 1, 30)
    m.meteo = dataset(ctx, None, [280.0] * 3, [0.0] * 3, [50.0] * 3, [w, NAN, NAN], dict(wind_dir=[30.0, NAN, NAN]))
    slopes = [ctx.real(f"slope{k}", 0, 60) for k in range(3)] if kind == 0 else [ctx.real("slope", 0, 60)] * 3 if kind == 1 else [0.0] * 3
    aspects = [30.0, 210.0, 75.0] if kind == 0 else [100.0] * 3 if kind == 1 else [0.0, 90.0, 180.0]
    curv = [-0.5, 0.25, 0.5]
    for k in range(3):
        s.base.slope[k, k], s.base.aspect[k, k], s.base.scaled_curvature[k, k] = slopes[k], aspects[k], curv[k]
    with linear_vapour_pressure(ctx), stubbed((meteo, "wind_from_uv", lambda u, v: ((u**2 + v**2) ** 0.5, arr(ctx, [30.0] * 3)))):
        meteo.interpolate_station_data(m)
    d = [float(np.deg2rad(30.0 - a)) for a in aspects]
    ws = [slopes[k] * (float(np.cos(d[k])) * np.pi / 180) for k in range(3)]
    lo, hi = smin(smin(ws[0], ws[1]), ws[2]), smax(smax(ws[0], ws[1]), ws[2])
    same = kind != 0 or bool(lo == hi)
    for k in range(3):
        n = 0.0 if same else (ws[k] - lo) / (hi - lo) - 0.5
        f = 1 + 0.5 * n + 0.25 * curv[k]
        sp = s.meteo.wind_speed[k, k]
        if sp > 0.1:
            ctx.claim_eq("speed", sp, w * f, 1e-4)
        ctx.claim("speed-known", not isnan(sp), "no wind")
        dv = 30.0 - 0.5 * n * float(np.sin(-2 * d[k])) * (180 / np.pi)
        ctx.claim_eq("direction", s.meteo.wind_dir[k, k], dv, 1e-4)
