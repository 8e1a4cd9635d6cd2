"""
Cloudiness, shortwave and longwave irradiance.

modules.radiation.shortwave_irradiance and longwave_irradiance are executed for a real model with symbolic station measurements, clear-sky
irradiance, sky view factors and surface state; the oracle is the closed form of the documented methods and their fallback order.
"""
from symex.api import *

scenario = Registry()
BOUNDS = (
    "three pixels in the region of interest; four stations (two in it, one in the grid only, one outside) each with or without radiation, cloudiness "
    "or humidity data; radiation 0..1500, clear-sky irradiance 1..1300 W/m2, cloud fraction 0..100 %, temperatures 230..310 K, sky view factor 0..1; "
    "all methods, fallbacks, night methods"
)
OUTSIDE = "the humidity to cloud fraction conversion (P24) with concrete humidity; the clear-sky model (P26); stations on the extended grid; rounding"
NAN = float("nan")
SB = 5.670374419e-8
PIX = [(0, 0), (1, 1), (2, 2)]
ROI = np.zeros((3, 3), int)
for _p in PIX:
    ROI[_p] = 1
XY = {(i, j): (640050.0 + 100 * j, 5180250.0 - 100 * i) for i in range(3) for j in range(3)}
# (x, y, alt, row, col, in grid, in roi)
ST = [(*XY[0, 0], 2000.0, 0, 0, True, True), (*XY[2, 2], 2080.0, 2, 2, True, True), (*XY[2, 0], 1970.0, 2, 0, True, False), (640950.0, 5180650.0, 1500.0, -4, 9, False, False)]
HUM = [(272.15, 60.0), (270.15, 90.0), (273.65, 75.0), (275.0, 50.0)]


def dataset(ctx, **variables):
    import pandas as pd
    import xarray as xr

    times = pd.DatetimeIndex(["2020-01-15 00:00", "2020-01-15 03:00"])

    def a(v):  # the second date must not matter
        x = arr(ctx, [[q, -777.0] for q in v])
        return np.array(x.tolist(), dtype=object) if ctx.symbolic else x

    d = {k: (("station", "time"), a(v)) for k, v in variables.items()}
    for k, n in enumerate(("x", "y", "alt", "row", "col", "within_grid_extent", "within_roi")):
        d[n] = ("station", np.array([s[k] for s in ST]))
    return xr.Dataset(d, coords={"station": [f"s{k}" for k in range(len(ST))], "time": times})


def idw(pts, x, y):
    w = []
    for px, py, v in pts:
        d = (px - x) ** 2 + (py - y) ** 2
        if d == 0:
            return v
        w.append(1 / d)
    return ssum(v * (q / sum(w)) for (_, _, v), q in zip(pts, w))


def cases():
    rad = {"both": (1, 1, 0, 0), "one": (1, 0, 0, 1), "outside-roi": (0, 0, 1, 0), "outside-grid": (0, 0, 0, 1), "none": (0, 0, 0, 0)}
    r = {}
    for day in (True, False):
        for n, v in rad.items():
            r[f"csf-{day}-{n}"] = dict(method="clear_sky_fraction", day=day, rad=v, cloud=None, hum=True, prev=0.5)
    r["csf-mixed"] = dict(method="clear_sky_fraction", day=True, rad=(0, 1, 1, 1), cloud=None, hum=False, prev=NAN)
    for night in ("humidity", "constant"):
        for prev in (NAN, 0.5):
            for hum in (True, False):
                r[f"csf-night-{night}-{prev}-{hum}"] = dict(method="clear_sky_fraction", day=False, rad=(1, 1, 0, 0), cloud=None, hum=hum, prev=prev, night=night)
    for cloud in ((1, 1, 0, 0), (1, 0, 0, 1), (0, 0, 1, 1), (0, 0, 0, 0)):
        for n in ("both", "outside-roi", "none"):
            for day in (True, False):
                r[f"prescribed-{cloud}-{n}-{day}"] = dict(method="prescribed", day=day, rad=rad[n], cloud=cloud, hum=True, prev=0.5)
    for hum in (True, False):
        for prev in (NAN, 0.5):
            r[f"none-{hum}-{prev}"] = dict(method="prescribed", day=True, rad=rad["none"], cloud=(0, 0, 0, 0), hum=hum, prev=prev)
            r[f"humidity-{hum}-{prev}"] = dict(method="humidity", day=True, rad=rad["both"], cloud=None, hum=hum, prev=prev)
    for me in ("clear_sky_fraction", "humidity", "prescribed"):
        r[f"strict-{me}"] = dict(method=me, day=True, rad=rad["both"], cloud=(1, 1, 1, 1), hum=True, prev=0.5, fallback=False)
    return r


CASES = cases()
KEYS = sorted(CASES)


@scenario(params={str(k): dict(group=k) for k in range(7)})
def shortwave(ctx, group):
    keys = KEYS[group::7]
    one(ctx, **CASES[keys[ctx.choose(len(keys), "case")]])


def one(ctx, method, day, rad, cloud, hum, prev, night="humidity", fallback=True):
    from openamundsen import meteo
    from openamundsen.modules import radiation

    m = prepare(ctx, "p25", roi=ROI)
    s = m.state.meteo
    c = m.config.meteo.interpolation.cloudiness
    c.method, c.allow_fallback, c.clear_sky_fraction_night_method = method, fallback, night
    m.sun_params = {"sun_over_horizon": day}
    sw = [ctx.real(f"sw{k}", 0, 1500) if rad[k] else NAN for k in range(4)]
    cl = [ctx.real(f"cl{k}", 0, 100) if cloud and cloud[k] else NAN for k in range(4)]
    clear = [ctx.real(f"clear{k}", 1, 1300) if day else 0.0 for k in range(3)]
    h = [HUM[k] if hum and k != 1 else (NAN, HUM[k][1]) for k in range(4)]
    vs = dict(sw_in=sw, temp=[q[0] for q in h], rel_hum=[q[1] for q in h])
    if cloud:
        vs["cloud_fraction"] = cl
    m.meteo = dataset(ctx, **vs)
    for v in ("sw_in", "cloud_factor", "cloud_fraction"):
        for i in range(3):
            for j in range(3):
                if not ROI[i, j]:
                    s[v][i, j] = -5.0
    p = ctx.real("prev", 0, 1) if prev == 0.5 else NAN
    for n, q in enumerate(PIX):
        s.sw_in_clearsky[q] = clear[n]
        s.cloud_factor[q] = p if n != 2 else prev
    radiation.shortwave_irradiance(m)

    # which method applies
    eff = method
    if eff == "prescribed" and not any(cloud) and fallback:
        eff = "clear_sky_fraction"
    if eff == "clear_sky_fraction":
        eff = night if not day else "humidity" if not (rad[0] or rad[1]) and fallback else eff
    if eff == "humidity" and not hum and fallback:
        eff = "constant"
    pts = None
    if eff == "prescribed":
        pts = [(ST[k][0], ST[k][1], 1 - 0.233 * (cl[k] / 100) - 0.415 * (cl[k] / 100) * (cl[k] / 100)) for k in range(4) if cloud[k]]
    elif eff == "clear_sky_fraction":
        pts = [(ST[k][0], ST[k][1], sw[k] / clear[2 * k]) for k in range(2) if rad[k]]
    elif eff == "humidity":
        lr = m.config.meteo.interpolation
        pts = []
        for k in range(4):
            if not isnan(h[k][0]):
                f = float(meteo.cloud_fraction_from_humidity(h[k][0], h[k][1], ST[k][2], lr.temperature.lapse_rate[0], lr.humidity.lapse_rate[0]))
                pts.append((ST[k][0], ST[k][1], 1 - 0.233 * f - 0.415 * f * f))
    for n, q in enumerate(PIX):
        f = s.cloud_factor[q]
        ctx.claim("available", not isnan(f), "no cloudiness although a source is available")
        if isnan(f):
            continue
        if eff == "constant":
            e = p if n != 2 else prev
            e = 0.75 if isnan(e) else e
        else:
            e = smin(smax(idw(pts, *XY[q]), 0.0), 1.0)
        ctx.claim_eq("factor", f, e, 1e-6)
        ctx.claim_ge("factor-min", f, 0.0, 0)
        ctx.claim_le("factor-max", f, 1.0, 0)
        ctx.claim_eq("shortwave", s.sw_in[q], clear[n] * f, 1e-4)
        ctx.claim_le("below-clear-sky", s.sw_in[q], clear[n], 1e-6)
        if eff == "clear_sky_fraction" and n != 1 and rad[n // 2]:
            if sw[n // 2] <= clear[n]:
                ctx.claim_eq("measurement-reproduced", s.sw_in[q], sw[n // 2], 1e-3)
        g = s.cloud_fraction[q]
        ctx.claim_ge("fraction-min", g, 0.0, 0)
        ctx.claim_le("fraction-max", g, 1.0, 0)
        if f >= 0.352001:
            ctx.claim_eq("fraction", 1 - 0.233 * g - 0.415 * g * g, f, 1e-6)
        else:
            ctx.claim_ge("overcast", g, 0.99999, 0)
    for v in ("sw_in", "cloud_factor", "cloud_fraction"):
        for i in range(3):
            for j in range(3):
                if not ROI[i, j]:
                    ctx.claim_eq("outside-roi-untouched", s[v][i, j], -5.0, 0)


@scenario(params={str(k): dict(snow=k) for k in range(5)}, merged=True)
def longwave(ctx, snow):
    from openamundsen import meteo
    from openamundsen.modules import radiation

    m = prepare(ctx, "p25", roi=ROI)
    s, b, sf = m.state.meteo, m.state.base, m.state.surface
    swe = [(0, 0, 0), (1, 1, 1), (1, 0, 0), (0, 1, 1), (0, 0, 1)][snow]
    x = []
    for n, q in enumerate(PIX):
        t, ts = ctx.real(f"t{n}", 230, 310), ctx.real(f"ts{n}", 230, 273.15)
        svf, cf, sw = ctx.real(f"svf{n}", 0, 1), ctx.real(f"cf{n}", 0, 1), ctx.real(f"sw{n}", 0, 1300)
        pw = [5.0, 12.0, 30.0][n]
        s.temp[q], sf.temp[q], b.svf[q], s.cloud_fraction[q], s.sw_in[q], s.precipitable_water[q] = t, ts, svf, cf, sw, pw
        m.state.snow.swe[q] = 1e-3 * swe[n]
        x.append((t, ts, svf, cf, sw, pw))
    # pixels outside of the region of interest must not matter
    m.state.snow.swe[0, 1] = m.state.snow.swe[0, 2] = 0.0
    s.lw_in[0, 1] = -5.0
    radiation.longwave_irradiance(m)
    rock = (3 - sum(swe)) / 3
    for n, q in enumerate(PIX):
        t, ts, svf, cf, sw, pw = x[n]
        em = float(1 - (1 + pw / 10) * np.exp(-np.sqrt(1.2 + 3 * pw / 10)))
        tr = t + 0.01 * sw
        bb = t * t * t * t
        sky = (em * (1 - cf * cf) + 0.976 * cf * cf) * bb * svf
        land = (1 - svf) * (rock * tr * tr * tr * tr + (1 - rock) * ts * ts * ts * ts)
        ctx.claim_eq("value", s.lw_in[q], SB * (sky + land), 1e-4)
    ctx.claim_eq("outside-roi-untouched", s.lw_in[0, 1], -5.0, 0)


@scenario
def callback_mode(ctx):
    """Without stations the cloud factor supplied by the callback scales the clear-sky irradiance."""
    from openamundsen import modules

    m = prepare(ctx, "p25", roi=ROI)
    s = m.state.meteo
    v = [(ctx.real(f"clear{n}", 0, 1300), ctx.real(f"f{n}", 0, 1)) for n in range(3)]

    def clear(model):
        for n, q in enumerate(PIX):
            s.sw_in_clearsky[q] = v[n][0]

    for q in PIX:
        s.temp[q], m.state.surface.temp[q], s.precipitable_water[q], m.state.snow.swe[q] = 270.0, 265.0, 10.0, 0.0
    for n, q in enumerate(PIX):
        s.cloud_factor[q], s.cloud_fraction[q] = v[n][1], 0.5
    with stubbed((modules.radiation, "clear_sky_shortwave_irradiance", clear)):
        m._irradiance()
    for n, q in enumerate(PIX):
        ctx.claim_eq("shortwave", s.sw_in[q], v[n][0] * v[n][1], 1e-6)
        ctx.claim_lt("longwave", 0.0, s.lw_in[q])
