"""
Precipitation phase.

The real OpenAmundsen._process_meteo_data (and meteo.precipitation_phase) is executed on a three-pixel domain with symbolic
temperature, wet-bulb temperature and precipitation; the oracle is the linear partition around the threshold.
"""
from symex.api import *

from ._ml import hash_str

scenario = Registry()
BOUNDS = (
    "three pixels (two of them at the same elevation), temperature or wet-bulb temperature 250..300 K or missing, precipitation "
    "0..100 kg/m2 or missing; thresholds 273.15, 273.65 and 275.15 K, ranges 0, 1 and 4 K; snow redistribution factors 0..5"
)
OUTSIDE = "the wet-bulb iteration (P24); rounding"
ASSUMPTIONS = ["the wet-bulb temperature is an arbitrary value per pixel"]
PIX = [(0, 0), (1, 1), (2, 1)]  # 2000, 2020, 2000 m
ELEV = [2000.0, 2020.0, 2000.0]
ROI = np.zeros((3, 3), int)
for _p in PIX:
    ROI[_p] = 1
# what _process_meteo_data calculates besides, but does not concern the phase
OTHERS = ("atmospheric_pressure", "saturation_vapor_pressure", "vapor_pressure", "specific_humidity",
          "specific_heat_capacity_moist_air", "latent_heat_of_vaporization", "psychrometric_constant", "dew_point_temperature",
          "precipitable_water")


def frac(t, thr, rng):
    if isnan(t):
        return 0.0
    if rng == 0:
        return 1.0 if t < thr else 0.0
    if t <= thr - rng / 2:
        return 1.0
    if t >= thr + rng / 2:
        return 0.0
    return (thr + rng / 2 - t) / rng


@scenario(params={f"{t}-{r}": dict(thr=t, rng=r) for t in (273.15, 273.65, 275.15) for r in (0.0, 1.0, 4.0)}, merged=True)
def fraction(ctx, thr, rng):
    """The function itself."""
    from openamundsen import meteo

    t = ctx.real("T", 250, 300)
    u = ctx.real("U", 250, 300)
    f, g, h = meteo.precipitation_phase(arr(ctx, [t, u, float("nan")]), threshold_temp=thr, temp_range=rng)
    ctx.claim_eq("fraction", f, frac(t, thr, rng), 1e-9)
    ctx.claim_ge("min", f, 0, 0)
    ctx.claim_le("max", f, 1, 0)
    if t <= u:
        ctx.claim_ge("warmer-means-less-snow", f, g, 1e-9)
    ctx.claim("missing", isnan(h) or h == 0)
    ctx.observe("f", [f, g])


@scenario(params={
    f"{me}-{t}-{r}-{'enforced' if e else 'plain'}{'-srf' if srf else ''}": dict(method=me, thr=t, rng=r, enforce=e, srf=srf)
    for me, t, r, e, srf in (
        ("temp", 273.65, 1.0, False, True), ("temp", 275.15, 4.0, True, False), ("temp", 273.15, 0.0, True, True),
        ("wet_bulb_temp", 273.65, 1.0, True, False), ("wet_bulb_temp", 275.15, 4.0, False, True), ("wet_bulb_temp", 273.15, 0.0, False, False),
        ("wet_bulb_temp", 273.15, 0.0, True, False), ("temp", 273.65, 1.0, True, True),
    )
}, max_paths=6000)
def partition(ctx, method, thr, rng, enforce, srf):
    from openamundsen import meteo

    grids = {"srf": np.ones((3, 3))} if srf else {}
    cfg = {"meteo": {"precipitation_phase": dict(method=method, threshold_temp=thr, temp_range=rng, enforce_no_snow_below_rain=enforce)}}
    if srf:
        cfg["meteo"]["precipitation_correction"] = [{"method": "srf"}]
    m = prepare(ctx, "p13_" + str(hash_str(repr((cfg, srf)))), roi=ROI, config=cfg, grids=grids)
    s = m.state
    ts, ps, fs = [], [], []
    # one arbitrary other temperature for the quantity that must not matter
    for n, (i, j) in enumerate(PIX):
        t = ctx.real(f"T{n}", 250, 300)
        ts.append(t)
        p = ctx.real(f"P{n}", 0, 100)
        ps.append(p)
        other = 290.0 if n else 255.0
        s.meteo.temp[i, j] = t if method == "temp" else other
        s.meteo.rel_hum[i, j] = 80.0
        s.meteo.precip[i, j] = p
        if srf:
            fs.append(ctx.real(f"srf{n}", 0, 5))
            s.base.srf[i, j] = fs[-1]
    wb = arr(ctx, ts if method == "wet_bulb_temp" else [255.0, 290.0, 290.0])
    const = lambda *a, **k: arr(ctx, [1.0, 1.0, 1.0])  # noqa: E731
    with stubbed((meteo, "wet_bulb_temperature", lambda *a, **k: wb.copy()), *[(meteo, o, const) for o in OTHERS]):
        m._process_meteo_data()
    f = [frac(t, thr, rng) for t in ts]
    if enforce:
        g = []
        for n in range(3):
            below = [k for k in range(3) if ELEV[k] >= ELEV[n] and f[k] == 0]
            g.append(0.0 if below else f[n])
        f = g
    for n, (i, j) in enumerate(PIX):
        sn, ra, pr = s.meteo.snowfall[i, j], s.meteo.rainfall[i, j], s.meteo.precip[i, j]
        k = fs[n] if srf else 1.0
        ctx.claim_eq("snowfall", sn, f[n] * ps[n] * k, 1e-6)
        ctx.claim_eq("rainfall", ra, (1 - f[n]) * ps[n], 1e-6)
        ctx.claim_eq("sum", sn + ra, pr, 1e-6)
        if not srf:
            ctx.claim_eq("precipitation-kept", pr, ps[n], 0)
        ctx.claim_ge("snowfall-nonneg", sn, 0, 0)
        ctx.claim_ge("rainfall-nonneg", ra, 0, 0)
    ctx.observe("phase", [s.meteo.snowfall[p] for p in PIX] + [s.meteo.rainfall[p] for p in PIX])


@scenario(params={f"{me}-{r}-{x}": dict(method=me, rng=r, what=x) for me in ("temp", "wet_bulb_temp") for r in (0.0, 1.0) for x in ("temp", "precip")},
          merged=True)
def missing(ctx, method, rng, what):
    """A missing temperature leaves precipitation as rain, missing precipitation stays missing; other pixels are not affected."""
    from openamundsen import meteo

    cfg = {"meteo": {"precipitation_phase": dict(method=method, threshold_temp=273.65, temp_range=rng)}}
    m = prepare(ctx, "p13m_" + str(hash_str(repr(cfg))), roi=ROI, config=cfg)
    s = m.state
    t = [ctx.real("T0", 250, 300), float("nan") if what == "temp" else 270.0, ctx.real("T2", 250, 300)]
    p = [ctx.real("P0", 0, 100), ctx.real("P1", 0, 100) if what == "temp" else float("nan"), ctx.real("P2", 0, 100)]
    for n, (i, j) in enumerate(PIX):
        s.meteo.temp[i, j] = t[n] if method == "temp" else 290.0
        s.meteo.rel_hum[i, j] = 80.0
        s.meteo.precip[i, j] = p[n]
    wb = arr(ctx, t)
    const = lambda *a, **k: arr(ctx, [1.0, 1.0, 1.0])  # noqa: E731
    with stubbed((meteo, "wet_bulb_temperature", lambda *a, **k: wb.copy()), *[(meteo, o, const) for o in OTHERS]):
        m._process_meteo_data()
    for n, (i, j) in enumerate(PIX):
        sn, ra, pr = s.meteo.snowfall[i, j], s.meteo.rainfall[i, j], s.meteo.precip[i, j]
        if what == "precip" and n == 1:
            ctx.claim("missing-precip", isnan(sn) and isnan(ra) and isnan(pr))
            continue
        ctx.claim_eq("snowfall", sn, frac(t[n], 273.65, rng) * p[n], 1e-6)
        ctx.claim_eq("rainfall", ra, (1 - frac(t[n], 273.65, rng)) * p[n], 1e-6)
