"""
Growing season.

evapotranspiration.crop_coefficient, sparse_vegetation_adjustment, climate_correction and LandCover.lai run with symbolic day of the growing period and
symbolic coefficients; the oracle is the piecewise linear FAO 56 curve.
"""
from symex.api import *

from . import _can, _et
from ._ml import hash_str

scenario = Registry()
BOUNDS = (
    "growing period days -400..400 (whole numbers), coefficients 0.05..3 and plant heights arbitrary, stage lengths from a set that includes "
    "zero lengths and several subcycles; model level: days every two to four weeks of a common and a leap year, one to three growth cycles"
)
OUTSIDE = "growing seasons across the turn of the year (not supported by the model); rounding"
STAGES = [([10], [20], [100], [30]), ([0], [40], [100], [40]), ([0], [183], [0], [183]), ([5, 5], [10, 10], [20, 20], [5, 0]), ([30], [0], [50], [0])]


def curve(day, stages, ini, mid, end, mn):
    """(coefficient, stage) with stage -1 outside of the season"""
    t = 0
    if day < 1:
        return mn, -1
    for c in range(len(stages[0])):
        for k in range(4):
            n = stages[k][c]
            if n and day <= t + n:
                x = (day - t) / n
                return [ini, ini + x * (mid - ini), mid, mid + x * (end - mid)][k], k
            t += n
    return mn, -1


@scenario(params={str(i): dict(i=i) for i in range(len(STAGES))}, merged=True)
def coefficient(ctx, i):
    from openamundsen.modules.evapotranspiration.evapotranspiration import crop_coefficient

    st = STAGES[i]
    day = whole(ctx, "day", -400, 400)
    ini, mid, end, mn = (ctx.real(n, 0.05, 3) for n in ("ini", "mid", "end", "min"))
    a = [x if len(x) > 1 else x[0] for x in st]
    kc = crop_coefficient(day, *a, ini, mid, end, mn)
    exp, k = curve(day, st, ini, mid, end, mn)
    ctx.claim_eq("curve", kc, exp, 1e-9)
    kc2, h = crop_coefficient(day, *a, ini, mid, end, mn, max_plant_height=2.0)
    ctx.claim_eq("same", kc2, exp, 1e-9)
    if k in (2, 3):
        ctx.claim_ge("full-height", h * mid, 2.0 * mid, 1e-6)
    if k == 2:
        ctx.claim_eq("max-height", h, 2.0, 1e-7)


@scenario
def ordinary_height(ctx):
    """Plants grow during the season and do not shrink before its end, and stay below the maximum height."""
    from openamundsen.modules.evapotranspiration.evapotranspiration import crop_coefficient

    ini, end, mn = ctx.real("ini", 0.2, 0.9), ctx.real("end", 0.2, 0.9), 0.175
    st = (10, 20, 30, 20)
    day = whole(ctx, "day", 1, 79)
    _, h0 = crop_coefficient(day, *st, ini, 0.9, end, mn, max_plant_height=1.5)
    _, h1 = crop_coefficient(day + 1, *st, ini, 0.9, end, mn, max_plant_height=1.5)
    ctx.claim_ge("grows", h1, h0, 1e-9)
    ctx.claim_le("max", h1, 1.5, 1e-9)
    ctx.claim_ge("min", h0, 0.0, 0)


@scenario
def fields(ctx):
    """Coefficients given per pixel are treated pixel by pixel."""
    from openamundsen.modules.evapotranspiration.evapotranspiration import crop_coefficient

    mid = arr(ctx, [ctx.real("m0", 0.3, 2), ctx.real("m1", 0.3, 2)])
    end = arr(ctx, [ctx.real("e0", 0.3, 2), ctx.real("e1", 0.3, 2)])
    for day in (25, 50, 150):
        kc = crop_coefficient(day, 10, 20, 100, 30, 0.3, mid, end, 0.175)
        for j in range(2):
            ctx.claim_eq("pixel", kc[j], curve(day, STAGES[0], 0.3, mid[j], end[j], 0.175)[0], 1e-9)


@scenario
def sparse(ctx):
    from openamundsen.modules.evapotranspiration.evapotranspiration import sparse_vegetation_adjustment

    kmid, veg = ctx.real("kmid", 0.175, 2), ctx.real("veg", 0.01, 1)
    h = [0.0, 1.0, 3.0][ctx.choose(3, "h")]
    lat, dec = np.deg2rad(47.0), np.deg2rad([23.4, -23.4][ctx.choose(2, "dec")])
    got = sparse_vegetation_adjustment(0.175, kmid, veg, h, lat, dec)
    sin = np.sin(lat) * np.sin(dec) + np.cos(lat) * np.cos(dec)
    x = core.fn_pow(veg / sin, 1 / (1 + h))
    ctx.claim_eq("value", got, 0.175 + (kmid - 0.175) * smin(smin(1.0, 2 * veg), x), 1e-6)
    ctx.claim_le("reduced", got, kmid, 1e-7)
    ctx.claim_ge("min", got, 0.175, 1e-9)


@scenario
def climate(ctx):
    from openamundsen.modules.evapotranspiration.evapotranspiration import climate_correction

    u, rh = ctx.real("u", 0, 12), ctx.real("rh", 0, 100)
    h = [0.0, 0.1, 3.0, 40.0][ctx.choose(4, "h")]
    got = climate_correction(u, rh, h)
    clip = lambda v, a, b: smin(smax(v, a), b)
    ctx.claim_eq("value", got, (0.04 * (clip(u, 1.0, 6.0) - 2) - 0.004 * (clip(rh, 20.0, 80.0) - 45)) * (min(max(h, 0.1), 10) / 3) ** 0.3, 1e-7)
    ctx.claim_eq("standard climate", climate_correction(2.0, 45.0, h), 0.0, 1e-12)


@scenario
def leaf_area(ctx):
    """Leaf area index over the year, per class, from the configured limits."""
    import pandas as pd

    m = _can.model(ctx)
    doy = 1 + ctx.choose(26, "doy") * 14
    m.date = pd.Timestamp(("2021-01-01 03:00", "2020-01-01 21:00")[ctx.choose(2, "leap")]) + pd.Timedelta(days=doy - 1)
    lo, span, add = ctx.real("lo", 0, 5), ctx.real("span", 0, 5), ctx.real("add", 0, 5)
    k = 1 + ctx.choose(4, "class")
    cycles, k = k == 4, min(k, 3)
    p = {1: _can.A, 2: _can.B, 3: _can.C}[k]
    c = m.config.land_cover.classes[k]
    c.leaf_area_index.min, c.leaf_area_index.max, c.leaf_area_index.effective_add = lo, lo + span, add
    st = {1: [[0], [60], [120], [30]], 2: [[0], [50], [90], [40]], 3: [[0], [30], [50], [20]]}[k]
    if cycles:
        c.growth_stage_lengths = [[20, 10, 25, 20], [5, 15, 15, 25], [0, 30, 40, 0]]
        st = [[0, 0, 0], [30, 20, 30], [25, 15, 40], [20, 25, 0]]
    s = m.state.land_cover
    for q in (_can.A, _can.B, _can.C, _can.D):
        s.lai[q] = s.lai_eff[q] = float("nan")
    m.land_cover.lai()
    day = doy - {1: 60, 2: 100, 3: 80}[k] + 1
    exp, _ = curve(day, st, lo, lo + span, lo, lo)
    ctx.claim_eq("lai", s.lai[p], exp, 1e-7)
    ctx.claim_eq("effective", s.lai_eff[p], exp + add, 1e-7)
    ctx.claim_ge("min", s.lai[p], lo, 1e-9)
    ctx.claim_le("max", s.lai[p], lo + span, 1e-9)
    ctx.claim("unknown-class", isnan(s.lai[_can.D]), "leaf area for an unknown class")


@scenario
def model_curve(ctx):
    """Crop coefficient and plant height used by the model, with climate correction from 0.45 on."""
    import pandas as pd

    m = _et.model(ctx, evapotranspiration={"mean_wind_speed": 4.0, "mean_min_humidity": 30.0})
    kind = ["dual", "single", "water", "sparse"][ctx.choose(4, "kind")]
    doy = 1 + 28 * ctx.choose(13, "doy")
    m.date = pd.Timestamp("2020-01-01 03:00") + pd.Timedelta(days=doy - 1)
    _et.quiet(m)
    mid, end = ctx.real("mid", 0.2, 1.3), ctx.real("end", 0.2, 1.3)
    c = m.config.land_cover.classes[_et.CLASS[kind]]
    ini = c.crop_coefficients[0]
    c.crop_coefficients = [ini, mid, end]
    m.evapotranspiration.evapotranspiration()
    s = m.state.evapotranspiration
    p = _et.PIX[kind]
    corr = 0.14 * (min(max(_et.HEIGHT[kind], 0.1), 10) / 3) ** 0.3
    if kind == "sparse":
        lat, dec = np.deg2rad(m.grid.center_lat), np.deg2rad(10.0)
        sin = np.sin(lat) * np.sin(dec) + np.cos(lat) * np.cos(dec)
        mid = 0.175 + (mid - 0.175) * min(1, 0.6, (0.3 / sin) ** (1 / 3))
    mid = mid + corr if mid >= 0.45 else mid
    end = end + corr if end >= 0.45 else end
    exp, k = curve(doy, [[x] for x in _et.LENGTHS[kind]], ini, mid, end, 0.175)
    got = s.basal_crop_coeff[p] if kind in ("dual", "sparse") else s.crop_coeff[p]
    ctx.claim_eq("coefficient", got, exp, 1e-7)
    if kind == "sparse":
        ctx.claim_eq("constant-height", m.state.land_cover.plant_height[p], 2.0, 0)
    elif k == 2:
        ctx.claim_eq("height", m.state.land_cover.plant_height[p], _et.HEIGHT[kind], 1e-9)
