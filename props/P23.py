"""
Glacier geometry update.

GlacierModel.update of a real model (nine ice pixels, three glaciers) is called at the dates of a mass balance year with symbolic ice and firn
balances per pixel; the redistribution over the pixels is compared with the delta-h curves of Huss et al. (2010) and with the mass balance.
"""
from symex.api import *

scenario = Registry()
BOUNDS = (
    "nine pixels, glaciers of five, two and one pixels plus ice without glacier id, concrete elevations (including equal ones), ice balance of each "
    "pixel between -9 and 5 t/m2, firn balance between -2 and 2 t/m2, the three area classes, start months 1, 4 and 10, all month ends and starts of a year"
)
OUTSIDE = "glacier advance (not implemented in the model); mass balance with pixels whose ice is used up (only the sign of the difference is decided); rounding"

ICE, FIRN = 3, 2
G = np.array([[1, 1, 2], [1, 1, 2], [0, 3, 1]])
ELEV = {"normal": None, "equal": np.full((3, 3), 2000.0), "pairs": np.array([[2100.0, 2100.0, 2000.0], [1990.0, 2020.0, 2000.0], [1970.0, 2000.0, 2100.0]])}
THIN = (1, 1)
START = np.array([[100.0, 120.0, 80.0], [60.0, 5.0, 40.0], [30.0, 20.0, 150.0]]) * 917.0
RHO = 900.0


def model(ctx, res=100, elev="normal", lift=True, **cfg):
    cfg = dict(cfg, resolution=res, snow={"model": "cryolayers"}, glaciers={"enabled": True, **cfg.pop("glaciers", {})},
               start_date="2020-10-01", end_date="2021-09-30")
    return prepare(ctx, f"gl{res}{elev}{sorted(cfg.items())!r}".replace("/", "_")[:150], lift=lift, dem=ELEV[elev], grids={"glaciers": G}, config=cfg)


def put(m, layer, p, mass, rho):
    s = m.state.snow
    s.ice_content[layer][p] = mass
    s.liquid_water_content[layer][p] = 0.0
    s.cold_content[layer][p] = 0.0
    s.density[layer][p] = rho
    s.thickness[layer][p] = mass / rho
    s.layer_albedo[layer][p] = 0.4


def init(m, firn=1000.0):
    for p in np.ndindex(3, 3):
        for k in (0, 1):
            put(m, k, p, 50.0 * (k + 1), 100.0 * (k + 1))
        put(m, FIRN, p, firn, 600.0)
        put(m, ICE, p, START[p], RHO)


def at(m, date):
    import pandas as pd

    m.date = pd.Timestamp(date)
    idx = np.flatnonzero(m.dates == m.date)
    m.date_idx = int(idx[0]) if len(idx) else 5
    m.glaciers.update()


def shape(h, area):
    """delta h (negative) for the normalised elevation h"""
    if area >= 20e6:
        d = -((h - 0.02) ** 6 + 0.12 * (h - 0.02))
    elif area >= 5e6:
        d = -((h - 0.05) ** 4 + 0.19 * (h - 0.05) + 0.01)
    else:
        d = -((h - 0.3) ** 2 + 0.6 * (h - 0.3) + 0.09)
    return min(max(d, -1.0), 0.0)


def year(ctx, m, ids, firn=True, lo=-9000.0, hi=5000.0):
    """Run the mass balance year; returns the pixels, their ice balance and firn balance."""
    init(m)
    at(m, "2020-10-01 00:00")
    s = m.state.snow
    px = [p for p in np.ndindex(3, 3) if G[p] in ids]
    imb, fmb = {}, {}
    for p in np.ndindex(3, 3):
        if p in px:
            imb[p] = ctx.real(f"ice{p[0]}{p[1]}", max(lo, -START[p] + 1), hi)
            fmb[p] = ctx.real(f"firn{p[0]}{p[1]}", -900, 2000) if firn is True or p in (firn or ()) else 0.0
        else:
            imb[p], fmb[p] = -500.0, 100.0
        put(m, ICE, p, START[p] + imb[p], RHO)
        put(m, FIRN, p, 1000.0 + fmb[p], 600.0)
    before = {v: s[v].copy() for v in ("ice_content", "liquid_water_content", "thickness", "density", "cold_content", "layer_albedo")}
    at(m, "2021-09-30 21:00")
    return px, imb, fmb, before


def changes(m, px, fmb):
    """Change of ice plus firn over the year at the pixels."""
    return {p: m.state.snow.ice_content[ICE][p] - START[p] + fmb[p] for p in px}


def untouched(ctx, m, before, px):
    """Nothing but the ice of the given pixels is changed by the geometry update, and the layers remain consistent."""
    s = m.state.snow
    for p in np.ndindex(3, 3):
        for k in range(4):
            if k == ICE and p in px:
                continue
            for v, b in before.items():
                ctx.claim_eq(f"untouched:{v}", s[v][k][p], b[k][p], 1e-9)
        w = s.ice_content[ICE][p]
        if w > 0:
            ctx.claim_eq("thickness", s.thickness[ICE][p] * RHO, w, 1e-6)
        else:
            ctx.claim_eq("no-thickness", s.thickness[ICE][p], 0.0, 0)
        ctx.claim_eq("dry", s.liquid_water_content[ICE][p], 0.0, 0)


def total(ctx, m, px, imb):
    """The ice of the updated pixels is redistributed."""
    s = m.state.snow.ice_content[ICE]
    new, old = ssum(s[p] for p in px), ssum(START[p] + imb[p] for p in px)
    gone = False
    for p in px:
        ctx.claim_ge("positive", s[p], 0.0, 0)
        if s[p] <= 0:
            gone = True
    if gone:
        ctx.claim_ge("mass-gone", new, old, 1e-6)
    else:
        ctx.claim_eq("mass", new, old, 1e-6)


CASES = {"small": dict(res=100), "medium": dict(res=1000), "large": dict(res=2000), "equal": dict(res=100, elev="equal"), "pairs": dict(res=100, elev="pairs")}


@scenario(params=CASES)
def loss(ctx, res, elev="normal"):
    """Two balances arbitrary, one of them at the terminus: distribution, restriction by the terminus balance, surplus."""
    m = model(ctx, res, elev)
    init(m)
    at(m, "2020-10-01 00:00")
    px = [p for p in np.ndindex(3, 3) if G[p] == 1]
    upd = [p for p in px if p != THIN]
    z = {p: m.state.base.dem[p] for p in px}
    imb = {p: -700.0 for p in px}
    low = (1, 0)
    imb[low], imb[(2, 2)] = ctx.real("low", -9000, 0), ctx.real("high", -9000, 3000)
    imb[THIN] = -2500.0
    fmb = {p: 0.0 for p in px}
    fmb[(0, 0)], fmb[low] = 400.0, -300.0
    for p in np.ndindex(3, 3):
        put(m, ICE, p, START[p] + imb.get(p, 0.0), RHO)
        put(m, FIRN, p, 1000.0 + fmb.get(p, 0.0), 600.0)
    s = m.state.snow
    before = {v: s[v].copy() for v in ("ice_content", "liquid_water_content", "thickness", "density", "cold_content", "layer_albedo")}
    at(m, "2021-09-30 21:00")
    untouched(ctx, m, before, [p for p in np.ndindex(3, 3) if p in upd or G[p] == 2])
    total(ctx, m, upd, imb)
    ch = changes(m, upd, fmb)
    mb = {p: imb[p] + fmb[p] for p in px}
    sum_mb = ssum(mb[p] for p in upd)
    ctx.observe("change", [ch[p] for p in upd])
    if not sum_mb < 0:
        for p in upd:
            ctx.claim_eq("gain", ch[p], sum_mb / len(upd), 1e-6)
        return
    area = len(px) * res**2
    lo, hi = min(z[p] for p in upd), max(z[p] for p in upd)
    dh = {p: shape((hi - z[p]) / (hi - lo), area) if hi > lo else 1.0 for p in upd}
    ch0 = {p: sum_mb * dh[p] / sum(dh.values()) for p in upd}
    zlow = max(min(z.values()) + 50.0, sorted(z.values())[int(np.ceil(len(px) * 0.1)) - 1])
    term = 0.0
    for p in px:
        if z[p] <= zlow:
            term = smin(term, mb[p])
    clipped = [p for p in upd if term < 0 and ch0[p] < term]
    rest = [p for p in upd if p not in clipped]
    if not clipped or len(rest) < 2:
        for p in upd:
            ctx.claim_eq("distribution", ch[p], ch0[p], 1e-5)
        return
    extra = {p: ch[p] - ch0[p] for p in rest}
    for p in clipped:
        ctx.claim_eq("restricted", ch[p], term, 1e-5)
    surplus = ssum(ch0[p] - term for p in clipped)
    wlo = min(z[p] for p in rest)
    w = {p: z[p] - wlo for p in rest}
    for p in rest:
        ctx.claim_eq("surplus", extra[p] * (sum(w.values()) or len(rest)), surplus * (w[p] if sum(w.values()) else 1.0), 1e-3)


@scenario
def balance(ctx):
    """Arbitrary ice and firn balances of a glacier of two pixels, and the single pixel glacier."""
    m = model(ctx)
    px, imb, fmb, before = year(ctx, m, (2,))
    s = m.state.snow
    upd1 = [p for p in np.ndindex(3, 3) if G[p] == 1 and p != THIN]
    untouched(ctx, m, before, upd1 + px)
    total(ctx, m, px, imb)
    total(ctx, m, upd1, imb)
    ch = changes(m, px, fmb)
    sum_mb = ssum(imb[p] + fmb[p] for p in px)
    gone = any(bool(s.ice_content[ICE][p] <= 0) for p in px)
    if sum_mb < 0 and not gone:
        # upper pixel: no change, unless the lower one is restricted (then a single pixel is left and nothing is moved)
        ctx.claim_eq("upper", ch[(1, 2)], sum_mb * shape(0.0, 2e4) / (shape(0.0, 2e4) + shape(1.0, 2e4)), 1e-6)
    elif not gone:
        ctx.claim_eq("gain", ch[(0, 2)], sum_mb / 2, 1e-6)
        ctx.claim_eq("gain", ch[(1, 2)], sum_mb / 2, 1e-6)


@scenario
def threshold(ctx):
    """Pixels with less than ten metres of ice at the start of the year do not take part."""
    m = model(ctx)
    init(m)
    h = ctx.real("h", 1.0, 20.0)
    put(m, ICE, (0, 2), h * 917.0, RHO)
    at(m, "2020-10-01 00:00")
    put(m, ICE, (0, 2), h * 917.0 - 700.0, RHO)
    put(m, ICE, (1, 2), START[1, 2] - 100.0, RHO)
    at(m, "2021-09-30 21:00")
    ice = m.state.snow.ice_content[ICE]
    if h >= 10.0:
        ctx.claim_eq("mass", ice[0, 2] + ice[1, 2], h * 917.0 - 700.0 + START[1, 2] - 100.0, 1e-6)
        ctx.claim_eq("lower", ice[0, 2], h * 917.0 - 800.0, 1e-5)
    else:
        ctx.claim_eq("thin", ice[0, 2], h * 917.0 - 700.0, 1e-6)
        ctx.claim_eq("single", ice[1, 2], START[1, 2] - 100.0, 1e-6)


@scenario
def reappear(ctx):
    """Ice that has melted away at a pixel but is left there by the redistribution forms a valid layer."""
    m = model(ctx)
    init(m)
    at(m, "2020-10-01 00:00")
    start = START[0, 2]
    up = ctx.real("up", 0, 30000)
    for v in ("ice_content", "liquid_water_content", "thickness", "cold_content"):
        m.state.snow[v][ICE][0, 2] = 0.0
    for v in ("density", "layer_albedo"):
        m.state.snow[v][ICE][0, 2] = float("nan")
    put(m, ICE, (1, 2), START[1, 2] + up, RHO)
    at(m, "2021-09-30 21:00")
    s = m.state.snow
    ctx.claim_eq("mass", s.ice_content[ICE][0, 2] + s.ice_content[ICE][1, 2], START[1, 2] + up, 1e-6)
    ctx.claim_eq("thickness", s.thickness[ICE][0, 2] * RHO, s.ice_content[ICE][0, 2], 1e-6)


@scenario(params={str(k): dict(month=k) for k in (1, 4, 10)}, merged=True)
def timing(ctx, month):
    """The balance starts in the first step of the start month, and is applied in the last step before it one year later."""
    m = model(ctx, glaciers={"delta_h": {"mass_balance_year_start_month": month}})
    init(m)
    ice = m.state.snow.ice_content[ICE]
    melt = ctx.real("melt", 1.0, 500.0)
    k = ctx.choose(4, "from")
    # runs that start before, at, or after the beginning of the balance year
    import pandas as pd

    t0 = pd.Timestamp(2021, month, 1)
    begin = [t0 - pd.Timedelta("40d"), t0, t0 + pd.Timedelta("3h"), t0 + pd.Timedelta("100d")][k]
    at(m, begin)
    last = t0 + pd.DateOffset(years=1) - pd.Timedelta("3h")
    steps = [t for j in range(14) for t in (pd.Timestamp(begin.year, begin.month, 1) + pd.DateOffset(months=j) + pd.Timedelta(hours=h) for h in (-3, 0, 3))]
    steps = [t for t in steps if begin < t <= last]
    base = START[0, 2] + START[1, 2]
    lost, since = 0.0, None
    if begin == t0:
        since = 0.0
    for t in steps:
        # melt at the upper pixel only
        if since is not None:
            since = since + melt
        put(m, ICE, (1, 2), ice[1, 2] - melt, RHO)
        lost = lost + melt
        at(m, t)
        if t == t0:
            since = 0.0
        upper = START[1, 2] - lost
        done = t == last and since is not None
        if done:
            upper = upper + since  # moved to the lower pixel
        ctx.claim_eq("upper", ice[1, 2], upper, 1e-6)
        ctx.claim_eq("sum", ice[0, 2] + ice[1, 2], base - lost, 1e-6)


@scenario
def reset(ctx):
    """Glacier ids survive the reset of state variables."""
    m = model(ctx, lift=False)
    m.state.reset()
    for p in np.ndindex(3, 3):
        ctx.claim_eq("id", m.state.glaciers.glacier[p], G[p], 0)
    if ctx.symbolic:
        m._verif_lab.lift()
    init(m)
    at(m, "2020-10-01 00:00")
    a = ctx.real("a", 100, 5000)
    put(m, ICE, (1, 2), START[1, 2] - a, RHO)
    at(m, "2021-09-30 21:00")
    ice = m.state.snow.ice_content[ICE]
    ctx.claim_eq("upper", ice[1, 2], START[1, 2], 1e-6)
    ctx.claim_eq("lower", ice[0, 2], START[0, 2] - a, 1e-6)
