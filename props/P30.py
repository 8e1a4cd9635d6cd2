"""
Run protocol and state variables.

Real models are run for whole time steps (OpenAmundsen.run_single) in which every variable that is not declared as retained holds an arbitrary value
from the step before; the retained variables must come out as in a run in which all these variables have been reset. Calendar properties are decided
for symbolic points in time.
"""
from symex.api import *

scenario = Registry()
NAN = float("nan")
BOUNDS = (
    "runs of three to four time steps (snowfall, cold and clear, warm with rain) of 3 h by day and night with both snow models, energy balance and temperature index, canopy, "
    "evapotranspiration, glaciers and snow redistribution; left-over values -1e4..1e4 in all variables that are not retained; any minute of the first, last and a middle day of "
    "months in leap and other years with time steps of 3 h to 5 d (1 min to 10 d in the thorough tier); precipitation, wind speed or cloudiness of one of four pixels"
)
OUTSIDE = "independence for every weather (the steps use fixed weather but for that); liveview; rounding"
PIX = [(0, 0), (1, 1), (2, 0), (2, 2)]
ROI = np.zeros((3, 3), int)
for _p in PIX:
    ROI[_p] = 1
LC = np.array([[1, 9, 9], [9, 2, 9], [3, 9, 4]])
SOIL = np.array([[4, 3, 3], [3, 1, 3], [9, 3, 5]])
GL = np.array([[1, 0, 0], [0, 2, 0], [2, 0, 0]])
FOREST = {"is_forest": True, "leaf_area_index": {"min": 2.0, "max": 4.0, "effective_add": 1.0}, "plant_date": 20, "growth_stage_lengths": [30, 30, 120, 30]}
CROP = dict(crop_coefficient_type="dual", rooting_depth=0.5, depletion_fraction=0.6, crop_coefficients=[0.3, 0.9, 0.8], plant_date=1, growth_stage_lengths=[10, 20, 100, 30], max_height=0.5)
CLASSES = {1: {**FOREST, **CROP, "max_height": 10.0}, 2: {**FOREST, "leaf_area_index": {"min": 0.5, "max": 4.5, "effective_add": 3.2}, **CROP, "crop_coefficient_type": "single", "max_height": 9.0},
           3: CROP, 4: dict(is_sealed=True, max_sealed_interception=1.0, rooting_depth=float("nan"), depletion_fraction=float("nan"), max_height=1.0)}
ONLY_FOREST = {k: {a: v for a, v in CLASSES[k].items() if a in FOREST} for k in (1, 2)}
MULTI, CRYO = {"model": "multilayer"}, {"model": "cryolayers"}
TI = {"melt": {"method": "temperature_index", "degree_day_factor": 5.0, "threshold_temp": 273.15}}

CONFIGS = {
    "multilayer": dict(snow=MULTI),
    "multilayer-anderson": dict(snow={**MULTI, "compaction": {"method": "anderson"}, "albedo": {"method": "usaco"}}, meteo={"stability_correction": True}),
    "cryolayers": dict(snow=CRYO),
    "temperature-index": dict(snow={**CRYO, **TI}),
    "enhanced": dict(snow={**CRYO, "melt": {**TI["melt"], "method": "enhanced_temperature_index", "albedo_factor": 0.01}}),
    "canopy": dict(snow=MULTI, canopy={"enabled": True}, land_cover={"classes": ONLY_FOREST}),
    "canopy-cryolayers": dict(snow=CRYO, canopy={"enabled": True}, land_cover={"classes": ONLY_FOREST}),
    "evapotranspiration": dict(snow=MULTI, evapotranspiration={"enabled": True}, land_cover={"classes": CLASSES}),
    "canopy-evapotranspiration": dict(snow=CRYO, canopy={"enabled": True}, evapotranspiration={"enabled": True}, land_cover={"classes": CLASSES}),
    "glaciers": dict(snow=CRYO, glaciers={"enabled": True}),
    "redistribution": dict(snow=MULTI, meteo={"precipitation_correction": [{"method": "srf"}]}),
}
NEXT = [(0, 1), (1, 2)]  # outside of the region of interest
GRIDS = {"lc": LC, "soil": SOIL, "glaciers": GL, "srf": np.full((3, 3), 1.5)}
# temp (per pixel), precip, rel_hum, wind speed, cloud factor
WEATHER = [
    ((268.0, 270.0, 266.0, 271.0), (12.0, 0.0, 4.0, 1.0), 95.0, 3.0, 0.5),
    ((255.0, 262.0, 250.0, 260.0), (0.0, 0.0, 0.0, 0.0), 60.0, 1.0, 1.0),
    ((276.0, 279.0, 274.0, 278.0), (6.0, 2.0, 0.5, 0.0), 90.0, 5.0, 0.75),
]


def set_weather(m, w):
    t, p, rh, ws, cf = w
    for k, q in enumerate(PIX):
        s = m.state.meteo
        s.temp[q], s.precip[q], s.rel_hum[q], s.wind_speed[q] = t[k], p[k], rh, ws
        s.cloud_factor[q], s.cloud_fraction[q] = cf, 0.3


def floats(m):
    for cat in m.state.categories:
        for v, d in m.state[cat]._meta.items():
            if np.issubdtype(np.dtype(d.dtype), np.floating):
                yield cat, v, d.retain


def model(ctx, config, tag, start="2020-03-15 06:00"):
    cfg = dict(CONFIGS[config], start_date=start, end_date="2020-03-18", timestep="3h")
    m = prepare(ctx, f"p30{config}{tag}", lift=False, fresh=True, roi=ROI, grids=GRIDS, config=cfg)
    m._initialize_state_variables()
    m.date_idx = None
    m._run_method = None
    return m


def step(m, w):
    m._meteo_callback = lambda model: set_weather(model, w)
    m.run_single()


def pair(ctx, config, hist, **kw):
    """Two models with the same history."""
    r = [model(ctx, config, t, **kw) for t in "ab"]
    for m in r:
        for w in hist:
            step(m, WEATHER[w])
    if ctx.symbolic:
        r[1]._verif_lab.lift()
    return r


def poison(ctx, m, which):
    """Arbitrary values in place of everything selected by which(category, variable, retained, position)."""
    n = 0
    for cat, v, r in floats(m):
        a = m.state[cat][v]
        for q in np.ndindex(*a.shape):
            if which(cat, v, r, q[-2:]) and not isnan(a[q]):
                n += 1
                a[q] = ctx.real(f"{cat}.{v}{'_'.join(map(str, q))}", -1e4, 1e4)
    ctx.claim("values-left", n > 0)


def same(ctx, name, a, b, pixels=PIX):
    for cat in a.state.categories:
        for v in a.state[cat]._meta:
            x, y = a.state[cat][v], b.state[cat][v]
            for q in np.ndindex(*x.shape):
                if q[-2:] in pixels:
                    u, w = x[q], y[q]
                    if isnan(u) or isnan(w):
                        ctx.claim(f"{name}:{cat}.{v}", isnan(u) and isnan(w))
                    else:
                        ctx.claim_eq(f"{name}:{cat}.{v}", w, u, 1e-9)


HIST = [((0,), 1), ((0, 1), 2), ((0, 2), 1), ((0, 2, 1), 0)]
NIGHT = "2020-03-15 21:00"


@scenario(params={f"{k}-{n}": dict(config=k, hist=h, _tiers=("quick", "thorough") if n in (1, 2) else ("thorough",)) for k in CONFIGS for n, h in enumerate(HIST)}, merged=False)
def stale(ctx, config, hist):
    """The state after a time step does not depend on what the variables that are not retained held before."""
    a, b = pair(ctx, config, hist[0])
    a.config.reset_state_variables, b.config.reset_state_variables = True, False
    poison(ctx, b, lambda cat, v, r, q: not r and q in PIX)
    for m in (a, b):
        step(m, WEATHER[hist[1]])
    same(ctx, "stale", a, b)


@scenario(params={k: dict(config=k) for k in CONFIGS}, merged=False)
def outside(ctx, config):
    """The state in the region of interest does not depend on what is held outside (except for the terrain), which is left alone."""
    a, b = pair(ctx, config, (0, 1))
    poison(ctx, b, lambda cat, v, r, q: q in NEXT and (cat, v) != ("base", "dem"))
    for m in (a, b):
        step(m, WEATHER[2])
    same(ctx, "outside", a, b)


LIGHT = ("temperature-index-wind_speed", "enhanced-precip", "canopy-cryolayers-precip", "canopy-evapotranspiration-precip", "multilayer-cloud_fraction", "redistribution-cloud_fraction")
RANGE = {"precip": (1, 30), "wind_speed": (0.5, 20), "cloud_fraction": (0, 1)}


@scenario(params={f"{k}-{v}": dict(config=k, var=v, _tiers=("quick", "thorough") if f"{k}-{v}" in LIGHT else ("thorough",)) for k in CONFIGS for v in RANGE}, merged=False)
def neighbours(ctx, config, var):
    """Weather of one pixel has no effect on the other ones in the same time step."""
    a, b = pair(ctx, config, (0,))
    p = PIX[ctx.choose(len(PIX), "pixel")]
    x = ctx.real(var, *RANGE[var])
    for m in (a, b):

        def weather(model, m=m):
            set_weather(model, WEATHER[2])
            if m is b:
                model.state.meteo[var][p] = x

        m._meteo_callback = weather
        m.run_single()
    same(ctx, "other-pixels", a, b, [q for q in PIX if q != p])


def stations():
    """Two stations, ten time steps, values missing here and there (all of a variable, or one station)."""
    import pandas as pd
    import pyproj
    from openamundsen import forcing

    n = NAN
    V = {
        "temp": ([268.0, 269.0, 275.0, n, 270.0, 266.0, 265.0, 271.0, n, 270.0], [266.0, 267.0, 273.0, n, n, 265.0, 264.0, 270.0, 268.0, 269.0]),
        "precip": ([2.0, 0.0, 1.0, 1.0, n, 0.0, 3.0, 0.0, 1.0, n], [1.0, 0.0, n, 2.0, n, 0.0, 2.0, 0.0, 1.0, n]),
        "rel_hum": ([90.0, 80.0, n, 85.0, 95.0, 70.0, n, 80.0, 60.0, 75.0], [85.0, 75.0, n, 80.0, n, 75.0, 85.0, 80.0, 65.0, 70.0]),
        "sw_in": ([300.0, 500.0, n, 200.0, 0.0, 0.0, 0.0, 100.0, 400.0, n], [250.0, 450.0, n, 250.0, 0.0, 0.0, 0.0, n, 350.0, n]),
        "wind_speed": ([3.0, n, 1.0, 2.0, 4.0, 5.0, 1.0, n, 2.0, 3.0], [2.0, n, 2.0, n, 3.0, 4.0, 2.0, n, 3.0, 3.0]),
    }
    tr = pyproj.Transformer.from_crs("epsg:32632", "epsg:4326", always_xy=True)
    r = []
    for k, (x, y) in enumerate([(640050.0, 5180250.0), (640250.0, 5180050.0)]):
        lon, lat = tr.transform(x, y)
        df = pd.DataFrame({v: c[k] for v, c in V.items()}, index=pd.date_range("2020-03-15 09:00", periods=10, freq="3h"))
        r.append(forcing.make_point_dataset(data=df, point_id=f"s{k}", name=f"s{k}", lon=lon, lat=lat, alt=2000.0 + 80.0 * k))
    return forcing.combine_point_datasets(r)


CLOUDS = {"clear_sky_fraction": {}, "humidity": {"meteo": {"interpolation": {"cloudiness": {"method": "humidity"}}}},
          "constant": {"meteo": {"interpolation": {"temperature": {"trend_method": "fixed"}, "cloudiness": {"clear_sky_fraction_night_method": "constant"}}}}}


@scenario(params={f"{k}-{n}": dict(method=k, n=n, _tiers=("quick", "thorough") if (k, n) in (("clear_sky_fraction", 1), ("clear_sky_fraction", 4), ("humidity", 2), ("constant", 5)) else ("thorough",))
                  for k in CLOUDS for n in range(1, 10)}, merged=False)
def measured(ctx, method, n):
    """The same for a run driven by stations: missing values do not bring back what was measured or calculated in the step before."""
    data = stations()
    r = []
    for t in "ab":
        cfg = dict(CLOUDS[method], snow=MULTI, start_date="2020-03-15 09:00", end_date="2020-03-16 12:00", timestep="3h", input_data={"meteo": {"format": "memory"}})
        m = prepare(ctx, f"p30m{method}{n}{t}", lift=False, fresh=True, roi=ROI, config=cfg, meteo=data)
        m._initialize_state_variables()
        m.date_idx = m._run_method = None
        for _ in range(n):
            m.run_single()
        r.append(m)
    a, b = r
    a.config.reset_state_variables, b.config.reset_state_variables = True, False
    if ctx.symbolic:
        b._verif_lab.lift()
    poison(ctx, b, lambda cat, v, ret, q: not ret and q in PIX)
    for m in r:
        m.run_single()
    same(ctx, "stale", a, b)


class Date:
    """Point in time: calendar days by number, (symbolic) minutes of the day."""

    def __init__(self, days, k, minutes):
        self.days, self.k, self.t = days, k, minutes

    def _shift(self, d, sign):
        n, s = divmod(d.total_seconds(), 86400.0)
        return Date(self.days, self.k + sign * int(n), self.t + sign * s / 60.0)._norm()

    def _norm(self):
        k, t = self.k, self.t
        if bool(t < 0.0):
            k, t = k - 1, t + 1440.0
        elif bool(t >= 1440.0):
            k, t = k + 1, t - 1440.0
        return Date(self.days, k, t)

    def __add__(self, d):
        return self._shift(d, 1)

    __radd__ = __add__

    def __sub__(self, d):
        return self._shift(d, -1)

    year = property(lambda self: self.days[self.k][0])
    month = property(lambda self: self.days[self.k][1])
    day = property(lambda self: self.days[self.k][2])

    def normalize(self):
        return Date(self.days, self.k, 0.0)

    def date(self):
        return self.days[self.k]

    def __eq__(self, o):
        return self.days[self.k] == o.days[o.k] and bool(self.t == o.t)


def calendar(year, month):
    """[(year, month, day)] of three months, the second of which is given, and the position of its first day."""
    r = []
    year, month = (year - 1, 12) if month == 1 else (year, month - 1)
    first = 0
    for k in range(3):
        leap = year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)
        n = {2: 29 if leap else 28, 4: 30, 6: 30, 9: 30, 11: 30}.get(month, 31)
        first = len(r) if k == 1 else first
        length = n if k <= 1 else length
        r += [(year, month, d + 1) for d in range(n)]
        year, month = (year + 1, 1) if month == 12 else (year, month + 1)
    return r, first, length


QUICK = ("quick", "thorough")


@scenario(params={f"{y}-{mo}-{dt}": dict(year=y, month=mo, dt=dt, _tiers=QUICK if dt in (180, 1440) or (dt, y) in ((2880, 2020), (7200, 2021)) else ("thorough",))
                  for y, mo in ((2020, 1), (2019, 12), (2020, 2), (2021, 2), (2021, 6)) for dt in (1, 10, 180, 720, 1440, 2880, 7200, 14400)}, merged=True)
def calendar_steps(ctx, year, month, dt):
    """First and last time steps of days, months and years, for any minute of the first and last days of a month and one in the middle."""
    days, first, length = calendar(year, month)
    m = prepare(ctx, "p30cal", lift=False, config={"start_date": "2020-01-15", "end_date": "2020-01-17", "timestep": "3h"})
    day = (0, 1, 3, 13, length - 4, length - 2, length - 1)[ctx.choose(7, "day")]
    where = ctx.choose(3, "position")
    t = ctx.real("minutes", 0.0, 1440.0, hi_open=True)
    m.timestep = dt * 60.0
    m.date = Date(days, first + day, t)
    m.date_idx = (0, 3, len(m.dates) - 1)[where]
    p = m.timestep_props
    f, l = bool(t < float(dt)), bool(t + float(dt) >= 1440.0)
    want = {"day": (f, l), "month": (bool(t + day * 1440.0 < float(dt)), bool(t + day * 1440.0 + float(dt) >= length * 1440.0))}
    want["year"] = (want["month"][0] and month == 1, want["month"][1] and month == 12)
    for unit, (f, l) in want.items():
        ctx.claim("strict-first-of-" + unit, bool(getattr(p, "strict_first_of_" + unit)) == f)
        ctx.claim("strict-last-of-" + unit, bool(getattr(p, "strict_last_of_" + unit)) == l)
        ctx.claim("first-of-" + unit, bool(getattr(p, "first_of_" + unit)) == (f or where == 0))
        ctx.claim("last-of-" + unit, bool(getattr(p, "last_of_" + unit)) == (l or where == 2))
    ctx.claim("first-of-run", bool(p.first_of_run) == (where == 0))
    ctx.claim("last-of-run", bool(p.last_of_run) == (where == 2))


@scenario
def reset(ctx):
    """Resetting empties exactly the variables that are not retained, of every type and rank."""
    from openamundsen import statevars

    s = statevars.StateVariableManager(2, 3)
    spec = {}
    for cat in ("one", "two"):
        c = s.add_category(cat)
        for t in (float, int, bool):
            for dim3 in (0, 2):
                for keep in (True, False):
                    n = f"{t.__name__}{dim3}{'keep' if keep else 'drop'}"
                    c.add_variable(n, dtype=t, dim3=dim3, retain=keep)
                    spec[cat, n] = (t, dim3, keep)
    s.initialize()
    if ctx.symbolic:
        statevars._DTYPE_INIT_VALS.setdefault(np.dtype(object), float("nan"))
    held = {}
    for (cat, n), (t, dim3, keep) in spec.items():
        a = s[cat][n]
        ctx.claim("shape", a.shape == ((2, 3) if dim3 == 0 else (dim3, 2, 3)))
        ctx.claim("initial", all(isnan(x) if t is float else x == 0 for x in np.ravel(a)))
        ctx.claim("type", a.dtype == np.dtype(t) or t is float and ctx.symbolic)
        if t is float and ctx.symbolic:
            a = s[cat][n] = a.astype(object)
        for k, q in enumerate(np.ndindex(*a.shape)):
            a[q] = ctx.real(f"{cat}{n}{k}", -1e4, 1e4) if t is float else (k + 2) % 3 if t is int else k % 2 == 0
        held[cat, n] = a.copy()
    s.reset()
    for (cat, n), (t, dim3, keep) in spec.items():
        for x, y in zip(np.ravel(s[cat][n]), np.ravel(held[cat, n])):
            if keep:
                ctx.claim_eq("retained", x, y, 0)
            elif t is float:
                ctx.claim("emptied", isnan(x))
            else:
                ctx.claim("emptied", x == 0)


@scenario
def protocol(ctx):
    """Every time step is processed once and in order, whichever way it is started; runs cannot be restarted or extended."""
    from openamundsen import errors

    start = ctx.choose(6, "single steps before run()")
    whole_run = ctx.choose(2, "whole run") == 0
    x = ctx.real("x", 250, 300)
    m = prepare(ctx, "p30protocol", lift=False, config={"start_date": "2020-01-15", "end_date": "2020-01-15 12:00", "timestep": "3h"})
    m.date_idx = m.date = None
    m._run_method = None
    log, state, out = [], [], []
    m._process_meteo_data = lambda: log.append(("meteo", m.date, m.date_idx))
    m._model_interface = lambda: (log.append(("interface", m.date, m.date_idx)), state.append(x * m.date_idx))
    m._meteo_callback = lambda model: log.append(("callback", m.date, m.date_idx))

    class Out:
        def __init__(self, name):
            self.name = name

        def update(self):
            log.append((self.name, m.date, m.date_idx))
            out.append(state[-1])

    try:
        m.point_output, m.gridded_output = Out("point"), Out("grid")
        done = 0
        for _ in range(start):
            m.run_single()
            done += 1
        if whole_run:
            try:
                m.run()
                ctx.claim("run-after-single", start == 0)
                done = len(m.dates)
            except errors.OpenAmundsenRuntimeError:
                ctx.claim("run-rejected", start > 0)
            try:
                m.run()
                ctx.claim("second-run", False)
            except errors.OpenAmundsenRuntimeError:
                pass
        if done == len(m.dates):
            try:
                m.run_single()
                ctx.claim("beyond-end", False)
            except errors.OpenAmundsenRuntimeError:
                pass
    finally:
        for n in ("_process_meteo_data", "_model_interface"):
            del m.__dict__[n]
    ctx.claim("steps", log == [(n, m.dates[k], k) for k in range(done) for n in ("callback", "meteo", "interface", "point", "grid")])
    for k in range(done):
        ctx.claim_eq("output-of-step", out[2 * k], x * k, 0)
        ctx.claim_eq("output-of-step", out[2 * k + 1], x * k, 0)


@scenario
def masks(ctx):
    """Masks of the pixels in the region of interest are put back to where these pixels lie."""
    m = prepare(ctx, "p30masks", lift=False, roi=ROI)
    ctx.real("unused", 0, 1)
    pix = [q for q in np.ndindex(3, 3) if ROI[q]]
    bits = np.array([ctx.choose(2, f"m{k}") == 1 for k in range(len(pix))])
    sub = np.zeros((3, 3), bool)
    sub[1, 1] = sub[2, 0] = True
    for f in (m.global_mask, m.roi_mask_to_global):
        g = f(bits)
        ctx.claim("mask", g.shape == (3, 3) and all(bool(g[q]) == (q in pix and bool(bits[pix.index(q)])) for q in np.ndindex(3, 3)))
        two = np.array([bits, ~bits])
        g = f(two)
        ctx.claim("mask-3d", g.shape == (2, 3, 3) and all(bool(g[(l, *q)]) == (q in pix and bool(two[l, pix.index(q)])) for l in (0, 1) for q in np.ndindex(3, 3)))
    for kw in (dict(global_mask=sub), dict(global_idxs=np.array([4, 6]))):
        g = m.global_mask(bits[:2], **kw)
        ctx.claim("submask", all(bool(g[q]) == (sub[q] and bool(bits[[(1, 1), (2, 0)].index(q)])) for q in np.ndindex(3, 3)))
    try:
        m.global_mask(bits[:-1])
        ctx.claim("size-checked", False)
    except ValueError:
        pass
