"""
Gridded outputs.

A real GriddedOutputManager is driven through whole output intervals with symbolic state values in every time step; the oracle groups the time steps by
calendar interval independently. File formats are observed at the call that would write (raster file, NetCDF variable), not on disk.
"""
from symex.api import *

scenario = Registry()
BOUNDS = (
    "runs of 5 to 60 time steps of 1.5 h, 3 h, 5 h, 6 h, 12 h and 1 d starting at and off midnight, ending within and at the end of an interval; hourly to yearly "
    "intervals, explicit dates, instantaneous, sum and mean; 2-d, 3-d and integer variables; two pixels in the region of interest; values -1e4..1e4"
)
OUTSIDE = "encoding of the values in the files (float32, compression, CRS); monthly output of runs with time steps above one day; rounding"
NAN = float("nan")
PIX = [(0, 2), (2, 1)]
ROI = np.zeros((3, 3), int)
for _p in PIX:
    ROI[_p] = 1
TEMP, PREC, SNOW3, NUM = "meteo.temp", "meteo.precip", "snow.thickness", "snow.num_layers"


def model(ctx, start, end, step, variables, **grids):
    m = prepare(ctx, f"p28{start}{end}{step}".replace(" ", "").replace(":", ""), roi=ROI,
                config={"start_date": start, "end_date": end, "timestep": step, "snow": {"model": "multilayer"}})
    g = m.config.output_data.grids
    g.variables = [type(m.config)(v) for v in variables]
    for k, v in grids.items():
        g[k] = v
    from openamundsen.fileio.griddedoutput import GriddedOutputManager

    return m, GriddedOutputManager(m)


def intervals(m, freq, agg, every=None):
    """List of (output date, dates that belong to it), from the calendar."""
    import pandas as pd

    d = list(m.dates)
    dt = pd.Timedelta(seconds=m.timestep)
    key = {"ME": lambda t: (t.year, t.month), "YE": lambda t: t.year}.get(freq)
    r, cur = [], []
    for k, t in enumerate(d):
        if key:
            if agg:
                cur.append(t)
            else:
                cur = [t]
            if key(t) != key(t + dt):
                r.append((t, cur))
                cur = []
        elif freq in ("MS", "YS"):
            if t.day == 1 and (freq == "MS" or t.month == 1) and t.time() == d[0].time():
                r.append((t, [t]))
        else:
            n = every or 1
            if agg:
                cur.append(t)
                if (k + 1) % n == 0:
                    r.append((t, cur))
                    cur = []
            elif k % n == 0:
                r.append((t, [t]))
    return r


def drive(ctx, m, g, names, sparse=False):
    """Run through all time steps with fresh values; returns {date: {variable: values in the region of interest}}."""
    seen = {}
    for k, t in enumerate(m.dates):
        m.date, m.date_idx = t, k
        row = {}
        for v in names:
            a = m.state[v]
            if v == NUM:
                a[:] = 7
                x = [(3 * k + 2 * n) % 5 for n in range(len(PIX))]
            elif a.ndim == 3:
                a[:] = -99.0
                x = [[ctx.real(f"{v}{k}_{n}_{l}", -1e4, 1e4) if l == 1 else float(k * 3 + l - n) for l in range(a.shape[0])] for n in range(len(PIX))]
            else:
                a[:] = -99.0
                x = [ctx.real(f"{v}{k}_{n}", -1e4, 1e4) for n in range(len(PIX))]
            for q, y in zip(PIX, x):
                if a.ndim == 3:
                    for l, z in enumerate(y):
                        a[(l, *q)] = z
                else:
                    a[q] = y
            row[v] = x
        seen[t] = row
        g.update()
        for v in names:
            a = m.state[v]
            for n, q in enumerate(PIX):
                ctx.claim("state-untouched", bool(a[q] is row[v][n] or isinstance(row[v][n], (int, list)) or not ctx.symbolic))
    return seen


def reduce(agg, xs):
    if isinstance(xs[0], list):
        return [reduce(agg, list(c)) for c in zip(*xs)]
    if agg == "sum":
        return ssum(xs)
    return ssum(xs) * (1.0 / len(xs)) if agg == "mean" else xs[0]


def compare(ctx, name, got, want):
    """got: value or layer column."""
    if isinstance(want, list):
        for l, w in enumerate(want):
            ctx.claim_eq(name, got[l], w, 1e-6)
    else:
        ctx.claim_eq(name, got, want, 1e-6)


# (start, end, timestep, frequency, steps per interval)
RUNS = {
    "6h-day": ("2020-01-15", "2020-01-16 18:00", "6h", "D", 4),
    "6h-day-partial": ("2020-01-15", "2020-01-17 06:00", "6h", "D", 4),
    "6h-12h-off": ("2020-01-15 06:00", "2020-01-16 12:00", "6h", "12h", 2),
    "12h-month": ("2020-01-30", "2020-02-01 12:00", "12h", "ME", 0),
    "3h-month-partial": ("2020-01-31 12:00", "2020-02-01 03:00", "3h", "ME", 0),
    "3h-month-unfinished": ("2020-01-31 03:00", "2020-01-31 15:00", "3h", "ME", 0),
    "5h-month": ("2020-02-29", "2020-03-02 02:00", "5h", "ME", 0),
    "day-month-off": ("2020-01-30 06:00", "2020-02-02 06:00", "D", "ME", 0),
    "6h-month-off": ("2020-02-28 15:00", "2020-03-01 09:00", "6h", "ME", 0),
    "12h-year": ("2020-12-30", "2021-01-01 12:00", "12h", "YE", 0),
    "day-day": ("2020-01-15", "2020-01-18", "D", "D", 1),
    "3h-default": ("2020-01-15", "2020-01-15 12:00", "3h", None, 1),
}
BEGIN = {"MS": ("2020-01-31", "2020-02-02", "12h"), "YS": ("2020-12-31", "2021-01-02", "12h")}


@scenario(params={k: dict(run=k) for k in RUNS}, merged=False)
def aggregate(ctx, run):
    """Every interval holds the sum, mean or instantaneous value of its own time steps, in memory, in the region of interest only."""
    start, end, step, freq, n = RUNS[run]
    variables = []
    for v, agg, name in ((TEMP, "mean", "tm"), (TEMP, None, "ti"), (PREC, "sum", None), (SNOW3, "mean", "th"), (NUM, "mean", "nm"), (NUM, "sum", "ns"), (NUM, None, "ni")):
        d = {"var": v}
        if freq:
            d["freq"] = freq
        if agg:
            d["agg"] = agg
        if name:
            d["name"] = name
        variables.append(d)
    m, g = model(ctx, start, end, step, variables, format="memory", layout="grid")
    seen = drive(ctx, m, g, (TEMP, PREC, SNOW3, NUM))
    ds = g.data
    for d in variables:
        name, agg = d.get("name", d["var"].split(".")[1]), d.get("agg")
        want = intervals(m, freq, bool(agg), n)
        if not want:
            ctx.claim("nothing-to-write", ds is None or name not in ds)
            continue
        da = ds[name]
        times = list(np.asarray(da[da.dims[0]].values).astype("datetime64[ns]"))
        ctx.claim("dates", times == [t.to_datetime64().astype("datetime64[ns]") for t, _ in want])
        if agg:
            b = np.asarray(ds[da.dims[0] + "_bounds"].values).astype("datetime64[ns]")
            ctx.claim("bounds-end", list(b[:, 1]) == times)
            ctx.claim("bounds-start", list(b[:, 0]) == [m.dates[0].to_datetime64()] + times[:-1])
        ctx.claim("integer-type", np.issubdtype(da.dtype, np.integer) == (d["var"] == NUM and agg != "mean") or ctx.symbolic)
        for k, (t, ts) in enumerate(want):
            for p, q in enumerate(PIX):
                compare(ctx, name, da.values[(k, *q)] if da.ndim == 3 else da.values[(k, slice(None), *q)], reduce(agg, [seen[u][d["var"]][p] for u in ts]))
            if agg:
                ctx.claim("outside-roi", all(isnan(x) or x == np.iinfo(np.int32).min for x in np.ravel(da.values[k, ..., 0, 0])))


@scenario(params={k: dict(run=k) for k in BEGIN}, merged=True)
def begin(ctx, run):
    """Instantaneous values at the begin of months and years; explicit dates; dates that are not part of the run are left out."""
    import pandas as pd

    start, end, step = BEGIN[run]
    m, g = model(ctx, start, end, step, [dict(var=TEMP, freq=run), dict(var=TEMP, name="other", dates=[pd.Timestamp(start) + pd.Timedelta("12h"), pd.Timestamp(end) + pd.Timedelta("12h"),
                 pd.Timestamp("2035-01-01")]), dict(var=PREC, dates=[pd.Timestamp(start) + pd.Timedelta("12h"), pd.Timestamp(end) + pd.Timedelta("12h")], agg="sum")], format="memory", layout="grid")
    seen = drive(ctx, m, g, (TEMP, PREC))
    want = intervals(m, run, False)
    da = g.data["temp"]
    ctx.claim("dates", list(pd.DatetimeIndex(da[da.dims[0]].values)) == [t for t, _ in want] and len(want) > 0)
    for k, (t, _) in enumerate(want):
        for p, q in enumerate(PIX):
            ctx.claim_eq("value", da.values[(k, *q)], seen[t][TEMP][p], 0)
    o, pr = g.data["other"], g.data["precip"]
    ctx.claim("explicit-dates", o.shape[0] == 2)
    d = list(m.dates)
    for p, q in enumerate(PIX):
        ctx.claim_eq("explicit", o.values[(0, *q)], seen[d[1]][TEMP][p], 0)
        ctx.claim_eq("explicit", o.values[(1, *q)], seen[d[-1]][TEMP][p], 0)
        ctx.claim_eq("explicit-sum", pr.values[(0, *q)], seen[d[0]][PREC][p] + seen[d[1]][PREC][p], 1e-6)
        ctx.claim_eq("explicit-sum", pr.values[(1, *q)], ssum(seen[t][PREC][p] for t in d[2:]), 1e-6)


@scenario(params={f"{f}-{lay}": dict(fmt=f, layout=lay) for f, lay in (("ascii", "grid"), ("geotiff", "grid"), ("netcdf", "grid"), ("netcdf-append", "grid"),
                                                                    ("netcdf", "roi_pixel"), ("netcdf-append", "roi_pixel"))}, merged=True)
def formats(ctx, fmt, layout):
    """What is handed to the file writers: the same values, under the right name, variable and time index."""
    from openamundsen import fileio
    from openamundsen.fileio import griddedoutput
    import xarray as xr

    V = [dict(var=TEMP, freq="12h", agg="mean", name="tm"), dict(var=PREC, freq="D", agg="sum"), dict(var=TEMP, freq="12h"), dict(var=SNOW3, freq="D", agg="mean", name="th")]
    if fmt == "geotiff":
        V = V[1:]
    if layout == "grid" and "netcdf" in fmt:
        V = V[:3]
    m, g = model(ctx, "2020-01-15", "2020-01-16 18:00", "6h", V, format=fmt.split("-")[0], layout=layout, append="append" in fmt)
    files, nc, created = {}, {}, []

    def write_raster_file(filename, data, transform, **kwargs):
        ctx.claim("written-once", str(filename) not in files)
        files[str(filename).rsplit("/", 1)[-1]] = (np.array(data, dtype=object), kwargs, transform)

    def to_netcdf(self, path=None, *a, **k):
        created.append(self)

    class Var:
        def __init__(self, name):
            self.name = name
            self.dimensions = created[0][name].dims

        def __setitem__(self, key, data):
            key = key if isinstance(key, tuple) else (key,)
            ctx.claim("index-whole-step", all(x == slice(None) for x in key[1:]))
            ctx.claim("rank", np.ndim(data) == len(key) - 1 or layout == "roi_pixel")
            nc.setdefault(self.name, {})[int(key[0])] = np.array(data, dtype=object)

    class File:
        def __init__(self, path, mode="r", **k):
            ctx.claim("opened-after-creation", len(created) == 1 and mode == "r+")

        def __getitem__(self, name):
            return Var(name)

        def close(self):
            pass

    with stubbed((fileio, "write_raster_file", write_raster_file), (griddedoutput.netCDF4, "Dataset", File), (xr.Dataset, "to_netcdf", to_netcdf)):
        seen = drive(ctx, m, g, (TEMP, PREC, SNOW3))
    for d in V:
        name, agg = d.get("name", d["var"].split(".")[1]), d.get("agg")
        n = {"12h": 2, "D": 4}[d["freq"]]
        want = intervals(m, d["freq"], bool(agg), n)
        for k, (t, ts) in enumerate(want):
            exp = [reduce(agg, [seen[u][d["var"]][p] for u in ts]) for p in range(len(PIX))]
            if "netcdf" in fmt:
                ctx.claim("variable-written", name in nc and k in nc[name])
                a = nc[name][k]
                for p, q in enumerate(PIX):
                    compare(ctx, name, (a[p] if a.ndim == 1 else a[:, p]) if layout == "roi_pixel" else a[q], exp[p])
                if layout == "roi_pixel":
                    ctx.claim("pixels-only", a.shape[-1] == len(PIX))
                if "append" in fmt:
                    tv = created[0][name].dims[0]
                    ctx.claim("time-appended", tv in nc and float(nc[tv][k]) == (t - m.dates[0]).total_seconds() / 3600)
                    if agg:
                        b = np.asarray(nc[tv + "_bounds"][k], float)
                        ctx.claim("bounds-appended", list(b) == [0.0 if k == 0 else (want[k - 1][0] - m.dates[0]).total_seconds() / 3600,
                                                                 (t - m.dates[0]).total_seconds() / 3600])
            else:
                f = "%Y-%m-%dT%H%M"
                stamp = f"{ts[0]:{f}}_{t:{f}}" if agg else f"{t:{f}}"
                ext = {"ascii": "asc", "geotiff": "tif"}[fmt]
                for l in range(len(exp[0]) if isinstance(exp[0], list) else 1):
                    fn = f"{name}_{l}_{stamp}.{ext}" if isinstance(exp[0], list) else f"{name}_{stamp}.{ext}"
                    ctx.claim("file-written", fn in files)
                    a, kw, tr = files[fn]
                    ctx.claim("georeferenced", tr == m.grid.transform)
                    for p, q in enumerate(PIX):
                        ctx.claim_eq(name, a[q], exp[p][l] if isinstance(exp[p], list) else exp[p], 1e-6)
    if "netcdf" not in fmt:
        ctx.claim("number-of-files", len(files) == sum(len(intervals(m, d["freq"], bool(d.get("agg")), {"12h": 2, "D": 4}[d["freq"]])) *
                                                       (m.state[SNOW3].shape[0] if d["var"] == SNOW3 else 1) for d in V))


@scenario(params={"": {}}, merged=True)
def dates(ctx):
    """Variables with different explicit dates (equally many, same first and last) each keep their own dates and values."""
    import pandas as pd

    d = list(pd.date_range("2020-01-15", periods=5, freq="90min"))
    own = {"temp": [0, 1, 4], "precip": [0, 3, 4], "p2": [0, 1, 4], "t2": [0, 2, 4]}
    V = [dict(var=TEMP, dates=[d[k] for k in own["temp"]]), dict(var=PREC, dates=[d[k] for k in own["precip"]]), dict(var=PREC, name="p2", dates=[d[k] for k in own["p2"]]),
         dict(var=TEMP, name="t2", dates=[d[k] for k in own["t2"]], agg="sum")]
    m, g = model(ctx, "2020-01-15", "2020-01-15 06:00", "90min", V, format="memory", layout="grid")
    seen = drive(ctx, m, g, (TEMP, PREC))
    for v in V:
        n = v.get("name", v["var"].split(".")[1])
        da = g.data[n]
        ctx.claim("dates", list(pd.DatetimeIndex(da[da.dims[0]].values)) == v["dates"])
        for k, i in enumerate(own[n]):
            first = i if "agg" not in v else (own[n][k - 1] + 1 if k else 0)
            for p, q in enumerate(PIX):
                ctx.claim_eq(n, da.values[(k, *q)], ssum(seen[d[j]][v["var"]][p] for j in range(first, i + 1)), 1e-6)


@scenario(params={"month": dict(freq="ME"), "quarter": dict(freq=None)}, merged=True)
def long(ctx, freq):
    """Files of sums over long intervals are named after the first and last time step of the interval."""
    import pandas as pd
    from openamundsen import fileio

    ends = [pd.Timestamp(x) for x in (["2020-01-31", "2020-02-29"] if freq else ["2020-02-20", "2020-02-29"])]
    m, g = model(ctx, "2020-01-01", "2020-02-29", "D", [dict(var=PREC, agg="sum", **(dict(freq=freq) if freq else dict(dates=ends)))], format="ascii", layout="grid")
    files = {}
    with stubbed((fileio, "write_raster_file", lambda filename, data, *a, **k: files.setdefault(str(filename).rsplit("/", 1)[-1], np.array(data, dtype=object)))):
        seen = drive(ctx, m, g, (PREC,))
    first = m.dates[0]
    ctx.claim("number-of-files", len(files) == 2)
    for e in ends:
        fn = f"precip_{first:%Y-%m-%dT%H%M}_{e:%Y-%m-%dT%H%M}.asc"
        ctx.claim("file", fn in files)
        if fn in files:
            for p, q in enumerate(PIX):
                ctx.claim_eq("sum", files[fn][q], ssum(seen[t][PREC][p] for t in m.dates if first <= t <= e), 1e-6)
        first = e + pd.Timedelta("1D")


@scenario
def roi_pixels(ctx):
    """The compact layout holds the pixels in row-major order and expands to exactly the grid layout."""
    from openamundsen.util import convert_roi_pixel_dataset_to_grid
    from openamundsen.fileio.griddedoutput import GriddedOutputManager

    V = [dict(var=TEMP, freq="12h", agg="mean", name="tm"), dict(var=SNOW3, freq="12h", agg="mean", name="th"), dict(var=NUM, freq="12h", name="ni"), dict(var=TEMP, freq="D")]
    m, g = model(ctx, "2020-01-15", "2020-01-16 18:00", "6h", V, format="memory", layout="grid")
    m.config.output_data.grids.layout = "roi_pixel"
    r = GriddedOutputManager(m)

    class Both:
        def update(self):
            g.update()
            r.update()

    drive(ctx, m, Both(), (TEMP, SNOW3, NUM))
    ctx.claim("row-major", list(r.data.pixel.values) == [q[0] * 3 + q[1] for q in PIX])
    c = convert_roi_pixel_dataset_to_grid(r.data)
    for d in V:
        name = d.get("name", "temp")
        a, b, p = g.data[name], c[name], r.data[name]
        ctx.claim("dims", b.dims == a.dims and b.shape == a.shape and p.shape[:-1] == a.shape[:-2])
        for k in np.ndindex(*a.shape):
            y, x = a.values[k], b.values[k]
            if k[-2:] in PIX:
                ctx.claim_eq("value", x, y, 1e-9)
                ctx.claim_eq("pixel", p.values[(*k[:-2], PIX.index(k[-2:]))], y, 1e-9)
            elif name != "temp":  # instantaneous values are copied from everywhere in the grid layout
                ctx.claim("outside-roi", isnan(x) or x == np.iinfo(np.int32).min)
    ctx.claim("coordinates", list(c.x.values) == list(g.data.x.values) == [640050.0, 640150.0, 640250.0] and list(c.y.values) == list(g.data.y.values))
    ctx.claim("times", all(bool((c[t].values == g.data[t].values).all()) for t in g.data.coords if t.startswith("time")))
    ctx.claim("layout-attribute", c.attrs.get("openamundsen_output_layout") == g.data.attrs.get("openamundsen_output_layout") == "grid")


@scenario
def rejected(ctx):
    """Impossible output definitions are rejected; outputs without any date in the run are dropped."""
    import pandas as pd
    from openamundsen import errors

    ctx.real("unused", 0, 1)
    cases = [
        ([dict(var=TEMP), dict(var=PREC, name="temp")], {}, errors.ConfigurationError),
        ([dict(var=TEMP, freq="QE")], {}, errors.ConfigurationError),
        ([dict(var=TEMP, freq="3h")], {}, ValueError),
        ([dict(var=TEMP, freq="9h")], {}, ValueError),
        ([dict(var=TEMP)], dict(layout="roi_pixel", format="ascii"), errors.ConfigurationError),
        ([dict(var=TEMP)], dict(layout="roi_pixel", format="geotiff"), errors.ConfigurationError),
    ]
    for variables, opt, err in cases:
        try:
            model(ctx, "2020-01-15", "2020-01-16 18:00", "6h", variables, **{**dict(format="memory", layout="grid"), **opt})
            ok = False
        except err:
            ok = True
        ctx.claim("rejected", ok)
    m, g = model(ctx, "2020-01-15", "2020-01-16 18:00", "6h", [dict(var=TEMP, dates=[pd.Timestamp("2031-01-01")])], format="memory", layout="grid")
    ctx.claim("nothing-to-write", len(g.fields) == 0)
    g.update()
    ctx.claim("nothing-created", g.data is None)
