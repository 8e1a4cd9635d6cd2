"""
Point outputs.

A real PointOutputManager is driven through whole runs with symbolic state values; the oracle looks the pixels up from the coordinates. The CSV and NetCDF
formats are observed at the calls that write or read back the files.
"""
from symex.api import *

scenario = Registry()
BOUNDS = (
    "runs of 3 to 30 time steps of 10 min, 30 min, 1.5 h, 3 h, 5 h, 6 h and 1 d, written every time step up to once a month; stations inside and outside of the region of interest "
    "and user-defined points including corners of the grid and pixel edges; 2-d, 3-d and integer variables; values -1e4..1e4"
)
OUTSIDE = "encoding of the values in the files; geographic coordinates of the points (library transformation)"
TEMP, TH, NUM, ST = "meteo.temp", "snow.thickness", "snow.num_layers", "surface.temp"
VARS = [dict(var=TEMP), dict(var=TH, name="layer_height"), dict(var=NUM), dict(var=ST, name="ts")]
# name, x, y, row, col (upper left corner of the grid: 640000, 5180300; 100 m)
POINTS = [("a", 640001.0, 5180299.0, 0, 0), ("b", 640299.0, 5180001.0, 2, 2), (None, 640100.0, 5180150.0, 1, 1), ("d", 640250.0, 5180250.0, 0, 2)]
# id, x, y, row, col, in grid, in roi
STATIONS = [("s1", 640050.0, 5180050.0, 2, 0, True, True), ("s2", 640150.0, 5180250.0, 0, 1, True, False), ("s3", 641000.0, 5180250.0, 0, 10, False, False),
            ("s4", 640250.0, 5180150.0, 1, 2, True, True)]
ROI = np.array([[1, 0, 1], [1, 1, 1], [1, 1, 1]])


def model(ctx, start, end, step, fmt, freq, stations=True, points=POINTS):
    import pandas as pd
    import xarray as xr
    from openamundsen.fileio.pointoutput import PointOutputManager

    m = prepare(ctx, f"p29{start}{end}{step}".replace(" ", "").replace(":", ""), roi=ROI,
                config={"start_date": start, "end_date": end, "timestep": step, "snow": {"model": "multilayer"}})
    t = m.config.output_data.timeseries
    t.format, t.write_freq, t.add_default_variables, t.add_default_points = fmt, freq, False, stations
    t.variables = [type(m.config)(v) for v in VARS]
    t.points = [type(m.config)(dict(x=p[1], y=p[2], **({"name": p[0]} if p[0] else {}))) for p in points]
    d = {n: ("station", np.array([s[k] for s in STATIONS])) for k, n in ((1, "x"), (2, "y"), (3, "row"), (4, "col"), (5, "within_grid_extent"), (6, "within_roi"))}
    for n in ("lon", "lat"):
        d[n] = ("station", np.array([11.0, 12.0, 13.0, 14.0]))
    d["alt"] = ("station", np.array([1.0, 2.0, 3.0, 4.0]))
    m.meteo = xr.Dataset(d, coords={"station": [s[0] for s in STATIONS]})
    return m, PointOutputManager(m)


def expected_points(stations, points=POINTS):
    r = [(s[0], s[1], s[2], s[3], s[4]) for s in STATIONS if s[6]] if stations else []
    return r + [(p[0] or f"point{k + 1}", *p[1:]) for k, p in enumerate(points)]


def drive(ctx, m, g, pts):
    """Run through all time steps; a symbolic value per time step, variable and pixel of interest."""
    seen = {}
    pix = sorted({(p[3], p[4]) for p in pts})
    for k, t in enumerate(m.dates):
        m.date, m.date_idx = t, k
        row = {}
        for n, q in enumerate(pix):
            x = ctx.real(f"t{k}_{n}", -1e4, 1e4)
            m.state[TEMP][q] = x
            col = [float(10 * k + n + l) if l != 1 else 0.5 * x for l in range(m.state[TH].shape[0])]
            for l, v in enumerate(col):
                m.state[TH][(l, *q)] = v
            m.state[NUM][q] = (k + n) % 4
            m.state[ST][q] = ctx.real(f"s{k}_{n}", 200, 300)
            row[q] = {"temp": x, "layer_height": col, "num_layers": (k + n) % 4, "ts": m.state[ST][q]}
        seen[t] = row
        g.update()
    return seen


STEPS = {"6h": "2020-01-15 18:00", "30min": "2020-01-15 03:00", "90min": "2020-01-15 12:00", "10min": "2020-01-15 01:00", "D": "2020-01-17"}


@scenario(params={f"{k}-{s}": dict(stations=k, step=s) for k, s in ((True, "6h"), (False, "6h"), (True, "30min"), (True, "90min"), (True, "10min"), (True, "D"))}, merged=True)
def memory(ctx, stations, step):
    """Every time step of every point holds the state of the pixel that contains the point."""
    m, g = model(ctx, "2020-01-15", STEPS[step], step, "memory", "ME", stations)
    pts = expected_points(stations)
    seen = drive(ctx, m, g, pts)
    ds = g.data
    ctx.claim("times", list(ds.indexes["time"]) == list(m.dates))
    ctx.claim("points", [str(x) for x in ds.point.values] == [p[0] for p in pts])
    for n, p in enumerate(pts):
        q = (p[3], p[4])
        ctx.claim("coordinates", float(ds.x.values[n]) == p[1] and float(ds.y.values[n]) == p[2])
        ctx.claim("altitude", float(ds.alt.values[n]) == [[2000.0, 2010.0, 2040.0], [1990.0, 2020.0, 2060.0], [1970.0, 2000.0, 2080.0]][q[0]][q[1]])
        for k, t in enumerate(m.dates):
            for v in ("temp", "num_layers", "ts"):
                ctx.claim_eq(v, ds[v].values[(k, n)], seen[t][q][v], 1e-3)
            for l, x in enumerate(seen[t][q]["layer_height"]):
                ctx.claim_eq("layers", ds["layer_height"].values[(k, l, n)], x, 1e-3)
    ctx.claim("integer-type", ctx.symbolic or np.issubdtype(ds["num_layers"].dtype, np.integer))
    ctx.claim("variables", set(ds.data_vars) == {"temp", "layer_height", "num_layers", "ts"})


RUNS = {
    "day": ("2020-01-15", "2020-01-17 18:00", "6h", "D"),
    "day-partial": ("2020-01-15 06:00", "2020-01-17 12:00", "6h", "D"),
    "step": ("2020-01-15", "2020-01-15 12:00", "3h", "3h"),
    "finer": ("2020-01-15", "2020-01-15 12:00", "3h", "h"),
    "month": ("2020-01-30", "2020-02-01 18:00", "6h", "ME"),
    "month-odd": ("2020-01-30", "2020-02-01 12:00", "5h", "ME"),
    "day-odd": ("2020-01-30", "2020-02-01 02:00", "5h", "D"),
    "year": ("2020-12-30 06:00", "2021-01-02 06:00", "D", "YE"),
    "end-only": ("2020-01-15", "2020-01-16", "6h", "ME"),
}


class Stop(Exception):
    """The files have been mixed up."""


@scenario(params={f"{f}-{k}": dict(fmt=f, run=k) for k in RUNS for f in ("csv", "netcdf")}, merged=True)
def chunks(ctx, fmt, run):
    """The file contents add up to the complete time series, whatever the write frequency; existing files are replaced first."""
    import pandas as pd
    import xarray as xr
    from openamundsen.fileio import pointoutput

    start, end, step, freq = RUNS[run]
    points = [POINTS[0], POINTS[3]]
    m, g = model(ctx, start, end, step, fmt, freq, True, points)
    pts = expected_points(True, points)
    content = {"point_a.csv": "old", "output_timeseries.nc": "old"}  # left over from a previous run
    last = []

    def to_csv(self, path, mode="w", header=True, *a, **k):
        n = str(path).rsplit("/", 1)[-1]
        last.append(m.date)
        if mode == "w":
            ctx.claim("header", header is not False)
            content[n] = [self]
        else:
            own = mode == "a" and isinstance(content.get(n), list)
            ctx.claim("appended-to-own-file", own)
            if not own:
                raise Stop
            ctx.claim("header-once", header is False)
            ctx.claim("same-columns", list(content[n][0].columns) == list(self.columns))
            content[n].append(self)

    def to_netcdf(self, path, *a, **k):
        last.append(m.date)
        content[str(path).rsplit("/", 1)[-1]] = self.copy(deep=False)

    class Opened:
        def __init__(self, path, *a, **k):
            n = str(path).rsplit("/", 1)[-1]
            own = isinstance(content.get(n), xr.Dataset)
            ctx.claim("read-own-file", own)
            if not own:
                raise Stop
            self.ds = content[n].copy(deep=False)

        def __enter__(self):
            return self.ds

        def __exit__(self, *a):
            pass

    with stubbed((pd.DataFrame, "to_csv", to_csv), (xr.Dataset, "to_netcdf", to_netcdf), (pointoutput.xr, "open_dataset", Opened)):
        try:
            seen = drive(ctx, m, g, pts)
        except Stop:
            return
    ctx.claim("flushed-at-end", len(last) > 0 and last[-1] == m.dates[-1])
    if freq in ("D", "ME") and step == "6h":
        ctx.claim("not-every-step", len(set(last)) < len(m.dates))
    for n, p in enumerate(pts):
        q = (p[3], p[4])
        if fmt == "csv":
            parts = content.get(f"point_{p[0]}.csv")
            ctx.claim("file-per-point", isinstance(parts, list))
            idx = [t for f in parts for t in f.index]
            ctx.claim("times", idx == list(m.dates))
            col = {c: [v for f in parts for v in np.asarray(f[c])] for c in parts[0].columns}
            ctx.claim("columns", set(col) == {"temp", "num_layers", "ts"} | {f"layer_height{l}" for l in range(m.state[TH].shape[0])})
        else:
            ds = content["output_timeseries.nc"]
            ctx.claim("times", isinstance(ds, xr.Dataset) and list(ds.indexes["time"]) == list(m.dates))
            k = [str(x) for x in ds.point.values].index(p[0])
            col = {v: ds[v].values[:, k] for v in ("temp", "num_layers", "ts")}
            for l in range(m.state[TH].shape[0]):
                col[f"layer_height{l}"] = ds["layer_height"].values[:, l, k]
        for k, t in enumerate(m.dates):
            for v in ("temp", "num_layers", "ts"):
                ctx.claim_eq(v, col[v][k], seen[t][q][v], 1e-3)
            for l, x in enumerate(seen[t][q]["layer_height"]):
                ctx.claim_eq("layers", col[f"layer_height{l}"][k], x, 1e-3)


@scenario
def rejected(ctx):
    from openamundsen import errors

    ctx.real("unused", 0, 1)
    for points in ([("p", 639999.0, 5180150.0, 0, 0)], [("p", 640150.0, 5180301.0, 0, 0)], [("p", 640301.0, 5180150.0, 0, 0)], [("p", 640150.0, 5179999.0, 0, 0)],
                   [POINTS[0], ("a", 640150.0, 5180150.0, 1, 1)], [("s1", 640150.0, 5180150.0, 1, 1)]):
        try:
            model(ctx, "2020-01-15", "2020-01-15 18:00", "6h", "memory", "ME", True, points)
            ok = False
        except errors.ConfigurationError:
            ok = True
        ctx.claim("rejected", ok)
    for v in ([dict(var=TEMP), dict(var=ST, name="temp")], [dict(var="meteo.nonsense")], [dict(var="nonsense.temp")]):
        saved = list(VARS)
        try:
            VARS[:] = v
            model(ctx, "2020-01-15", "2020-01-15 18:00", "6h", "memory", "ME")
            ok = False
        except errors.ConfigurationError:
            ok = True
        finally:
            VARS[:] = saved
        ctx.claim("rejected-variable", ok)
    m, g = model(ctx, "2020-01-15", "2020-01-15 18:00", "6h", "memory", "ME", False, [("p", 640150.0, 5180250.0, 0, 1)])
    ctx.claim("outside-roi-allowed", len(g.points) == 1)
