"""
Reading and resampling of station records.

fileio.read_meteo_data runs on real CSV and NetCDF files whose numbers are replaced by symbols right after pandas or xarray have parsed them, so that
filters, resampling (real pandas), unit conversion and combination are executed symbolically; the oracle recomputes every time step from the raw
records that lie in its interval.
"""
import os
import shutil
import tempfile

from symex import lab
from symex.api import *

scenario = Registry()
BOUNDS = (
    "records of 1 h, 3 h, 6 h, 12 h and 1 d resampled to 3 h, 6 h and 1 d and unchanged, with and without averaging; records that begin and end before, at, "
    "within and after the run, on and off its time steps; up to three stations of up to 30 records, patterns of missing values"
)
OUTSIDE = "parsing of the files by pandas and xarray; daylight saving (records have no time zone); rounding"
ASSUMPTIONS = "pandas reductions of object columns (mean, sum, maximum) reduce the same values as those of float columns"
NAN = float("nan")
CODE = 2.0**40
RANGES = dict(temp=(250, 300), precip=(0, 20), rel_hum=(1, 100), sw_in=(0, 1000), wind_speed_gust=(0.5, 50), wind_speed=(0.5, 30), wind_dir=(0, 360))


def numeric(ctx):
    """pandas' reductions must not force symbols into floats."""
    from pandas.core import nanops

    orig = nanops._ensure_numeric

    def ensure(x):
        if isinstance(x, core.SymReal) or (isinstance(x, np.ndarray) and x.dtype == object and any(isinstance(y, core.SymReal) for y in x.ravel())):
            return x
        return orig(x)

    return stubbed((nanops, "_ensure_numeric", ensure))


class Files:
    """Station files with placeholders for values[id][variable] = list."""

    def __init__(self, ctx, stations, values, fmt="csv", attrs={}):
        import pandas as pd
        import xarray as xr

        self.ctx, self.fmt = ctx, fmt
        self.codes = []
        self.dir = tempfile.mkdtemp(dir=lab.scratch())
        if fmt == "csv":
            pd.DataFrame(
                {"name": [f"Name {i}" for i in stations], "x": [s["x"] for s in stations.values()], "y": [s["y"] for s in stations.values()],
                 "alt": [s["alt"] for s in stations.values()]}, index=pd.Index(list(stations), name="id"),
            ).to_csv(os.path.join(self.dir, "stations.csv"))
        for i, s in stations.items():
            coded = {}
            for v, xs in values[i].items():
                coded[v] = []
                for x in xs:
                    if isnan(x):
                        coded[v].append(NAN)
                    else:
                        coded[v].append(CODE + len(self.codes))
                        self.codes.append(x)
            df = pd.DataFrame(coded, index=pd.DatetimeIndex(s["dates"], name="time"), dtype=float)
            if fmt == "csv":
                df.to_csv(os.path.join(self.dir, f"{i}.csv"))
            else:
                ds = df.to_xarray()
                for v, a in attrs.items():
                    if v in ds:
                        ds[v].attrs.update(a)
                for n in ("lon", "lat", "alt"):
                    ds[n] = float(s[n])
                ds.attrs["station_name"] = f"Name {i}"
                ds.to_netcdf(os.path.join(self.dir, f"{i}.nc"))

    def decode(self, a):
        if a.dtype.kind != "f":
            return a
        r = np.empty(a.shape, object)
        for k in np.ndindex(a.shape):
            r[k] = self.codes[int(a[k] - CODE)] if a[k] >= CODE else float(a[k])
        return r if self.ctx.symbolic else r.astype(float)

    def __enter__(self):
        import pandas as pd
        import xarray as xr

        read_csv, load, open_ = pd.read_csv, xr.load_dataset, xr.open_dataset

        def csv(name, *a, **k):
            df = read_csv(name, *a, **k)
            if str(name).endswith("stations.csv"):
                return df
            return pd.DataFrame({c: pd.Series(self.decode(df[c].to_numpy()), index=df.index) for c in df.columns}, index=df.index)

        def decode(ds):
            ds = ds.load().copy()
            for v in list(ds.data_vars):
                if ds[v].dims:
                    ds[v] = (ds[v].dims, self.decode(ds[v].values), ds[v].attrs)
            return ds

        def nc(name, *a, **k):
            return decode(load(name, *a, **k))

        def nc_open(name, *a, **k):
            with open_(name, *a, **k) as ds:
                return decode(ds)

        self.stubs = [stubbed((pd, "read_csv", csv), (xr, "load_dataset", nc), (xr, "open_dataset", nc_open)), numeric(self.ctx)]
        for s in self.stubs:
            s.__enter__()
        return self

    def __exit__(self, *a):
        for s in reversed(self.stubs):
            s.__exit__(*a)
        shutil.rmtree(self.dir, ignore_errors=True)


def station(start, n, step, x=640050.0, y=5180050.0, alt=2000.0):
    import pandas as pd

    return dict(dates=pd.date_range(start, periods=n, freq=step), x=x, y=y, alt=alt, lon=11.0 + x / 1e6, lat=46.75 + y / 1e9)


def symbols(ctx, stations, variables, gaps={}, only=None):
    r = {}
    for i, s in stations.items():
        r[i] = {}
        for v in variables:
            lo, hi = RANGES[v]
            r[i][v] = [
                NAN if k in gaps.get((i, v), ()) else (ctx.real(f"{i}{v}{k}", lo, hi) if only is None or only(v, k) else lo + (hi - lo) * ((7 * k + 3) % 11) / 16)
                for k in range(len(s["dates"]))
            ]
    return r


def wanted(stations, values, start, end, freq, agg):
    """{id: {date: {variable: value, or None where nothing is prescribed}}}; absent where no value may exist."""
    import pandas as pd

    f = pd.Timedelta({"D": "24h", "1D": "24h"}.get(freq, freq))
    day = f == pd.Timedelta("24h")
    r = {}
    for i, s in stations.items():
        d = list(s["dates"])
        own = d[1] - d[0]
        r[i] = {}
        for t in pd.date_range(start, end, freq=freq):
            if own == f:
                rows = [k for k, u in enumerate(d) if u == t]
                full = bool(rows)
            else:
                lo, hi = (t, t + f) if day else (t - f, t)
                rows = [k for k, u in enumerate(d) if lo < u <= hi]
                # a day needs a record at its begin to count as covered
                full = len(rows) == f / own and (not day or t in d)
            out = {}
            at = [k for k, u in enumerate(d) if u == t]
            for v, xs in values[i].items():
                y = [xs[k] for k in rows if not isnan(xs[k])]
                if own == f:
                    out[v] = xs[rows[0]] if rows else NAN
                elif v == "precip":
                    out[v] = ssum(xs[k] for k in rows) if len(y) == len(rows) and rows else NAN
                elif v == "wind_speed_gust":
                    out[v] = None
                    for x in y:
                        out[v] = x if out[v] is None else smax(out[v], x)
                    out[v] = NAN if out[v] is None else out[v]
                elif agg or day:
                    out[v] = ssum(y) * (1.0 / len(y)) if y else NAN
                else:
                    out[v] = xs[at[0]] if at else NAN
            r[i][t] = (out, full, bool(rows), bool(at))
    return r


def read(ctx, files, start, end, freq, agg=False, **kw):
    import pandas as pd
    from openamundsen import fileio

    return fileio.read_meteo_data(files.fmt, files.dir, pd.Timestamp(start), pd.Timestamp(end), meteo_crs="epsg:32632", grid_crs="epsg:32632", freq=freq, aggregate=agg, **kw)


def compare(ctx, ds, want, start, end, freq):
    import pandas as pd

    ids = list(ds.station.values)
    times = list(pd.DatetimeIndex(ds.time.values))
    dates = list(pd.date_range(start, end, freq=freq))
    ctx.claim("times", times == dates, "time axis differs from the time steps of the run")
    for i, rows in want.items():
        some = any(full for _, full, _, _ in rows.values())
        if i not in ids:
            ctx.claim("station", not some, f"{i} is lost")
            continue
        for t, (out, full, part, at) in rows.items():
            if t not in times:
                continue
            for v, x in out.items():
                got = ds[v].values[ids.index(i), times.index(t)]
                if full:
                    ctx.claim("missing", bool(isnan(got)) == bool(isnan(x)), f"{v} {i} {t}")
                elif isnan(got) or isnan(x):
                    # intervals that the record does not cover completely may be missing
                    ctx.claim("no-data", bool(isnan(got)), f"{v} {i} {t}")
                    continue
                if not isnan(x) and not isnan(got):
                    ctx.claim_eq(v, got, x, 1e-6)


# name: (records {id: (start, number, step)}, run start, run end, time step)
CASES = {
    "3h": ({"a": ("2020-01-14 12:00", 30, "h"), "b": ("2020-01-14 12:00", 10, "3h")}, "2020-01-15", "2020-01-15 15:00", "3h"),
    "3h-off": ({"a": ("2020-01-14 22:00", 15, "h")}, "2020-01-15 01:00", "2020-01-15 10:00", "3h"),
    "3h-late": ({"a": ("2020-01-14 22:00", 14, "h"), "b": ("2020-01-15 02:00", 10, "h")}, "2020-01-15", "2020-01-15 09:00", "3h"),
    "3h-early-end": ({"a": ("2020-01-14 22:00", 12, "h"), "b": ("2020-01-14 22:00", 10, "h")}, "2020-01-15", "2020-01-15 09:00", "3h"),
    "3h-over": ({"a": ("2020-01-14 22:00", 12, "h"), "b": ("2020-01-14 06:00", 5, "h")}, "2020-01-15", "2020-01-15 09:00", "3h"),
    "3h-long-over": ({"a": ("2020-01-14 22:00", 12, "h"), "b": ("2019-12-14 06:00", 5, "h"), "c": ("2020-02-14 06:00", 5, "h")}, "2020-01-15", "2020-01-15 09:00", "3h"),
    "3h-odd-end": ({"a": ("2020-01-14 22:00", 20, "h")}, "2020-01-15", "2020-01-15 10:00", "3h"),
    "6h-exact": ({"a": ("2020-01-15", 13, "3h")}, "2020-01-15", "2020-01-16 12:00", "6h"),
    "6h-same": ({"a": ("2020-01-14", 9, "6h"), "b": ("2020-01-15 12:00", 3, "6h")}, "2020-01-15", "2020-01-16", "6h"),
    "day": ({"a": ("2020-01-14 06:00", 17, "6h")}, "2020-01-15", "2020-01-17", "D"),
    "day-exact": ({"a": ("2020-01-15", 9, "6h")}, "2020-01-15", "2020-01-16", "D"),
    "day-late": ({"a": ("2020-01-14 06:00", 17, "6h"), "b": ("2020-01-15 18:00", 8, "6h"), "c": ("2020-01-13", 6, "D")}, "2020-01-15", "2020-01-17", "D"),
    "day-early-end": ({"a": ("2020-01-14", 21, "6h"), "b": ("2020-01-14", 10, "6h")}, "2020-01-15", "2020-01-17", "D"),
    "day-odd-end": ({"a": ("2020-01-14", 17, "6h")}, "2020-01-15", "2020-01-16 18:00", "D"),
    "day-off": ({"a": ("2020-01-14", 21, "6h")}, "2020-01-15 06:00", "2020-01-17 06:00", "D"),
    "day-same": ({"a": ("2020-01-13", 6, "D")}, "2020-01-15", "2020-01-17", "D"),
    "day-same-1D": ({"a": ("2020-01-13", 6, "D")}, "2020-01-15", "2020-01-17", "1D"),
    "day-same-24h": ({"a": ("2020-01-13", 6, "D")}, "2020-01-15", "2020-01-17", "24h"),
    "day-24h": ({"a": ("2020-01-14 12:00", 8, "12h")}, "2020-01-15", "2020-01-17", "24h"),
}


@scenario(params={f"{k}-{'mean' if a else 'inst'}": dict(case=k, agg=a) for k in CASES for a in (True, False)}, merged=True, weight=3)
def resample(ctx, case, agg):
    """Each time step holds the mean (or instantaneous value) and the precipitation sum of its own interval, for every alignment of records and run."""
    spec, start, end, freq = CASES[case]
    st = {i: station(*s, x=640050.0 + 100 * k) for k, (i, s) in enumerate(spec.items())}
    vals = symbols(ctx, st, ("temp", "precip"))
    with Files(ctx, st, vals) as f:
        ds = read(ctx, f, start, end, freq, agg)
    compare(ctx, ds, wanted(st, vals, start, end, freq, agg), start, end, freq)
    ids = list(ds.station.values)
    for i in ids:
        ctx.claim("coordinates", abs(float(ds.alt.sel(station=i)) - 2000.0) < 1e-9 and str(ds.station_name.sel(station=i).values) == f"Name {i}")


GAPS = {
    "none": {},
    "one": {("a", "temp"): (4,), ("a", "precip"): (4,), ("a", "rel_hum"): (5, 6, 7)},
    "bin": {("a", "temp"): (5, 6, 7), ("a", "precip"): (2, 5, 9), ("a", "rel_hum"): (0, 1, 2, 3)},
    "all": {("a", "temp"): range(14), ("a", "precip"): range(14)},
}


@scenario(params={f"{g}-{'mean' if a else 'inst'}": dict(gaps=g, agg=a) for g in GAPS for a in (True, False)}, merged=True)
def missing(ctx, gaps, agg):
    """Missing records: the mean of the remaining ones, no precipitation sum, and no effect on other variables, time steps and stations."""
    st = {"a": station("2020-01-14 22:00", 14, "h"), "b": station("2020-01-15", 5, "3h")}
    vals = symbols(ctx, st, ("temp", "precip", "rel_hum"), GAPS[gaps])
    with Files(ctx, st, vals) as f:
        ds = read(ctx, f, "2020-01-15", "2020-01-15 09:00", "3h", agg)
    compare(ctx, ds, wanted(st, vals, "2020-01-15", "2020-01-15 09:00", "3h", agg), "2020-01-15", "2020-01-15 09:00", "3h")
    ctx.claim("minimum-variables", all(v in ds for v in ("temp", "precip", "rel_hum", "sw_in", "wind_speed")))
    ctx.claim("no-data", all(isnan(x) for x in np.ravel(ds["sw_in"].values)))


@scenario(params={f"{s}-{'mean' if a else 'inst'}": dict(step=s, agg=a) for s in ("3h", "D") for a in (True, False)}, merged=True)
def gusts(ctx, step, agg):
    """Gusts are the largest of their interval."""
    st = {"a": station("2020-01-14 23:00", 9, "h") if step == "3h" else station("2020-01-14", 10, "6h")}
    end = "2020-01-15 06:00" if step == "3h" else "2020-01-15"
    vals = symbols(ctx, st, ("wind_speed_gust", "temp"), {("a", "wind_speed_gust"): (5,)}, only=lambda v, k: 2 <= k <= 4 or k == 6)
    with Files(ctx, st, vals) as f:
        ds = read(ctx, f, "2020-01-15", end, step, agg)
    compare(ctx, ds, wanted(st, vals, "2020-01-15", end, step, agg), "2020-01-15", end, step)


@scenario(params={f"{k}-{'mean' if a else 'inst'}": dict(kind=k, agg=a) for k in ("both", "gap", "none") for a in (True, False)}, merged=True)
def wind(ctx, kind, agg):
    """Wind direction is that of the mean wind vector; without speed or direction there is none."""
    from openamundsen import meteo

    st = {"a": station("2020-01-14 21:00", 7, "h")}
    vals = symbols(ctx, st, ("wind_dir", "temp") + (("wind_speed",) if kind != "none" else ()), {("a", "wind_speed"): (5,)} if kind == "gap" else {})
    seen = []

    def to_uv(ws, wd):
        # exact components of the four main directions would do; any odd linear map that keeps the data apart serves the purpose
        return ws * 0.5 + wd * 0.25, ws * 0.25 - wd * 0.5

    def from_uv(u, v):
        seen.append(1)
        return u + v, u - v

    with Files(ctx, st, vals) as f, stubbed((meteo, "wind_to_uv", to_uv), (meteo, "wind_from_uv", from_uv)):
        ds = read(ctx, f, "2020-01-15", "2020-01-15 03:00", "3h", agg)
    times = [str(t)[11:13] for t in ds.time.values]
    ctx.claim("times", times == ["00", "03"])
    d = [t.hour for t in st["a"]["dates"]]
    for k, t in enumerate((0, 3)):
        got = ds["wind_dir"].values[0, k]
        rows = [j for j in range(7) if d[j] in {0: (22, 23, 0), 3: (1, 2, 3)}[t]]
        if not agg:
            ctx.claim_eq("instant", got, vals["a"]["wind_dir"][rows[-1]], 1e-9)
        elif kind == "none":
            ctx.claim("no-speed", isnan(got))
        else:
            us = [to_uv(vals["a"]["wind_speed"][j], vals["a"]["wind_dir"][j]) for j in rows if not isnan(vals["a"]["wind_speed"][j])]
            u, v = (ssum(x[n] for x in us) * (1.0 / len(us)) for n in (0, 1))
            ctx.claim_eq("vector-mean", got, u - v, 1e-6)


@scenario(params={k: dict(kind=k) for k in ("min", "max", "both", "other", "two", "none")}, merged=True)
def filters(ctx, kind):
    """Values out of the configured range are missing, before anything is averaged; all others are kept."""
    st = {"a": station("2020-01-15", 4, "h"), "b": station("2020-01-15", 4, "h")}
    vals = symbols(ctx, st, ("temp", "rel_hum"), {("a", "temp"): (1,)}, only=lambda v, k: v == "temp" and k in (2, 3))
    if kind not in ("both", "two"):
        vals["b"] = {v: list(range(260, 300, 10)) for v in vals["b"]}
    else:
        vals["b"]["temp"] = [300.0, vals["b"]["temp"][2], 250.0, 270.0]
    rng = {"min": (270.0, None), "max": (None, 280.0), "both": (260.0, 290.0), "two": (260.0, 290.0), "other": (None, None), "none": (None, None)}[kind]
    f1 = dict(filter="range", var="temp")
    if rng[0] is not None:
        f1["min"] = rng[0]
    if rng[1] is not None:
        f1["max"] = rng[1]
    fl = {"other": [dict(filter="range", var="sw_in", min=1e9)], "none": [], "two": [dict(filter="range", var="temp", min=260.0), dict(filter="range", var="temp", max=290.0)]}.get(kind, [f1])

    def ok(x):
        return (rng[0] is None or bool(x >= rng[0])) and (rng[1] is None or bool(x <= rng[1]))

    with Files(ctx, st, vals) as f:
        ds = read(ctx, f, "2020-01-15", "2020-01-15 03:00", "3h", True, filters=fl)
        raw = read(ctx, f, "2020-01-15", "2020-01-15 03:00", "h", filters=fl)
    for n, i in enumerate(("a", "b")):
        for k in range(4):
            x, got = vals[i]["temp"][k], raw["temp"].values[n, k]
            if isnan(x) or not ok(x):
                ctx.claim("filtered", isnan(got))
            else:
                ctx.claim_eq("kept", got, x, 0)
            ctx.claim_eq("others", raw["rel_hum"].values[n, k], vals[i]["rel_hum"][k], 0)
        keep = [x for x in vals[i]["temp"][1:] if not isnan(x) and ok(x)]
        got = ds["temp"].values[n, 1]
        if keep:
            ctx.claim_eq("mean", got, ssum(keep) * (1.0 / len(keep)), 1e-6)
        else:
            ctx.claim("mean-of-nothing", isnan(got))


REJECT = {
    "odd-step": (dict(a=("2020-01-14", 60, "2h")), "2020-01-15", "2020-01-16", "3h", {}),
    "finer": (dict(a=("2020-01-14", 60, "3h")), "2020-01-15", "2020-01-16", "h", {}),
    "long": (dict(a=("2020-01-14", 20, "D")), "2020-01-15", "2020-01-20", "48h", {}),
    "nonuniform": (dict(a=("2020-01-14", 60, "h")), "2020-01-15", "2020-01-16", "h", dict(drop=20)),
    "late": (dict(a=("2020-01-15 03:00", 60, "3h")), "2020-01-15", "2020-01-16", "3h", {}),
    "early": (dict(a=("2020-01-14", 12, "3h")), "2020-01-15", "2020-01-16", "3h", {}),
    "gap": (dict(a=("2020-01-15", 4, "3h"), b=("2020-01-15 15:00", 10, "3h")), "2020-01-15", "2020-01-16", "3h", {}),
    "no-data": (dict(a=("2020-02-15", 4, "3h"), b=("2019-02-15", 4, "3h")), "2020-01-15", "2020-01-16", "3h", {}),
}


@scenario(params={k: dict(kind=k) for k in REJECT}, merged=True)
def rejected(ctx, kind):
    """Records that cannot serve the time steps are rejected; with missing data checks disabled, missing time steps are filled with missing values instead."""
    import pandas as pd
    from openamundsen import errors

    spec, start, end, freq, opt = REJECT[kind]
    st = {i: station(*s) for i, s in spec.items()}
    if "drop" in opt:
        st["a"]["dates"] = st["a"]["dates"].delete(opt["drop"])
    vals = symbols(ctx, st, ("temp",), only=lambda v, k: k % 8 == 0)
    with Files(ctx, st, vals) as f:
        try:
            read(ctx, f, start, end, freq)
        except errors.MeteoDataError:
            ctx.claim("rejected", True)
        else:
            ctx.claim("rejected", False, kind)
        if kind in ("late", "early", "gap", "no-data"):
            ds = read(ctx, f, start, end, freq, raise_on_missing_data=False)
            dates = pd.date_range(start, end, freq=freq)
            ctx.claim("times", pd.DatetimeIndex(ds.time.values).equals(dates))
            ctx.claim("stations", ds.sizes["station"] == (0 if kind == "no-data" else len(st)))
            for n, i in enumerate(ds.station.values):
                own = {t: k for k, t in enumerate(st[i]["dates"])}
                for k, t in enumerate(dates):
                    got = ds["temp"].values[n, k]
                    if t in own:
                        ctx.claim_eq("value", got, vals[i]["temp"][own[t]], 0)
                    else:
                        ctx.claim("filled", isnan(got))


@scenario
def records(ctx):
    """Records too short to infer a time step."""
    st = {"a": station("2020-01-15", 5, "3h"), "b": station("2020-01-15 03:00", 2, "3h"), "c": station("2020-01-15 06:00", 1, "3h")}
    vals = symbols(ctx, st, ("temp", "precip"))
    with Files(ctx, st, vals) as f:
        ds = read(ctx, f, "2020-01-15", "2020-01-15 09:00", "3h")
    ctx.claim("stations", sorted(ds.station.values) == ["a", "b", "c"])
    for i, first, n in (("a", 0, 4), ("b", 1, 2), ("c", 2, 1)):
        for k in range(4):
            for v in ("temp", "precip"):
                got = ds[v].sel(station=i).values[k]
                if 0 <= k - first < n:
                    ctx.claim_eq(v, got, vals[i][v][k - first], 0)
                else:
                    ctx.claim("outside", isnan(got))
