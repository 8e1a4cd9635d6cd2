"""
Station data: units, selection and location of stations.

forcing.make_point_dataset, combine_point_datasets, prepare_point_coordinates and fileio.read_meteo_data run on symbolic values, station coordinates and
region bounds (as in P32, files are read by pandas and xarray and their numbers are replaced by symbols). Coordinate transformations are replaced by
the identity, and rasterio's row and column lookup by its affine formula.
"""
from symex.api import *

from .P32 import Files, numeric, read, station

scenario = Registry()
BOUNDS = (
    "records of 12 time steps of 1 h, 3 h and 1 d; all accepted and several wrong units of every variable; two to four stations with coordinates anywhere in and "
    "around the grid; every combination of region, excluded and included stations; values -1e3..1e3"
)
OUTSIDE = "coordinate transformations (pyproj); parsing of the files by pandas and xarray; rounding"
NAN = float("nan")
X0, Y0, RES, N = 640000.0, 5180300.0, 100.0, 3


def identity(ctx):
    from openamundsen import util

    def same(x, y, src_crs, dst_crs):
        to = np.asarray
        return to(x), to(y)

    return stubbed((util, "transform_coords", same))


def rowcol(ctx):
    import rasterio.transform

    def cell(z):
        # floor of a value by comparisons with the whole numbers around the grid
        for k in range(-3, 8):
            if z < k + 1:
                return k
        return 8

    def f(transform, xs, ys, *a, **k):
        xs, ys = np.ravel(xs), np.ravel(ys)
        return [cell((transform.f - y) / -transform.e) for y in ys], [cell((x - transform.c) / transform.a) for x in xs]

    return stubbed((rasterio.transform, "rowcol", f)) if ctx.symbolic else stubbed()


def frame(ctx, values, step="h", start="2020-01-15", attrs={}, dataset=True, **meta):
    import pandas as pd
    import xarray as xr

    n = len(next(iter(values.values())))
    idx = pd.date_range(start, periods=n, freq=step, name="time")
    cols = {v: np.array(x, dtype=object if ctx.symbolic else float) for v, x in values.items()}
    if not dataset:
        return pd.DataFrame({v: pd.Series(c, index=idx) for v, c in cols.items()})
    ds = xr.Dataset({v: ("time", c, attrs.get(v, {})) for v, c in cols.items()}, coords={"time": idx})
    for k, v in meta.items():
        if isinstance(v, str):
            ds.attrs[k] = v
        else:
            ds[k] = v
    return ds


META = dict(lon=11.0, lat=46.5, alt=2000.0, station_id="a", station_name="Name A")
STEPS = {"h": 3600.0, "3h": 10800.0, "D": 86400.0}


@scenario(params={s: dict(step=s) for s in STEPS}, merged=True)
def rate(ctx, step):
    """Precipitation rates become sums per time step; the data passed in are left alone."""
    from openamundsen import forcing

    x = [ctx.real(f"p{k}", 0, 1) for k in range(12)]
    x[3] = NAN
    src = frame(ctx, dict(precip=x), step, attrs=dict(precip=dict(units="kg m-2 s-1")), **META)
    for units, f in (("kg m-2 s-1", STEPS[step]), ("kg m-2", 1.0), (None, 1.0)):
        s = src.copy(deep=True)
        if units:
            s["precip"].attrs["units"] = units
        else:
            del s["precip"].attrs["units"]
        ds = forcing.make_point_dataset(s)
        for k in range(12):
            if k == 3:
                ctx.claim("missing", isnan(ds["precip"].values[k]))
            else:
                ctx.claim_eq("sum", ds["precip"].values[k], x[k] * f, 1e-6)
                ctx.claim_eq("input", s["precip"].values[k], x[k], 0)
        ctx.claim("units", ds["precip"].units == "kg m-2" and ds.sizes["time"] == 12)
        ctx.claim("attributes", ds.attrs["station_id"] == "a" and ds.attrs["station_name"] == "Name A" and s["precip"].attrs.get("units") == units)


CLOUD = {
    # units, length, largest value up to 1, converted
    "fraction": ("1", 12, False, True),
    "fraction-short": ("1", 3, True, True),
    "percent": ("%", 12, False, False),
    "percent-low": ("%", 12, True, False),
    "none-low": (None, 12, True, True),
    "none": (None, 12, False, False),
    "none-short": (None, 3, True, None),
}


@scenario(params={f"{k}-{'ds' if d else 'df'}": dict(kind=k, dataset=d) for k in CLOUD for d in ((True, False) if CLOUD[k][0] is None else (True,))}, merged=True)
def cloud(ctx, kind, dataset):
    """Cloud fractions become percentages if their units are 1, or if a longer record without units has no value above 1; percentages stay."""
    from openamundsen import forcing

    units, n, low, conv = CLOUD[kind]
    x = [0.5 * (k % 3) for k in range(n)]
    x[1] = ctx.real("c", 0, 1) if low else ctx.real("c", 1.5, 100)
    x[2] = NAN
    # other variables do not matter
    v = dict(cloud_fraction=x, temp=[280.0] * n)
    src = frame(ctx, v, attrs=dict(cloud_fraction=dict(units=units) if units else {}), dataset=dataset, **(META if dataset else {}))
    kw = {} if dataset else dict(point_id="a", name="Name A", lon=11.0, lat=46.5, alt=2000.0)
    with numeric(ctx):
        ds = forcing.make_point_dataset(src, **kw)
    if conv is not None:
        for k in range(n):
            if k == 2:
                ctx.claim("missing", isnan(ds["cloud_fraction"].values[k]))
            else:
                ctx.claim_eq("converted" if conv else "kept", ds["cloud_fraction"].values[k], x[k] * (100.0 if conv else 1.0), 1e-6)
    ctx.claim("units", ds["cloud_fraction"].units == "%")
    ctx.claim_eq("input", src["cloud_fraction"].values[1], x[1], 0)


VARS = dict(temp="K", precip="kg m-2", rel_hum="%", sw_in="W m-2", wind_speed="m s-1", wind_dir="degree", wind_speed_gust="m s-1")
WRONG = dict(temp="degree_Celsius", precip="mm h-1", rel_hum="1", sw_in="J m-2", wind_speed="km h-1", wind_dir="rad", cloud_fraction="okta")


@scenario(params={k: dict(var=k) for k in WRONG}, merged=True)
def units(ctx, var):
    """Variables in the documented units (or without) are accepted and unchanged, others are rejected; unknown variables are dropped."""
    from openamundsen import errors, forcing

    x = [ctx.real(f"x{k}", -1e3, 1e3) if k < 2 else 2.0 for k in range(3)]
    y = [5.0, 6.0, 7.0]
    other = "temp" if var != "temp" else "sw_in"
    v = {var: x, "pressure": y, other: y}
    good = VARS.get(var, "%")
    for u in (good, None):
        ds = forcing.make_point_dataset(frame(ctx, v, attrs={var: dict(units=u) if u else {}}, **META))
        for k in range(3):
            ctx.claim_eq("value", ds[var].values[k], x[k], 0)
            ctx.claim_eq("other", ds[other].values[k], y[k], 0)
        ctx.claim("variables", set(ds.data_vars) == {var, other, "lon", "lat", "alt"})
        ctx.claim("units", ds[var].units == good)
    try:
        forcing.make_point_dataset(frame(ctx, v, attrs={var: dict(units=WRONG[var])}, **META))
    except errors.MeteoDataError:
        ctx.claim("wrong-units", True)
    else:
        ctx.claim("wrong-units", False, f"{var} accepted in {WRONG[var]}")


@scenario
def metadata(ctx):
    """Metadata come from the arguments, otherwise from the data; incomplete metadata are rejected."""
    from openamundsen import forcing

    x = [ctx.real(f"x{k}", -1e3, 1e3) for k in range(3)]
    z = ctx.real("z", -100, 8000)
    ds = forcing.make_point_dataset(frame(ctx, dict(temp=x), dataset=False), point_id="q", lon=1.0, lat=2.0, alt=3.0)
    ctx.claim("from-arguments", ds.attrs == {"station_id": "q", "station_name": "q"} and (float(ds.lon), float(ds.lat), float(ds.alt)) == (1.0, 2.0, 3.0))
    for k in range(3):
        ctx.claim_eq("value", ds["temp"].values[k], x[k], 0)
    ds = forcing.make_point_dataset(frame(ctx, dict(temp=x), **META), point_id="q", name="w", alt=5.0)
    ctx.claim("override", ds.attrs == {"station_id": "q", "station_name": "w"} and (float(ds.lon), float(ds.lat), float(ds.alt)) == (11.0, 46.5, 5.0))
    for miss in ("station_id", "lon", "lat", "alt"):
        try:
            forcing.make_point_dataset(frame(ctx, dict(temp=x), **{k: v for k, v in META.items() if k != miss}))
        except TypeError:
            ctx.claim("incomplete", True)
        else:
            ctx.claim("incomplete", False, miss)
    import pandas as pd

    e = forcing.make_point_dataset(dates=pd.date_range("2020-01-01", periods=4), point_id="e", lon=1, lat=2, alt=3)
    ctx.claim("empty", e.sizes["time"] == 4 and set(e.data_vars) == {"lon", "lat", "alt"})


@scenario
def combine(ctx):
    """Stations with different variables and periods are joined; what a station does not have is missing; nothing is mixed up."""
    import pandas as pd
    from openamundsen import forcing

    t = {i: [ctx.real(f"{i}{k}", -1e3, 1e3) for k in range(3)] for i in "abc"}
    src = [
        forcing.make_point_dataset(frame(ctx, dict(temp=t["a"], cloud_fraction=t["b"]), start="2020-01-15 00:00", **META)),
        forcing.make_point_dataset(frame(ctx, dict(precip=t["c"], temp=[1.0, 2.0, 3.0]), start="2020-01-15 02:00", **dict(META, station_id="z", station_name="Z", alt=100.0))),
        forcing.make_point_dataset(frame(ctx, dict(temp=[4.0, 5.0, 6.0]), start="2020-01-14 23:00", **dict(META, station_id="b", lon=12.0))),
    ]
    ds = forcing.combine_point_datasets(src)
    ctx.claim("stations", list(ds.station.values) == ["a", "z", "b"] and list(ds.station_name.values) == ["Name A", "Z", "Name A"])
    ctx.claim("metadata", list(ds.alt.values) == [2000.0, 100.0, 2000.0] and list(ds.lon.values) == [11.0, 11.0, 12.0])
    ctx.claim("times", pd.DatetimeIndex(ds.time.values).equals(pd.date_range("2020-01-14 23:00", periods=6, freq="h")))
    ctx.claim("variables", {"temp", "precip", "rel_hum", "sw_in", "wind_speed", "cloud_fraction"} <= set(ds.data_vars))
    want = {("temp", 0): (1, t["a"]), ("cloud_fraction", 0): (1, t["b"]), ("precip", 1): (3, t["c"]), ("temp", 1): (3, [1.0, 2.0, 3.0]), ("temp", 2): (0, [4.0, 5.0, 6.0])}
    for v in ("temp", "precip", "rel_hum", "sw_in", "wind_speed", "cloud_fraction"):
        a = ds[v].transpose("station", "time").values
        for s in range(3):
            first, xs = want.get((v, s), (0, []))
            for k in range(6):
                if 0 <= k - first < len(xs):
                    ctx.claim_eq("value", a[s, k], xs[k - first], 0)
                else:
                    ctx.claim("missing", isnan(a[s, k]))
    ctx.claim("valid", forcing.is_valid_point_dataset(ds) and forcing.is_valid_point_dataset(ds, pd.date_range("2020-01-14 23:00", periods=6, freq="h")))
    ctx.claim("other-dates", not forcing.is_valid_point_dataset(ds, pd.date_range("2020-01-14 23:00", periods=5, freq="h")))
    ctx.claim("not-combined", not forcing.is_valid_point_dataset(src[0]))
    for v in ("temp", "precip", "rel_hum", "sw_in", "wind_speed", "alt", "lon", "lat", "station_name"):
        ctx.claim("incomplete", not forcing.is_valid_point_dataset(ds.drop_vars(v)), v)
    n = forcing.combine_point_datasets(src[2:], add_minimum_required_vars=False)
    ctx.claim("as-is", set(n.data_vars) & set(VARS) == {"temp"})


@scenario(params={f"{k}": dict(which=k) for k in range(2)}, merged=False)
def locate(ctx, which):
    """Stations get the row and column of the cell that holds them; stations beyond the edges are outside of the grid and of the region of interest."""
    from openamundsen import forcing

    roi = np.array([[1, 0, 1], [1, 1, 0], [0, 1, 1]])
    m = prepare(ctx, "p31", roi=roi, config={"start_date": "2020-01-15", "end_date": "2020-01-15", "timestep": "3h"})
    x = ctx.real("x", X0 - 150, X0 + (N + 1.5) * RES)
    y = ctx.real("y", Y0 - (N + 1.5) * RES, Y0 + 150)
    st = [(x, y), (X0 + 150.0, Y0 - 50.0)] if which == 0 else [(X0 + 20.0, Y0 - 280.0), (x, y)]
    ds = [forcing.make_empty_point_dataset([], f"s{k}", f"S{k}", 0.0, 0.0, 1000.0 + k) for k in range(2)]
    c = forcing.combine_point_datasets(ds)
    c["lon"] = ("station", arr(ctx, [s[0] for s in st]))
    c["lat"] = ("station", arr(ctx, [s[1] for s in st]))
    before = list(c.data_vars)
    with identity(ctx), rowcol(ctx):
        r = forcing.prepare_point_coordinates(c, m.grid, m.config.crs)
    for k, (a, b) in enumerate(st):
        ctx.claim_eq("x", r.x.values[k], a, 0)
        ctx.claim_eq("y", r.y.values[k], b, 0)
        row, col = int(r.row.values[k]), int(r.col.values[k])
        # cell edges: the upper and left edge belong to the cell
        ctx.claim_le("left", X0 + col * RES, a, 0)
        ctx.claim_lt("right", a, X0 + (col + 1) * RES)
        ctx.claim_le("top", b, Y0 - row * RES, 0)
        ctx.claim_lt("bottom", Y0 - (row + 1) * RES, b)
        inside = 0 <= row < N and 0 <= col < N
        ctx.claim("extent", bool(r.within_grid_extent.values[k]) == inside)
        ctx.claim("roi", bool(r.within_roi.values[k]) == bool(inside and roi[row, col]), f"row {row} col {col}")
    ctx.claim("input", list(c.data_vars) == before)
    back = forcing.strip_point_dataset(r)
    ctx.claim("strip", not set(back.data_vars) & {"x", "y", "row", "col", "within_roi", "within_grid_extent"} and set(back.data_vars) == set(before))


RULES = {f"{e}-{i}-{s}": dict(exclude=e, include=i, sides=s) for s, ei in (("x0y1", ((None, None), ("b", "ab"), ("q", "c"))), ("x1y0", (("bc", None), ("b", "c"), (None, "ba")))) for e, i in ei}


@scenario(params=RULES, merged=True)
def rules(ctx, exclude, include, sides):
    """Stations inside of the bounds and not excluded are used, and the included ones; each once, with its own data and coordinates."""
    from openamundsen import errors

    st = {i: station("2020-01-15", 3, "h", x=640050.0 + 100 * k, y=5180050.0 + 50 * k, alt=1000.0 + k) for k, i in enumerate("abc")}
    vals = {i: dict(temp=[ctx.real(f"{i}{k}", 250, 300) for k in range(3)]) for i in st}
    wide = dict(x0=639000.0, y0=5179000.0, x1=641000.0, y1=5181000.0)
    x0, y0, x1, y1 = (ctx.real(n, c - 200, c + 350) if n in sides else wide[n] for n, c in (("x0", 640000.0), ("y0", 5180000.0), ("x1", 640000.0), ("y1", 5180000.0)))
    inside = [i for i, s in st.items() if s["x"] >= x0 and s["y"] >= y0 and s["x"] < x1 and s["y"] < y1]
    use = {i for i in inside if i not in (exclude or "")} | set(include or "")
    with Files(ctx, st, vals) as f, identity(ctx):
        try:
            ds = read(ctx, f, "2020-01-15", "2020-01-15 02:00", "h", bounds=(x0, y0, x1, y1), exclude=list(exclude) if exclude else None, include=list(include) if include else None)
        except errors.MeteoDataError:
            ctx.claim("no-stations", not use)
            return
    ids = list(ds.station.values)
    ctx.claim("selection", len(ids) == len(use) and set(ids) == use, f"{ids} instead of {sorted(use)}")
    for n, i in enumerate(ids):
        if i in st:
            ctx.claim("coordinates", (float(ds.lon[n]), float(ds.lat[n]), float(ds.alt[n])) == (st[i]["x"], st[i]["y"], st[i]["alt"]))
            for k in range(3):
                ctx.claim_eq("value", ds["temp"].values[n, k], vals[i]["temp"][k], 0)


@scenario
def netcdf(ctx):
    """NetCDF files: known alternative names, units, and the station id from the file name; the same rules hold."""
    from openamundsen import constants, errors

    st = {i: station("2020-01-15", 12, "h", x=640050.0 + 100 * k, alt=1000.0 + k) for k, i in enumerate("ab")}
    names = dict(constants.NETCDF_VAR_MAPPINGS)
    ctx.claim("names", names.get("tas") == "temp" and names.get("pr") == "precip")
    vals = {i: {"tas": [ctx.real(f"{i}t{k}", 250, 300) for k in range(12)], "pr": [ctx.real(f"{i}p{k}", 0, 1) for k in range(12)], "hurs": [50.0] * 12} for i in st}
    with Files(ctx, st, vals, "netcdf", attrs=dict(tas=dict(units="K"), pr=dict(units="kg m-2 s-1"))) as f:
        ds = read(ctx, f, "2020-01-15", "2020-01-15 09:00", "3h", True)
        ctx.claim("ids", list(ds.station.values) == ["a", "b"] and list(ds.station_name.values) == ["Name a", "Name b"])
        for n, i in enumerate(st):
            ctx.claim("place", abs(float(ds.lon[n]) - st[i]["lon"]) < 1e-9 and abs(float(ds.lat[n]) - st[i]["lat"]) < 1e-9 and float(ds.alt[n]) == st[i]["alt"])
            for k in range(4):
                rows = [0] if k == 0 else [3 * k - 2, 3 * k - 1, 3 * k]
                ctx.claim_eq("sum", ds["precip"].values[n, k], ssum(vals[i]["pr"][j] for j in rows) * 3600.0, 1e-6)
                ctx.claim_eq("mean", ds["temp"].values[n, k], ssum(vals[i]["tas"][j] for j in rows) * (1.0 / len(rows)), 1e-6)
                ctx.claim_eq("humidity", ds["rel_hum"].values[n, k], 50.0, 1e-9)
    with Files(ctx, st, vals, "netcdf", attrs=dict(tas=dict(units="degC"))) as f:
        try:
            read(ctx, f, "2020-01-15", "2020-01-15 09:00", "3h")
        except errors.MeteoDataError:
            ctx.claim("wrong-units", True)
        else:
            ctx.claim("wrong-units", False)
