"""
Input grids: what is read for every pixel, and the extended grid.

The reading of the input rasters runs on symbolic elevations, sky view factors and redistribution factors (the files are opened by a stand-in for
rasterio.open that returns masked arrays of symbols, as rasterio does with numbers). The pixels of the extended grid, of the region of interest and of stations are derived from the
coordinates for all combinations of offsets, missing values and stations; the irradiance with an extended grid is compared
with the shadows of the whole terrain and the clear-sky irradiance at the stations.
"""
import tempfile

from symex.api import *
from symex.lab import scratch

from .P34 import same as equal  # noqa: F401

scenario = Registry()
BOUNDS = (
    "3 x 3 grids with elevations -500..9000 and factors 0..10 in every pixel, missing values in every pixel of the diagonal and one more, all combinations of files; extended grids of up "
    "to 6 x 6 at every offset; stations anywhere; shadows from one symbolic elevation next to the model grid, symbolic measurements in and around it for given sun positions and places (two in the "
    "quick tier, six in the thorough one)"
)
OUTSIDE = "file formats (rasterio); the time of day other than the steps taken; rounding"
NAN = float("nan")
X0, Y0, RES, N = 640000.0, 5180300.0, 100.0, 3
MISSING = [(0, 0), (1, 1), (2, 2), (0, 2)]


class Masked(np.ma.MaskedArray):
    """Masked array whose numbers may be symbols."""

    def astype(self, dtype, *a, **k):
        if self.dtype == object and np.dtype(dtype).kind == "f":
            return self
        return super().astype(dtype, *a, **k)


class Files:
    """Stand-in for rasterio.open: values per file name."""

    def __init__(self, wd):
        self.wd, self.data, self.written = wd, {}, {}

    def put(self, name, values, mask=None, shape=None, x0=X0, y0=Y0, res=RES):
        import os

        values = np.array(values)
        self.data[name] = (values, np.zeros(values.shape, bool) if mask is None else mask, x0, y0, res)
        open(os.path.join(self.wd, f"{name}_t_100.asc"), "w").close()

    def open(self, filename, mode="r", *a, **k):
        import os

        import rasterio

        name = os.path.basename(str(filename)).split("_t_")[0]
        if mode == "r" and name not in self.data:
            raise rasterio.errors.RasterioIOError(f"{filename}: No such file or directory")
        return Source(*self.data[name]) if mode == "r" else Sink(self, name, k)


class Source:
    def __init__(self, values, mask, x0, y0, res):
        import rasterio

        self.values, self.mask, self.res, self.crs = values, mask, (res, res), None
        r = res if isinstance(res, (int, float)) else 100.0
        self.transform = rasterio.Affine(r, 0.0, x0, 0.0, -r, y0)
        self.height, self.width = self.shape = values.shape
        self.meta = {"height": self.height, "width": self.width, "transform": self.transform}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def read(self, band=1, masked=False, **k):
        assert band == 1
        v = self.values.copy()
        if masked:
            return Masked(v, mask=self.mask)
        v[self.mask] = -9999
        return v


class Sink(Source):
    def __init__(self, files, name, meta):
        self.files, self.name, self.m = files, name, meta

    def write(self, data, band=1):
        self.files.written[self.name] = (np.array(data), self.m)


def model(ctx, tag="", **kw):
    kw.setdefault("dem", [[100.0 * (i + j) for j in range(N)] for i in range(N)])
    m = prepare(ctx, "p33" + tag, fresh=True, **kw)
    wd = tempfile.mkdtemp(dir=scratch())
    m.config.input_data.grids.dir = wd
    return m, Files(wd)


def load(m, files, *more):
    import rasterio

    with stubbed((rasterio, "open", files.open), *more):
        m._read_input_data()


def values(ctx, name, lo, hi, shape=(N, N)):
    a = np.empty(shape, dtype=object if ctx.symbolic else float)
    for q in np.ndindex(*shape):
        a[q] = ctx.real(f"{name}{q[0]}{q[1]}", lo, hi)
    return a


def hidden(ctx, name):
    m = np.zeros((N, N), bool)
    for q in MISSING:
        m[q] = bool(ctx.choose(2, f"{name}-missing{q[0]}{q[1]}"))
    return m


def centers(m, q):
    return X0 + (q[1] + 0.5) * RES, Y0 - (q[0] + 0.5) * RES


def check_roi(ctx, m, want):
    g = m.grid
    roi = np.array(want, bool)
    ctx.claim("roi", np.array_equal(np.asarray(g.roi, bool), roi))
    idx = [tuple(int(k) for k in q) for q in np.asarray(g.roi_idxs)]
    ctx.claim("roi-pixels", idx == [q for q in np.ndindex(N, N) if roi[q]])
    ctx.claim("roi-flat", [int(k) for k in g.roi_idxs_flat] == [q[0] * N + q[1] for q in idx])
    ctx.claim("roi-points", [tuple(map(float, p)) for p in g.roi_points] == [centers(m, q) for q in idx])
    ctx.claim("roi-coordinates", [(float(x), float(y)) for x, y in zip(g.roi_xs, g.roi_ys)] == [centers(m, q) for q in idx])


def check_grid(ctx, name, got, want, mask):
    for q in np.ndindex(*want.shape):
        if mask[q]:
            ctx.claim(name + "-missing", isnan(got[q]))
        else:
            ctx.claim_eq(name, got[q], want[q], 0)


@scenario
def elevation(ctx):
    """Every pixel gets its own elevation; the region of interest is what is marked in its file and has an elevation."""
    m, files = model(ctx)
    dem, off = values(ctx, "dem", -500, 9000), hidden(ctx, "dem")
    svf = values(ctx, "svf", 0, 1)
    files.put("dem", dem, off)
    files.put("svf", svf)
    with_roi = ctx.choose(3, "roi")
    roi, unknown = np.ones((N, N), bool), np.zeros((N, N), bool)
    if with_roi:
        marks = np.array([[1, 1, 0], [0, 1, 1], [2, 0, 1]])
        unknown[0, 1] = unknown[1, 0] = with_roi == 2
        files.put("roi", marks, unknown)
        roi = (marks != 0) & ~unknown
    load(m, files)
    check_grid(ctx, "dem", m.state.base.dem, dem, off)
    check_grid(ctx, "svf", m.state.base.svf, svf, np.zeros((N, N), bool))
    check_roi(ctx, m, roi & ~off)
    ctx.claim("nothing-written", not files.written)


@scenario
def sky_view(ctx):
    """A missing sky view factor file is calculated from the elevations read, and kept for the next run."""
    from openamundsen import terrain

    m, files = model(ctx)
    dem, svf = values(ctx, "dem", 0, 4000), values(ctx, "svf", 0, 1)
    sweeps = ctx.choose(2, "sweeps") + 1
    m.config.meteo.radiation.num_shadow_sweeps = sweeps
    files.put("dem", dem)
    seen = []

    def calc(d, res, num_sweeps=1, **k):
        seen.append((np.array(d), res, num_sweeps))
        return svf.copy()

    load(m, files, (terrain, "sky_view_factor", calc))
    ctx.claim("calculated-once", len(seen) == 1 and seen[0][1:] == (RES, sweeps))
    check_grid(ctx, "from-elevations", seen[0][0], dem, np.zeros((N, N), bool))
    check_grid(ctx, "svf", m.state.base.svf, svf, np.zeros((N, N), bool))
    ctx.claim("written", list(files.written) == ["svf"])
    w, meta = files.written["svf"]
    check_grid(ctx, "file", w, svf, np.zeros((N, N), bool))
    t = meta["transform"]
    ctx.claim("place", (t.a, t.e, t.c, t.f) == (RES, -RES, X0, Y0) and (meta["width"], meta["height"]) == (N, N))


@scenario
def factors(ctx):
    """Redistribution factors, land cover, soil and glaciers of the own pixel; missing ones are recognizable."""
    cover = {"canopy": {"enabled": True}, "evapotranspiration": {"enabled": True}, "snow": {"model": "cryolayers"}, "glaciers": {"enabled": True}}
    from .P30 import CLASSES, GL, LC, SOIL

    custom = ctx.choose(2, "file")
    corr = {"method": "srf"}
    m, files = model(ctx, f"f{custom}", grids={"lc": LC, "soil": SOIL, "glaciers": GL, "srf": np.ones((N, N))},
                     config={**cover, "land_cover": {"classes": CLASSES}, "meteo": {"precipitation_correction": [corr]}})
    dem, srf, off = values(ctx, "dem", -500, 9000), values(ctx, "srf", 0, 10), hidden(ctx, "srf")
    lc, soil, gl = np.array([[1, 2, 3], [300, 257, 6], [70000, 255, 32768]]), np.array([[9, 8, 7], [6, 5, 4], [3, 2, 1]]), np.array([[0, 1, 0], [2, 0, 2], [3, 0, 1]])
    gone = np.zeros((N, N), bool)
    gone[0, 1] = gone[2, 0] = True
    files.put("dem", dem)
    files.put("svf", values(ctx, "svf", 0, 1))
    files.put("lc", lc, gone)
    files.put("soil", soil, gone.T)
    files.put("glaciers", gl)
    if custom:
        m.config.meteo.precipitation_correction[0]["file"] = f"{files.wd}/other_t_100.asc"
        files.put("other", srf, off)
    files.put("srf", values(ctx, "default", 0, 10) if custom else srf, off)
    load(m, files)
    check_grid(ctx, "srf", m.state.base.srf, srf, off)
    s = m.state
    ctx.claim("land-cover", np.array_equal(s.land_cover.land_cover, np.where(gone, 0, lc)))
    ctx.claim("soil", np.array_equal(s.evapotranspiration.soil_texture, np.where(gone.T, 0, soil)))
    ctx.claim("glaciers", np.array_equal(s.glaciers.glacier, gl))
    check_roi(ctx, m, np.ones((N, N)))


@scenario
def mismatch(ctx):
    """Files of another size, place or resolution than the elevation model are rejected."""
    import rasterio
    from openamundsen import errors, terrain
    from .P30 import CLASSES, GL, LC, SOIL

    m, files = model(ctx, "mm", grids={"lc": LC, "soil": SOIL, "glaciers": GL, "srf": np.ones((N, N))},
                     config={"canopy": {"enabled": True}, "evapotranspiration": {"enabled": True}, "snow": {"model": "cryolayers"}, "glaciers": {"enabled": True},
                             "land_cover": {"classes": CLASSES}, "meteo": {"precipitation_correction": [{"method": "srf"}]}})
    which = ("dem", "svf", "roi", "srf", "lc", "soil", "glaciers", None)[ctx.choose(8, "file")]
    how = ("rows", "columns", "x", "y", "resolution", "absent")[ctx.choose(6, "how")]
    r = ctx.real("resolution", 50, 150)
    for n in ("dem", "svf", "roi", "srf", "lc", "soil", "glaciers"):
        v = values(ctx, n, 0, 1) if n in ("dem", "svf", "srf") else np.ones((N, N), int)
        kw = {}
        if n == which:
            if how == "rows":
                v = np.vstack([v, v[:1]])
            elif how == "columns":
                v = np.hstack([v, v[:, :1]])
            elif how == "x":
                kw["x0"] = X0 + 100.0
            elif how == "y":
                kw["y0"] = Y0 - 0.5
            elif how == "resolution":
                kw["res"] = r
            elif how == "absent":
                continue
        files.put(n, v, **kw)
    try:
        load(m, files, (terrain, "sky_view_factor", lambda d, *a, **k: d))
        r_ok, err = True, None
    except errors.RasterFileError:
        r_ok, err = False, "raster"
    except (FileNotFoundError, rasterio.errors.RasterioIOError):
        r_ok, err = False, "missing"
    if which is None:
        ok = True
    elif how == "absent":
        ok = which in ("roi", "svf")
        ctx.claim("reason", ok or err in ("missing", "raster"))
    elif how == "resolution":
        ok = bool(r == 100.0)
    else:
        ok = False
    ctx.claim("read" if ok else "rejected", r_ok == ok)


@scenario
def extended(ctx):
    """The model grid is cut out of the extended elevation model at its place; other resolutions, alignments and extents are rejected."""
    from openamundsen import errors, terrain

    m, files = model(ctx, "ext")
    i, j = ctx.choose(4, "row"), ctx.choose(4, "column")
    rows, cols = 6, 5 + i % 2
    how = ("ok", "half", "resolution")[ctx.choose(3, "how")]
    big, sky = values(ctx, "big", -500, 9000, (rows, cols)), values(ctx, "sky", 0, 1, (rows, cols))
    res = ctx.real("resolution", 50, 150) if how == "resolution" else RES
    place = dict(x0=X0 - RES * j - (50.0 if how == "half" else 0.0), y0=Y0 + RES * i, res=res)
    off = np.zeros((rows, cols), bool)
    off[i + 1, min(j + 1, cols - 1)] = how == "ok" and bool(ctx.choose(2, "missing"))
    files.put("dem", values(ctx, "dem", 0, 9000))
    files.put("svf", values(ctx, "svf", 0, 1))
    files.put("extended-dem", big, off, **place)
    files.put("extended-svf", sky, **place)
    ok = how == "ok" and i + N <= rows and j + N <= cols or how == "resolution" and bool(res == 100.0) and i + N <= rows and j + N <= cols
    normals = np.zeros((3, rows, cols))
    try:
        load(m, files, (terrain, "normal_vector", lambda d, r: normals if d.shape == (rows, cols) and r == RES else None))
        got = True
    except errors.RasterFileError:
        got = False
    ctx.claim("read" if ok else "rejected", got == ok)
    if not ok:
        return
    cut = (slice(i, i + N), slice(j, j + N))
    check_grid(ctx, "dem", m.state.base.dem, big[cut], off[cut])
    check_grid(ctx, "svf", m.state.base.svf, sky[cut], np.zeros((N, N), bool))
    check_roi(ctx, m, ~off[cut])
    check_grid(ctx, "extended-dem", m.grid.extended_grid.dem, big, off)
    ctx.claim("normals", m.grid.extended_grid.normal_vec is not None)


def lonlat(x, y):
    import pyproj

    return pyproj.Transformer.from_crs("epsg:32632", "epsg:4326", always_xy=True).transform(x, y)


def station(name, x, y, alt=2000.0, n=16, start="2020-01-15", **cols):
    import pandas as pd
    from openamundsen import forcing

    lon, lat = lonlat(x, y)
    cols = {"temp": [270.0] * n, "precip": [0.0] * n, "rel_hum": [60.0] * n, "sw_in": [300.0] * n, "wind_speed": [2.0] * n, **cols}
    return forcing.make_point_dataset(data=pd.DataFrame(cols, index=pd.date_range(start, periods=n, freq="3h")), point_id=name, name=name, lon=lon, lat=lat, alt=alt)


@scenario
def bounds(ctx):
    """Stations are asked for in the area of the (extended) grid, everywhere, or in the given area."""
    from openamundsen import fileio

    case = ("grid", "extended", "global", "given")[ctx.choose(4, "case")]
    m, _ = model(ctx, "bounds")
    m.config.input_data.meteo.format = "netcdf"
    m.config.input_data.meteo.dir = "."
    i, j = ctx.choose(3, "row"), ctx.choose(3, "column")
    x, y = ctx.real("x", X0 - 2000.0, X0 + 2000.0), ctx.real("y", Y0 - 2000.0, Y0 + 2000.0)
    lo, hi = [ctx.real(f"lo{k}", X0 - 9e3, X0 + 9e3) for k in range(2)], [ctx.real(f"hi{k}", X0 - 9e3, X0 + 9e3) for k in range(2)]
    area = (X0, Y0 - N * RES, X0 + N * RES, Y0)
    if case == "extended":
        m.grid.extended_grid.update(available=True, rows=7, cols=6, row_offset=i, col_offset=j, row_slice=slice(i, i + N), col_slice=slice(j, j + N))
        area = (X0 - j * RES, Y0 + i * RES - 7 * RES, X0 - j * RES + 6 * RES, Y0 + i * RES)
    elif case == "global":
        m.config.input_data.meteo.bounds = "global"
        area = (-1e9, -1e9, 1e9, 1e9)
    elif case == "given":
        m.config.input_data.meteo.bounds = [lo[0], lo[1], hi[0], hi[1]]
        area = (lo[0], lo[1], hi[0], hi[1])
    seen = []
    with stubbed((fileio, "read_meteo_data", lambda *a, **k: seen.append(k))):
        m._read_meteo_data()
    b = seen[0]["bounds"]

    def inside(b):
        return bool(x >= b[0]) and bool(x <= b[2]) and bool(y >= b[1]) and bool(y <= b[3])

    ctx.claim("once", len(seen) == 1)
    ctx.claim("station", inside(b) == inside(area))


SPOTS = [(640050.0, 5180250.0), (640150.0, 5180150.0), (640250.0, 5180050.0), (640350.0, 5180150.0), (640050.0, 5180150.0)]


@scenario(params={str(k): dict(k=k) for k in range(2)}, merged=True)
def stations_in_region(ctx, k):
    """On request, the cells of stations on the grid join the region of interest, unless they have no elevation; nothing else changes."""
    from openamundsen import forcing

    dem = [[100.0, 200.0, 300.0], [200.0, -9999.0, 400.0], [300.0, 400.0, 500.0]]
    roi = np.array([[0, 1, 0], [0, 1, 0], [0, 1, 0]] if k else [[1, 1, 0], [0, 0, 0], [0, 0, 0]])
    use = [q for n, q in enumerate(SPOTS) if ctx.choose(2, f"station{n}")]
    m = prepare(ctx, f"p33sta{k}{[q[0] for q in use]}", lift=False, fresh=True, dem=dem, roi=roi, config={"extend_roi_with_stations": True, "input_data": {"meteo": {"format": "memory"}}},
                meteo=forcing.combine_point_datasets([station(f"s{n}", *q) for n, q in enumerate(use)] or [station("s", 0.0, 0.0)]))
    want = roi.astype(bool) & (np.array(dem) > 0)
    cells = {(0, 0): 0, (1, 1): 1, (2, 2): 2, (1, 0): 4}
    for q, n in cells.items():
        if SPOTS[n] in use and dem[q[0]][q[1]] > 0:
            want[q] = True
    check_roi(ctx, m, want)
    for n, p in enumerate(use):
        inside = [q for q, w in cells.items() if SPOTS[w] == p]
        ctx.claim("within-region", bool(m.meteo.within_roi.values[n]) == (bool(inside) and bool(want[inside[0]])))
    s = m.state.snow.swe
    ctx.claim("initialized", all(bool(s[q] == 0) == bool(want[q]) for q in np.ndindex(N, N)))


BIG = np.array([[2000.0 + 24 * ((3 * i + 5 * j) % 7) + 16 * i for j in range(7)] for i in range(7)])
# sun, offset of the model grid, cells of the station in the extended grid and of the arbitrary elevation, factor
OUTER = {"morning": ("morning", (1, 2), (5, 0), (2, 5), 1), "evening": ("evening", (3, 3), (0, 6), (4, 2), 1), "low-ne": ("low-ne", (4, 0), (1, 1), (3, 3), 1), "coarse": ("morning", (2, 2), (6, 3), (2, 6), 2),
         "horizon": ("low-nw", (2, 3), (6, 6), (1, 2), 1), "noon": ("noon", (0, 4), (6, 0), (1, 3), 1)}


AIR = {"ozone_layer_thickness": 0.004, "atmospheric_visibility": 16000.0, "single_scattering_albedo": 0.8, "clear_sky_albedo": 0.09}


@scenario(params={k: dict(which=k, _tiers=("quick", "thorough") if k in ("morning", "coarse") else ("thorough",)) for k in OUTER}, merged=False)
def surroundings(ctx, which):
    """Terrain around the model grid casts shadows on it; measurements of stations around it count with the clear-sky irradiance of their own cell."""
    from openamundsen import forcing, meteo, modules, terrain
    from openamundsen.modules import radiation

    from .P26 import SUNS, corripio, sun

    which, (i, j), cell, q, factor = OUTER[which]
    zenith, az, doy = SUNS[which]
    cut = (slice(i, i + N), slice(j, j + N))
    coords = [(X0 + RES * (c - j + 0.5), Y0 - RES * (r - i + 0.5)) for r, c in (cell, (i + 1, j + 1), (cell[0] + 40, cell[1]))]
    data = forcing.combine_point_datasets([station(f"s{k}", *xy, n=3, start="2020-03-15", temp=[272.0 + k] * 3, rel_hum=[64.0 + 8 * k] * 3) for k, xy in enumerate(coords)])
    m = prepare(ctx, f"p33su{which}{i}{j}", fresh=True, dem=BIG[cut], svf=np.ones((N, N)), meteo=data,
                config={"start_date": "2020-03-15", "end_date": "2020-03-15 06:00", "input_data": {"meteo": {"format": "memory"}}, "meteo": {"radiation": {"shadows_downsampling_factor": factor, **AIR}}})
    files = Files(tempfile.mkdtemp(dir=scratch()))
    m.config.input_data.grids.dir = files.wd
    big = np.array(BIG, dtype=object if ctx.symbolic else float)
    part = ctx.choose(2, "part")
    big[q] = ctx.real("elevation", 2000, 2400) if part else 2200.0
    sky = np.array(big)
    sky[:] = 1.0
    svf = sky[cell] = 0.5 if part else (0.25, 0.75)[ctx.choose(2, "svf")]
    place = dict(x0=X0 - RES * j, y0=Y0 + RES * i)
    files.put("dem", BIG[cut])
    files.put("svf", np.ones((N, N)))
    files.put("extended-dem", big, **place)
    files.put("extended-svf", sky, **place)
    normals = terrain.normal_vector(BIG, RES)
    load(m, files, (terrain, "normal_vector", lambda d, r: normals))
    m.date, m.date_idx = m.dates[1], 1
    vector = sun(zenith, az)
    m.sun_params = {"sun_over_horizon": True, "sun_vector": vector, "day_angle": 2 * np.pi / 365.25 * (doy - 1), "zenith_angle": float(zenith)}
    s, b = m.state.meteo, m.state.base
    b.normal_vec[:] = normals[:, cut[0], cut[1]]
    m.state.surface.albedo[:] = 0.0
    s.atmos_press[:], s.precipitable_water[:] = 80000.0, 8.0
    sw = [200.0, 300.0] if part else [ctx.real(f"sw{k}", 0.25, 8) for k in range(2)]
    known = part or ctx.choose(2, "humidity")
    a = np.array(m.meteo.sw_in.values, dtype=object if ctx.symbolic else float)
    names = [str(n) for n in m.meteo.station.values]
    for k in range(2):
        a[names.index(f"s{k}"), 1] = sw[k]
    m.meteo["sw_in"] = (m.meteo.sw_in.dims, a)
    if not known:
        m.meteo.rel_hum.values[names.index("s0"), 1] = NAN
    shade = np.asarray(radiation.shadows(big[::factor, ::factor].copy(), RES * factor, vector, num_sweeps=1))
    sh = np.array([[shade[r // factor, c // factor] for c in range(7)] for r in range(7)])
    radiation.clear_sky_shortwave_irradiance(m)
    with stubbed((meteo, "cloud_fraction_from_cloud_factor", lambda f: f)):
        radiation.shortwave_irradiance(m)
    r = m.config.meteo.radiation

    def clear(elev, press, pw, nv, lit, view):
        t = corripio(zenith, doy, elev, press, pw, r.ozone_layer_thickness, r.atmospheric_visibility, r.single_scattering_albedo)
        tr = min(max(t["ray"] * t["base"] * t["vap"] * t["aer"] + t["elev"], 0.0), 1.0)
        direct = 0.9751 * t["i0"] * max(vector[0] * nv[0] - vector[1] * nv[1] + vector[2] * nv[2], 0.0) * tr
        k = 0.79 * t["i0"] * t["cz"] * t["base"] * t["aa"] / (1 - t["ma"] + t["ma"] ** 1.02) * t["vap"]
        fs = -0.2562 * t["zr"] ** 2 + 0.1409 * t["zr"] + 0.9067
        return direct * lit, k * (0.5 * (1 - t["ray"]) + fs * (1 - t["aer"] / t["aa"])) * view

    for p in np.ndindex(N, N):
        o = (p[0] + i, p[1] + j)
        d, f = clear(BIG[o], 80000.0, 8.0, normals[(slice(None), *o)], sh[o], 1.0)
        ctx.claim_eq("direct", s.dir_in_clearsky[p], d, 1e-3)
        ctx.claim_eq("diffuse", s.diff_in_clearsky[p], f, 1e-3)
    if part:
        return
    pw = float(meteo.precipitable_water(272.0, meteo.vapor_pressure(272.0, 64.0)))
    out = ssum(clear(BIG[cell], float(meteo.atmospheric_pressure(BIG[cell])), pw, normals[(slice(None), *cell)], sh[cell], svf))
    inn = s.sw_in_clearsky[1, 1]
    for p in ((0, 0), (1, 1), (2, 1)):
        x, y = centers(m, p)
        w = [1 / max((x - u) ** 2 + (y - v) ** 2, 1e-12) for u, v in coords[:2]]
        if not known:
            want = sw[1] / inn
        elif p == (1, 1):
            want = sw[1] / inn
        else:
            want = (w[0] * (sw[0] / out) + w[1] * (sw[1] / inn)) / (w[0] + w[1])
        ctx.claim_eq("cloud-factor", s.cloud_factor[p], smin(smax(want, 0.0), 1.0), 1e-5)
        ctx.claim_eq("irradiance", s.sw_in[p], s.sw_in_clearsky[p] * s.cloud_factor[p], 1e-6)
