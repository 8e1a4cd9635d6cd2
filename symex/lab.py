"""Real OpenAmundsen model instances on tiny scratch domains, with symbolic or concrete state."""
import atexit
import copy
import os
import shutil
import sys
import tempfile

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

os.environ.setdefault("SETUPTOOLS_SCM_PRETEND_VERSION", "1.0.0")

_scratch = None


def scratch():
    global _scratch
    if _scratch is None or not os.path.isdir(_scratch) or _scratch_pid != os.getpid():
        _new_scratch()
    return _scratch


def _new_scratch():
    global _scratch, _scratch_pid
    _scratch = tempfile.mkdtemp(prefix="oaverif_")
    _scratch_pid = os.getpid()
    d = _scratch
    pid = os.getpid()

    def rm():
        if os.getpid() == pid:
            shutil.rmtree(d, ignore_errors=True)

    atexit.register(rm)


def oa():
    import openamundsen

    return openamundsen


def write_asc(path, arr, res=100, x0=640000.0, y0=5180000.0, nodata=-9999):
    arr = np.asarray(arr)
    with open(path, "w") as f:
        f.write(f"ncols {arr.shape[1]}\nnrows {arr.shape[0]}\nxllcorner {x0}\nyllcorner {y0}\n")
        f.write(f"cellsize {res}\nNODATA_value {nodata}\n")
        for row in arr:
            f.write(" ".join(repr(float(v)) if arr.dtype.kind == "f" else str(int(v)) for v in row) + "\n")


DEM33 = np.array([[2000.0, 2010.0, 2040.0], [1990.0, 2020.0, 2060.0], [1970.0, 2000.0, 2080.0]])


def deep_update(d, u):
    for k, v in u.items():
        if isinstance(v, dict) and isinstance(d.get(k), dict):
            deep_update(d[k], v)
        else:
            d[k] = v
    return d


def base_config(workdir, **over):
    cfg = {
        "domain": "t",
        "start_date": "2020-01-15",
        "end_date": "2020-01-16",
        "resolution": 100,
        "timestep": "3h",
        "crs": "epsg:32632",
        "timezone": 1,
        "log_level": "CRITICAL",
        "enable_default_logging": False,
        "numba_threads": 1,
        "results_dir": workdir,
        "input_data": {"grids": {"dir": workdir}, "meteo": {"format": "callback"}},
        "output_data": {
            "timeseries": {"format": "memory", "add_default_points": False},
            "grids": {"format": "memory"},
        },
    }
    return deep_update(cfg, copy.deepcopy(over))


_cache = {}
_DEFAULT = object()


def build_model(key, config=None, dem=None, roi=None, grids=None, meteo=None, callback=_DEFAULT,
                svf=None, fresh=False):
    """Build (or fetch) an initialised model.  Must be called with unpatched modules."""
    from . import symnp

    if key in _cache and not fresh:
        lab = _cache[key]
        lab.restore()
        return lab
    patched = bool(symnp._patched)
    symnp.unpatch_modules()
    prof = sys.getprofile()
    sys.setprofile(None)
    try:
        lab = Lab(key, config or {}, dem, roi, grids or {}, meteo, callback, svf)
    finally:
        sys.setprofile(prof)
        if patched:
            symnp.patch_modules()
    if not fresh:
        _cache[key] = lab
    lab.restore()
    return lab


class Lab:
    def __init__(self, key, config, dem, roi, grids, meteo, callback, svf):
        o = oa()
        wd = os.path.join(scratch(), f"m{len(_cache)}_{key}")
        os.makedirs(wd, exist_ok=True)
        dem = DEM33 if dem is None else np.asarray(dem, float)
        res = config.get("resolution", 100)
        write_asc(f"{wd}/dem_t_{res}.asc", dem, res)
        write_asc(f"{wd}/svf_t_{res}.asc", np.ones(dem.shape) if svf is None else np.asarray(svf, float), res)
        if roi is not None:
            write_asc(f"{wd}/roi_t_{res}.asc", np.asarray(roi, int), res)
        for n, g in grids.items():
            write_asc(f"{wd}/{n}_t_{res}.asc", np.asarray(g), res)
        cfg = base_config(wd, **config)
        self.model = o.OpenAmundsen(o.Configuration.fromDict(cfg) if hasattr(o.Configuration, "fromDict") else cfg)
        kw = {}
        if cfg["input_data"]["meteo"]["format"] == "callback":
            kw["meteo_callback"] = (lambda m: None) if callback is _DEFAULT else callback
        if meteo is not None:
            kw["meteo"] = meteo
        self.model.initialize(**kw)
        m = self.model
        if m.date is None:
            m.date_idx = 0
            m.date = m.dates[0]
        self._snap()

    def _snap(self):
        m = self.model
        self.snap = {
            cat: {k: v.copy() for k, v in m.state[cat].items() if isinstance(v, np.ndarray)}
            for cat in m.state.categories
        }
        self.cfg = copy.deepcopy(m.config)
        self.attrs = {
            k: v
            for k, v in vars(m).items()
            if isinstance(v, (int, float, str, bool, type(None))) or k in ("date", "dates", "date_idx", "meteo")
        }
        self.grid_roi = m.grid.roi.copy()
        self.grid_attrs = dict(m.grid)
        # plain attributes (counters etc.) of the submodels
        self.sub = {
            k: {a: x for a, x in vars(v).items() if isinstance(x, (int, float, str, bool, type(None)))}
            for k, v in vars(m).items()
            if type(v).__module__.startswith("openamundsen.") and hasattr(v, "__dict__") and k not in ("state", "config", "grid")
        }

    def restore(self):
        m = self.model
        for cat, vs in self.snap.items():
            svc = m.state[cat]
            for k, v in vs.items():
                svc[k] = v.copy()
        m.config = copy.deepcopy(self.cfg)
        for k, v in self.attrs.items():
            setattr(m, k, v)
        for k, attrs in self.sub.items():
            o = getattr(m, k, None)
            for a, x in attrs.items():
                setattr(o, a, x)
        for k, v in self.grid_attrs.items():
            m.grid[k] = v
        m.grid.roi = self.grid_roi.copy()

    def lift(self):
        """Make every float state array able to hold symbolic values."""
        from . import symnp

        m = self.model
        for cat in m.state.categories:
            svc = m.state[cat]
            for k, v in list(svc.items()):
                if isinstance(v, np.ndarray) and v.dtype.kind == "f":
                    svc[k] = symnp.lift(v)


def prepare(ctx, key, lift=True, **kw):
    """Model for a harness run: restored, and lifted when running symbolically."""
    # separate instances, so that a concrete replay made while a symbolic run is suspended does not
    # disturb the state of the latter
    lab = build_model(key + ("" if ctx.symbolic else "_c"), **kw)
    if ctx.symbolic and lift:
        lab.lift()
    lab.model._verif_lab = lab
    return lab.model


def arr(ctx, values):
    """Array of (possibly symbolic) values in the representation of the context."""
    if ctx.symbolic:
        from . import symnp

        return symnp._array(values, dtype=float)
    return np.array(values, dtype=float)
