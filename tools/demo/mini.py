"""Small real model on a 3x3 domain in a scratch directory (removed at exit)."""
import atexit
import copy
import logging
import os
import shutil
import tempfile
import warnings

os.environ.setdefault("SETUPTOOLS_SCM_PRETEND_VERSION", "1.0.0")
os.environ.setdefault("NUMBA_CACHE_DIR", tempfile.mkdtemp(prefix="oademo_"))
atexit.register(shutil.rmtree, os.environ["NUMBA_CACHE_DIR"], True)
warnings.simplefilter("ignore")
import numpy as np  # noqa: E402
import openamundsen as oa  # noqa: E402

logging.disable(logging.CRITICAL)
DEM = np.array([[2000.0, 2010.0, 2040.0], [1990.0, 2020.0, 2060.0], [1970.0, 2000.0, 2080.0]])


def write_asc(path, arr, res=100):
    arr = np.asarray(arr)
    with open(path, "w") as f:
        f.write(f"ncols {arr.shape[1]}\nnrows {arr.shape[0]}\nxllcorner 640000\nyllcorner 5180000\ncellsize {res}\nNODATA_value -9999\n")
        for row in arr:
            f.write(" ".join(repr(float(v)) if arr.dtype.kind == "f" else str(int(v)) for v in row) + "\n")


def deep(d, u):
    for k, v in u.items():
        if isinstance(v, dict) and isinstance(d.get(k), dict):
            deep(d[k], v)
        else:
            d[k] = v
    return d


def model(dem=None, roi=None, grids=None, callback=lambda m: None, init=True, **over):
    wd = tempfile.mkdtemp(prefix="oademo_")
    atexit.register(shutil.rmtree, wd, True)
    dem = DEM if dem is None else np.asarray(dem, float)
    write_asc(f"{wd}/dem_t_100.asc", dem)
    write_asc(f"{wd}/svf_t_100.asc", np.ones(dem.shape))
    if roi is not None:
        write_asc(f"{wd}/roi_t_100.asc", np.asarray(roi, int))
    for n, g in (grids or {}).items():
        write_asc(f"{wd}/{n}_t_100.asc", g)
    cfg = dict(domain="t", start_date="2020-01-15", end_date="2020-01-16", resolution=100, timestep="3h", crs="epsg:32632",
               timezone=1, log_level="CRITICAL", enable_default_logging=False, numba_threads=1, results_dir=wd,
               input_data={"grids": {"dir": wd}, "meteo": {"format": "callback"}},
               output_data={"timeseries": {"format": "memory", "add_default_points": False}, "grids": {"format": "memory"}})
    m = oa.OpenAmundsen(oa.Configuration.fromDict(deep(cfg, copy.deepcopy(over))))
    if init:
        m.initialize(meteo_callback=callback)
        if m.date is None:
            m.date_idx, m.date = 0, m.dates[0]
    return m


FAIL = []


def check(cond, msg):
    if not cond:
        FAIL.append(msg)
        print("FAIL:", msg)


def close(a, b, tol, msg):
    check(abs(float(a) - float(b)) <= tol, f"{msg}: {a} != {b}")


def done():
    raise SystemExit(1 if FAIL else 0)
