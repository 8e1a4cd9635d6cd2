"""Shared harness for evapotranspiration: one pixel per land cover class and soil texture."""
from symex.api import *

from ._ml import hash_str

PIX = {"dual": (0, 0), "single": (0, 1), "sealed": (0, 2), "water": (1, 0), "sparse": (1, 1), "none": (2, 2)}
CLASS = {"dual": 11, "single": 12, "sealed": 13, "water": 14, "sparse": 15, "none": 99}
TEXTURE = {"dual": 4, "single": 1, "sealed": 9, "water": 5, "sparse": 7, "none": 3}
ROI = np.zeros((3, 3), int)
LC = np.full((3, 3), 99, int)
SOIL = np.full((3, 3), 3, int)
for _n, _p in PIX.items():
    ROI[_p], LC[_p], SOIL[_p] = 1, CLASS[_n], TEXTURE[_n]
LENGTHS = {"dual": [10, 20, 100, 30], "single": [0, 40, 100, 40], "water": [0, 183, 0, 183], "sparse": [20, 20, 50, 20]}
COEFFS = {"dual": (0.3, 0.9, 0.8), "single": (0.4, 1.1, 0.35), "water": (1.25, 0.65, 1.25), "sparse": (0.25, 0.95, 0.6)}
HEIGHT = {"dual": 0.5, "single": 1.0, "sealed": 1.9, "water": 0.0, "sparse": 2.0}
CLASSES = {
    11: dict(crop_coefficient_type="dual", rooting_depth=0.5, depletion_fraction=0.6),
    12: dict(crop_coefficient_type="single", rooting_depth=1.0, depletion_fraction=0.5),
    13: dict(is_sealed=True, max_sealed_interception=1.0, rooting_depth=float("nan"), depletion_fraction=float("nan")),
    14: dict(crop_coefficient_type="single", is_water_body=True, rooting_depth=float("nan"), depletion_fraction=float("nan")),
    15: dict(crop_coefficient_type="dual", is_sparse=True, sparse_vegetation_fraction=0.3, rooting_depth=0.8, depletion_fraction=0.4, scale_height=False),
}
for _n, _k in CLASS.items():
    if _k in CLASSES:
        c = CLASSES[_k]
        c["max_height"] = HEIGHT[_n]
        if _n in LENGTHS:
            c.update(crop_coefficients=list(COEFFS[_n]), plant_date=1, growth_stage_lengths=LENGTHS[_n])
# field capacity, wilting point, readily evaporable water, depletion adjustment (FAO 56, table 19 and p. 167)
SWC = {
    1: (0.12, 0.045, 4.5, 1.10), 2: (0.15, 0.065, 6.0, 1.075), 3: (0.23, 0.11, 8.0, 1.05), 4: (0.25, 0.12, 9.0, 1.025),
    5: (0.29, 0.15, 9.5, 1.0), 6: (0.32, 0.17, 9.5, 0.975), 7: (0.335, 0.205, 9.5, 0.95), 8: (0.36, 0.23, 10.0, 0.925),
    9: (0.36, 0.22, 10.0, 0.90),
}


def model(ctx, **config):
    cfg = dict(evapotranspiration={"enabled": True}, land_cover={"classes": CLASSES})
    for k, v in config.items():
        cfg[k] = {**cfg[k], **v} if isinstance(v, dict) and k in cfg else v
    return prepare(ctx, "et_" + str(hash_str(repr(sorted(cfg.items())))), roi=ROI, grids={"lc": LC, "soil": SOIL}, config=cfg)


WEATHER = dict(top_canopy_temp=288.15, top_canopy_wind_speed=3.0, top_canopy_sw_in=0.0, top_canopy_lw_in=300.0, psych_const=60.0, sat_vap_press=1700.0,
               vap_press=1000.0, atmos_press=90000.0, rainfall=0.0)


def weather(m, p, **kw):
    for n, v in {**WEATHER, **kw}.items():
        m.state.meteo[n][p] = v


def quiet(m, sun=True):
    m.sun_params = {"sun_over_horizon": sun, "declination_angle": 10.0}
    for p in PIX.values():
        weather(m, p)
        m.state.snow.swe[p] = 0.0
