"""Shared harness for canopy and land cover: pixel A is coniferous forest, B deciduous forest, C no forest, D unknown class."""
from symex.api import *

from ._ml import hash_str

A, B, C, D = (1, 1), (0, 2), (2, 0), (2, 1)
ROI = np.zeros((3, 3), int)
for _p in (A, B, C, D):
    ROI[_p] = 1
LC = np.full((3, 3), 3, int)
LC[A], LC[B], LC[C], LC[D] = 1, 2, 3, 9
CLASSES = {
    1: {"is_forest": True, "leaf_area_index": {"min": 10.2, "max": 11.6, "effective_add": 0.0}, "plant_date": 60, "growth_stage_lengths": [30, 30, 120, 30]},
    2: {"is_forest": True, "leaf_area_index": {"min": 0.5, "max": 4.5, "effective_add": 3.2}, "plant_date": 100, "growth_stage_lengths": [20, 30, 90, 40]},
    3: {"leaf_area_index": {"min": 2.0, "max": 4.0, "effective_add": 0.0}, "plant_date": 80, "growth_stage_lengths": [20, 10, 50, 20]},
}


def model(ctx, **config):
    cfg = dict(canopy={"enabled": True}, land_cover={"classes": CLASSES})
    for k, v in config.items():
        if isinstance(v, dict) and k in cfg:
            cfg[k] = {**cfg[k], **v}
        else:
            cfg[k] = v
    return prepare(ctx, "can_" + str(hash_str(repr(sorted(cfg.items())))), roi=ROI, grids={"lc": LC}, config=cfg)
