"""Shared harness for the cryo layer snow model."""
from symex.api import *

from ._ml import hash_str

I, J = 1, 1
ROI = np.zeros((3, 3), int)
ROI[I, J] = 1
NEW, OLD, FIRN, ICE = 0, 1, 2, 3
NL = 4
T0 = 273.15
LF = 0.334e6
VARS = ("thickness", "ice_content", "liquid_water_content", "cold_content", "density", "layer_albedo")


def model(ctx, **config):
    config = dict(config)
    snow = dict(config.pop("snow", {}))
    snow["model"] = "cryolayers"
    config["snow"] = snow
    key = "cl" + repr(sorted(config.items()))
    return prepare(ctx, "cl_" + str(abs(hash_str(key))), roi=ROI, config=config)


def pack(ctx, m, present, lwc=True, cc=True, dens=True):
    """present: bit mask of existing layers; everything else of the layers is arbitrary."""
    s = m.state.snow
    for k in range(NL):
        if present >> k & 1:
            ice = ctx.real(f"ice{k}", 0.001, 1000)
            th = ctx.real(f"thick{k}", 1e-4, 20)
            if ctx.symbolic:
                e, t = core.to_expr(ice), core.to_expr(th)
                ctx.assume(e <= 917 * t)
                ctx.assume(e >= 5 * t)
            else:
                ctx.assume(5 * th - 1e-9 <= ice <= 917 * th + 1e-9)
            s.ice_content[k, I, J] = ice
            s.thickness[k, I, J] = th
            s.liquid_water_content[k, I, J] = ctx.real(f"lwc{k}", 0, 100) if lwc and k < 2 else 0.0
            s.cold_content[k, I, J] = ctx.real(f"cc{k}", 0, 50) if cc and k < 2 else 0.0
            s.layer_albedo[k, I, J] = ctx.real(f"alb{k}", 0.1, 0.95)
            s.density[k, I, J] = 300.0  # recomputed by update_properties
        else:
            for v in ("ice_content", "thickness", "liquid_water_content", "cold_content"):
                s[v][k, I, J] = 0.0
            s.layer_albedo[k, I, J] = float("nan")
            s.density[k, I, J] = float("nan")
    m.snow.update_properties()


def concrete_pack(ctx, m, present, lwc=True):
    th = (0.1, 0.5, 1.0, 10.0)
    rho = (120.0, 330.0, 600.0, 900.0)
    s = m.state.snow
    for k in range(NL):
        on = present >> k & 1
        s.thickness[k, I, J] = th[k] if on else 0.0
        s.ice_content[k, I, J] = th[k] * rho[k] if on else 0.0
        s.liquid_water_content[k, I, J] = ctx.real(f"lwc{k}", 0, 20 * th[k]) if on and k < 2 and lwc else 0.0
        s.cold_content[k, I, J] = 0.0
        s.layer_albedo[k, I, J] = 0.8 - 0.1 * k if on else float("nan")
        s.density[k, I, J] = 300.0 if on else float("nan")
    m.snow.update_properties()


def get(m, v, k=None):
    x = m.state.snow[v]
    return x[I, J] if k is None else x[k, I, J]


def layers(m, v):
    return [get(m, v, k) for k in range(NL)]


def mass(m):
    return ssum(layers(m, "ice_content")) + ssum(layers(m, "liquid_water_content"))


def observe(ctx, m):
    for v in ("thickness", "ice_content", "liquid_water_content", "cold_content"):
        ctx.observe(v, m.state.snow[v][:, I, J])


def maybe_nan(ctx, name, lo, hi):
    if ctx.choose(2, name + "_nan"):
        return float("nan")
    return ctx.real(name, lo, hi)


PRESENT = {"".join("NOFI"[k] for k in range(4) if p >> k & 1) or "none": p for p in range(16)}
SOME = {k: PRESENT[k] for k in ("none", "N", "O", "NO", "NOFI", "OI", "F")}
