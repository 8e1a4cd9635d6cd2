"""Shared harnesses for the multilayer snow model (driven through the public model methods)."""
from symex.api import *

I, J = 1, 1
ROI = np.zeros((3, 3), int)
ROI[I, J] = 1
NL = 3
T0 = 273.15
LF = 0.334e6
CI, CW = 2100.0, 4180.0


def model(ctx, **config):
    key = "ml" + repr(sorted(config.items()))
    return prepare(ctx, "ml_" + str(abs(hash_str(key))), roi=ROI, config=config)


def hash_str(s):
    import zlib

    return zlib.crc32(s.encode())


def snowpack(ctx, m, n, ablated=False, max_temp=T0, min_ice=0.001, dense=True):
    """n snow layers (k >= n empty); optionally any subset ("any") or the topmost layers ("top") are ablated."""
    s = m.state.snow
    s.num_layers[I, J] = n
    if ablated == "top" and n:
        a = (1 << ctx.choose(n + 1, "ablated")) - 1
    else:
        a = ctx.choose(2**n, "ablated") if ablated and n else 0
    for k in range(NL):
        if k < n:
            if a >> k & 1:
                th, ice = 0.0, 0.0
            else:
                th = ctx.real(f"thick{k}", 1e-4, 3)
                ice = ctx.real(f"ice{k}", min_ice, 1000)
                if dense:
                    ctx.assume(ice_le(ctx, ice, th))
            s.thickness[k, I, J] = th
            s.ice_content[k, I, J] = ice
            s.liquid_water_content[k, I, J] = ctx.real(f"lwc{k}", 0, 100)
            s.temp[k, I, J] = ctx.real(f"temp{k}", 220, max_temp)
        else:
            s.thickness[k, I, J] = 0.0
            s.ice_content[k, I, J] = 0.0
            s.liquid_water_content[k, I, J] = 0.0
            s.temp[k, I, J] = T0
    if n:
        s.albedo[I, J] = ctx.real("albedo", 0.5, 0.9)
    m.snow.update_properties()
    return a


def ice_le(ctx, ice, th):
    """Layer is not denser than ice."""
    if ctx.symbolic:
        return core.to_expr(ice) <= core.to_expr(th) * core.rv(917)
    return ice <= th * 917.0 + 1e-9


def cond_le(ctx, a, b):
    """a <= b as an assumption in either mode (no forking)."""
    if ctx.symbolic:
        return core.to_expr(a) <= core.to_expr(b)
    return a <= b + 1e-9


def get(m, var, k=None):
    v = m.state.snow[var]
    return v[k, I, J] if k is not None else v[I, J]


def layers(m, var):
    return [get(m, var, k) for k in range(NL)]


def mass(m):
    return ssum(layers(m, "ice_content")) + ssum(layers(m, "liquid_water_content"))


def observe(ctx, m):
    for v in ("thickness", "ice_content", "liquid_water_content", "temp"):
        ctx.observe(v, m.state.snow[v][:, I, J])


def maybe_nan(ctx, name, lo, hi):
    if ctx.choose(2, name + "_nan"):
        return float("nan")
    return ctx.real(name, lo, hi)


FIVE = (0.125, 0.25, 0.25, 0.5, 1.0)


def five(ctx, n=5, **cfg):
    """Five layers of given thickness, contents and temperature but for one (chosen) layer with arbitrary liquid water and temperature."""
    m = model(ctx, snow={"min_thickness": list(FIVE), **cfg})
    s = m.state.snow
    s.num_layers[I, J] = n
    q = ctx.choose(n, "layer")
    for k in range(n):
        s.thickness[k, I, J] = FIVE[k]
        s.ice_content[k, I, J] = (16.0, 64.0, 32.0, 128.0, 512.0)[k]
        s.liquid_water_content[k, I, J] = ctx.real("lwc", 0, 20) if k == q else (0.0, 1.0, 12.0, 2.0, 16.0)[k]
        s.temp[k, I, J] = ctx.real("temp", 240, 283) if k == q else (T0, 270.0, T0, 268.0, 272.0)[k]
    s.albedo[I, J] = 0.7
    m.snow.update_properties()
    return m
