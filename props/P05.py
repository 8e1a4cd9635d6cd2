"""Heat conduction in snow and soil conserves energy and creates no new extremes."""
from symex.api import *

from . import _ml as ml
from ._ml import I, J, NL, T0, get

scenario = Registry()
BOUNDS = (
    "one pixel; snow: 1-3 layers, arbitrary layer/soil temperatures 200..300 K and surface heat flux -500..500 W/m2 "
    "for a set of layer geometries (plus one layer with arbitrary geometry, conductivity and heat capacity); soil: "
    "4, 2 and 1 layers with arbitrary temperatures and heat flux for a set of conductivities and heat capacities; "
    "time steps 1 h, 3 h, 24 h"
)
OUTSIDE = "arbitrary geometry for two or more layers (three representative sets are used instead); rounding"

# (thickness, conductivity, ice, lwc) per layer, soil conductivity
SETS = [
    ([(0.1, 0.24, 20.0, 0.0), (0.2, 0.24, 60.0, 0.0), (0.5, 0.24, 180.0, 0.0)], 0.9),
    ([(0.1, 0.1, 8.0, 0.2), (0.2, 0.4, 70.0, 3.0), (1.6, 0.6, 700.0, 10.0)], 1.6),
    ([(0.003, 0.24, 0.4, 0.01), (0.15, 0.3, 30.0, 0.0), (0.4, 0.2, 100.0, 0.0)], 0.4),
]
DT = {"1h": 3600.0, "3h": 10800.0, "D": 86400.0}


def balance(ctx, hc, t0, t1, g, flux, tb, dt, tag):
    """Per-interface energy balance, g[k]: conductance below layer k, tb: boundary temperature."""
    n = len(t0)
    for k in range(n):
        below = t1[k + 1] if k + 1 < n else tb
        stored = ssum(hc[q] * (t1[q] - t0[q]) for q in range(k + 1))
        ctx.claim_eq(f"{tag}-energy", stored, dt * (flux - g[k] * (t1[k] - below)), 1.0)


def extremes(ctx, t0, t1, tb, tag):
    lo, hi = tb, tb
    for t in t0:
        lo, hi = smin(lo, t), smax(hi, t)
    for t in t1:
        ctx.claim_ge(f"{tag}-no-new-min", t, lo, 1e-6)
        ctx.claim_le(f"{tag}-no-new-max", t, hi, 1e-6)


def setup(ctx, n, ts, geo):
    m = ml.model(ctx, timestep=ts)
    s = m.state
    layers, ksoil = SETS[geo]
    s.snow.num_layers[I, J] = n
    for k in range(n):
        th, kc, ice, lwc = layers[k]
        s.snow.thickness[k, I, J] = th
        s.snow.ice_content[k, I, J] = ice
        s.snow.liquid_water_content[k, I, J] = lwc
        s.snow.temp[k, I, J] = ctx.real(f"temp{k}", 200, 300)
    s.soil.temp[0, I, J] = ctx.real("tsoil", 200, 300)
    s.soil.therm_cond[:, I, J] = ksoil
    m.snow.update_properties()
    for k in range(n):
        s.snow.therm_cond[k, I, J] = layers[k][1]
    return m


@scenario(params={f"{ts}-g{g}-n{n}": dict(n=n, ts=ts, geo=g) for n in (1, 2, 3) for ts, g in (("3h", 0), ("1h", 1), ("D", 2))})
def snow(ctx, n, ts, geo):
    m = setup(ctx, n, ts, geo)
    s = m.state
    f = ctx.real("flux", -500, 500)
    s.surface.heat_flux[I, J] = f
    t0 = [get(m, "temp", k) for k in range(n)]
    tsoil = s.soil.temp[0, I, J]
    m.snow.heat_conduction()
    t1 = [get(m, "temp", k) for k in range(n)]
    layers, ksoil = SETS[geo]
    dz = [x[0] for x in layers[:n]] + [s.soil.thickness[0, I, J]]
    kc = [x[1] for x in layers[:n]] + [ksoil]
    hc = [x[2] * 2100.0 + x[3] * 4180.0 for x in layers[:n]]
    g = [2 / (dz[k] / kc[k] + dz[k + 1] / kc[k + 1]) for k in range(n)]
    balance(ctx, hc, t0, t1, g, f, tsoil, DT[ts], "snow")
    for k in range(n, NL):
        ctx.claim_eq("unused-layers", get(m, "temp", k), T0, 0)
    ctx.claim_eq("soil-untouched", s.soil.temp[0, I, J], tsoil, 0)
    # what leaves the snowpack enters the soil
    ctx.observe("t", t1)
    import openamundsen.modules.soil as soil

    soil.soil_heat_flux(m)
    into = s.soil.heat_flux[I, J]
    ctx.claim_eq("snow-to-soil", ssum(h * (b - a) for h, a, b in zip(hc, t0, t1)), DT[ts] * (f - into), 1.0)


@scenario(params={f"g{g}-n{n}": dict(n=n, geo=g) for n in (1, 2, 3) for g in (0, 1, 2)})
def snow_no_flux(ctx, n, geo):
    m = setup(ctx, n, "3h", geo)
    s = m.state
    s.surface.heat_flux[I, J] = 0.0
    t0 = [get(m, "temp", k) for k in range(n)]
    m.snow.heat_conduction()
    extremes(ctx, t0, [get(m, "temp", k) for k in range(n)], s.soil.temp[0, I, J], "snow")


@scenario
def snow_one_layer(ctx):
    m = ml.model(ctx)
    s = m.state
    ml.snowpack(ctx, m, 1, max_temp=T0)
    f = ctx.real("flux", -500, 500)
    s.surface.heat_flux[I, J] = f
    tsoil = ctx.real("tsoil", 230, 300)
    ks = ctx.real("ksoil", 0.05, 3)
    kc = ctx.real("ksnow", 0.03, 1)
    s.soil.temp[0, I, J] = tsoil
    s.soil.therm_cond[0, I, J] = ks
    s.snow.therm_cond[0, I, J] = kc
    t0, hc, dz = get(m, "temp", 0), get(m, "heat_cap", 0), get(m, "thickness", 0)
    dzs = s.soil.thickness[0, I, J]
    m.snow.heat_conduction()
    t1 = get(m, "temp", 0)
    # hc (t1-t0) (dz ks + dzs kc) = dt [f (dz ks + dzs kc) - 2 kc ks (t1 - tsoil)]
    r = dz * ks + dzs * kc
    ctx.claim_eq("energy", hc * (t1 - t0) * r, 10800.0 * (f * r - 2 * kc * ks * (t1 - tsoil)), 1.0)
    ctx.observe("t", [t1])


@scenario
def bare_soil_flux(ctx):
    """Without snow the surface heat flux enters the soil."""
    import openamundsen.modules.soil as soil

    m = ml.model(ctx)
    s = m.state
    s.snow.num_layers[I, J] = 0
    f = ctx.real("flux", -500, 500)
    s.surface.heat_flux[I, J] = f
    s.soil.temp[0, I, J] = ctx.real("tsoil", 230, 300)
    s.soil.therm_cond[:, I, J] = 0.9
    soil.soil_heat_flux(m)
    ctx.claim_eq("enters-soil", s.soil.heat_flux[I, J], f, 1e-9)
    ctx.observe("f", [s.soil.heat_flux[I, J]])


SOIL = {
    "4": dict(thick=[0.1, 0.2, 0.4, 0.8], kc=[0.5, 0.9, 1.2, 1.6], hc=[1.5e5, 4e5, 9e5, 2.4e6]),
    "4b": dict(thick=[0.1, 0.2, 0.4, 0.8], kc=[2.0, 0.3, 0.9, 0.9], hc=[5e5, 3e5, 1e6, 1.7e6]),
    "2": dict(thick=[0.1, 0.5], kc=[0.7, 1.3], hc=[2e5, 1e6]),
    "1": dict(thick=[0.3], kc=[0.8], hc=[6e5]),
}


@scenario(params={k: dict(cfg=v) for k, v in SOIL.items()})
def soil(ctx, cfg):
    import openamundsen.modules.soil as soilmod

    n = len(cfg["thick"])
    m = ml.model(ctx, soil={"thickness": cfg["thick"]})
    s = m.state.soil
    f = ctx.real("flux", -300, 300) if ctx.choose(2, "flux") else 0.0
    s.heat_flux[I, J] = f
    for k in range(n):
        s.temp[k, I, J] = ctx.real(f"temp{k}", 230, 310)
        s.therm_cond[k, I, J] = cfg["kc"][k]
        s.heat_cap[k, I, J] = cfg["hc"][k]
    t0 = [s.temp[k, I, J] for k in range(n)]
    soilmod.soil_temperature(m)
    t1 = [s.temp[k, I, J] for k in range(n)]
    dz = cfg["thick"] + [cfg["thick"][-1]]
    kc = cfg["kc"] + [cfg["kc"][-1]]
    g = [2 / (dz[k] / kc[k] + dz[k + 1] / kc[k + 1]) for k in range(n)]
    balance(ctx, cfg["hc"], t0, t1, g, f, t0[-1], 10800.0, "soil")
    if isinstance(f, float) and f == 0.0:
        extremes(ctx, t0, t1, t0[-1], "soil")
    ctx.observe("t", t1)


@scenario(params={f"n{n}": dict(n=n) for n in (1, 2, 3, 5)})
def tridiag(ctx, n):
    """Both solvers return the solution of the (diagonally dominant) system."""
    from openamundsen import tridiag as td

    a = [0.0] + [-1.0 - 0.5 * k for k in range(1, n)]
    c = [-2.0 + 0.25 * k for k in range(n - 1)] + [0.0]
    b = [5.0 + k for k in range(n)]
    d = [ctx.real(f"d{k}", -100, 100) for k in range(n)]
    A, B, C, D = (arr(ctx, v) for v in (a, b, c, d))
    x = td.solve_tridiag(A, B, C, D)
    A2, B2, C2, D2 = (arr(ctx, [[u] for u in v]) for v in (a, b, c, d))
    y = td.solve_tridiag_array(A2, B2, C2, D2)
    for k in range(n):
        for z, name in ((x, "scalar"), ([r[0] for r in y], "array")):
            lhs = b[k] * z[k]
            if k > 0:
                lhs = lhs + a[k] * z[k - 1]
            if k < n - 1:
                lhs = lhs + c[k] * z[k + 1]
            ctx.claim_eq(f"{name}-row", lhs, d[k], 1e-6)
        ctx.claim_eq("inputs-kept", D[k], d[k], 0)
        ctx.claim_eq("inputs-kept", B[k], b[k], 0)


@scenario(params={f"n{n}": dict(n=n) for n in (4, 5)}, merged=True)
def snow_many_layers(ctx, n):
    m = ml.five(ctx, n)
    s = m.state
    dz, kc = list(ml.FIVE[:n]), [0.25, 0.125, 0.5, 0.25, 0.375][:n]
    for k in range(n):
        s.snow.temp[k, I, J] = ctx.real(f"temp{k}", 220, T0)
        s.snow.liquid_water_content[k, I, J] = 4.0
    m.snow.update_properties()
    for k in range(n):
        s.snow.therm_cond[k, I, J] = kc[k]
    hc = [float(get(m, "heat_cap", k)) for k in range(n)]
    s.soil.temp[0, I, J] = tsoil = ctx.real("tsoil", 230, 300)
    s.soil.therm_cond[:, I, J] = 1.0
    s.surface.heat_flux[I, J] = f = ctx.real("flux", -500, 500)
    t0 = [get(m, "temp", k) for k in range(n)]
    m.snow.heat_conduction()
    t1 = [get(m, "temp", k) for k in range(n)]
    z, c = dz + [s.soil.thickness[0, I, J]], kc + [1.0]
    g = [2 / (z[k] / c[k] + z[k + 1] / c[k + 1]) for k in range(n)]
    balance(ctx, hc, t0, t1, g, f, tsoil, 10800.0, "deep-snow")
