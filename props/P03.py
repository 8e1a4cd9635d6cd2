"""Multilayer snowpack: restructuring only redistributes the layers."""
from symex.api import *

from . import _ml as ml
from ._ml import I, J, T0, get

scenario = Registry()
BOUNDS = (
    "one pixel, 1-3 snow layers before restructuring (any subset already ablated), at most 3 configured layers "
    "(plus a 2-layer and a 1-layer configuration; five layers: nine geometries, arbitrary contents), thickness 1e-4..3 m, ice 0.001..1000 kg/m2, liquid water "
    "0..100 kg/m2, temperature 220 K..melting point"
)
OUTSIDE = "more than 5 layers; snowpacks thinner than 1e-6 m (discarded by design); rounding"


def overlap(a0, a1, b0, b1):
    lo = smax(a0, b0)
    hi = smin(a1, b1)
    return hi - lo if hi > lo else 0.0


def _run(ctx, n, mins, profile, fixed=False):
    cfg = {} if mins is None else dict(snow={"min_thickness": list(mins)})
    mins = [0.1, 0.2, 0.4] if mins is None else mins
    m = ml.model(ctx, **cfg)
    nl = len(mins)
    s = m.state.snow
    s.num_layers[I, J] = n
    a = ctx.choose(2**n, "ablated") if not fixed else 0
    for k in range(n):
        if a >> k & 1:
            th = ice = lwc = 0.0
        else:
            th = ctx.real(f"thick{k}", 1e-4, 3)
            ice = ctx.real(f"ice{k}", 0.001, 1000)
            lwc = ctx.real(f"lwc{k}", 0, 100)
            ctx.assume(ml.ice_le(ctx, ice, th))
        s.thickness[k, I, J] = th
        s.ice_content[k, I, J] = ice
        s.liquid_water_content[k, I, J] = lwc
        s.temp[k, I, J] = ctx.real(f"temp{k}", 220, T0)
    s.albedo[I, J] = 0.7
    m.snow.update_properties()
    L = lambda v: [get(m, v, k) for k in range(nl)]  # noqa: E731
    old = {v: L(v) for v in ("thickness", "ice_content", "liquid_water_content", "temp", "heat_cap")}
    depth = ssum(old["thickness"])
    if depth < 1e-6:
        m.snow.update_layers()
        ctx.claim("nothing-left", get(m, "num_layers") == 0)
        return
    m.snow.update_layers()
    new = {v: L(v) for v in ("thickness", "ice_content", "liquid_water_content", "temp", "heat_cap")}
    nn = get(m, "num_layers")
    ctx.claim("count", 1 <= nn <= nl)
    ctx.claim_eq("depth", ssum(new["thickness"]), depth, 1e-8)
    ctx.claim_eq("ice", ssum(new["ice_content"]), ssum(old["ice_content"]), 1e-6)
    ctx.claim_eq("liquid", ssum(new["liquid_water_content"]), ssum(old["liquid_water_content"]), 1e-6)
    for k in range(nn):
        if k < nn - 1:
            ctx.claim_eq("configured-thickness", new["thickness"][k], mins[k], 1e-9)
        elif k < nl - 1:
            ctx.claim_le("lowest-layer", new["thickness"][k], 2 * mins[k], 1e-9)
    if not profile:
        ctx.claim_eq(
            "heat",
            ssum(h * (t - T0) for h, t in zip(new["heat_cap"][:nn], new["temp"][:nn])),
            ssum(h * (t - T0) for h, t in zip(old["heat_cap"][:n], old["temp"][:n])),
            1e-3,
        )
    else:
        # each new layer receives exactly what lay in its depth interval
        zo, zn = [0.0], [0.0]
        for k in range(n):
            zo.append(zo[-1] + old["thickness"][k])
        for k in range(nn):
            zn.append(zn[-1] + new["thickness"][k])
        for k in range(nn):
            ice = 0.0
            for q in range(n):
                th = old["thickness"][q]
                if th == 0:
                    continue
                ov = overlap(zo[q], zo[q + 1], zn[k], zn[k + 1])
                if ov == 0:
                    continue
                ice = ice + (old["ice_content"][q] if ov == th else ov / th * old["ice_content"][q])
            ctx.claim_eq("stratigraphy", new["ice_content"][k], ice, 1e-5)
    ml.observe(ctx, m)


@scenario(
    params={
        "n1": dict(n=1, mins=None), "n2": dict(n=2, mins=None), "n3": dict(n=3, mins=None),
        "n1-two": dict(n=1, mins=(0.15, 0.3)), "n2-two": dict(n=2, mins=(0.15, 0.3)),
        "n1-one": dict(n=1, mins=(0.2,)),
    },
    weight=3,
)
def conserve(ctx, n, mins):
    _run(ctx, n, mins, False)


@scenario(
    params={
        "n1": dict(n=1, mins=None), "n2": dict(n=2, mins=None),
        "n3": dict(n=3, mins=None, _tiers=("thorough",)),
    },
    weight=3,
)
def stratigraphy(ctx, n, mins):
    _run(ctx, n, mins, True)


FIVE = (0.125, 0.25, 0.25, 0.5, 1.0)
# layer thicknesses before restructuring
DEEP = [(0.125, 0.25, 0.25, 0.5, 2.0), (0.0, 0.0, 0.125, 0.5, 1.0), (0.75, 0.25, 0.25, 0.5, 1.0), (0.0625, 0.125, 0.25, 0.0, 3.0), (0.125, 0.25, 0.0, 0.375), (0.5, 0.25, 0.25), (4.0,),
        (0.0, 0.0, 0.0, 0.0, 0.1875), (0.125, 0.25, 0.25, 0.625)]


@scenario(params={str(k): dict(k=k) for k in range(len(DEEP))}, merged=True)
def many_layers(ctx, k):
    """Five configured layers: thicknesses as configured, every new layer receives what lay in its depth interval, heat is kept."""
    th = DEEP[k]
    n = len(th)
    m = ml.model(ctx, snow={"min_thickness": list(FIVE)})
    s = m.state.snow
    s.num_layers[I, J] = n
    heat = ctx.choose(2, "heat")
    for q in range(n):
        s.thickness[q, I, J] = th[q]
        s.ice_content[q, I, J] = 0.0 if th[q] == 0 else 128.0 * th[q] if heat else ctx.real(f"ice{q}", 1, 800) * th[q]
        s.liquid_water_content[q, I, J] = 0.0 if heat or th[q] == 0 else ctx.real(f"lwc{q}", 0, 50)
        s.temp[q, I, J] = ctx.real(f"temp{q}", 220, T0) if heat else 270.0
    s.albedo[I, J] = 0.7
    m.snow.update_properties()
    V = ("ice_content", "liquid_water_content", "temp", "heat_cap")
    old = {v: [get(m, v, q) for q in range(n)] for v in V}
    m.snow.update_layers()
    # configured thicknesses, the rest in the lowest layer
    want, rest = [], sum(th)
    for q, d in enumerate(FIVE):
        rest -= d
        want.append(d)
        if rest <= d or q == len(FIVE) - 1:
            want[-1] += rest
            break
    ctx.claim("count", get(m, "num_layers") == len(want))
    edges = lambda x: [sum(x[:q]) for q in range(len(x) + 1)]  # noqa: E731
    zo, zn = edges(th), edges(want)
    for q in range(len(FIVE)):
        ctx.claim_eq("configured-thickness", get(m, "thickness", q), want[q] if q < len(want) else 0.0, 1e-9)
        part = [max(0.0, min(zo[r + 1], zn[q + 1]) - max(zo[r], zn[q])) / th[r] if q < len(want) and th[r] > 0 else 0.0 for r in range(n)]
        for v in V[:2]:
            ctx.claim_eq(v, get(m, v, q), ssum([f * x for f, x in zip(part, old[v])]), 1e-6)
        if q < len(want):
            e = ssum([f * c * (t - T0) for f, c, t in zip(part, old["heat_cap"], old["temp"])])
            ctx.claim_eq("heat", get(m, "heat_cap", q) * (get(m, "temp", q) - T0), e, 1e-2)
