"""
Inverse distance weighting.

interpolation.idw is executed with symbolic station values (and, for two stations, a symbolic target position); the oracle is
the weighted mean with weights 1 / distance**power.
"""
from itertools import permutations

from symex.api import *

scenario = Registry()
BOUNDS = (
    "1-4 stations at several concrete positions (also coinciding with targets and with each other) with arbitrary values "
    "-1e4..1e4 or missing; targets at concrete positions (symbolic along a line for two stations); power 1, 2, 3, 0.5; smoothing 0 and 100"
)
OUTSIDE = "rounding; more than four stations"
NAN = float("nan")
SX = [0.0, 1000.0, 300.0, -500.0]
SY = [0.0, 0.0, 400.0, 1200.0]
TX = [0.0, 250.0, 300.0, 5000.0, -500.0]
TY = [0.0, 10.0, 400.0, -3000.0, 0.0]


def expected(xs, ys, zs, x, y, power, smoothing):
    ok = [k for k in range(len(zs)) if not isnan(zs[k])]
    d = [((x - xs[k]) ** 2 + (y - ys[k]) ** 2 + smoothing**2) ** 0.5 for k in ok]
    for k, dd in zip(ok, d):
        if dd == 0:
            return zs[k]
    w = [dd**-power for dd in d]
    return ssum(a * (zs[k] / sum(w)) for k, a in zip(ok, w))


@scenario(params={f"n{n}-p{p}-s{s}": dict(n=n, power=p, smoothing=s)
                  for n in (1, 2, 3, 4) for p, s in ((2, 0), (1, 0), (3, 0), (0.5, 0), (2, 100.0))}, merged=True)
def weights(ctx, n, power, smoothing):
    """Value, bounds by the station values, exactness at stations, missing stations ignored."""
    from openamundsen.interpolation import idw

    nanmask = ctx.choose(2**n, "missing")
    z = [NAN if nanmask >> k & 1 else ctx.real(f"z{k}", -1e4, 1e4) for k in range(n)]
    out = idw(np.array(SX[:n]), np.array(SY[:n]), arr(ctx, z), np.array(TX), np.array(TY), power=power, smoothing=smoothing)
    ctx.claim("shape", len(out) == len(TX))
    known = [v for v in z if not isnan(v)]
    if not known:
        ctx.claim("nothing-known", all(isnan(v) for v in out))
        return
    lo, hi = known[0], known[0]
    for v in known[1:]:
        lo, hi = smin(lo, v), smax(hi, v)
    for t in range(len(TX)):
        ctx.claim_eq("weighted-mean", out[t], expected(SX, SY, z, TX[t], TY[t], power, smoothing), 1e-4)
        ctx.claim_ge("not-below-stations", out[t], lo, 1e-6)
        ctx.claim_le("not-above-stations", out[t], hi, 1e-6)
    ctx.observe("z", out)


@scenario
def default_power(ctx):
    """Inverse distance squared by default."""
    from openamundsen.interpolation import idw

    z = [ctx.real("a", -1e4, 1e4), ctx.real("b", -1e4, 1e4)]
    out = idw([0.0, 3000.0], [0.0, 0.0], arr(ctx, z), np.array([1000.0]), np.array([0.0]))
    ctx.claim_eq("squared", out[0], (4 * z[0] + z[1]) / 5, 1e-5)


@scenario(params={str(p): dict(power=p) for p in (1, 2)}, merged=True)
def moving_target(ctx, power):
    """For every position on the line through two stations: exact at the stations, between the values, the nearer one counts more."""
    from openamundsen.interpolation import idw

    a, b = ctx.real("a", -100, 100), ctx.real("b", -100, 100)
    x = ctx.real("x", -2000, 3000)
    out = idw([0.0, 1000.0], [0.0, 0.0], arr(ctx, [a, b]), arr(ctx, [x]), np.array([0.0]), power=power)[0]
    if x == 0:
        ctx.claim_eq("exact", out, a, 0)
        return
    if x == 1000:
        ctx.claim_eq("exact", out, b, 0)
        return
    d1 = x if x > 0 else -x
    d2 = x - 1000 if x > 1000 else 1000 - x
    w1, w2 = (d2, d1) if power == 1 else (d2 * d2, d1 * d1)
    ctx.claim_eq("weighted", out * (w1 + w2), a * w1 + b * w2, 1e-3)


@scenario
def order(ctx):
    """The result does not depend on the order of the stations."""
    from openamundsen.interpolation import idw

    z = [ctx.real(f"z{k}", -1e4, 1e4) for k in range(3)]
    ref = None
    for p in permutations(range(3)):
        out = idw(np.array([SX[k] for k in p]), np.array([SY[k] for k in p]), arr(ctx, [z[k] for k in p]), np.array(TX), np.array(TY))
        if ref is None:
            ref = out
        for t in range(len(TX)):
            ctx.claim_eq("same", out[t], ref[t], 1e-4)


@scenario
def locality(ctx):
    """A target's value does not depend on which other targets are interpolated along with it."""
    from openamundsen.interpolation import idw

    z = arr(ctx, [ctx.real(f"z{k}", -1e4, 1e4) for k in range(3)])
    out = idw(np.array(SX[:3]), np.array(SY[:3]), z, np.array(TX), np.array(TY))
    for t in range(len(TX)):
        one = idw(np.array(SX[:3]), np.array(SY[:3]), z, np.array(TX[t:t + 1]), np.array(TY[t:t + 1]))
        ctx.claim_eq("same", one[0], out[t], 1e-6)


@scenario
def missing_position(ctx):
    """Stations without coordinates are ignored as well; different lengths are refused."""
    from openamundsen.interpolation import idw

    z = [ctx.real(f"z{k}", -1e4, 1e4) for k in range(3)]
    out = idw(np.array([0.0, NAN, 1000.0]), np.array([0.0, 0.0, 0.0]), arr(ctx, z), np.array([500.0]), np.array([0.0]))
    ctx.claim_eq("ignored", out[0], (z[0] + z[2]) / 2, 1e-6)
    try:
        idw(np.array([0.0]), np.array([0.0, 1.0]), arr(ctx, z), np.array([500.0]), np.array([0.0]))
        ok = False
    except ValueError:
        ok = True
    ctx.claim("lengths-checked", ok)
