"""
Terrain: slope, aspect, surface normal, cast shadows, sky view, curvature and openness.

terrain.* and modules.radiation.shadows run on symbolic elevation models; the oracle are the geometry of planes and walls, Horn's and Corripio's
formulas, the ray condition (a pixel is in shadow iff the terrain towards the sun rises above the ray), and order relations between two terrains.
"""
from symex.api import *

scenario = Registry()
BOUNDS = (
    "elevation models of 3x3 to 4x5 pixels with elevations 0..2000 m, planes of any inclination; shadows: sun in the eight main directions (ray oracle) and six "
    "others (relations) with concrete elevation, one sweep and all sweeps; sky view factor: a wall of any height up to 30 m in front of flat terrain, four azimuths"
)
OUTSIDE = "elevation models with holes; sky view factor of general terrain; the race between threads in openness; rounding"
RES = 100.0


def plane(ctx, rows, cols, a, bx, by, res=RES):
    """Elevation a + bx * east + by * north."""
    return arr(ctx, [[a + bx * (res * j) + by * (res * (rows - 1 - i)) for j in range(cols)] for i in range(rows)])


def free(ctx, rows, cols, hi=2000.0, fixed=()):
    return [[ctx.real(f"z{i}{j}", 0, hi) if (i, j) not in fixed else 1000.0 for j in range(cols)] for i in range(rows)]


@scenario
def inclination(ctx):
    """Slope of a plane is its inclination; the normal vector is perpendicular to it and of unit length."""
    from openamundsen import terrain

    bx, by = [lambda: (ctx.real("bx", 0.1, 3), 0.75), lambda: (ctx.real("bx", -3, -0.1), -1.5), lambda: (-0.4, ctx.real("by", 0.1, 3)),
              lambda: (1.25, ctx.real("by", -3, -0.1))][ctx.choose(4, "case")]()
    dem = plane(ctx, 4, 3, 5000.0, bx, by)
    slope, aspect = terrain.slope_aspect(dem, RES)
    n = terrain.normal_vector(dem, RES)
    t = core.fn_sqrt(bx * bx + by * by)
    e = core.fn_arctan(t) * (180 / np.pi)
    for i in range(4):
        for j in range(3):
            if 0 < i < 3 and j == 1:  # edges: see horn
                ctx.claim_eq("slope", slope[i, j], e, 1e-6)
            x, y, z = n[0, i, j], n[1, i, j], n[2, i, j]
            ctx.claim_eq("normal-x", x, -bx * z, 1e-6)
            ctx.claim_eq("normal-y", y, -by * z, 1e-6)
            ctx.claim_eq("unit", x * x + y * y + z * z, 1.0, 1e-6)
            ctx.claim_lt("upwards", 0.0, z)


DIRS = {0: (0, 1), 45: (1, 1), 90: (1, 0), 135: (1, -1), 180: (0, -1), 225: (-1, -1), 270: (-1, 0), 315: (-1, 1)}


@scenario
def exposition(ctx):
    """Aspect is the compass direction in which a plane descends."""
    from openamundsen import terrain

    t = ctx.real("t", 0.001, 5)
    a = list(DIRS)[ctx.choose(8, "dir")]
    x, y = DIRS[a]
    _, aspect = terrain.slope_aspect(plane(ctx, 3, 4, 9000.0, -x * t, -y * t), RES)
    for i in (1,):
        for j in (1, 2):
            v = aspect[i, j]
            ctx.claim_eq("compass", v if a or v < 180 else 360.0 - v, float(a), 1e-6)


@scenario
def compass_range(ctx):
    from openamundsen import terrain

    bx, by = ctx.real("bx", -3, 3), ctx.real("by", -3, 3)
    _, aspect = terrain.slope_aspect(plane(ctx, 3, 3, 9000.0, bx, by), RES)
    v = aspect[1, 1]
    ctx.claim_ge("min", v, 0.0, 0)
    ctx.claim_le("max", v, 360.0, 1e-6)

# gradients do not change sign, which keeps the aspect in one quadrant
Z45 = [[1000.0 + 95 * j + 65 * i + (37 * i * i + 23 * j + 11 * i * j) % 17 for j in range(5)] for i in range(4)]


@scenario(params={str(k): dict(row=k) for k in range(4)})
def horn(ctx, row):
    """Horn's and Corripio's formulas on uneven terrain with one arbitrary pixel at a time; edge elevations are extended outwards."""
    from openamundsen import terrain

    rows, cols = 4, 5
    z = [list(r) for r in Z45]
    col = ctx.choose(cols, "col")
    z[row][col] = ctx.real("z", Z45[row][col] - 10, Z45[row][col] + 10)
    dem = arr(ctx, z)
    slope, _ = terrain.slope_aspect(dem, RES)
    n = terrain.normal_vector(dem, RES)

    def at(i, j):
        return z[min(max(i, 0), rows - 1)][min(max(j, 0), cols - 1)]

    for i in range(rows):
        for j in range(cols):
            dx = (at(i - 1, j + 1) + 2 * at(i, j + 1) + at(i + 1, j + 1) - at(i - 1, j - 1) - 2 * at(i, j - 1) - at(i + 1, j - 1)) / 800.0
            dy = (at(i + 1, j - 1) + 2 * at(i + 1, j) + at(i + 1, j + 1) - at(i - 1, j - 1) - 2 * at(i - 1, j) - at(i - 1, j + 1)) / 800.0
            ctx.claim_eq("slope", slope[i, j], core.fn_arctan(core.fn_sqrt(dx * dx + dy * dy)) * (180 / np.pi), 1e-6)
            # cell between a pixel and its neighbours to the right and up
            a, b = max(i, 1), min(j, cols - 2)
            vx = 0.5 * (z[a][b] - z[a][b + 1] + z[a - 1][b] - z[a - 1][b + 1])
            vy = 0.5 * (z[a][b] + z[a][b + 1] - z[a - 1][b] - z[a - 1][b + 1])
            ctx.claim_eq("normal", n[0, i, j] * RES, n[2, i, j] * vx, 1e-6)
            ctx.claim_eq("normal", n[1, i, j] * RES, n[2, i, j] * vy, 1e-6)
            ctx.claim_lt("upwards", 0.0, n[2, i, j])


@scenario
def small(ctx):
    """Elevation models too small for a window count as flat."""
    from openamundsen import terrain

    z = ctx.real("z", 0, 4000)
    for rows, cols in ((1, 1), (2, 5), (4, 2), (1, 3)):
        dem = arr(ctx, [[z + i + j for j in range(cols)] for i in range(rows)])
        slope, aspect = terrain.slope_aspect(dem, RES)
        n = terrain.normal_vector(dem, RES)
        ctx.claim("shape", slope.shape == aspect.shape == (rows, cols) and n.shape == (3, rows, cols))
        for i in range(rows):
            for j in range(cols):
                ctx.claim_eq("flat", slope[i, j], 0.0, 0)
                ctx.claim_eq("up", n[2, i, j], 1.0, 0)
                ctx.claim_eq("up", n[0, i, j], 0.0, 0)
                ctx.claim_eq("up", n[1, i, j], 0.0, 0)
    ctx.claim_eq("sky", terrain.sky_view_factor(arr(ctx, [[z]]), RES)[0, 0], 1.0, 0)


def sun(elev, azimuth):
    """x: east, y: south, z: up."""
    e, a = np.deg2rad(elev), np.deg2rad(azimuth)
    return np.array([np.cos(e) * np.sin(a), -np.cos(e) * np.cos(a), np.sin(e)])


def aligned(azimuth):
    """Step (rows, cols) towards the sun for one of the eight main directions."""
    return {0: (-1, 0), 45: (-1, 1), 90: (0, 1), 135: (1, 1), 180: (1, 0), 225: (1, -1), 270: (0, -1), 315: (-1, -1)}[azimuth]


def exact_sun(elev, azimuth):
    """Sun vector without rounding in the components that are zero or equal."""
    di, dj = aligned(azimuth)
    e = np.deg2rad(elev)
    h = np.cos(e) / np.sqrt(di * di + dj * dj)
    return np.array([dj * h, di * h, np.sin(e)]), np.sqrt(di * di + dj * dj)


@scenario(params={f"{a}-{e}-{s}": dict(azimuth=a, elev=e, sweeps=s) for a, e, s in
                  [(a, 30.0, 1) for a in DIRS] + [(0, 10.0, -1), (90, 60.0, 2), (135, 20.0, -1), (225, 45.0, 3)]}, merged=False, weight=1)
def ray(ctx, azimuth, elev, sweeps):
    """A pixel is in shadow iff the terrain towards the sun rises above the ray."""
    from openamundsen.modules import radiation

    rows, cols = (3, 3)
    z = free(ctx, rows, cols, 400.0)
    vec, step = exact_sun(elev, azimuth)
    sh = radiation.shadows(arr(ctx, z), RES, vec, num_sweeps=sweeps)
    di, dj = aligned(azimuth)
    tan = float(np.tan(np.deg2rad(elev)))
    tol = 1e-6
    for i in range(rows):
        for j in range(cols):
            lit = bool(sh[i, j] == 1)
            ctx.claim("binary", lit or bool(sh[i, j] == 0), sh[i, j])
            block, k = [], 1
            while 0 <= i + k * di < rows and 0 <= j + k * dj < cols:
                block.append(z[i + k * di][j + k * dj] - z[i][j] - k * RES * step * tan)
                k += 1
            if lit:
                for b in block:
                    ctx.claim_le("lit", b, 0.0, tol)
            elif not block:
                ctx.claim("edge-lit", False, f"shadow at the edge facing the sun {i, j}")
            else:
                top = block[0]
                for b in block[1:]:
                    top = smax(top, b)
                ctx.claim_ge("shadow", top, 0.0, tol)


@scenario(params={f"{a}-{e}-{s}": dict(azimuth=a, elev=e, sweeps=s) for a, e, s in
                  [(20, 25.0, 1), (70, 35.0, 2), (110, 15.0, 1), (160, 40.0, -1), (200, 25.0, 1), (340, 30.0, 2)]}, merged=True, weight=2)
def relations(ctx, azimuth, elev, sweeps):
    """Raising a pixel never lights up another one nor darkens itself."""
    from openamundsen.modules import radiation

    vec = sun(elev, azimuth)
    k = ctx.choose(3, "raised")
    p = [(1, 1), (0, 2), (2, 0)][k]
    z = [[[100.0, 140.0, 90.0], [120.0, 0.0, 170.0], [60.0, 150.0, 110.0]][i][j] for i in range(3) for j in range(3)]
    z = [z[3 * i:3 * i + 3] for i in range(3)]
    z[1][2] = ctx.real("z12", 0, 500)
    z[p[0]][p[1]] = ctx.real("z", 0, 500)
    up = ctx.real("up", 0, 500)
    y = [list(r) for r in z]
    y[p[0]][p[1]] = y[p[0]][p[1]] + up
    a = radiation.shadows(arr(ctx, z), RES, vec, num_sweeps=sweeps)
    b = radiation.shadows(arr(ctx, y), RES, vec, num_sweeps=sweeps)
    for i in range(3):
        for j in range(3):
            if (i, j) != p:
                ctx.claim("darker", not (a[i, j] == 0 and b[i, j] == 1), f"pixel {i, j} lit by raising {p}")
    ctx.claim("raised-lit", not (a[p] == 1 and b[p] == 0), "raised pixel fell into shadow")


@scenario
def flat(ctx):
    """On flat terrain everything is lit and the whole sky (down to one degree) is visible."""
    from openamundsen import terrain
    from openamundsen.modules import radiation

    h = ctx.real("h", 0, 4000)
    az = ctx.choose(12, "azimuth") * 30.0 + 7
    dem = arr(ctx, [[h] * 4 for _ in range(3)])
    for elev in (5.0, 40.0):
        for sweeps in (1, -1):
            sh = radiation.shadows(dem, RES, sun(elev, az), num_sweeps=sweeps)
            ctx.claim("lit", all(bool(sh[i, j] == 1) for i in range(3) for j in range(4)), sh)
    if az < 30:
        svf = terrain.sky_view_factor(dem, RES)
        for i in range(3):
            for j in range(4):
                ctx.claim_eq("sky", svf[i, j], 1.0, 4e-4)
                ctx.claim_le("max", svf[i, j], 1.0, 0)


@scenario(params={"east": dict(side="east"), "south": dict(side="south")}, merged=False,
          lemma_points={"arctan": [float(np.tan(np.deg2rad(k + d))) for k in range(1, 10) for d in (-0.001, 0.001)]})
def wall(ctx, side):
    """Sky view in front of a wall: the horizon of one of four azimuths is raised to the elevation angle of the wall's top."""
    from openamundsen import terrain

    h = ctx.real("h", 0, 30)
    rows = [[0.0, 0.0, h]] * 3 if side == "east" else [[0.0] * 3, [0.0] * 3, [h] * 3]
    svf = terrain.sky_view_factor(arr(ctx, rows), RES, azim_step=90)
    one = float(np.cos(np.deg2rad(1)) ** 2)
    # columns (rows) at distance 2 and 1 from the wall, and on it
    for d in (0, 1, 2):
        got = svf[1, 2 - d] if side == "east" else svf[2 - d, 1]
        if d == 0:
            ctx.claim_eq("top", got, one, 1e-9)
            continue
        e = 1
        while h > 100.0 * d * float(np.tan(np.deg2rad(e))) - 0.01:
            e += 1
        v = (3 * one + float(np.cos(np.deg2rad(e)) ** 2)) / 4
        e = 1
        while h > 100.0 * d * float(np.tan(np.deg2rad(e))) + 0.01:
            e += 1
        u = (3 * one + float(np.cos(np.deg2rad(e)) ** 2)) / 4
        # elevation angles above the steepest slope of the terrain (Horn, over two pixels) are not searched
        ctx.claim_ge("value", got, v, 1e-9)
        if d == 2:
            ctx.claim_le("value", got, u, 1e-9)
            far = got
    near = svf[1, 1]
    ctx.claim_le("nearer-is-darker", near, far, 1e-9)


@scenario(params={"1": dict(L=100.0), "2": dict(L=200.0), "1.5": dict(L=150.0), "default": dict(L=None)}, merged=True)
def curvature(ctx, L):
    """Liston's curvature of arbitrary terrain, edge elevations extended outwards."""
    from openamundsen import terrain

    z = free(ctx, 4, 4)
    c = terrain.curvature(arr(ctx, z), RES, "liston", L=L)
    ln = 100.0 if L is None else L
    n = int(np.ceil(ln / RES))

    def at(i, j):
        return z[min(max(i, 0), 3)][min(max(j, 0), 3)]

    for i in range(4):
        for j in range(4):
            d = [2 * z[i][j] - at(i - a, j - b) - at(i + a, j + b) for a, b in ((0, n), (n, 0), (n, n), (n, -n))]
            e = ((d[0] + d[1]) / (4 * ln) + (d[2] + d[3]) / (4 * 2**0.5 * ln)) / 4
            ctx.claim_eq("value", c[i, j], e, 1e-6)


@scenario
def scaled_curvature(ctx):
    """The curvature used for the wind field is scaled to -0.5..0.5, keeping the order."""
    from openamundsen import util

    v = [ctx.real(f"v{k}", -1, 1) for k in range(3)]
    r = util.normalize_array(arr(ctx, [*v, float("nan")]), -0.5, 0.5)
    ctx.claim("missing", isnan(r[3]), "value from nothing")
    for k in range(3):
        ctx.claim_ge("min", r[k], -0.5, 1e-9)
        ctx.claim_le("max", r[k], 0.5, 1e-9)
        for q in range(3):
            if v[k] <= v[q]:
                ctx.claim_le("order", r[k], r[q], 1e-9)
    if not (v[0] == v[1] and v[1] == v[2]):
        lo, hi = smin(smin(r[0], r[1]), r[2]), smax(smax(r[0], r[1]), r[2])
        ctx.claim_eq("lowest", lo, -0.5, 1e-6)
        ctx.claim_eq("highest", hi, 0.5, 1e-6)
    u = util.normalize_array(arr(ctx, [v[0]] * 3), -0.5, 0.5)
    for x in u:
        ctx.claim_eq("uniform", x, 0.0, 1e-9)


@scenario(params={"pos": dict(negative=False), "neg": dict(negative=True)}, merged=True)
def openness(ctx, negative):
    """Openness per direction: smallest angle between zenith (nadir) and terrain within the search distance."""
    from openamundsen import terrain

    h = ctx.real("h", 1, 300)
    d = ctx.choose(8, "dir")
    z = [[1000.0] * 4 for _ in range(4)]
    # one pixel differs: the one in direction d at distance k from (i, j)
    z[1][2] = 1000.0 + (h if not negative else -h)
    o = terrain.openness(arr(ctx, z), RES, 150.0, negative=negative, mean=False)
    for i in range(4):
        for j in range(4):
            v = o[d, i, j]
            if (i, j) != (1, 2):
                ctx.claim_le("max", v, np.pi / 2, 1e-9)
                ctx.claim_ge("min", v, 0.0, 0)
    m = terrain.openness(arr(ctx, z), RES, 150.0, negative=negative)
    ctx.claim_eq("mean", m[0, 0] * 8, ssum(o[k, 0, 0] for k in range(8)), 1e-6)
