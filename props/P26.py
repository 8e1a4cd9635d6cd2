"""
Sun position and clear-sky irradiance.

modules.radiation.sunparams and modules.radiation.clear_sky_shortwave_irradiance run with symbolic latitude, longitude, day of year, sky view
factors, surface orientation, albedo, vapour and elevation; the oracle are the published formulas (Spencer, Bourges, Corripio) written out independently.
"""
from symex.api import *

scenario = Registry()
BOUNDS = (
    "latitude -89..89, longitude -180..180, any day of year for declination and equation of time; clear-sky model at seven sun positions (zenith angles "
    "25..89.5 degrees, all quadrants) with albedo 0.05..0.95, sky view factor 0..1, precipitable water 0..80 mm, elevations around the 3000 m limit of the height correction, any surface orientation"
)
OUTSIDE = "sun positions in between for the clear-sky model (its transmittances are powers of the air mass); whether a pixel is shadowed (P27); rounding"
SOLAR, PA = 1366.1, 101325.0
NAN = float("nan")


def rad(x):
    return x * (np.pi / 180)


@scenario
def vector(ctx):
    """The sun vector has unit length, points to the zenith distance of the astronomical triangle, east in the morning."""
    from openamundsen.modules.radiation import sunparams

    lat, ha, dec = ctx.real("lat", -89, 89), ctx.real("ha", -179.99, 180), ctx.real("dec", -25, 25)
    v = sunparams.sun_vector(lat, ha, dec)
    sl, cl, sh, ch, sd, cd = (f(rad(a)) for a in (lat, ha, dec) for f in (core.fn_sin, core.fn_cos))
    ctx.claim_eq("zenith", v[2], sl * sd + cl * cd * ch, 1e-9)
    ctx.claim_eq("east", v[0], -sh * cd, 1e-9)
    ctx.claim_eq("south", v[1], sl * ch * cd - cl * sd, 1e-9)
    if ha < 0:
        ctx.claim_ge("morning-east", v[0], 0.0, 0)
    n = sunparams.sun_vector(lat, 0.0, dec)
    ctx.claim_eq("noon", n[0], 0.0, 0)


@scenario
def unit_length(ctx):
    from openamundsen.modules.radiation import sunparams

    lat, dec = ctx.real("lat", -89, 89), ctx.real("dec", -25, 25)
    ha = [-170.0, -60.0, 0.0, 45.0, 150.0][ctx.choose(5, "ha")]
    v = sunparams.sun_vector(lat, ha, dec)
    ctx.claim_eq("length", v[0] * v[0] + v[1] * v[1] + v[2] * v[2], 1.0, 1e-6)


@scenario
def orbit(ctx):
    """Equation of time and declination for any day of the year."""
    from openamundsen.modules.radiation import sunparams

    d = ctx.real("doy", 1, 366.9)
    a = (2 * np.pi / 365.25) * (d - 1)
    ctx.claim_eq("day-angle", sunparams.day_angle(d), a, 1e-9)
    c, s = core.fn_cos, core.fn_sin
    e = sunparams.equation_of_time(d)
    spencer = 0.0000075 + 0.001868 * c(a) - 0.032077 * s(a) - 0.014615 * c(2 * a) - 0.040849 * s(2 * a)
    ctx.claim_eq("spencer", e, spencer * (1440 / (2 * np.pi)), 1e-6)
    ctx.claim_le("eot-max", e, 21.0, 0)
    ctx.claim_ge("eot-min", e, -21.0, 0)
    w = rad((360 / 365.25) * (d - 79.346))
    bourges = 0.3723 + 23.2567 * s(w) - 0.7580 * c(w) + 0.1149 * s(2 * w) + 0.3656 * c(2 * w) - 0.1712 * s(3 * w) + 0.0201 * c(3 * w)
    dec = sunparams.declination_angle(d)
    ctx.claim_eq("bourges", dec, bourges, 1e-6)
    ctx.claim_le("dec-max", dec, 25.1, 0)
    ctx.claim_ge("dec-min", dec, -25.1, 0)
    for doy, v in ((172, 23.44), (355, -23.44), (80, 0.0), (266, 0.0)):
        ctx.claim_eq("season", sunparams.declination_angle(doy), v, 0.6)


DATES = ["2020-01-15 00:00", "2020-03-20 06:30", "2020-06-21 12:00", "2020-09-22 18:45", "2020-12-21 23:00", "2021-07-01 09:00"]


@scenario
def hours(ctx):
    """Hour angle: 15 degrees per hour from local solar noon; independent of the time zone in which an instant is expressed."""
    import pandas as pd
    from openamundsen.modules.radiation import sunparams

    lon, eot = ctx.real("lon", -180, 180), ctx.real("eot", -20, 20)
    tz = [0, 1, -7, 5.5][ctx.choose(4, "tz")]
    for d in DATES:
        t = pd.Timestamp(d)
        h = t.hour + t.minute / 60
        ha = sunparams.hour_angle(t, tz, lon, eot)
        ctx.claim_eq("value", ha, 15 * (h - 12 - tz) + lon + eot / 4, 1e-6)
        if 3 <= h <= 20:
            for k in (1, -2, 3):
                ctx.claim_eq("timezone", sunparams.hour_angle(t + pd.Timedelta(hours=k), tz + k, lon, eot), ha, 1e-6)


@scenario(params={str(k): dict(k=k) for k in range(len(DATES))}, merged=True)
def parameters(ctx, k):
    """All sun parameters of an instant are consistent with each other."""
    import pandas as pd
    from openamundsen.modules.radiation import sun_parameters, sunparams

    lat, lon = ctx.real("lat", -89, 89), [0.0, 11.0, 95.0, -120.0, 179.0, 20.0][k]
    t = pd.Timestamp(DATES[k])
    p = sun_parameters(t, lon, lat, 1)
    doy = t.dayofyear
    ctx.claim_eq("day-angle", p["day_angle"], 2 * np.pi / 365.25 * (doy - 1), 1e-9)
    ctx.claim_eq("eot", p["equation_of_time"], float(sunparams.equation_of_time(doy)), 1e-9)
    dec = float(sunparams.declination_angle(doy))
    ctx.claim_eq("declination", p["declination_angle"], dec, 1e-9)
    ha = 15 * (t.hour + t.minute / 60 - 13) + lon + float(sunparams.equation_of_time(doy)) / 4
    ctx.claim_eq("hour-angle", p["hour_angle"], ha, 1e-6)
    z = core.fn_sin(rad(lat)) * np.sin(rad(dec)) + core.fn_cos(rad(lat)) * (np.cos(rad(dec)) * np.cos(rad(ha)))
    v = p["sun_vector"]
    ctx.claim_eq("vector", v[2], z, 1e-6)
    up = bool(p["sun_over_horizon"])
    if up:
        ctx.claim_ge("day", v[2], 0.0, 1e-9)
        ctx.claim_le("day-angle", p["zenith_angle"], 90.0, 0)
    else:
        ctx.claim_le("night", v[2], 0.0, 1e-9)
        ctx.claim_ge("night-angle", p["zenith_angle"], 90.0, 0)


@scenario(params={str(k): dict(sim=k) for k in (None, 0, 1, -5)}, merged=True)
def simulation_timezone(ctx, sim):
    """Dates given in another time zone than the local one are converted before the sun position is calculated."""
    import pandas as pd
    from openamundsen import modules
    from openamundsen.modules.radiation import sunparams

    cfg = {"timezone": 2, "start_date": "2020-06-21", "end_date": "2020-06-22"}
    if sim is not None:
        cfg["simulation_timezone"] = sim
    m = prepare(ctx, f"p26z{sim}", config=cfg)
    m.grid.center_lon = ctx.real("lon", -180, 180)
    m.grid.center_lat = 47.0
    m.date = pd.Timestamp("2020-06-21 10:00")
    s = m.state.meteo
    with stubbed((modules.radiation, "clear_sky_shortwave_irradiance", nop), (modules.radiation, "shortwave_irradiance", nop),
                 (modules.radiation, "longwave_irradiance", nop)):
        m._irradiance()
    utc = 10 - (2 if sim is None else sim)
    eot = float(sunparams.equation_of_time(173))
    ctx.claim_eq("hour-angle", m.sun_params["hour_angle"], 15 * (utc - 12) + m.grid.center_lon + eot / 4, 1e-6)


# ---- clear sky ------------------------------------------------------------------------------------
DEM = np.array([[2700.0 + 10 * i + 7 * j for j in range(6)] for i in range(6)])
DEM[:, 3] += 300.0  # ridge
DEM[2, :] += 120.0
ROI = np.zeros((6, 6), int)
PIX = [(1, 1), (1, 4), (4, 2), (3, 3), (5, 5)]
for _p in PIX:
    ROI[_p] = 1


def sun(zenith, azimuth):
    """x: east, y: south, z: up; azimuth from north."""
    z, a = np.deg2rad(zenith), np.deg2rad(azimuth)
    return np.array([np.sin(z) * np.sin(a), -np.sin(z) * np.cos(a), np.cos(z)])


SUNS = {"noon": (25, 180, 172), "morning": (60, 100, 100), "evening": (70, 250, 300), "low-ne": (80, 60, 172), "low-nw": (85, 310, 172),
        "horizon": (89.5, 230, 355), "west": (45, 271, 40)}


def shadow(m, factor):
    """Shadows of the (coarsened) terrain, each coarse pixel covering its block of fine ones."""
    from openamundsen.modules import radiation

    dem = DEM[::factor, ::factor].copy()
    sh = np.asarray(radiation.shadows(dem, 100.0 * factor, m.sun_params["sun_vector"], num_sweeps=1))
    return np.array([[sh[i // factor, j // factor] for j in range(6)] for i in range(6)])


def corripio(zenith, doy, dem, press, pw, oz, vis, ssa):
    """Transmittances and irradiance factors (Corripio 2002)."""
    zr = float(np.deg2rad(zenith))
    cz = float(np.cos(zr))
    da = 2 * np.pi / 365.25 * (doy - 1)
    ecc = 1.00011 + 0.034221 * np.cos(da) + 0.00128 * np.sin(da) + 0.000719 * np.cos(2 * da) + 0.000077 * np.sin(2 * da)
    mr = min(1 / (cz + 0.15 * (93.885 - zenith) ** -1.253), 14.1952)
    ma = mr * press / PA
    ray = np.exp(-0.0903 * ma**0.84 * 1.0) * (1 + ma - ma**1.01)
    lm = oz * 100 * mr
    ozone = 1 - (0.1611 * lm * (1 + 139.48 * lm) ** -0.3035 - 0.002715 * lm / (1 + 0.044 * lm + 3e-4 * lm**2))
    gas = np.exp(-0.0127 * ma**0.26)
    w = pw * (mr / 10)
    vap = 1 - 2.4959 * w / (core.fn_pow(1 + 79.034 * w, 0.6828) + 6.385 * w)
    aer = (0.97 - 1.265 * (vis / 1000) ** -0.66) ** (ma**0.9)
    aa = 1 - (1 - ssa) * (1 - ma + ma**1.06) * (1 - aer)
    return dict(i0=float(SOLAR * ecc), cz=cz, zr=zr, ma=float(ma), ray=float(ray), base=float(ozone * gas), vap=vap, aer=float(aer), aa=float(aa),
                elev=2.2e-5 * smin(dem, 3000.0))


@scenario(params={f"{k}-{f}": dict(which=k, factor=f) for k, f in
                  [(k, 1) for k in SUNS] + [("morning", 2), ("low-ne", 4), ("evening", 3)]})
def clear_sky(ctx, which, factor):
    from openamundsen.modules import radiation

    zenith, az, doy = SUNS[which]
    m = prepare(ctx, "p26", dem=DEM, roi=ROI, config={"meteo": {"radiation": {"ozone_layer_thickness": 0.0040, "atmospheric_visibility": 30000.0,
                                                                            "single_scattering_albedo": 0.85, "clear_sky_albedo": 0.07}}})
    m.config.meteo.radiation.shadows_downsampling_factor = factor
    s, b = m.state.meteo, m.state.base
    m.sun_params = {"sun_over_horizon": True, "sun_vector": sun(zenith, az), "day_angle": 2 * np.pi / 365.25 * (doy - 1), "zenith_angle": float(zenith)}
    sh = shadow(m, factor)
    known = ctx.choose(2, "albedo")
    al = ctx.real("albedo", 0.05, 0.95)
    x = []
    for n, q in enumerate(PIX):
        svf = ctx.real("svf", 0, 1) if n == 0 else 0.75 if n != 3 else ctx.real("svf3", 0, 1)
        pw = ctx.real("pw", 0, 80) if n == 1 else 10.0
        press = 90000.0 - 500 * n
        nv = [0.6, 0.0, 0.8] if n != 2 else [ctx.real("nx", -0.7, 0.7), ctx.real("ny", -0.7, 0.7), 0.5]
        b.svf[q], s.precipitable_water[q], s.atmos_press[q] = svf, pw, press
        b.dem[q] = DEM[q]
        for c in range(3):
            b.normal_vec[(c, *q)] = nv[c]
        m.state.surface.albedo[q] = (NAN if not known else al if n == 0 else 0.5)
        x.append((svf, pw, press, nv))
    if not known:
        m.config.soil.albedo = al
    g = al if not known else (al + 0.5 * 4) / 5
    # what happened before must not matter
    for v in ("sw_in_clearsky", "dir_in_clearsky", "diff_in_clearsky"):
        s[v][:] = -5.0
    radiation.clear_sky_shortwave_irradiance(m)
    sv = m.sun_params["sun_vector"]
    aoi = [smax(sv[0] * nv[0] - sv[1] * nv[1] + sv[2] * nv[2], 0.0) for _, _, _, nv in x]
    lit = [k for k, q in enumerate(PIX) if sh[q] == 1]
    mean_aoi = ssum(aoi[k] for k in lit) / len(lit) if lit else 0.0
    for n, q in enumerate(PIX):
        svf, pw, press, nv = x[n]
        t = corripio(zenith, doy, b.dem[q], press, pw, 0.0040, 30000.0, 0.85)
        tr = smin(smax(t["ray"] * t["base"] * t["vap"] * t["aer"] + t["elev"], 0.0), 1.0)
        pot = t["i0"] * aoi[n] * float(sh[q])
        direct = 0.9751 * pot * tr
        ctx.claim_eq("direct", s.dir_in_clearsky[q], direct, 1e-3)
        ctx.claim_ge("direct-min", s.dir_in_clearsky[q], 0.0, 0)
        ctx.claim_le("direct-max", s.dir_in_clearsky[q], 1420.0, 0)
        if not sh[q]:
            ctx.claim_eq("shadow", s.dir_in_clearsky[q], 0.0, 0)
        # scattered
        k = 0.79 * t["i0"] * t["cz"] * t["base"] * t["aa"] / (1 - t["ma"] + t["ma"] ** 1.02) * t["vap"]
        fs = -0.2562 * t["zr"] ** 2 + 0.1409 * t["zr"] + 0.9067
        ar = t["aer"] / t["aa"]
        scat = k * (0.5 * (1 - t["ray"]) + fs * (1 - ar))
        aalb = 0.07 + (1 - fs) * (1 - ar)
        q1 = 1 - g * aalb
        # everything multiplied by q1 to avoid the quotient
        diffuse = scat * q1 + (direct * t["cz"] + scat) * (g * aalb)
        terrain = (1 - svf) * (pot * tr * (len(lit) / 5) * mean_aoi * q1 + diffuse) * g
        got = s.diff_in_clearsky[q]
        ctx.claim_eq("diffuse", got * q1, diffuse * svf + terrain, 1e-3)
        ctx.claim_eq("sum", s.sw_in_clearsky[q], s.dir_in_clearsky[q] + got, 1e-6)
    for v in ("sw_in_clearsky", "dir_in_clearsky", "diff_in_clearsky"):
        ctx.claim_eq("outside-roi-untouched", s[v][0, 0], -5.0, 0)


def patterns(n, m):
    """Shadow patterns without symmetry: mixed, left/upper edge lit, right/lower edge lit."""
    i, j = np.indices((n, m))
    return [((2 * i + j + (i * j) // 2) % 3 > 0).astype(int), ((i == 0) | (j == 0)).astype(int), ((i == n - 1) | (j == m - 1)).astype(int)]


@scenario(params={str(f): dict(factor=f) for f in (1, 2, 3, 4)})
def coarse_shadows(ctx, factor):
    """Shadows of a coarsened elevation model (given here as patterns): a pixel has the shadow of the coarse pixel that covers it."""
    from openamundsen import modules
    from openamundsen.modules import radiation

    dem = np.array([[2700.0 + 10 * i + 7 * j for j in range(7)] for i in range(5)])
    pix = [(0, 0), (4, 6), (0, 6), (4, 0), (2, 3), (1, 4), (3, 2), (3, 5)]
    roi = np.zeros(dem.shape, int)
    for q in pix:
        roi[q] = 1
    m = prepare(ctx, "p26c", dem=dem, roi=roi)
    m.config.meteo.radiation.shadows_downsampling_factor = factor
    s, b = m.state.meteo, m.state.base
    m.sun_params = {"sun_over_horizon": True, "sun_vector": sun(60, 100), "day_angle": 1.0, "zenith_angle": 60.0}
    coarse = dem[::factor, ::factor]
    pat = patterns(*coarse.shape)[ctx.choose(3, "pattern")]
    x = []
    for n, q in enumerate(pix):
        b.svf[q], s.precipitable_water[q], s.atmos_press[q] = (1.0 if n else ctx.real("svf", 0, 1)), 10.0, 80000.0
        nv = [ctx.real(f"nx{n}", -0.7, 0.7), ctx.real(f"ny{n}", -0.7, 0.7), 0.5] if n < 2 else [0.6, 0.0, 0.8]
        for c in range(3):
            b.normal_vec[(c, *q)] = nv[c]
        m.state.surface.albedo[q] = 0.5
        x.append(nv)
    seen = []

    def shadows(d, res, sun_vec, *a, **k):
        seen.append((np.asarray(d, float).shape, np.asarray(d, float), float(res), sun_vec))
        return pat.copy()

    with stubbed((modules.radiation, "shadows", shadows)):
        radiation.clear_sky_shortwave_irradiance(m)
    shape, d, res, sv = seen[0]
    ctx.claim("coarse-elevation", shape == coarse.shape and bool((d == coarse).all()) and len(seen) == 1)
    ctx.claim("coarse-resolution", res == 100.0 * factor)
    ctx.claim("sun", sv is m.sun_params["sun_vector"] or bool(np.all(np.asarray(sv) == m.sun_params["sun_vector"])))
    for n, q in enumerate(pix):
        lit = pat[q[0] // factor, q[1] // factor]
        sv = m.sun_params["sun_vector"]
        if not lit:
            ctx.claim_eq("shadow", s.dir_in_clearsky[q], 0.0, 0)
        else:
            aoi = smax(sv[0] * x[n][0] - sv[1] * x[n][1] + sv[2] * x[n][2], 0.0)
            # the same air everywhere (below the 3000 m limit): equal irradiance per cosine of incidence, up to the elevation term
            if n > 1:
                ctx.claim_lt("lit", 100.0, s.dir_in_clearsky[q])
            else:
                ctx.claim_ge("lit-facing", s.dir_in_clearsky[q], 300.0 * aoi, 1e-6)


@scenario(params={str(k): dict(k=k) for k in range(3)}, merged=True)
def air_and_height(ctx, k):
    """Direct irradiance: dimmed by vapour, limited elevation correction."""
    from openamundsen.modules import radiation

    zenith, az, doy = SUNS[["noon", "morning", "low-nw"][k]]
    m = prepare(ctx, "p26", dem=DEM, roi=ROI)
    s, b = m.state.meteo, m.state.base
    m.sun_params = {"sun_over_horizon": True, "sun_vector": sun(zenith, az), "day_angle": 2 * np.pi / 365.25 * (doy - 1), "zenith_angle": float(zenith)}
    sh = shadow(m, 1)
    c = m.config.meteo.radiation
    pw = ctx.real("pw", 0, 80)
    for n, q in enumerate(PIX):
        b.svf[q], s.precipitable_water[q], s.atmos_press[q] = 1.0, 10.0 if n else pw, 80000.0
        for i in range(3):
            b.normal_vec[(i, *q)] = sun(zenith, az)[i] * (1 if i != 1 else -1)
        m.state.surface.albedo[q] = 0.25
    q = PIX[0]
    radiation.clear_sky_shortwave_irradiance(m)
    t = corripio(zenith, doy, DEM[q], 80000.0, pw, c.ozone_layer_thickness, c.atmospheric_visibility, c.single_scattering_albedo)
    e = 0.9751 * t["i0"] * (t["ray"] * t["base"] * t["vap"] * t["aer"] + t["elev"]) * float(sh[q])
    ctx.claim_eq("direct", s.dir_in_clearsky[q], e, 1e-3)
    ctx.claim_ge("nonneg", s.sw_in_clearsky[q], 0.0, 0)


@scenario
def night(ctx):
    from openamundsen.modules import radiation

    m = prepare(ctx, "p26", dem=DEM, roi=ROI)
    s = m.state.meteo
    ctx.real("unused", 0, 1)
    m.sun_params = {"sun_over_horizon": False, "sun_vector": sun(100.0, 0.0), "day_angle": 0.5, "zenith_angle": 100.0}
    for v in ("sw_in_clearsky", "dir_in_clearsky", "diff_in_clearsky"):
        s[v][:] = -5.0
    radiation.clear_sky_shortwave_irradiance(m)
    for v in ("sw_in_clearsky", "dir_in_clearsky", "diff_in_clearsky"):
        for q in PIX:
            ctx.claim_eq("dark", s[v][q], 0.0, 0)
        ctx.claim_eq("outside-roi-untouched", s[v][0, 0], -5.0, 0)
