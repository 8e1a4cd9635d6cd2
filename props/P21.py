"""
Evapotranspiration and soil water balance.

The real EvapotranspirationModel runs with symbolic radiation (and thereby reference evapotranspiration), rain, snow cover and soil water
depletion for one pixel per kind of land cover; the oracle are the FAO 56 water balances.
"""
from symex.api import *

from ._et import CLASS, COEFFS, HEIGHT, PIX, SWC, TEXTURE, WEATHER, hash_str, model, quiet, weather
from ._ml import T0, maybe_nan

scenario = Registry()
BOUNDS = (
    "six pixels: dual, single and sparse dual coefficient crops, sealed surface, water body, class without parameters; rain 0..100 kg/m2 or missing, shortwave "
    "radiation 0..1200 W/m2 or missing, any depletion within the storage, with and without snow; steps 1 h, 3 h, 24 h, day and night; all nine soil textures "
    "with arbitrary rooting depth and depletion fraction for the initial storages"
)
OUTSIDE = "weather other than radiation in the water balance claims (reference evapotranspiration itself: all vapour pressures, wind and radiation at four temperatures); rounding"
DT = {"h": 3600.0, "3h": 10800.0, "D": 86400.0}
SIGMA = 5.670374419e-8


def clip(x, lo, hi):
    return lo if x <= lo else hi if x >= hi else x


def storage(kind):
    fc, wp, rew, adj = SWC[TEXTURE[kind]]
    rd, df = {"dual": (0.5, 0.6), "single": (1.0, 0.5), "sparse": (0.8, 0.4)}[kind]
    taw = 1000 * (fc - wp) * rd
    return 1000 * (fc - 0.5 * wp) * 0.125, rew, taw, taw * df * adj


@scenario(params={f"{k}-{d}": dict(kind=k, dt=d) for k, d in (("dual", "3h"), ("sparse", "h"), ("single", "D"))})
def crop(ctx, kind, dt):
    """Water balance of vegetated pixels."""
    m = model(ctx, timestep=dt)
    quiet(m)
    p = PIX[kind]
    s = m.state.evapotranspiration
    rain = maybe_nan(ctx, "rain", 0, 100)
    sw = maybe_nan(ctx, "sw", 0, 1200)
    snow = ctx.choose(2, "snow")
    tew, rew, taw, raw = storage(kind)
    de, dr = ctx.real("de", 0, tew), ctx.real("dr", 0, taw)
    weather(m, p, top_canopy_sw_in=sw, rainfall=rain)
    m.state.snow.swe[p] = 10.0 if snow else 0.0
    s.cum_soil_surface_depletion[p], s.cum_root_zone_depletion[p] = de, dr
    s.deep_percolation_evaporation_layer[p] = ctx.real("dpe_before", 0, 20)
    m.evapotranspiration.evapotranspiration()
    g = lambda v: s[v][p]
    ctx.observe("et", [g("evapotranspiration")])
    et0 = 0.0 if isnan(sw) else g("et_ref")
    ctx.claim_ge("et0", et0, 0.0, 0)
    r = 0.0 if isnan(rain) else rain
    et, ks = g("evapotranspiration"), clip((taw - dr) / (taw - raw), 0.0, 1.0)
    ctx.claim_ge("et-positive", et, 0.0, 1e-9)
    if snow:
        ctx.claim_eq("snow-no-et", et, 0.0, 0)
    else:
        ctx.claim_eq("stress", g("water_stress_coeff"), ks, 1e-7)
    if kind == "single":
        if not snow:
            ctx.claim_eq("single", et, g("crop_coeff") * et0 * ks, 1e-5)
    elif snow:
        ctx.claim_eq("snow-no-e", g("evaporation"), 0.0, 0)
        ctx.claim_eq("snow-no-t", g("transpiration"), 0.0, 0)
        ctx.claim_eq("surface-kept", g("cum_soil_surface_depletion"), de, 0)
    else:
        kcb, ke, e, t = g("basal_crop_coeff"), g("evaporation_coeff"), g("evaporation"), g("transpiration")
        kmax = smax(1.2, kcb + 0.05)  # no climate correction with the default climate
        veg = 0.3 if kind == "sparse" else core.fn_pow(smax(kcb - 0.175, 0.01) / (kmax - 0.175), 1 + 0.5 * m.state.land_cover.plant_height[p])
        few = smin(1 - veg, 1.0)
        kr = 1.0 if de <= rew else (tew - de) / (tew - rew)
        ctx.claim_eq("ke", ke, smin(kr * (kmax - kcb), few * kmax), 1e-6)
        ctx.claim_eq("kc", g("crop_coeff"), kcb + ke, 1e-9)
        ctx.claim_eq("evaporation", e, ke * et0, 1e-6)
        ctx.claim_eq("transpiration", t, ks * kcb * et0, 1e-5)
        ctx.claim_eq("sum", et, e + t, 1e-9)
        dpe = smax(r - de, 0.0)
        ctx.claim_eq("surface-percolation", g("deep_percolation_evaporation_layer"), dpe, 1e-7)
        ctx.claim_eq("surface-balance", g("cum_soil_surface_depletion"), clip(de - r + e / few + dpe, 0.0, tew), 1e-5)
    dp = g("deep_percolation")
    ctx.claim_eq("percolation", dp, smax(r - et - dr, 0.0), 1e-6)
    ctx.claim_eq("root-balance", g("cum_root_zone_depletion"), clip(dr - r + et + dp, 0.0, taw), 1e-6)
    if dr - r + et <= taw:
        ctx.claim_eq("conservation", r, et + dp + dr - g("cum_root_zone_depletion"), 1e-6)


@scenario
def climate(ctx):
    """Climate correction enters the upper limit of the crop coefficient; empty storages stop evaporation."""
    m = model(ctx, evapotranspiration={"mean_wind_speed": 4.0, "mean_min_humidity": 30.0})
    quiet(m)
    p = PIX["dual"]
    s = m.state.evapotranspiration
    corr = (0.04 * 2 + 0.004 * 15) * (0.5 / 3) ** 0.3
    ctx.claim_eq("correction", s.clim_corr[p], corr, 1e-9)
    ctx.claim_eq("single-correction", s.clim_corr[PIX["single"]], 0.14 * (1 / 3) ** 0.3, 1e-9)
    weather(m, p, top_canopy_sw_in=ctx.real("sw", 0, 1200))
    tew, rew, taw, raw = storage("dual")
    dr = ctx.real("dr", 0, taw)
    s.cum_soil_surface_depletion[p], s.cum_root_zone_depletion[p] = tew, dr
    m.evapotranspiration.evapotranspiration()
    ctx.claim_eq("dry-surface", s.evaporation[p], 0.0, 1e-9)
    if dr >= taw:
        ctx.claim_eq("dry-soil", s.evapotranspiration[p], 0.0, 1e-9)
    ctx.claim_le("stress-only-reduces", s.transpiration[p], s.basal_crop_coeff[p] * s.et_ref[p], 1e-9)


@scenario(params={f"{t}-{w}": dict(temp=t, sun=w) for t in (263.15, 288.15) for w in (True, False)}, merged=True)
def reference(ctx, temp, sun):
    """Reference evapotranspiration for all radiation, wind and humidity."""
    m = model(ctx, timestep="3h")
    quiet(m, sun)
    kind = ["dual", "sealed"][ctx.choose(2, "surface")]
    p = PIX[kind]
    sw, lw, u, ea = ctx.real("sw", 0, 1200), ctx.real("lw", 150, 450), [0.5, 6.0][ctx.choose(2, "u")], ctx.real("ea", 10, 2000)
    es = ctx.real("es", 10, 2500)
    weather(m, p, top_canopy_temp=temp, top_canopy_sw_in=sw, top_canopy_lw_in=lw, top_canopy_wind_speed=u, vap_press=ea, sat_vap_press=es)
    m.evapotranspiration.evapotranspiration()
    s = m.state.evapotranspiration
    alb, emi = (0.4, 0.92) if kind == "sealed" else (0.23, 0.985)
    rn = (1 - alb) * sw + lw - SIGMA * emi * temp**4
    gf = 0.1 if sun else 0.5
    ctx.claim_eq("net-radiation", s.ref_net_radiation[p], rn, 1e-6)
    ctx.claim_eq("soil-heat", s.soil_heat_flux[p], gf * rn, 1e-6)
    t = temp - T0
    d = 4098 * 0.6108 * np.exp(17.27 * t / (t + 237.3)) / (t + 237.3) ** 2
    u2 = u * np.log(2 / 0.03) / np.log(10 / 0.03)
    e0 = (0.408 * d * (rn - gf * rn) * 0.0036 + 0.06 * 37 / (t + 273) * u2 * (es - ea) * 1e-3) / (d + 0.06 * (1 + 0.34 * u2))
    ctx.claim_eq("et0", s.et_ref[p], 3 * smax(e0, 0.0), 1e-6)


@scenario(params={d: dict(dt=d) for d in DT}, merged=True)
def sealed(ctx, dt):
    """Interception store of sealed surfaces."""
    m = model(ctx, timestep=dt)
    quiet(m)
    p = PIX["sealed"]
    s = m.state.evapotranspiration
    store, rain, sw = ctx.real("store", 0, 1), maybe_nan(ctx, "rain", 0, 50), maybe_nan(ctx, "sw", 0, 1200)
    snow = ctx.choose(2, "snow")
    weather(m, p, top_canopy_sw_in=sw, rainfall=rain)
    m.state.snow.swe[p] = 5.0 if snow else 0.0
    s.sealed_interception[p] = store
    m.evapotranspiration.evapotranspiration()
    g = lambda v: s[v][p]
    e, after, runoff = g("evaporation"), g("sealed_interception"), g("deep_percolation")
    r = 0.0 if isnan(rain) or snow else rain
    ctx.claim_eq("balance", after, store + r - e - runoff, 1e-7)
    ctx.claim_ge("store-min", after, 0.0, 0)
    ctx.claim_le("store-max", after, 1.0, 1e-9)
    ctx.claim_ge("runoff", runoff, 0.0, 0)
    ctx.claim_eq("transpiration", g("transpiration"), 0.0, 0)
    ctx.claim_eq("et", g("evapotranspiration"), e, 0)
    if snow or r > 0 or isnan(sw):
        ctx.claim_eq("no-evaporation", e, 0.0, 0)
        ctx.claim_eq("overflow", runoff, smax(store + r - 1.0, 0.0), 1e-9)
        return
    w = WEATHER
    zom = 0.123 * 1.9
    ra = np.log((10 - 3.8 / 3) / zom) * np.log((2 - 3.8 / 3) / (0.1 * zom)) / (0.16 * 3.0)
    rn = 0.6 * sw + 300.0 - SIGMA * 0.92 * 288.15**4
    d = 1e3 * 4098 * 0.6108 * np.exp(17.27 * 15 / 252.3) / 252.3**2
    rho = 90000.0 / (287.058 * 1.01 * 288.15)
    cp = 60.0 * 0.622 * 2.501e6 / 90000.0
    pot = (d * 0.9 * rn + rho * cp * 700.0 / ra) / (d + 60.0) / 2.501e6 * DT[dt]
    ctx.claim_eq("penman", e, smin(smax(pot, 0.0), store), 1e-5)


@scenario
def water_and_unknown(ctx):
    """Water bodies evaporate at the full rate, also with snow; pixels without parameters are left alone."""
    m = model(ctx)
    quiet(m)
    p = PIX["water"]
    s = m.state.evapotranspiration
    sw, rain = ctx.real("sw", 0, 1200), ctx.real("rain", 0, 50)
    weather(m, p, top_canopy_sw_in=sw, rainfall=rain)
    weather(m, PIX["none"], top_canopy_sw_in=sw, rainfall=rain)
    m.state.snow.swe[p] = 10.0 if ctx.choose(2, "snow") else 0.0
    s.evapotranspiration[PIX["none"]] = float("nan")
    m.evapotranspiration.evapotranspiration()
    ctx.claim_eq("full-rate", s.evapotranspiration[p], s.crop_coeff[p] * s.et_ref[p], 1e-7)
    ctx.claim_lt("rate-positive", 0.0, s.crop_coeff[p])
    ctx.claim("no-parameters", isnan(s.evapotranspiration[PIX["none"]]), "evapotranspiration without parameters")


@scenario
def initial(ctx):
    """Storages for all soil textures, rooting depths and depletion fractions."""
    m = model(ctx)
    s = m.state.evapotranspiration
    tex = 1 + ctx.choose(9, "texture")
    fc, wp, rew, adj = SWC[tex]
    p = PIX["dual"]
    s.soil_texture[p] = tex
    rd, df, ze = ctx.real("rd", 0.1, 2), ctx.real("df", 0.1, 0.8), ctx.real("ze", 0.1, 0.15)
    c = m.config.land_cover.classes[CLASS["dual"]]
    c.rooting_depth, c.depletion_fraction = rd, df
    m.config.evapotranspiration.surface_soil_layer_evaporation_depth = ze
    for v in ("total_evaporable_water", "total_available_water", "readily_available_water", "cum_root_zone_depletion", "cum_soil_surface_depletion"):
        s[v][p] = float("nan")
    m.evapotranspiration.initialize()
    taw = (fc - wp) * 1000 * rd
    ctx.claim_eq("tew", s.total_evaporable_water[p], 1000 * (fc - 0.5 * wp) * ze, 1e-7)
    ctx.claim_eq("rew", s.readily_evaporable_water[p], rew, 1e-9)
    ctx.claim_eq("taw", s.total_available_water[p], taw, 1e-7)
    ctx.claim_eq("raw", s.readily_available_water[p], taw * df * adj, 1e-6)
    ctx.claim_eq("dr", s.cum_root_zone_depletion[p], 0.0, 1e-9)
    ctx.claim_eq("de", s.cum_soil_surface_depletion[p], 0.0, 0)
