"""Cryo layer scheme: surface energy balance, melt, cold content, refreezing and surface temperature."""
from symex.api import *

from . import _cl as cl
from ._cl import I, J, LF, NEW, NL, OLD, T0, get, layers

scenario = Registry()
BOUNDS = (
    "one pixel (surface temperature iteration: three pixels), subsets of the four cryo layers with arbitrary ice, liquid "
    "water and cold content, arbitrary radiation, albedo, humidity, precipitation and air temperature; concrete wind, "
    "exchange coefficient, pressure; time step 3 h; stepwise surface temperature search for concrete air temperatures "
    "-0.4, -1 and -3 degC"
)
OUTSIDE = (
    "the secant iteration on the full nonlinear balance (it is decided for balances linear in the surface temperature "
    "only, where Stefan-Boltzmann constant and vapour pressure curve are replaced); rounding"
)
CP, SB, DT = 1004.68506, 5.670374419e-8, 10800.0
CI, CW = 2100.0, 4180.0
RHO, CH, U, PR = 1.0, 2.0**-9, 2.0, 80000.0
C = RHO * CH * U


def weather(ctx, m, ta, precip=True, i=I, j=J, tag=""):
    s = m.state
    s.surface.turbulent_exchange_coeff[i, j] = CH
    s.meteo.wind_speed[i, j] = U
    s.meteo.dry_air_density[i, j] = RHO
    s.meteo.atmos_press[i, j] = PR
    s.surface.conductance[i, j] = 0.01
    s.meteo.temp[i, j] = ta
    s.meteo.sw_in[i, j] = ctx.real("sw" + tag, 0, 1200)
    s.meteo.lw_in[i, j] = ctx.real("lw" + tag, 100, 450)
    s.surface.albedo[i, j] = ctx.real("alb" + tag, 0, 1)
    s.meteo.spec_hum[i, j] = ctx.real("q" + tag, 0, 0.02)
    s.meteo.rainfall[i, j] = ctx.real("rain" + tag, 0, 20) if precip else 0.0
    s.meteo.snowfall[i, j] = ctx.real("snowfall" + tag, 0, 20) if precip else 0.0
    s.meteo.wet_bulb_temp[i, j] = ctx.real("Tw" + tag, 240, 280) if precip else 270.0
    s.snow.melt[i, j] = 3.0
    s.snow.refreezing[i, j] = 2.0


def qsat(e):
    return 0.622 * e / (PR - 0.378 * e)


def vap(t):
    a, b, c = (610.78, 17.08, 234.18) if t >= T0 else (610.71, 22.44, 272.44)
    return a * sexp(b * (t - T0) / (c + t - T0))


def fluxes(ctx, m, ts, q_s, i=I, j=J, lhf=True):
    """Claims: the reported fluxes are those of the surface temperature ts; returns their sum."""
    s = m.state
    ta = s.meteo.temp[i, j]
    H, LE, A = s.surface.sens_heat_flux[i, j], s.surface.lat_heat_flux[i, j], s.surface.advective_heat_flux[i, j]
    E, R = s.surface.moisture_flux[i, j], s.meteo.net_radiation[i, j]
    ctx.claim_eq("sensible-flux", H, CP * C * (ta - ts), 1e-6)
    sw, lw, alb = s.meteo.sw_in[i, j], s.meteo.lw_in[i, j], s.surface.albedo[i, j]
    from openamundsen import constants

    ctx.claim_eq("net-radiation", R, sw - alb * sw + lw - 0.99 * constants.STEFAN_BOLTZMANN * ts**4, 1e-5)
    ctx.claim_eq("moisture-flux", E, C * (s.meteo.spec_hum[i, j] - q_s), 1e-9)
    lv = 2501000.0 - 2361.0 * (ta - T0)
    if s.snow.ice_content[NEW, i, j] > 0 or ta < T0:
        lv = lv + LF
    ctx.claim_eq("latent-flux", LE, lv * E, 1e-3)
    rain, snf, tw = s.meteo.rainfall[i, j], s.meteo.snowfall[i, j], s.meteo.wet_bulb_temp[i, j]
    ctx.claim_eq("advective-flux", A, (CW * (ta - ts) * rain + CI * (tw - ts) * snf) / DT, 1e-5)
    return R + H + LE + A - m.config.snow.cryolayers.surface_heat_flux


@scenario(params={
    k: dict(p=cl.PRESENT[k], _tiers=("quick", "thorough") if k in ("N", "O", "NO") else ("thorough",))
    for k in ("N", "O", "NO", "OI", "I", "NOFI", "NOF", "FI")
}, weight=5)
def melting(ctx, p):
    from openamundsen import surface

    m = cl.model(ctx)
    s = m.state
    cl.pack(ctx, m, p)
    weather(ctx, m, ctx.real("Ta", T0, 300))
    ice, cc, lwc = layers(m, "ice_content"), layers(m, "cold_content"), layers(m, "liquid_water_content")
    surface.energy_balance(m)
    ctx.claim_eq("surface-at-melting-point", s.surface.temp[I, J], T0, 0)
    eb = fluxes(ctx, m, T0, qsat(610.78))
    melt = get(m, "melt")
    ctx.claim_ge("melt-nonneg", melt, 0, 1e-9)
    ctx.claim_eq("no-refreezing", get(m, "refreezing"), 0, 0)
    for k in range(NL):
        ctx.claim_eq("ice-kept", get(m, "ice_content", k), ice[k], 0)
        ctx.claim_eq("liquid-kept", get(m, "liquid_water_content", k), lwc[k], 0)
        ctx.claim_ge("cold-content-nonneg", get(m, "cold_content", k), 0, 1e-9)
    dcc = ssum(cc) - ssum(layers(m, "cold_content"))
    cap = ssum(ice) + ssum(cc)
    if eb <= 0:
        ctx.claim_eq("no-energy-no-melt", melt, 0, 1e-9)
        ctx.claim_eq("cold-content-kept", dcc, 0, 1e-9)
    elif eb * DT >= cap * LF:
        ctx.claim_eq("all-melts", melt, ssum(ice), 1e-6)
        ctx.claim_eq("all-cold-content-used", dcc, ssum(cc), 1e-6)
    else:
        ctx.claim_eq("melt-energy", (melt + dcc) * LF, eb * DT, 1.0)
        rest = eb * DT / LF
        for k in range(NL):
            cap_k = ice[k] + cc[k]
            c1 = get(m, "cold_content", k)
            if rest >= cap_k:
                ctx.claim_eq("top-down", c1, 0, 1e-6)
                rest = rest - cap_k
            else:
                ctx.claim_eq("cold-content-first", c1, smax(cc[k] - rest, 0.0), 1e-6)
                rest = 0.0
    ctx.observe("x", [melt] + layers(m, "cold_content"))


@scenario(params={
    f"{k}-{me}": dict(p=cl.PRESENT[k], me=me, _tiers=("quick", "thorough") if k in ("N", "NO", "OI") and me == "secant" else ("thorough",))
    for k in ("N", "O", "NO", "OI", "NOFI") for me in ("secant", "legacy")
}, merged=True, weight=5)
def freezing(ctx, p, me):
    """Below the melting point nothing melts; energy deficit refreezes water, then builds up cold content."""
    from openamundsen import surface

    m = cl.model(ctx, snow={"cryolayers": {"surface_temperature_iteration_method": me, "refreezing_factor": 0.5}})
    s = m.state
    cl.pack(ctx, m, p)
    ta = ctx.real("Ta", 250, T0 - 0.001)
    weather(ctx, m, ta)
    ice, cc, lwc = layers(m, "ice_content"), layers(m, "cold_content"), layers(m, "liquid_water_content")
    with stubbed((surface, "iterate_surface_temperature", nop)):
        surface.energy_balance(m)
    ctx.claim_eq("no-melt", get(m, "melt"), 0, 0)
    eb = fluxes(ctx, m, T0, qsat(610.78))  # state left at T0 by the (skipped) iteration
    avail = -eb * DT / LF * 0.5
    if avail < 0:
        avail = 0.0
    refrozen = 0.0
    for k in range(NL):
        i1, l1, c1 = get(m, "ice_content", k), get(m, "liquid_water_content", k), get(m, "cold_content", k)
        if k in (NEW, OLD) and p >> k & 1:
            active = avail > 0
            fr = smin(lwc[k], avail)
            avail = avail - fr
            ctx.claim_eq("refrozen", l1, lwc[k] - fr, 1e-7)
            ctx.claim_eq("becomes-ice", i1, ice[k] + fr, 1e-7)
            refrozen = refrozen + fr
            cap = 0.05 * (i1 + l1)
            if active:
                d = smin(avail, cap - cc[k])
                ctx.claim_eq("cold-content-buildup", c1, cc[k] + d, 1e-7)
                avail = avail - d
                ctx.claim_le("cold-content-limited", c1, cap, 1e-7)
        else:
            ctx.claim_eq("other-layers", i1, ice[k], 0)
            ctx.claim_eq("other-layers", l1, lwc[k], 0)
            ctx.claim_eq("other-layers", c1, cc[k], 0)
    ctx.claim_eq("refreezing-reported", get(m, "refreezing"), refrozen, 1e-7)
    ctx.observe("x", layers(m, "cold_content") + layers(m, "ice_content"))


@scenario
def snow_free(ctx):
    from openamundsen import surface

    m = cl.model(ctx)
    s = m.state
    cl.pack(ctx, m, 0)
    ta = ctx.real("Ta", 250, 300)
    weather(ctx, m, ta)
    surface.energy_balance(m)
    ctx.claim_eq("no-melt", get(m, "melt"), 0, 0)
    ctx.claim_eq("no-refreezing", get(m, "refreezing"), 0, 0)
    ctx.claim_eq("surface-temp", s.surface.temp[I, J], ta, 0)
    ctx.claim("no-ground-flux", isnan(s.surface.heat_flux[I, J]))


@scenario(params={t: dict(ta=float(t), _tiers=("quick", "thorough") if t != "270.15" else ("thorough",)) for t in ("272.75", "272.15", "270.15")})
def stepwise_surface_temperature(ctx, ta):
    """Legacy search: highest temperature of the 0.25 K grid at which the balance is not negative."""
    from openamundsen import surface

    m = cl.model(ctx, snow={"cryolayers": {"surface_temperature_iteration_method": "legacy"}})
    s = m.state
    cl.pack(ctx, m, 1, lwc=False, cc=False)
    weather(ctx, m, ta, precip=False)
    surface.energy_balance(m)
    ts = s.surface.temp[I, J]
    eb = fluxes(ctx, m, ts, qsat(vap(ts)))
    lowest = T0 - 0.25 * int((T0 - (ta - 3.0)) / 0.25 + 1e-6)
    ctx.claim_le("not-above-melting-point", ts, T0, 1e-9)
    if ts > lowest + 0.1:
        ctx.claim_ge("balance-reached", eb, 0, 1e-6)
    if ts < T0:
        t1 = ts + 0.25
        R = s.meteo.sw_in[I, J] * (1 - s.surface.albedo[I, J]) + s.meteo.lw_in[I, J] - 0.99 * SB * t1**4
        lv = 2501000.0 - 2361.0 * (ta - T0) + LF
        e1 = R + CP * C * (ta - t1) + lv * C * (s.meteo.spec_hum[I, J] - qsat(vap(t1))) - m.config.snow.cryolayers.surface_heat_flux
        ctx.claim_le("first-balance-taken", e1, 0, 1e-6)
    ctx.observe("ts", [ts])


ROI3 = np.zeros((3, 3), int)
PIX = [(0, 1), (1, 0), (2, 2)]
for _p in PIX:
    ROI3[_p] = 1


@scenario(params={f"n{n}": dict(n=n) for n in (1, 2, 3)}, weight=4)
def secant_surface_temperature(ctx, n):
    """With a balance linear in surface temperature the iteration has to hit its zero (or the melting point)."""
    from openamundsen import constants, meteo, surface

    cfg = dict(snow={"model": "cryolayers", "cryolayers": {"surface_temperature_iteration_method": "secant"}})
    m = prepare(ctx, "cl_roi3", roi=ROI3, config=cfg)
    s = m.state
    for q, (i, j) in enumerate(PIX):
        s.snow.ice_content[:, i, j] = 0.0
        s.snow.liquid_water_content[:, i, j] = 0.0
        s.snow.cold_content[:, i, j] = 0.0
        s.snow.thickness[:, i, j] = 0.0
        if q < n:
            s.snow.ice_content[NEW, i, j] = 20.0
            s.snow.thickness[NEW, i, j] = 0.2
            s.snow.layer_albedo[NEW, i, j] = 0.8
    m.snow.update_properties()
    for q, (i, j) in enumerate(PIX):
        weather(ctx, m, 270.0 - q, precip=False, i=i, j=j, tag=str(q)) if q < n else weather(ctx, m, 280.0, precip=False, i=i, j=j, tag=str(q))
        if q < n:
            s.meteo.sw_in[i, j] = 0.0
            s.surface.albedo[i, j] = 0.8
            s.meteo.spec_hum[i, j] = 0.003
            s.meteo.lw_in[i, j] = ctx.real(f"net{q}", -150, 100)  # stands for all radiation

    def lin_vap(t, over=None):
        return 611.0 + 40.0 * (t - T0)

    def lin_q(p, e):
        return 0.622 * e / PR

    with stubbed(
        (constants, "STEFAN_BOLTZMANN", 0.0),
        (meteo, "saturation_vapor_pressure", lin_vap),
        (meteo, "specific_humidity", lin_q),
    ):
        surface.energy_balance(m)
        for q, (i, j) in enumerate(PIX):
            ts, ta = s.surface.temp[i, j], s.meteo.temp[i, j]
            if q >= n:
                ctx.claim_eq("other-pixels", ts, 280.0, 0)
                continue
            ctx.claim_le("not-above-melting-point", ts, T0, 1e-9)
            eb = fluxes(ctx, m, ts, lin_q(PR, lin_vap(ts)), i, j)
            slope = CP * C + (2501000.0 - 2361.0 * (ta - T0) + LF) * C * 0.622 * 40.0 / PR
            if ts < T0:
                # the zero is hit up to the tolerance of the iteration (0.01 K)
                ctx.claim_le("balance-closes", eb, 0.0101 * slope, 1e-6)
                ctx.claim_ge("balance-closes", eb, -0.0101 * slope, 1e-6)
            else:
                ctx.claim_ge("excess-only-at-melting-point", eb, -0.0101 * slope, 1e-6)
    ctx.observe("ts", [s.surface.temp[i, j] for i, j in PIX])
