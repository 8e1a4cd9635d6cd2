"""Multilayer surface energy balance closes."""
from symex.api import *

from . import _ml as ml
from ._ml import I, J, LF, T0, get

scenario = Registry()
BOUNDS = (
    "one pixel, one balance step of 3 h; arbitrary air/surface/layer temperature, humidity, short- and longwave "
    "radiation, albedo, rain- and snowfall and snow ice content; concrete sets of exchange coefficient, wind, surface "
    "layer conductivity and thickness"
)
OUTSIDE = "exchange coefficient, wind speed, pressure and air density take the listed values; rounding"
CP, SB, DT = 1004.68506, 5.670374419e-8, 10800.0
CI, CW = 2100.0, 4180.0

SETS = {
    "a": dict(ch=0.0031, u=3.0, k=0.24, dz=0.1, rho=1.02, p=80000.0, cond=0.01),
    "b": dict(ch=0.0008, u=9.0, k=1.3, dz=0.35, rho=0.9, p=65000.0, cond=0.012),
    "calm": dict(ch=0.0020, u=0.0, k=0.5, dz=0.1, rho=1.2, p=101325.0, cond=0.01),
}


def setup(ctx, snow, prm, precip, ts=None, ice_range=(0.001, 300)):
    m = ml.model(ctx)
    s = m.state
    s.surface.turbulent_exchange_coeff[I, J] = prm["ch"]
    s.meteo.wind_speed[I, J] = prm["u"]
    s.surface.therm_cond[I, J] = prm["k"]
    s.surface.thickness[I, J] = prm["dz"]
    s.meteo.dry_air_density[I, J] = prm["rho"]
    s.meteo.atmos_press[I, J] = prm["p"]
    s.surface.conductance[I, J] = prm["cond"]
    s.meteo.temp[I, J] = ctx.real("Ta", 240, 310)
    s.surface.temp[I, J] = ts if ts is not None else ctx.real("Ts", 243, T0 if snow else 310)
    s.surface.layer_temp[I, J] = ctx.real("Tl", 240, T0 if snow else 310)
    s.meteo.sw_in[I, J] = ctx.real("sw", 0, 1200)
    s.meteo.lw_in[I, J] = ctx.real("lw", 100, 450)
    s.surface.albedo[I, J] = ctx.real("alb", 0, 1)
    s.meteo.spec_hum[I, J] = ctx.real("q", 0, 0.02)
    s.meteo.rainfall[I, J] = ctx.real("rain", 0, 20) if precip else 0.0
    s.meteo.snowfall[I, J] = ctx.real("snowfall", 0, 20) if precip else 0.0
    s.meteo.wet_bulb_temp[I, J] = ctx.real("Tw", 240, 300) if precip else 270.0
    s.snow.num_layers[I, J] = snow
    s.snow.ice_content[:, I, J] = 0.0
    s.snow.liquid_water_content[:, I, J] = 0.0
    for k in range(snow):
        s.snow.ice_content[k, I, J] = ctx.real(f"ice{k}", *ice_range)
        s.snow.liquid_water_content[k, I, J] = ctx.real(f"liq{k}", 0, 10)
    s.snow.swe[I, J] = ssum(s.snow.ice_content[k, I, J] + s.snow.liquid_water_content[k, I, J] for k in range(3))
    s.snow.melt[I, J] = ctx.real("junk", 0, 5)  # must not matter
    return m


def check(ctx, m, snow, prm, ts_old):
    s = m.state
    ts = s.surface.temp[I, J]
    ta = s.meteo.temp[I, J]
    melt = s.snow.melt[I, J]
    ice = ssum(s.snow.ice_content[k, I, J] for k in range(3))
    H, G = s.surface.sens_heat_flux[I, J], s.surface.heat_flux[I, J]
    E, LE = s.surface.moisture_flux[I, J], s.surface.lat_heat_flux[I, J]
    A = s.surface.advective_heat_flux[I, J]
    R = s.meteo.net_radiation[I, J]
    sw, lw, alb = s.meteo.sw_in[I, J], s.meteo.lw_in[I, J], s.surface.albedo[I, J]
    rain, snf, tw = s.meteo.rainfall[I, J], s.meteo.snowfall[I, J], s.meteo.wet_bulb_temp[I, J]
    c = prm["rho"] * prm["ch"] * prm["u"]
    ctx.claim_eq("sensible-flux", H, CP * c * (ta - ts), 1e-6)
    ctx.claim_eq("surface-flux", G, 2 * prm["k"] * (ts - s.surface.layer_temp[I, J]) / prm["dz"], 1e-6)
    ctx.claim_eq("shortwave-out", s.meteo.sw_out[I, J], alb * sw, 1e-6)
    ctx.claim_eq("longwave-out", s.meteo.lw_out[I, J], 0.99 * SB * ts**4, 1e-6)
    ctx.claim_eq("net-radiation", R, sw - s.meteo.sw_out[I, J] + lw - s.meteo.lw_out[I, J], 1e-6)
    lv = 2501000.0 - 2361.0 * (ta - T0)
    ctx.claim_eq("latent-flux", LE, (lv + LF if snow or ts < T0 else lv) * E, 1e-3)
    ctx.claim_ge("melt-nonneg", melt, 0.0, 0)
    ctx.claim_le("melt-limited", melt, ice, 1e-9) if not snow else None
    if snow:
        if ts < T0:
            ctx.claim_eq("no-melt-below-freezing", melt, 0.0, 1e-9)
        if melt < ice:
            ctx.claim_le("snow-surface-not-above-freezing", ts, T0, 1e-9)
        if ts > T0:
            ctx.claim_eq("all-ice-melts", melt, ice, 1e-9)
    else:
        ctx.claim_eq("no-snow-no-melt", melt, 0.0, 0)
    ctx.observe("ts", [ts, melt, H, G, E])
    return ts, ta, melt, ice, H, G, E, LE, A, R, sw, lw, alb, rain, snf, tw


def closure(s, ts_old, ts, ta, melt, H, G, LE, sw, lw, alb, rain, snf, tw):
    """Balance linearised around the previous surface temperature."""
    dT = ts - ts_old
    adv = (CW * (ta - ts_old) * rain + CI * (tw - ts_old) * snf) / DT
    return sw * (1 - alb) + lw - 0.99 * SB * ts_old**4 - 4 * SB * ts_old**3 * dT + H + LE + adv - G - LF * melt / DT


QUICK = {(0, "a", True), (0, "calm", False), (1, "a", True), (1, "calm", True), (1, "b", False), (3, "b", True), (3, "a", False)}


@scenario(params={
    f"{n}-{p}-{'precip' if pr else 'dry'}": dict(
        snow=n, prm=v, precip=pr, _tiers=("quick", "thorough") if (n, p, pr) in QUICK else ("thorough",)
    )
    for n in (0, 1, 3) for p, v in SETS.items() for pr in (False, True)
})
def step(ctx, snow, prm, precip):
    from openamundsen import surface

    m = setup(ctx, snow, prm, precip)
    ts_old = m.state.surface.temp[I, J]
    surface.energy_balance(m)
    s = m.state
    ts, ta, melt, ice, H, G, E, LE, A, R, sw, lw, alb, rain, snf, tw = check(ctx, m, snow, prm, ts_old)
    if not snow:
        return
    res = closure(s, ts_old, ts, ta, melt, H, G, LE, sw, lw, alb, rain, snf, tw)
    if ts == T0:
        # at the melting point all remaining energy goes into melt; if there is none (the linearised
        # solution overshot), nothing melts.  (A linearised solution of exactly T0 is fine, too.)
        if melt > 0:
            if melt != ice:
                ctx.claim_eq("advective-flux", A, (CW * (ta - T0) * rain + CI * (tw - T0) * snf) / DT, 1e-4)
                ctx.claim_eq("melt-energy", LF * melt / DT, R + H + LE + A - G, 1e-4)
        elif R + H + LE + A - G > 1e-6:
            ctx.claim_eq("energy-unused", res, 0.0, 1e-3)
    else:
        ctx.claim_eq("closure", res, 0.0, 1e-3)


@scenario
def bare_closure(ctx):
    """Closure on bare ground as far as the latent heat does not switch with the sign of the surface temperature."""
    from openamundsen import surface

    # powers of two, so that folding the constants is free of rounding
    prm = dict(ch=2.0**-8, u=2.0, k=0.5, dz=0.125, rho=1.0, p=80000.0, cond=2.0**-7)
    m = setup(ctx, 0, prm, False)
    s = m.state
    old = s.surface.temp[I, J]
    surface.energy_balance(m)
    ts = s.surface.temp[I, J]
    if (old < T0) != (ts < T0):
        ctx.claim_ge("melt-nonneg", s.snow.melt[I, J], 0.0, 0)
        return
    res = closure(s, old, ts, s.meteo.temp[I, J], 0.0, s.surface.sens_heat_flux[I, J], s.surface.heat_flux[I, J],
                  s.surface.lat_heat_flux[I, J], s.meteo.sw_in[I, J], s.meteo.lw_in[I, J], s.surface.albedo[I, J],
                  0.0, 0.0, 270.0)
    ctx.claim_eq("closure", res, 0.0, 1e-3)
