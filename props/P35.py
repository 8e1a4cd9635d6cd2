"""
Effect of the parameters.

A real model is run for whole time steps (OpenAmundsen.run_single) with a symbolic value of one parameter of the configuration. The variable that the
parameter is documented for must differ, in the documented direction, from the one with the default value, for every value of the parameter in an
interval above or below the default.
"""
from symex.api import *

from . import P30
from .P34 import get, put

scenario = Registry()
BOUNDS = (
    "one pixel (of four with different terrain, land cover and weather); one to three time steps of 3 h of which the last one (for parameters of the initial state: all) has the symbolic "
    "value, 20 to 50 % (temperatures: 0.125 to 0.375 K) above and below the default"
)
OUTSIDE = "parameters of the interpolation (P15, P16), albedo (P12) and layer transitions (P11, P23) not listed; sizes of the effects; several parameters at once; rounding"

P30.CONFIGS.setdefault("empirical", dict(snow={**P30.MULTI, "compaction": {"method": "empirical"}}))
P30.CONFIGS.setdefault("wet", dict(snow={**P30.MULTI, "albedo": {"refresh_method": "continuous"}, "liquid_water_content": {"method": "mass_fraction"}}))
P30.CONFIGS.setdefault("stability", dict(snow=P30.MULTI, meteo={"stability_correction": True}))
P30.CONFIGS.setdefault("canopy-index", dict(P30.CONFIGS["canopy"], snow=P30.CONFIGS["temperature-index"]["snow"]))

A, B, C, D = P30.PIX  # deciduous forest; coniferous forest, no snow in the first step; cropland; sealed
UPWARDS = {"snow.snow_cover_fraction_depth_scale": (0.25, 0.5), "canopy.kinematic_air_viscosity": (0.75, 1.5)}  # changes
# parameter: configuration, history, weather, variable, layer, pixel, sign
EFFECTS = {
    "meteo.precipitation_phase.threshold_temp": ("temperature-index", (0,), 2, "meteo.snowfall", None, C, 1),
    "meteo.precipitation_phase.temp_range": ("temperature-index", (0,), 2, "meteo.rainfall", None, C, 1),
    "meteo.radiation.snow_emissivity": ("multilayer", (0,), 2, "meteo.lw_out", None, A, 1),
    "meteo.radiation.cloud_emissivity": ("multilayer", (0,), 2, "meteo.lw_in", None, A, 1),
    "meteo.radiation.rock_emission_factor": ("multilayer", (0,), 2, "meteo.lw_in", None, B, 1),
    "meteo.radiation.ozone_layer_thickness": ("multilayer", (0,), 1, "meteo.dir_in_clearsky", None, C, -1),
    "meteo.radiation.atmospheric_visibility": ("multilayer", (0,), 1, "meteo.dir_in_clearsky", None, C, 1),
    "meteo.radiation.single_scattering_albedo": ("multilayer", (0,), 1, "meteo.diff_in_clearsky", None, C, 1),
    "meteo.radiation.clear_sky_albedo": ("multilayer", (0,), 1, "meteo.diff_in_clearsky", None, C, 1),
    "meteo.measurement_height.temperature": ("multilayer", (0,), 2, "surface.turbulent_exchange_coeff", None, A, -1),
    "meteo.measurement_height.wind": ("multilayer", (0,), 2, "surface.turbulent_exchange_coeff", None, A, -1),
    "meteo.stability_adjustment_parameter": ("stability", (0,), 2, "surface.turbulent_exchange_coeff", None, B, -1),
    "meteo.measurement_height.temperature@calm": ("stability", (0, 3), 4, "surface.turbulent_exchange_coeff", None, A, 1),
    "snow.thermal_conductivity": ("multilayer", (), None, "snow.therm_cond", 0, A, 1),
    "snow.roughness_length": ("multilayer", (0,), 2, "surface.turbulent_exchange_coeff", None, A, 1),
    "snow.snow_cover_fraction_depth_scale": ("multilayer", (0,), 2, "snow.area_fraction", None, A, -1),
    "snow.liquid_water_content.max": ("multilayer", (0,), 2, "snow.liquid_water_content", 0, A, 1),
    "snow.albedo.min": ("multilayer", (0,), 2, "snow.albedo", None, A, 1),
    "snow.albedo.max": ("multilayer", (), 0, "snow.albedo", None, A, 1),
    "snow.albedo.cold_snow_decay_timescale": ("multilayer", (0,), 1, "snow.albedo", None, A, 1),
    "snow.albedo.melting_snow_decay_timescale": ("multilayer", (0, 2), 2, "snow.albedo", None, A, 1),
    "snow.albedo.refresh_snowfall": ("wet", (0,), 2, "snow.albedo", None, C, -1),
    "snow.compaction.timescale": ("empirical", (0,), 2, "snow.density", 0, A, -1),
    "snow.compaction.max_cold_density": ("empirical", (0, 3), 3, "snow.density", 0, A, 1),
    "snow.compaction.max_melting_density": ("empirical", (0,), 2, "snow.density", 0, A, 1),
    "snow.cryolayers.surface_heat_flux": ("cryolayers", (0,), 2, "surface.heat_flux", None, A, -1),
    "snow.cryolayers.cold_holding_capacity": ("cryolayers", (0,), 1, "snow.cold_content", 0, A, 1),
    "snow.melt.threshold_temp": ("temperature-index", (0,), 2, "snow.melt", None, A, -1),
    "snow.melt.degree_day_factor": ("temperature-index", (0,), 2, "snow.melt", None, A, 1),
    "snow.melt.albedo_factor": ("enhanced", (0,), 2, "snow.melt", None, A, 1),
    "soil.sand_fraction": ("multilayer", (), None, "soil.vol_moisture_content_sat", None, A, -1),
    "soil.clay_fraction": ("multilayer", (), None, "soil.vol_moisture_content_sat", None, A, -1),
    "soil.init_moisture_content": ("multilayer", (), None, "soil.vol_moisture_content", 2, A, 1),
    "soil.init_temp": ("multilayer", (), None, "soil.temp", 2, A, 1),
    "soil.saturated_soil_surface_conductance": ("multilayer", (0,), 2, "surface.conductance", None, A, 1),
    "soil.roughness_length": ("multilayer", (), 2, "surface.turbulent_exchange_coeff", None, B, 1),
    "soil.albedo": ("multilayer", (), 2, "surface.albedo", None, B, 1),
    "canopy.extinction_coefficient": ("canopy", (0,), 1, "meteo.sw_in", None, B, -1),
    "canopy.temperature_scaling_coefficient": ("canopy-index", (0,), 1, "meteo.lw_in", None, A, -1),
    "canopy.canopy_flow_index_coefficient": ("canopy", (0,), 2, "meteo.wind_speed", None, B, -1),
    "canopy.spherical_ice_particle_radius": ("canopy", (0,), 1, "snow.canopy_sublimation", None, A, -1),
    "canopy.kinematic_air_viscosity": ("canopy", (0,), 1, "snow.canopy_sublimation", None, A, -1),
    "canopy.max_interception_storage_coefficient": ("canopy", (0,), 1, "snow.canopy_sublimation", None, A, 1),
    "canopy.exposure_coefficient_coefficient": ("canopy", (0,), 1, "snow.canopy_sublimation", None, A, 1),
    "canopy.degree_day_factor": ("canopy", (0,), 2, "snow.canopy_melt", None, A, 1),
    "evapotranspiration.min_crop_coefficient": ("evapotranspiration", (0, 2), 1, "evapotranspiration.cum_soil_surface_depletion", None, A, -1),
    "evapotranspiration.grass_albedo": ("evapotranspiration", (2,), 2, "evapotranspiration.ref_net_radiation", None, A, -1),
    "evapotranspiration.grass_emissivity": ("evapotranspiration", (2,), 2, "evapotranspiration.ref_net_radiation", None, A, -1),
    "evapotranspiration.sealed_albedo": ("evapotranspiration", (0,), 2, "evapotranspiration.ref_net_radiation", None, D, -1),
    "evapotranspiration.sealed_emissivity": ("evapotranspiration", (0,), 2, "evapotranspiration.ref_net_radiation", None, D, -1),
    "evapotranspiration.mean_wind_speed": ("evapotranspiration", (0, 2), 2, "evapotranspiration.clim_corr", None, A, 1),
    "evapotranspiration.mean_min_humidity": ("evapotranspiration", (0, 2), 2, "evapotranspiration.clim_corr", None, A, -1),
    "evapotranspiration.surface_soil_layer_evaporation_depth": ("evapotranspiration", (0,), 2, "evapotranspiration.total_evaporable_water", None, C, 1),
}
WEATHER = [*P30.WEATHER, ((230.0,) * 4, (0.0,) * 4, 50.0, 6.0, 0.5), ((280.0,) * 4, (0.0,) * 4, 50.0, 0.5, 0.5)]
INITIAL = ("evapotranspiration.", "soil.", "snow.thermal_conductivity")


def run(ctx, name, config, hist, w, pixel, value=None):
    roi = np.zeros((3, 3), int)
    roi[pixel] = 1
    cfg = dict(P30.CONFIGS[config], start_date="2020-03-15 06:00", end_date="2020-03-18", timestep="3h")
    m = prepare(ctx, f"p35{config}{pixel}", lift=False, fresh=True, roi=roi, grids=P30.GRIDS, config=cfg)
    m.date_idx = m._run_method = None
    initial = name.startswith(INITIAL)
    if initial and value is not None:
        if ctx.symbolic:
            m._verif_lab.lift()
        put(m.config, name, value)
    m._initialize_state_variables()
    m.state.base.svf[pixel] = 0.5
    for k in hist:
        step(m, k, pixel)
    if not initial and value is not None:
        if ctx.symbolic:
            m._verif_lab.lift()
        put(m.config, name, value)
    if w is not None:
        step(m, w, pixel)
    return m


def step(m, k, q):
    t, p, rh, ws, cf = WEATHER[k]
    n = P30.PIX.index(q)

    def weather(model):
        s = model.state.meteo
        s.temp[q], s.precip[q], s.rel_hum[q], s.wind_speed[q], s.cloud_factor[q], s.cloud_fraction[q] = t[n], p[n], rh, ws, cf, 0.3

    m._meteo_callback = weather
    m.run_single()


GROUPS = [list(EFFECTS)[k::14] for k in range(14)]


@scenario(params={str(k): dict(names=g) for k, g in enumerate(GROUPS)}, merged=False)
def effect(ctx, names):
    """What the parameter is for differs from the run with the default value, in the right direction."""
    name = names[ctx.choose(len(names), "parameter")]
    config, hist, w, var, layer, pixel, sign = EFFECTS[name]
    a = run(ctx, name, config, hist, w, pixel)
    name, path = name.replace("@", "-"), name.split("@")[0]
    d = get(a.config, path)
    lo, hi = UPWARDS.get(name, (0.2, 0.5))
    side = 1 if name in UPWARDS else (1, -1)[ctx.choose(2, "side")]
    if name.endswith("threshold_temp"):
        p = d + side * ctx.real("difference", 0.125, 0.375)
    else:
        p = (d or 1.0) * (1 + side * ctx.real("change", lo, hi))
    b = run(ctx, path, config, hist, w, pixel, p)
    cat, v = var.split(".")
    at = pixel if layer is None else (layer, *pixel)
    x, y = a.state[cat][v][at], b.state[cat][v][at]
    tiny = 1e-7 * abs(x)
    s = sign * side
    if s > 0:
        ctx.claim_le(f"{name}-larger", x + tiny, y, 0)
    else:
        ctx.claim_le(f"{name}-smaller", y + tiny, x, 0)
