P("P01", "Multilayer snowpack: water is neither created nor lost",
  "With the multilayer snow scheme, for every pixel and time step the change of the snow water equivalent equals "
  "snowfall plus rainfall minus reported snow runoff minus reported sublimation (negative: resublimation), whatever "
  "the snowpack and meteorological forcing. Every single process (accumulation, melt, sublimation, runoff, compaction, "
  "layer update) closes the same balance, and the reported melt equals the ice lost by the layers.",
  ["inputs", "histories"],
  "every snowpack of up to three layers (also fully ablated ones), snowfall, rain, missing precipitation, melt and moisture flux",
  "tests run two or three fixed weather records and check sums with wide tolerance; the losing branches (full ablation, frost after melt, layer merging) need specific layer states",
  [SNOW + "multilayermodel.py", SNOW + "snow.py"],
  [("accumulation/melt/sublimation/runoff/update_layers", SNOW + "multilayermodel.py:MultilayerSnowModel"),
   ("layer kernels", SNOW + "multilayermodel.py:_update_layers, _runoff")],
  observe="snow state variables after each model method and after a whole snow step")
P("P02", "Multilayer snowpack: layer state stays valid and totals match layers",
  "For every reachable snowpack and forcing, each process of the multilayer scheme leaves thickness, ice and liquid "
  "water content non-negative and finite, unused layers empty, layer temperatures not above the melting point once "
  "melt and refreezing were computed, and liquid water within the holding capacity after runoff. The reported snow "
  "water equivalent, depth, layer count, snow cover fraction and albedo presence are always consistent with the layers.",
  ["inputs", "histories"],
  "every valid snowpack of up to three layers and every forcing, one process at a time (inductive)",
  "an invariant over all layer configurations; tests only see states their weather records lead to",
  [SNOW + "multilayermodel.py", SNOW + "snow.py"],
  [("update_properties", SNOW + "multilayermodel.py:update_properties"), ("runoff", SNOW + "multilayermodel.py:_runoff"),
   ("layer update", SNOW + "multilayermodel.py:_update_layers")])
P("P03", "Multilayer snowpack: relayering only redistributes the snow",
  "Redistributing the snowpack to the configured layer thicknesses preserves total depth, ice, liquid water and "
  "internal (sensible) energy, keeps the vertical order of the snow (every new layer consists of the old snow it "
  "overlaps), and gives all but the lowest layer the configured thickness.",
  ["inputs", "configurations"],
  "every snowpack of up to three (possibly ablated) layers and three layer configurations",
  "the redistribution takes different branches for each relation of old and new interfaces; tests cannot visit all of them",
  [SNOW + "multilayermodel.py"], [("_update_layers", SNOW + "multilayermodel.py:_update_layers")])
P("P04", "Multilayer snowpack: melt and refreezing are paid for with energy",
  "The ice melted in a time step equals what the energy available for melt plus the heat stored above the melting "
  "point can melt (limited by the ice present), melting proceeds from the top, and refreezing liquid water warms its "
  "layer by exactly the latent heat released, never above the melting point. Snow-free pixels report neither melt nor "
  "refreezing and pass rain on as runoff.",
  ["inputs", "histories"],
  "every snowpack of up to three layers, potential melt, layer temperatures, liquid water and rain",
  "energy accounting over layers involves min/max switches whose combinations tests do not enumerate",
  [SNOW + "multilayermodel.py"],
  [("melt", SNOW + "multilayermodel.py:melt/_melt"), ("runoff/refreezing", SNOW + "multilayermodel.py:runoff/_runoff")])
P("P05", "Heat conduction in snow and soil conserves energy",
  "For every temperature profile and surface heat flux, the heat gained by the snow (soil) layers in a time step equals "
  "the surface flux minus the flux conducted through the lower boundary, the flux leaving the snowpack enters the soil, "
  "and without a surface flux no temperature leaves the range of the initial temperatures. Where there is no snow the "
  "surface heat flux enters the soil directly.",
  ["inputs", "configurations"],
  "all layer and soil temperatures and fluxes for several layer counts, geometries and time steps",
  "tests only compare the tridiagonal solver with a reference solution; conservation needs all profiles and layer counts",
  [SNOW + "multilayermodel.py", "openamundsen/heatconduction.py", "openamundsen/tridiag.py", "openamundsen/modules/soil/soil.py"],
  [("implicit conduction scheme", "openamundsen/heatconduction.py:temp_change"), ("tridiagonal solver", "openamundsen/tridiag.py"),
   ("snow heat conduction", SNOW + "multilayermodel.py:_heat_conduction"), ("soil", "openamundsen/modules/soil/soil.py:soil_heat_flux, soil_temperature")])
P("P06", "Multilayer surface energy balance closes",
  "For every weather and surface state the reported surface temperature, radiation, sensible, latent, advective and "
  "ground heat fluxes and melt belong together: the sensible and ground heat fluxes are those of the reported surface "
  "temperature, latent heat flux is latent heat times moisture flux, advective heat is that of the precipitation on a melting surface, and the sum of all fluxes equals the energy used for melt "
  "(up to the linearisation of the scheme). A snow surface stays at or below the melting point as long as snow "
  "remains, nothing melts below the melting point or without snow, and melt is never negative.",
  ["inputs"],
  "all temperatures, humidities, radiation fluxes, albedos, precipitation and ice contents (sets of exchange coefficients and conductivities)",
  "the model tests recompute some fluxes for fixed records only; the melt branches depend on the exact balance",
  ["openamundsen/surface.py"],
  [("multilayer_energy_balance", "openamundsen/surface.py"), ("solve_energy_balance", "openamundsen/surface.py"),
   ("calc_radiation_balance, calc_turbulent_fluxes, calc_surface_flux, calc_latent_heat", "openamundsen/surface.py")])
P("P07", "Cryo layer snowpack: water is neither created nor lost",
  "With the cryo layer scheme (new snow, old snow, firn, ice), for every pixel and time step the change of the total layer "
  "water equals snowfall plus rainfall minus reported runoff minus reported sublimation. Melt takes the reported amount from "
  "the layers from the top down and turns it into liquid water, sublimation never removes more than the ice present, runoff "
  "keeps liquid water within the holding capacity, layer transitions and compaction move water but do not change totals.",
  ["inputs", "histories"],
  "every subset of the four layers with arbitrary contents, snowfall, rain, missing precipitation, melt and moisture flux",
  "the branches depend on which layers exist and which of them vanish in the step; tests see the combinations of two or three weather records",
  [SNOW + "cryolayermodel.py", SNOW + "snow.py"],
  [("accumulation/melt/sublimation/runoff/update_layers", SNOW + "cryolayermodel.py:CryoLayerSnowModel")],
  observe="snow state variables after each model method and after a whole snow step")
P("P08", "Cryo layer scheme: energy balance, melt and refreezing are consistent",
  "For every weather and layer state the fluxes reported by the cryo layer scheme are those of the reported surface "
  "temperature and humidity; under melting conditions the surface is at the melting point and the positive energy balance "
  "is used first for the cold content, then for melt, top layer down, limited by the ice present; otherwise nothing melts, liquid "
  "water refreezes or cold content builds up exactly as the energy deficit (or the configured refreezing method) prescribes. "
  "The iterated surface temperature never exceeds the melting point and closes the balance unless limited by it.",
  ["inputs"],
  "arbitrary radiation, albedo, humidity, precipitation, temperature, ice, liquid water and cold content over subsets of the four layers",
  "the balance must close for all forcings; tests check only ranges on fixed records",
  [SNOW + "cryolayermodel.py", "openamundsen/surface.py"],
  [("energy balance, melt, cold content, refreezing", "openamundsen/surface.py:cryo_layer_energy_balance"),
   ("surface temperature iteration", "openamundsen/surface.py:iterate_surface_temperature")])
P("P09", "Cryo layer scheme: transitions and layer state stay consistent",
  "New snow becomes old snow when it exceeds the transition density, old snow becomes firn only at the start of the configured "
  "month, firn becomes ice above its transition density; what moves is exactly the contents of the source layer, mixed with "
  "the target, and the source is left empty. At all times layer count, snow depth, water equivalent, "
  "densities, surface layer type and albedo agree with the layers, and empty layers hold nothing.",
  ["inputs", "histories", "configurations"],
  "every subset of the four layers, arbitrary densities around the thresholds, dates around the firn transition",
  "several transitions can coincide in one step, once a year; the test records hardly reach them",
  [SNOW + "cryolayermodel.py"],
  [("update_layers, layer_transition, reset_layer", SNOW + "cryolayermodel.py"), ("update_properties, albedo_aging", SNOW + "cryolayermodel.py")])
P("P10", "Temperature index melt follows the degree day formula",
  "Temperature index melt is degree day factor times excess of air temperature over the threshold (plus, for the enhanced "
  "method, albedo factor times absorbed shortwave radiation) times step length, zero at or below the threshold or without snow, never negative and "
  "never more than the ice present, computed freshly in every step, and it alone is applied to the snowpack.",
  ["inputs", "configurations"],
  "every temperature, radiation, albedo and ice content over layer subsets, both methods, several thresholds and step lengths",
  "tests compare one record against stored sums; the cap by the ice present and the threshold need specific states",
  [SNOW + "cryolayermodel.py", SNOW + "snow.py"],
  [("temperature_index", SNOW + "cryolayermodel.py:temperature_index"), ("potential melt", SNOW + "snow.py")])
P("P11", "Snow albedo ages, is refreshed by snowfall and mixes with bare ground",
  "Snow albedo decays exponentially towards its minimum with the time scale for cold or melting snow, independent of how time is "
  "divided into steps, and is raised by snowfall (step or continuous refresh) never above the maximum; it does not "
  "brighten without snowfall. The surface albedo is the mean of snow and ground albedo weighted by the snow cover fraction; "
  "new snowpacks start with the maximum albedo.",
  ["inputs", "configurations"],
  "every albedo, temperature, snowfall (also missing) and snow depth, both refresh methods, several parameter sets and step lengths",
  "a relation over all states and step lengths",
  [SNOW + "snow.py", "openamundsen/surface.py"], [("albedo", SNOW + "snow.py:albedo"), ("surface properties", "openamundsen/surface.py:surface_properties")])
P("P12", "Snow density: fresh snow curve, settling and ablation",
  "Fresh snow density follows the wet-bulb temperature curve with its lower limit. Settling only thins layers: it conserves ice and liquid "
  "water, relaxes density towards the configured maximum (cold or melting) without exceeding it or follows the Anderson "
  "rates, and never depends on absent layers. Melt, sublimation and removal of ice thin a layer in proportion, so its density stays the same. "
  "Firn reaches the density of ice within ten years, ice keeps its density.",
  ["inputs", "configurations"],
  "one to three layers of arbitrary thickness and contents, all temperatures, several step lengths",
  "rates are nonlinear in several variables; tests never check them",
  [SNOW + "snow.py", SNOW + "multilayermodel.py", SNOW + "cryolayermodel.py"],
  [("fresh_snow_density", SNOW + "snow.py:fresh_snow_density"), ("compaction", SNOW + "snow.py:compaction")])
P("P13", "Precipitation phase: rain plus snow is all the precipitation",
  "For every temperature (or wet-bulb temperature) and precipitation, snowfall and rainfall are non-negative and add up to the "
  "precipitation (times the snow redistribution factor for the snow part); the snow fraction falls linearly from one to zero across the "
  "configured range around the threshold, never increases with temperature, and with no-snow-below-rain enforced no pixel at or below "
  "the highest rain-only pixel receives snow. Missing precipitation stays missing, not zero.",
  ["inputs", "configurations"],
  "all temperatures, precipitation amounts and missing values on three pixels over several thresholds and ranges",
  "thresholds and missing values at arbitrary pixels; tests compare a handful of values",
  ["openamundsen/model.py", "openamundsen/meteo/precipcorr.py"],
  [("_process_meteo_data", "openamundsen/model.py:_process_meteo_data"), ("precipitation_phase", "openamundsen/meteo/atmosphere.py:precipitation_phase")])
P("P14", "Precipitation correction follows the configured transfer functions",
  "Station precipitation is corrected per station and date from the temperature and wind at that station alone: constant snow "
  "correction factors apply to the snow fraction only, wmo and kochendorfer catch ratios are those documented for the configured gauge (within "
  "their wind limits), several corrections are applied in order. Zero precipitation stays zero, missing stays missing, and without configured correction nothing changes.",
  ["inputs", "configurations"],
  "all precipitation, temperature and wind values and missing combinations for every documented gauge",
  "only a single gauge is executed by tests, with fixed data", ["openamundsen/meteo/precipcorr.py"],
  [("correct_station_precipitation", "openamundsen/meteo/precipcorr.py"), ("wmo, kochendorfer", "openamundsen/meteo/precipcorr.py")])
P("P15", "Inverse distance weighting is an exact, bounded, order-independent interpolation",
  "For every set of station values the interpolated value is the mean of the available values weighted with the inverse distance to the configured "
  "power (default two): at a station it is the station value, it lies within the range of the station values, missing stations are ignored "
  "as if they did not exist, the order of stations and the other targets do not matter, and without any value the result is missing.",
  ["inputs", "configurations"],
  "arbitrary and missing values of up to four stations, several geometries, powers and smoothing, a moving target",
  "a relation over all values and geometries", ["openamundsen/interpolation.py"], [("idw", "openamundsen/interpolation.py:idw")])
P("P16", "Interpolated meteorological fields follow trend plus residuals within limits",
  "Station measurements are brought to every grid cell with the configured elevation trend (regression, fixed monthly lapse rate, "
  "fractional, adjustment factor) plus distance weighted residuals: fields linear in elevation are reproduced, values at "
  "stations are exact, without extrapolation fields stay within the station range, and they always stay within the physical range. Humidity is "
  "interpolated as dew point and stays within 0..100 %, wind as vector components. A variable without data is missing everywhere (precipitation: zero); "
  "fields of one variable do not depend on gaps in another.",
  ["inputs", "configurations"],
  "arbitrary and missing measurements of up to four stations at arbitrary elevations, all methods, twelve months",
  "tests use fixed measurements; the methods interact with missing data and limits", ["openamundsen/meteo/interpolation.py", "openamundsen/interpolation.py"],
  [("interpolate_param", "openamundsen/meteo/interpolation.py:interpolate_param"), ("interpolate_station_data", "openamundsen/meteo/interpolation.py"),
   ("apply_linear_trend etc.", "openamundsen/meteo/interpolation.py")])
P("P17", "Soil thermal properties follow the freezing curve, layer by layer",
  "For every soil texture, moisture content and temperature, the water of a soil layer is split into ice and liquid according to the freezing curve "
  "without changing its total; all water is liquid above the freezing point of the layer. The areal heat capacity is that of dry soil, ice and "
  "water plus the latent heat of the freezing water (the derivative of the freezing curve), the conductivity lies "
  "between dry and saturated values, and every layer depends on its own state only. The initial state is consistent with the configured texture, temperature and saturation.",
  ["inputs", "configurations"], "temperature, moisture and texture of four layers",
  "tests never look at the soil; the freezing range needs specific temperatures and moistures", ["openamundsen/modules/soil/soil.py"],
  [("soil_properties", "openamundsen/modules/soil/soil.py:soil_properties"), ("initialize", "openamundsen/modules/soil/soil.py:initialize")])
P("P18", "Turbulent exchange and surface layer follow stability, snow and soil wetness",
  "The stability factor equals the bulk Richardson number formulation for every temperature and wind speed (also calm air and missing data): at most one in stable, at least "
  "one in unstable air, always positive. Roughness lies between that of ground and snow according to the snow cover fraction, the exchange coefficient "
  "follows from roughness and the measurement heights above the snow. Surface layer thickness, temperature and conductivity "
  "are those of the snow and soil they span, and moisture availability lies in 0..1 (one over snow and for condensation).",
  ["inputs", "configurations"], "temperatures, wind speeds (zero, missing), snow depth and cover, soil moisture, measurement heights",
  "tests only run full models with mild weather; no test looks at exchange coefficients", ["openamundsen/surface.py"],
  [("stability_factor, surface_properties, calc_moisture_availability", "openamundsen/surface.py")])
P("P19", "Canopy interception neither creates nor loses snow",
  "For every forest pixel and time step the change of the canopy snow storage equals intercepted snowfall minus canopy sublimation minus melt unload, and the "
  "snow reaching the ground equals snowfall minus interception plus unload; rain is not altered and precipitation remains the sum of both. The storage stays "
  "non-negative and valid under missing data, leafless canopies and loads above the capacity, is not filled beyond its capacity, and pixels without forest are not affected.",
  ["inputs", "histories"], "load, snowfall, rain, temperature, humidity, wind, radiation, leaf area, missing data, consecutive steps",
  "tests run one winter; a changing capacity, missing data and leafless canopies are never met", ["openamundsen/modules/canopy/canopy.py"],
  [("CanopyModel.snow", "openamundsen/modules/canopy/canopy.py:CanopyModel.snow")])
P("P20", "Canopy meteorology: shading, damping and sheltering of above-canopy weather",
  "Inside forest pixels radiation, temperature, humidity and wind speed are those above the canopy modified by the documented functions of the effective leaf area: shortwave and wind "
  "are only reduced, longwave lies between sky and canopy emission, humidity stays within 0..100 %, temperature is damped towards the mean of the last 24 hours of "
  "above-canopy temperatures. The above-canopy values are kept for output, other pixels are not modified, and missing data in one pixel does not affect another.",
  ["inputs", "histories"], "weather of up to six consecutive steps, leaf area, missing temperatures",
  "the 24 hour memory and missing data need specific sequences", ["openamundsen/modules/canopy/canopy.py"],
  [("CanopyModel.meteorology", "openamundsen/modules/canopy/canopy.py:CanopyModel.meteorology"), ("above_canopy_meteorology", "openamundsen/modules/canopy/canopy.py")])
P("P21", "Evapotranspiration closes the soil water balance",
  "For every pixel, weather and soil water state, the changes of evaporation layer depletion, root zone depletion and the interception store of sealed "
  "surfaces equal rain and percolation versus evaporation and transpiration; depletions stay within zero and the available water, actual never exceeds potential "
  "evapotranspiration, evaporation stops when its store is empty and under snow (water bodies excepted). Reference evapotranspiration follows the "
  "FAO Penman-Monteith equation for the time step. Pixels without parameters have none, and missing data do not damage the stores.",
  ["inputs", "histories"], "radiation, rain, snow, depletion, day and night, time steps, soil textures",
  "tests check ranges for one run; dry and wet limits of the stores need specific states", ["openamundsen/modules/evapotranspiration/evapotranspiration.py"],
  [("EvapotranspirationModel.evapotranspiration", "openamundsen/modules/evapotranspiration/evapotranspiration.py:EvapotranspirationModel"),
   ("initialize", "openamundsen/modules/evapotranspiration/evapotranspiration.py:EvapotranspirationModel.initialize")])
P("P22", "Growing season: crop coefficient, height and leaf area follow their stages",
  "For every day of the year, the crop coefficient is the piecewise linear FAO 56 curve through the configured initial, mid and end values over the configured stage lengths (also zero "
  "lengths and several cycles), with the minimum outside of the season, corrected for climate and sparse vegetation; plant height grows "
  "monotonically up to the maximum height. Leaf area index follows the same stages (and cycles) between its minimum and maximum, and effective leaf area adds the configured constant.",
  ["inputs", "configurations"], "day, coefficients, stage lengths, wind and humidity",
  "tests sample a few days of one crop", ["openamundsen/modules/evapotranspiration/evapotranspiration.py", "openamundsen/landcover.py"],
  [("crop_coefficient, climate_correction, sparse_vegetation_adjustment", "openamundsen/modules/evapotranspiration/evapotranspiration.py"), ("LandCover.lai", "openamundsen/landcover.py:LandCover.lai")])
P("P23", "Glacier geometry update redistributes ice without creating or losing it",
  "At the end of each complete mass balance year, and only then, the ice and firn balance of every glacier is redistributed over its pixels with at least ten metres of ice according to the delta-h "
  "curve of its size class: total ice is preserved (unless a pixel runs out of ice), a gain is spread equally, lowering is limited by the terminus balance with the "
  "surplus going to the upper pixels. All other pixels, layers and ice without glacier id keep their mass, layer thickness matches mass and density, also for glaciers on level ground and when state variables are reset.",
  ["inputs", "histories", "configurations"], "ice and firn balances of all pixels, size classes, elevations, start months, dates of the run",
  "tests do not run the glacier model at all", ["openamundsen/modules/glacier/glaciermodel.py"],
  [("GlacierModel.update", "openamundsen/modules/glacier/glaciermodel.py:GlacierModel.update"), ("_ice_mass_change", "openamundsen/modules/glacier/glaciermodel.py")])
AT, IR, CS, SP, TE = ("openamundsen/meteo/atmosphere.py", "openamundsen/modules/radiation/irradiance.py", "openamundsen/modules/radiation/clearsky.py",
                      "openamundsen/modules/radiation/sunparams.py", "openamundsen/terrain.py")
P("P24", "Derived meteorological variables are mutually consistent",
  "Saturation vapour pressure (Magnus over water and ice), vapour pressure, absolute, specific and relative humidity, dew point, air density, pressure, latent heat, psychrometric constant, cloud "
  "fraction and factor, sky emissivity, wind components and wind profile follow their physical formulas; inverse conversions undo each other; warmer air holds more vapour, pressure falls "
  "with height, the dew point is never above the temperature; the wet-bulb temperature solves the psychrometer equation; missing values stay missing per pixel.",
  ["inputs"], "temperature, humidity, pressure, elevation, wind speed and direction, cloudiness", "tests compare single values of few functions",
  [AT, "openamundsen/model.py"],
  [("meteo functions", AT), ("derived fields", "openamundsen/model.py:_process_meteo_data")])
P("P25", "Cloudiness, shortwave and longwave irradiance follow the configured method",
  "Each time step the cloudiness comes from the configured method or, where it has no usable data, from the documented fallback (prescribed, clear-sky fraction, humidity, last value, 0.75), so that it is "
  "known whenever a source exists. The cloud factor lies between 0 and 1 and is the distance weighted station value; shortwave irradiance is clear-sky irradiance times cloud factor and "
  "reproduces the measurement at a station; longwave irradiance is the sum of sky, clouds and surrounding slopes.",
  ["inputs", "configurations"], "station values and gaps, time of day, method, previous cloudiness, temperatures, sky view factors, snow cover", "the cloudiness tests need data that is not available, and sample few gaps",
  [IR, "openamundsen/model.py"],
  [("shortwave_irradiance", IR), ("longwave_irradiance", IR), ("OpenAmundsen._irradiance", "openamundsen/model.py:_irradiance")])
P("P26", "Sun position and clear-sky irradiance follow the published formulas",
  "Declination, equation of time, hour angle and sun vector follow Bourges, Spencer and spherical astronomy for every place and date, do not depend on the time zone in which an instant is expressed, and "
  "day and night are told apart by the sun's elevation. Clear-sky irradiance is zero at night; by day direct and diffuse irradiance follow Corripio's parameterization with the "
  "air mass limited for low sun; shadowed and averted pixels get no direct radiation; coarsened shadows cover their blocks.",
  ["inputs", "configurations"], "place, date, sun position, albedo, sky view factor, orientation, vapour, shadow coarsening", "tests compare few sun positions with reference values and do not run the clear-sky model",
  [SP, CS, IR, "openamundsen/model.py"],
  [("sun_parameters", SP), ("_clear_sky_shortwave_irradiance", CS), ("clear_sky_shortwave_irradiance", IR), ("_irradiance", "openamundsen/model.py:_irradiance")])
P("P27", "Terrain: slope, aspect, normals, shadows, sky view and curvature are geometric",
  "Slope, aspect and normal vectors follow Horn's and Corripio's formulas (for a plane: inclination and direction of descent); a pixel is in shadow iff the terrain towards the sun rises above the ray, "
  "raising a pixel never lights another one; flat terrain is fully lit and sees the whole sky, a wall takes away the sky below its elevation angle; curvature compares a pixel with its "
  "neighbours at the length scale and is scaled to -0.5..0.5 keeping order; openness lies between zenith and horizon.",
  ["inputs"], "elevations of all pixels, sun directions, number of sweeps, length scales", "tests check single synthetic elevation models",
  [TE, "openamundsen/modules/radiation/shadows.py", "openamundsen/util.py"],
  [("slope_aspect, normal_vector, sky_view_factor, curvature, openness", TE), ("shadows", "openamundsen/modules/radiation/shadows.py"), ("normalize_array", "openamundsen/util.py:normalize_array")])
GO, PO = "openamundsen/fileio/griddedoutput.py", "openamundsen/fileio/pointoutput.py"
P("P28", "Gridded outputs hold exactly the time steps of their interval",
  "For every start date, time step, output interval and aggregation, each written field is the sum, mean or instantaneous value over exactly the time steps since the previous "
  "write date, written at the last step of a calendar interval (end-anchored), every n-th step, the begin of month or year, or the requested dates; an interval that the run does not complete is not presented as one. "
  "Values outside of the region of interest are missing, variables are not modified, time bounds match; raster files, NetCDF, append mode, in-memory and pixel list layout hold the same values; unusable requests are rejected.",
  ["inputs", "histories", "configurations"], "start and end date, time step, interval, aggregation, format, layout, values of each step",
  "tests run aligned months; other alignments, formats and layouts combine too many ways", [GO],
  [("GriddedOutputManager.update", GO), ("_freq_write_dates", GO + ":_freq_write_dates"), ("GriddedOutputManager.__init__", GO)])
P("P29", "Point outputs: one row per time step, chunks join without loss or duplicates",
  "The output of every point holds the values of its own pixel (all layers of soil and snow variables) for each time step exactly once and in order, whatever the chunk frequency, time step and run length; "
  "output files begin with the run, so nothing of an earlier run is left in them. Points come from coordinates, lists or stations; "
  "points outside of the grid, duplicate names, unknown variables and shapes are rejected.",
  ["inputs", "histories", "configurations"], "run length, time step, write frequency, format, points, variables, values of each step",
  "tests write one frequency into an empty directory", [PO],
  [("PointOutputManager.update", PO), ("PointOutputManager._write_data", PO)])
FO, FM = "openamundsen/forcing.py", "openamundsen/fileio/meteo.py"
P("P31", "Station data: units are unified, stations are selected and located correctly",
  "Precipitation rates become sums, cloud fractions percentages (percentages stay), wrong units are rejected, unknown variables dropped, data passed in are not changed. Joined "
  "stations keep their own values, times and metadata, what a station does not measure is missing. The stations used are those inside of the bounds and not excluded, plus the "
  "included ones, once each. Every station gets the row and column of the grid cell that contains it and knows whether it lies inside of the grid and the region of interest.",
  ["inputs", "configurations"], "values, units, record lengths, station coordinates, bounds, exclusions and inclusions", "tests cover single units and few station lists", [FO, FM],
  [("make_point_dataset", FO + ":make_point_dataset"), ("combine_point_datasets", FO + ":combine_point_datasets"), ("prepare_point_coordinates", FO + ":prepare_point_coordinates"), ("_apply_station_rules", FM + ":_apply_station_rules")])
P("P32", "Station records are resampled onto the time steps without shift, loss or mixing",
  "For every alignment of records and run, each time step holds the mean (or instantaneous value) of its own interval (sub-daily: ending, daily: beginning with the time step), the precipitation sum "
  "(missing if a record is missing), the largest gust and the direction of the mean wind vector. Values out of the configured ranges are missing beforehand. Records that begin late, end early or lie outside of the run "
  "do not disturb other stations; records in the time step of the run are unchanged; records that cannot serve the time steps, or periods without any data, are rejected, or filled with missing values if checks are disabled.",
  ["inputs", "histories", "configurations"], "begin, end and step of records and run, missing values, values, filter ranges", "tests resample records that begin at midnight and cover the run", [FM],
  [("read_meteo_data", FM + ":read_meteo_data"), ("_slice_and_resample_dataset", FM + ":_slice_and_resample_dataset"), ("_resample_dataset", FM + ":_resample_dataset"), ("_apply_filter", FM + ":_apply_filter")])
MO, SV, CO = "openamundsen/model.py", "openamundsen/statevars.py", "openamundsen/conf.py"
P("P30", "A time step depends on forcing and retained state only, steps run in order",
  "The state after a time step is determined by the forcing and the state variables declared as retained: whatever the other variables (or pixels outside of the region of interest) held before does not matter, "
  "in every model configuration, also with missing measurements; nor does the weather of a pixel matter to the other ones in the same step. Resetting empties exactly the variables that are not retained. "
  "Every time step is processed exactly once and in order, however the run is started; first and last time steps of days, months and years are recognized for every time step and start.",
  ["histories", "configurations", "inputs"], "all values left over from the step before, values outside of the region of interest, begin and step of the run", "tests run with clean states and compare single numbers; a leak needs two runs that differ only in what must not matter",
  [MO, SV, "openamundsen/modules"],
  [("OpenAmundsen.run_single", MO + ":run_single"), ("StateVariableManager.reset", SV), ("OpenAmundsen.run", MO + ":run"), ("timestep_props", MO + ":timestep_props")])
P("P33", "Input grids: every pixel gets its own values, extended grids fit, stations join",
  "Every pixel holds the elevation, sky view factor, redistribution factor, land cover, soil texture and glacier id of its own cell in the files, missing values are recognized, and the region of interest is what is marked and has an "
  "elevation. A missing sky view factor file is calculated and kept. Files of another size, place or resolution are rejected. The model grid is cut out of an extended elevation model at its "
  "place, and stations are asked for in the area of the larger grid; on request the cells of stations join the region of interest. Terrain around the model grid casts its shadows on it, and measurements around it count.",
  ["inputs", "configurations"], "elevations and factors of all pixels, missing values, offsets, resolutions, station coordinates", "tests read few complete files and never an extended elevation model",
  [MO, "openamundsen/util.py", "openamundsen/fileio"],
  [("OpenAmundsen._read_input_data", MO + ":_read_input_data"), ("_read_meteo_data", MO + ":_read_meteo_data"), ("OpenAmundsen.initialize", MO + ":initialize"), ("_read_extended_grids", MO + ":_read_extended_grids"), ("prepare_roi_coordinates", "openamundsen/util.py:prepare_roi_coordinates")])
P("P34", "Configuration: given values are validated, kept and used",
  "Every value given in the configuration is used as given, every other entry keeps its documented default, values outside of the documented ranges, unknown options, missing required entries and models or methods that do not fit "
  "together are rejected. Former names and units are converted to what they stood for; land cover parameters replace exactly those of their class; dates given without a time cover whole days; the dictionary passed in is left alone. "
  "The parameters of the radiation balance are those of the computed fluxes.",
  ["inputs", "configurations"], "all numeric entries, start and end dates, options, flags, land cover parameters", "tests try few valid and invalid values of single entries",
  [CO, "openamundsen/data/configschema.yml", "openamundsen/surface.py", IR],
  [("parse_config", CO + ":parse_config"), ("validate_config", CO + ":validate_config"), ("_parse_end_date", CO + ":_parse_end_date"), ("_merge_land_cover_params", CO + ":_merge_land_cover_params"), ("calc_radiation_balance", "openamundsen/surface.py:calc_radiation_balance"), ("longwave_irradiance", IR + ":longwave_irradiance")])
P("P35", "Every physical parameter has its documented effect",
  "Changing one physical parameter of the configuration (radiation, precipitation phase, measurement heights, snow, soil, canopy, evapotranspiration) changes the variable it is documented for, in the documented direction, in a run "
  "of the whole model: no parameter is ignored, mixed up with another one or applied the other way round, whatever its value in a range around the default.",
  ["inputs", "configurations"], "the value of each parameter", "tests use the default parameters, for which exchanged, ignored or misread parameters go unnoticed",
  ["openamundsen/data/configschema.yml", MO, "openamundsen/modules", "openamundsen/surface.py"],
  [("run_single", MO + ":run_single"), ("modules", "openamundsen/modules"), ("surface", "openamundsen/surface.py")])
