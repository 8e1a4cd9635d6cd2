From 7c8a0e76b45a8ca04ee24b78d8752bc5466b135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:57 +0000
Subject: [PATCH 01/37] fix: avoid NaN layer contents when fully ablated snow
 layers lie below fresh snow

If all layers melt or sublimate within a time step and snow is added on top of
them in the same step (e.g. by resublimation), restructuring the layers
evaluated 0/0 for the ablated layers, turning ice content, liquid water
content and temperature of the whole snowpack into NaN.
---
 openamundsen/modules/snow/multilayermodel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openamundsen/modules/snow/multilayermodel.py b/openamundsen/modules/snow/multilayermodel.py
index 9d04ccf..4e5473f 100644
--- a/openamundsen/modules/snow/multilayermodel.py
+++ b/openamundsen/modules/snow/multilayermodel.py
@@ -613,7 +613,10 @@ def _update_layers(
             # TODO optimize this loop
             for k_old in range(num_layers_prev[i, j]):
                 while True:  # TODO replace with normal loop
-                    weight = min(new_thickness / thickness_prev[k_old, i, j], 1.0)
+                    if thickness_prev[k_old, i, j] > 0:
+                        weight = min(new_thickness / thickness_prev[k_old, i, j], 1.0)
+                    else:  # layer has been fully ablated
+                        weight = 1.0
 
                     ice_content[k_new, i, j] += weight * ice_content_prev[k_old, i, j]
                     liquid_water_content[k_new, i, j] += (
-- 
2.43.0


From 8edba41f4c0ff4030b4484a9ea2110926c96a087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:22 +0000
Subject: [PATCH 02/37] fix: use the soil temperature as lower boundary of the
 snow heat conduction

The implicit solution of the heat equation for the multilayer snowpack used the
temperature of the (usually empty) last snow layer as bottom boundary
temperature, so that the heat leaving the snowpack was not the heat entering
the soil.
---
 openamundsen/modules/snow/multilayermodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openamundsen/modules/snow/multilayermodel.py b/openamundsen/modules/snow/multilayermodel.py
index 4e5473f..c8e1f89 100644
--- a/openamundsen/modules/snow/multilayermodel.py
+++ b/openamundsen/modules/snow/multilayermodel.py
@@ -84,6 +84,7 @@ class MultilayerSnowModel(SnowModel):
             s.soil.thickness,
             model.timestep,
             s.snow.temp,
+            s.soil.temp,
             s.snow.therm_cond,
             s.soil.therm_cond,
             s.surface.heat_flux,
@@ -447,6 +448,7 @@ def _heat_conduction(
     soil_thickness,
     timestep,
     temp,
+    soil_temp,
     therm_cond_snow,
     therm_cond_soil,
     heat_flux,
@@ -476,6 +478,9 @@ def _heat_conduction(
     temp : ndarray(float, ndim=3)
         Snow temperature (K).
 
+    soil_temp : ndarray(float, ndim=3)
+        Soil temperature (K).
+
     therm_cond_snow : ndarray(float, ndim=3)
         Snow thermal conductivity (W m-1 K-1).
 
@@ -506,7 +511,7 @@ def _heat_conduction(
                 timestep,
                 temp[:ns, i, j],
                 therm_cond_snow[:ns, i, j],
-                temp[-1, i, j],
+                soil_temp[0, i, j],
                 soil_thickness[0, i, j],
                 therm_cond_soil[0, i, j],
                 heat_flux[i, j],
-- 
2.43.0


From f45c0b341813e126ba8dae188dcc54caa6efff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:24 +0000
Subject: [PATCH 03/37] fix: update the turbulent fluxes consistently with the
 surface temperature change

The sensible heat and moisture fluxes are oriented towards the surface, but the
changes resulting from the surface temperature change were added with the sign
of the upward-oriented formulation of FSM, and the updated moisture flux was
subsequently overwritten with the flux for the previous surface temperature.
The reported sensible heat flux could hence even point away from the warmer
surface temperature difference, and the energy balance did not close.
---
 openamundsen/surface.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 952212e..54cf3e3 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -199,7 +199,7 @@ def multilayer_energy_balance(model):
     s.surface.sens_heat_flux[roi] += sens_heat_flux_change
     calc_radiation_balance(model, roi)
     calc_latent_heat(model, roi)
-    calc_turbulent_fluxes(model, roi, sensible=False)
+    s.surface.lat_heat_flux[roi] = s.surface.lat_heat[roi] * s.surface.moisture_flux[roi]
 
 
 def cryo_layer_energy_balance(model):
@@ -762,7 +762,9 @@ def solve_energy_balance(model, pos):
         )
     )
 
-    surf_moisture_flux_change = (  # eq. (33) (kg m-2 s-1)
+    # The turbulent fluxes are (opposed to [1]) oriented towards the surface, i.e., they decrease when
+    # the surface warms
+    surf_moisture_flux_change = -1 * (  # eq. (33) (kg m-2 s-1)
         s.surface.moisture_availability[pos] * rhoa_CH_Ua * dQsat_by_dTs * surf_temp_change
     )
 
@@ -770,7 +772,7 @@ def solve_energy_balance(model, pos):
         2 * s.surface.therm_cond[pos] * surf_temp_change / s.surface.thickness[pos]
     )
 
-    sens_heat_flux_change = (  # eq. (35) (W m-2)
+    sens_heat_flux_change = -1 * (  # eq. (35) (W m-2)
         constants.SPEC_HEAT_CAP_DRY_AIR * rhoa_CH_Ua * surf_temp_change
     )
 
-- 
2.43.0


From 9e78b29c6d50c7ba0416f0c4a588d465ab064e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:58 +0000
Subject: [PATCH 04/37] fix: keep surface humidity consistent with the clipped
 snow surface temperature

---
 openamundsen/surface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 54cf3e3..a4934b6 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -903,3 +903,6 @@ def iterate_surface_temperature(model, frosties):
 
         # TODO calculate melt when surface temperature is positive after iteration?
         s.surface.temp[frosties] = s.surface.temp[frosties].clip(max=constants.T0)
+
+        # Saturation specific humidity still corresponds to the unclipped temperature
+        calc_saturation_specific_humidity(model, frosties)
-- 
2.43.0


From a56b0bc080fca269e436da34bb3eb0f617bcf081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:42 +0000
Subject: [PATCH 05/37] fix: allow all documented gauges in the wmo
 precipitation correction

---
 openamundsen/meteo/precipcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/meteo/precipcorr.py b/openamundsen/meteo/precipcorr.py
index 7a83ff5..1c2a738 100644
--- a/openamundsen/meteo/precipcorr.py
+++ b/openamundsen/meteo/precipcorr.py
@@ -180,7 +180,7 @@ def correct_station_precipitation(model):
             elif gauge == "us_unsh":
                 cr[pos_snow] = np.exp(4.61 - 0.16 * wind_speeds_2m[pos_snow] ** 1.28)
                 cr[pos_mixed] = 100.77 - 8.34 * wind_speeds_2m[pos_mixed]
-            if gauge == "hellmann":
+            elif gauge == "hellmann":
                 cr[pos_snow] = (
                     100 + 1.13 * wind_speeds_2m[pos_snow] ** 2 - 19.45 * wind_speeds_2m[pos_snow]
                 )
-- 
2.43.0


From 1a3ad4bf1407e17016795513c35592f5f5cd3cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:19 +0000
Subject: [PATCH 06/37] fix: restrict interpolated humidity to the range of the
 station humidities

---
 openamundsen/meteo/interpolation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index 6cc252e..fd60ed3 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -518,8 +518,9 @@ def interpolate_param(
     # Restrict interpolated values to the range of the point values if extrapolation is disabled in
     # the parameter config
     if not param_config["extrapolate"] and len(data) > 0:
-        min_range = np.nanmin(data)
-        max_range = np.nanmax(data)
+        point_values = rel_hums if param == "rel_hum" else data
+        min_range = np.nanmin(point_values)
+        max_range = np.nanmax(point_values)
 
         if np.isfinite(min_range):
             data_interpol = np.clip(data_interpol, min_range, max_range)
-- 
2.43.0


From b0dd5b5b46b744ef5a549212f5608f14442de5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:58 +0000
Subject: [PATCH 07/37] fix: use temperature in degrees Celsius for the latent
 heat term of the soil heat capacity

---
 openamundsen/modules/soil/soil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/soil/soil.py b/openamundsen/modules/soil/soil.py
index f45aeef..0ca0f9a 100644
--- a/openamundsen/modules/soil/soil.py
+++ b/openamundsen/modules/soil/soil.py
@@ -171,7 +171,7 @@ def _soil_properties(
                     + c.ICE_DENSITY * c.SPEC_HEAT_CAP_ICE * vol_frozen_moisture_content
                     + c.WATER_DENSITY
                     * (
-                        (c.SPEC_HEAT_CAP_WATER - c.SPEC_HEAT_CAP_ICE) * temp[k, i, j]
+                        (c.SPEC_HEAT_CAP_WATER - c.SPEC_HEAT_CAP_ICE) * (temp[k, i, j] - c.T0)
                         + c.LATENT_HEAT_OF_FUSION
                     )
                     * dTheta_u_by_dT
-- 
2.43.0


From 7b0e025c62a5e29e1d2ebfa14c168225195db973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:58 +0000
Subject: [PATCH 08/37] fix: allow missing temperatures in part of the forest
 pixels

---
 openamundsen/modules/canopy/canopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/canopy/canopy.py b/openamundsen/modules/canopy/canopy.py
index 49fd295..fd74e93 100644
--- a/openamundsen/modules/canopy/canopy.py
+++ b/openamundsen/modules/canopy/canopy.py
@@ -91,7 +91,7 @@ class CanopyModel:
         pos_finite_temp = pos & np.isfinite(mean_24h_temp)
         delta_t = ((mean_24h_temp[pos_finite_temp] - c.T0) / 3).clip(-2, 2)  # eq. (5)
         s.meteo.temp[pos_finite_temp] -= (  # eq. (4)
-            canopy_frac
+            canopy_frac[pos_finite_temp[pos]]
             * (
                 s.meteo.temp[pos_finite_temp]
                 - (
-- 
2.43.0


From 1e01d4f2d64bde88e3daeefe7cdaa80887fce14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:18 +0000
Subject: [PATCH 09/37] fix: do not lose intercepted snow when the canopy
 storage capacity decreases

---
 openamundsen/modules/canopy/canopy.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/openamundsen/modules/canopy/canopy.py b/openamundsen/modules/canopy/canopy.py
index fd74e93..a76c51f 100644
--- a/openamundsen/modules/canopy/canopy.py
+++ b/openamundsen/modules/canopy/canopy.py
@@ -187,12 +187,15 @@ class CanopyModel:
         max_interception_storage = (
             model.config.canopy.max_interception_storage_coefficient * s.land_cover.lai_eff[pos]
         )
-        new_canopy_intercepted_load = s.snow.canopy_intercepted_load[pos] + 0.7 * (
-            max_interception_storage - s.snow.canopy_intercepted_load[pos]
-        ) * (1 - np.exp(-s.meteo.snowfall[pos] / max_interception_storage))
-        s.snow.canopy_intercepted_snowfall[pos] = (
-            new_canopy_intercepted_load - s.snow.canopy_intercepted_load[pos]
-        ).clip(min=0)
+        intercepted_snowfall = np.zeros(max_interception_storage.shape)
+        pos_store = max_interception_storage > s.snow.canopy_intercepted_load[pos]
+        intercepted_snowfall[pos_store] = (
+            0.7
+            * (max_interception_storage[pos_store] - s.snow.canopy_intercepted_load[pos][pos_store])
+            * (1 - np.exp(-s.meteo.snowfall[pos][pos_store] / max_interception_storage[pos_store]))
+        )
+        new_canopy_intercepted_load = s.snow.canopy_intercepted_load[pos] + intercepted_snowfall
+        s.snow.canopy_intercepted_snowfall[pos] = intercepted_snowfall
         s.snow.canopy_intercepted_load[pos] = new_canopy_intercepted_load
 
         # Canopy exposure coefficient (eq. (23))
-- 
2.43.0


From 2b0ddb291e101761c5f136f654f96d6b81e6758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:18 +0000
Subject: [PATCH 10/37] fix: keep the canopy snow storage valid in time steps
 with missing data

---
 openamundsen/modules/canopy/canopy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openamundsen/modules/canopy/canopy.py b/openamundsen/modules/canopy/canopy.py
index a76c51f..23250c1 100644
--- a/openamundsen/modules/canopy/canopy.py
+++ b/openamundsen/modules/canopy/canopy.py
@@ -194,6 +194,7 @@ class CanopyModel:
             * (max_interception_storage[pos_store] - s.snow.canopy_intercepted_load[pos][pos_store])
             * (1 - np.exp(-s.meteo.snowfall[pos][pos_store] / max_interception_storage[pos_store]))
         )
+        intercepted_snowfall[np.isnan(intercepted_snowfall)] = 0.0
         new_canopy_intercepted_load = s.snow.canopy_intercepted_load[pos] + intercepted_snowfall
         s.snow.canopy_intercepted_snowfall[pos] = intercepted_snowfall
         s.snow.canopy_intercepted_load[pos] = new_canopy_intercepted_load
@@ -221,7 +222,7 @@ class CanopyModel:
         # Instead of applying an additional scaling factor to the default degree day factors for
         # snow on the ground as in [1], here a distinct degree day factor for canopy-intercepted
         # snow is used directly.
-        s.snow.canopy_melt[pos] = np.minimum(
+        canopy_melt = np.minimum(
             (
                 model.config.canopy.degree_day_factor
                 * (s.meteo.temp[pos] - c.T0).clip(min=0)
@@ -230,6 +231,8 @@ class CanopyModel:
             ),
             s.snow.canopy_intercepted_load[pos],
         )
+        canopy_melt[np.isnan(canopy_melt)] = 0.0
+        s.snow.canopy_melt[pos] = canopy_melt
         s.snow.canopy_intercepted_load[pos] -= s.snow.canopy_melt[pos]
 
         # Precipitation reaching the ground: reduce snowfall by canopy interception and increase by
-- 
2.43.0


From 1c4072d67e01456287041fa629c592ab35f8afc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:48 +0000
Subject: [PATCH 11/37] fix: calculate deep percolation from the evaporation
 layer from its depletion

---
 openamundsen/modules/evapotranspiration/evapotranspiration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/evapotranspiration/evapotranspiration.py b/openamundsen/modules/evapotranspiration/evapotranspiration.py
index aeb9bc6..18df8ad 100644
--- a/openamundsen/modules/evapotranspiration/evapotranspiration.py
+++ b/openamundsen/modules/evapotranspiration/evapotranspiration.py
@@ -480,7 +480,7 @@ class EvapotranspirationModel:
             precip
             - precip_runoff
             + irrigation / wetted_frac
-            - s_et.deep_percolation_evaporation_layer[pos]
+            - s_et.cum_soil_surface_depletion[pos]
         ).clip(min=0)
         s_et.cum_soil_surface_depletion[pos] = (  # eq. (77)
             s_et.cum_soil_surface_depletion[pos]
-- 
2.43.0


From bc099a77507b7572356ab345889d0aa03b6cffe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:48 +0000
Subject: [PATCH 12/37] fix: correct the air density in the sealed surface
 evaporation

---
 openamundsen/modules/evapotranspiration/evapotranspiration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/evapotranspiration/evapotranspiration.py b/openamundsen/modules/evapotranspiration/evapotranspiration.py
index 18df8ad..935e70d 100644
--- a/openamundsen/modules/evapotranspiration/evapotranspiration.py
+++ b/openamundsen/modules/evapotranspiration/evapotranspiration.py
@@ -579,7 +579,7 @@ class EvapotranspirationModel:
         ea = s.meteo.vap_press[pos_dry]  # actual vapor pressure (Pa)
 
         Tv = 1.01 * s.meteo.top_canopy_temp[pos_dry]  # virtual temperature (K)
-        rhoa = s.meteo.atmos_press[pos_dry] / c.GAS_CONSTANT_DRY_AIR * Tv  # air density at constant pressure (kg m-3) # fmt: skip # noqa: E501
+        rhoa = s.meteo.atmos_press[pos_dry] / (c.GAS_CONSTANT_DRY_AIR * Tv)  # air density at constant pressure (kg m-3) # fmt: skip # noqa: E501
         cp = (  # specific heat at constant pressure (J kg-1 K-1) (p. 26)
             gamma * 0.622 * c.LATENT_HEAT_OF_VAPORIZATION / s.meteo.atmos_press[pos_dry]
         )
-- 
2.43.0


From b481869ed536514cf95ff3fb11d47a4cc5c7222e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:27 +0000
Subject: [PATCH 13/37] fix: keep the ice mass of pixels without glacier
 geometry update

The ice content of all pixels was recalculated from the layer thickness
assuming a density of 917 kg m-3, whereas the density of the ice layer is
set by the model to snow.cryolayers.transition.ice (by default 900 kg m-3), so
that ice mass was created at the end of each mass balance year also for
pixels (and glaciers) which are not subject to the geometry update.
---
 openamundsen/modules/glacier/glaciermodel.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index e83ffe5..e36c12f 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -65,7 +65,7 @@ class GlacierModel:
         firn_mb = mb_layers[CryoLayerID.FIRN, :]
         mb = ice_mb + firn_mb
         old_ice_thickness = self.mass_balance_start_we[CryoLayerID.ICE, :] / c.ICE_DENSITY
-        new_ice_thickness = s.snow.thickness[CryoLayerID.ICE, :].copy()
+        new_ice_content = s.snow.ice_content[CryoLayerID.ICE, :].copy()
 
         for gid in self.glacier_ids:
             gpos = (s.glaciers.glacier == gid) & (old_ice_thickness > 0.0)
@@ -121,13 +121,15 @@ class GlacierModel:
                 max_allowed_change,
             )
 
-            new_ice_thickness[update_pos] = (
-                old_ice_thickness[update_pos] + (mass_change - firn_mb[update_pos]) / c.ICE_DENSITY
+            new_ice_content[update_pos] = (
+                self.mass_balance_start_we[CryoLayerID.ICE, update_pos]
+                + mass_change
+                - firn_mb[update_pos]
             ).clip(min=0.0)
 
-        s.snow.thickness[CryoLayerID.ICE, :] = new_ice_thickness
-        s.snow.ice_content[CryoLayerID.ICE, :] = new_ice_thickness * c.ICE_DENSITY
+        s.snow.ice_content[CryoLayerID.ICE, :] = new_ice_content
 
+        # Also update the layer thicknesses
         model.snow.update_layers()
 
         # TODO: when glacier advance is enabled, update the previous ice mass distributions here
-- 
2.43.0


From c23a8d2a0aaa79b24ba301d5ff0db76b75b16ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:27 +0000
Subject: [PATCH 14/37] fix: set ice density when the geometry update assigns
 ice to ice-free pixels

Otherwise the layer thickness would become NaN, since the density of empty
layers is undefined.
---
 openamundsen/modules/glacier/glaciermodel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index e36c12f..ce83012 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -129,6 +129,10 @@ class GlacierModel:
 
         s.snow.ice_content[CryoLayerID.ICE, :] = new_ice_content
 
+        # Pixels for which all ice has melted during the year might contain ice again
+        new_ice_pos = (new_ice_content > 0.0) & (s.snow.thickness[CryoLayerID.ICE, :] <= 0.0)
+        s.snow.density[CryoLayerID.ICE, new_ice_pos] = model.config.snow.cryolayers.transition.ice
+
         # Also update the layer thicknesses
         model.snow.update_layers()
 
-- 
2.43.0


From e6d043fb0eb85364179a2e86128a7ffe317231c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:28 +0000
Subject: [PATCH 15/37] fix: handle glaciers with all pixels at the same
 elevation

The normalized elevation range is undefined in this case, resulting in NaN
ice amounts (and the same was true when distributing a mass loss surplus to
pixels with the same elevation).
---
 openamundsen/modules/glacier/glaciermodel.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index ce83012..6c4b477 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -172,7 +172,13 @@ def _ice_mass_change(elevs, total_mb, glacier_area, max_allowed_change):
     if total_mb < 0:
         min_elev = elevs.min()
         max_elev = elevs.max()
-        normalized_elevs = (max_elev - elevs) / (max_elev - min_elev)
+
+        if max_elev > min_elev:
+            normalized_elevs = (max_elev - elevs) / (max_elev - min_elev)
+        else:
+            # All pixels are at the same elevation -> distribute the mass loss equally
+            normalized_elevs = np.ones(elevs.shape)
+
         delta_h = _delta_h(normalized_elevs, glacier_area)
         fs = total_mb / delta_h.sum()
         mass_change = fs * delta_h
@@ -209,6 +215,10 @@ def _delta_h(h, glacier_area):
 def _mass_loss_surplus_distribution(mass_loss, elevs):
     min_elev = elevs.min()
     max_elev = elevs.max()
+
+    if max_elev == min_elev:
+        return np.full(elevs.shape, mass_loss / elevs.size)
+
     min_mass = 0.0
 
     x0 = 0.0
-- 
2.43.0


From dbc8d1e3d14cb900abfb96595403e27dfbf75bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:28 +0000
Subject: [PATCH 16/37] fix: retain glacier ids when resetting state variables

With reset_state_variables enabled the glacier IDs were lost after the first
time step and the geometry update was never performed.
---
 openamundsen/modules/glacier/glaciermodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index 6c4b477..1fa83ae 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -28,7 +28,7 @@ class GlacierModel:
         self.model = model
         s = model.state
         sg = s.add_category("glaciers")
-        sg.add_variable("glacier", long_name="Glacier ID", dtype=int)
+        sg.add_variable("glacier", long_name="Glacier ID", dtype=int, retain=True)
         self.mass_balance_start_we = None
 
     def initialize(self):
-- 
2.43.0


From 8af7e08557d5b2455a68b64578db37bfca5522e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:02 +0000
Subject: [PATCH 17/37] fix: divide by temperature in dry_air_density

The density of an ideal gas is p / (R T).
---
 openamundsen/meteo/atmosphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/meteo/atmosphere.py b/openamundsen/meteo/atmosphere.py
index 2d76a1a..4caa8c5 100644
--- a/openamundsen/meteo/atmosphere.py
+++ b/openamundsen/meteo/atmosphere.py
@@ -71,7 +71,7 @@ def dry_air_density(temp, pressure):
     density : numeric
         Dry air density (kg m-3).
     """
-    return pressure * (c.GAS_CONSTANT_DRY_AIR * temp)
+    return pressure / (c.GAS_CONSTANT_DRY_AIR * temp)
 
 
 def latent_heat_of_vaporization(temp):
-- 
2.43.0


From 31d76e531f1d1c5ae28f86a0eb5c4631fde336d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:10 +0000
Subject: [PATCH 18/37] fix: limit the relative optical air mass instead of its
 reciprocal

---
 openamundsen/modules/radiation/clearsky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openamundsen/modules/radiation/clearsky.py b/openamundsen/modules/radiation/clearsky.py
index a34a852..fb679d5 100644
--- a/openamundsen/modules/radiation/clearsky.py
+++ b/openamundsen/modules/radiation/clearsky.py
@@ -106,8 +106,8 @@ def _clear_sky_shortwave_irradiance(
     aoi = aoi.clip(min=0)  # shadows due to steepness of the slope (sun "behind")
 
     # Relative optical air mass for standard pressure (Iqbal 1983)
-    rel_opt_air_mass = 1.0 / (
-        np.cos(zenith_angle) + 0.15 * (93.885 - np.rad2deg(zenith_angle)) ** (-1.253)
+    rel_opt_air_mass = (
+        1.0 / (np.cos(zenith_angle) + 0.15 * (93.885 - np.rad2deg(zenith_angle)) ** (-1.253))
     ).clip(max=14.1952)  # function is only valid for zenith angles up to 87°
 
     # Relative optical air mass pressure corrected
-- 
2.43.0


From 4cad669a5a238e373352d89a7c5915852efd9178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:10 +0000
Subject: [PATCH 19/37] fix: correct the polynomial of the aerosol forward
 scattering ratio

---
 openamundsen/modules/radiation/clearsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/radiation/clearsky.py b/openamundsen/modules/radiation/clearsky.py
index fb679d5..4999222 100644
--- a/openamundsen/modules/radiation/clearsky.py
+++ b/openamundsen/modules/radiation/clearsky.py
@@ -153,7 +153,7 @@ def _clear_sky_shortwave_irradiance(
     )
 
     # Aerosol-scattered diffuse irradiance
-    scattering_ratio = -0.2562 * zenith_angle**2 * 0.1409 * zenith_angle + 0.9067
+    scattering_ratio = -0.2562 * zenith_angle**2 + 0.1409 * zenith_angle + 0.9067
     trans_aerosol_ratio = ts["trans_aerosols"] / ts["trans_aerosol_abs"]
     diff_irr_aerosols = (
         0.79
-- 
2.43.0


From 78fc0f774ef58127d95367bb1ec2e912a3f6beaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:34 +0000
Subject: [PATCH 20/37] fix: do not count radiation stations without clear-sky
 irradiance as cloudiness source

---
 openamundsen/modules/radiation/irradiance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openamundsen/modules/radiation/irradiance.py b/openamundsen/modules/radiation/irradiance.py
index edbb57a..d13f3cf 100644
--- a/openamundsen/modules/radiation/irradiance.py
+++ b/openamundsen/modules/radiation/irradiance.py
@@ -181,9 +181,9 @@ def shortwave_irradiance(model):
             method = "clear_sky_fraction"
 
     if method == "clear_sky_fraction":
-        # Select stations within the grid extent and with shortwave radiation measurements for the
-        # current time step
-        ds_rad = meteo_ds.sel(station=model.meteo.within_grid_extent).dropna(
+        # Select stations within the ROI (clear-sky irradiance is only available there) and with
+        # shortwave radiation measurements for the current time step
+        ds_rad = meteo_ds.sel(station=model.meteo.within_roi).dropna(
             "station",
             subset=["sw_in"],
         )
-- 
2.43.0


From d6fde8712debe9e5b9bc307568643575905c315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:30 +0000
Subject: [PATCH 21/37] fix: return the center of the range when normalizing
 uniform arrays

---
 openamundsen/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openamundsen/util.py b/openamundsen/util.py
index 0a40726..8178ce8 100644
--- a/openamundsen/util.py
+++ b/openamundsen/util.py
@@ -380,5 +380,9 @@ def normalize_array(data, min, max):  # noqa: A002
     data = np.asarray(data)
     data_min = np.nanmin(data)
     data_max = np.nanmax(data)
+
+    if data_max == data_min:  # no variation, use the center of the range
+        return np.where(np.isnan(data), np.nan, 0.5 * (min + max))
+
     scale_factor = (max - min) / (data_max - data_min)
     return min + scale_factor * (data - data_min)
-- 
2.43.0


From 4d6f8b3f366191aeebdc720a7b0a9600771c7f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:30 +0000
Subject: [PATCH 22/37] fix: convert the wind direction diverting factor to
 degrees

---
 openamundsen/meteo/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index fd60ed3..9afe55e 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -583,7 +583,7 @@ def _liston_wind_correction(
         + wind_config.slope_weight * wind_slope_scaled
         + wind_config.curvature_weight * target_scaled_curvatures
     )
-    wind_dir_diverting_factor = (  # eq. (18)
+    wind_dir_diverting_factor = np.rad2deg(  # eq. (18)
         -0.5 * wind_slope_scaled * np.sin(-2 * wind_dir_minus_aspect)
     )
     wind_speed_corr = wind_speed_roi * wind_weighting_factor
-- 
2.43.0


From 02ffb13c42a88315facd30b1f43cf1a51194bd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:07 +0000
Subject: [PATCH 23/37] fix: write gridded outputs at the last time step of
 their interval

---
 openamundsen/fileio/griddedoutput.py | 57 ++++++++++++++--------------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/openamundsen/fileio/griddedoutput.py b/openamundsen/fileio/griddedoutput.py
index 532fe45..4fc26b1 100644
--- a/openamundsen/fileio/griddedoutput.py
+++ b/openamundsen/fileio/griddedoutput.py
@@ -713,32 +713,17 @@ def _freq_write_dates(dates, out_freq, agg):
                     "not supported for timesteps > 1d"
                 )
 
-            period_end_dates = (
-                pd.period_range(
-                    start=dates[0],
-                    end=dates[-1],
-                    freq=out_offset,
-                )
-                .asfreq(model_freq, how="end")
-                .to_timestamp()
-            )
-
-            d0 = dates[dates <= period_end_dates[0]][-1]
-            write_dates = period_end_dates + (d0 - period_end_dates[0])
-
-            if period_end_dates[0] - write_dates[0] > pd.Timedelta("24h"):
-                write_dates = write_dates.delete(0)
-
-            # Keep the last output interval only if it is fully covered (e.g., do not write half
-            # months)
-            if len(write_dates) > 0 and write_dates[-1] > dates[-1]:
-                write_dates = write_dates.delete(-1)
+            write_dates = dates[_last_of_period(dates, out_offset, model_freq_td)]
         else:
             write_dates = pd.date_range(
                 start=dates[0] + out_freq_td - model_freq_td,
                 end=dates[-1],
                 freq=out_offset,
             )
+    elif isinstance(out_offset, (pd.tseries.offsets.YearEnd, pd.tseries.offsets.MonthEnd)) and (
+        model_freq_td < pd.Timedelta(days=1)
+    ):
+        write_dates = dates[_last_of_period(dates, out_offset, model_freq_td)]
     else:
         write_dates = pd.date_range(
             start=dates[0],
@@ -746,18 +731,32 @@ def _freq_write_dates(dates, out_freq, agg):
             freq=out_offset,
         )
 
-        if any(
-            isinstance(out_offset, o)
-            for o in (
-                pd.tseries.offsets.YearEnd,
-                pd.tseries.offsets.MonthEnd,
-            )
-        ) and model_freq_td < pd.Timedelta(days=1):
-            write_dates += pd.Timedelta(days=1) - model_freq_td
-
     return write_dates
 
 
+def _last_of_period(dates, offset, timestep):
+    """
+    Determine which dates are the last time steps of the calendar periods (e.g. months) defined by
+    an anchored offset. The last period is only included if it is fully covered by `dates`.
+
+    Parameters
+    ----------
+    dates : pd.DatetimeIndex
+        Simulation dates.
+
+    offset : pd.offsets.BaseOffset
+        Anchored offset (e.g. 'ME').
+
+    timestep : pd.Timedelta
+        Model time step.
+
+    Returns
+    -------
+    last : np.array of bool
+    """
+    return dates.to_period(offset) != (dates + timestep).to_period(offset)
+
+
 def _is_anchored(offset: pd.offsets.BaseOffset) -> bool:
     """
     Replicates the is_anchored() method for an offset object, which is deprecated as of pandas
-- 
2.43.0


From 51a9bde28af080a7f435c884dd8e999b94bcbbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:07 +0000
Subject: [PATCH 24/37] fix: overwrite existing point output files also when
 time steps do not hit the first write date

---
 openamundsen/fileio/pointoutput.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openamundsen/fileio/pointoutput.py b/openamundsen/fileio/pointoutput.py
index fcd44ca..f560261 100644
--- a/openamundsen/fileio/pointoutput.py
+++ b/openamundsen/fileio/pointoutput.py
@@ -409,7 +409,7 @@ class PointOutputManager:
             if self.format == "netcdf":
                 filename = self.model.config.results_dir / "output_timeseries.nc"
 
-                if date == self.write_dates[0]:
+                if date <= self.write_dates[0]:
                     ds.to_netcdf(filename, engine=constants.NETCDF_ENGINE)
                 else:
                     with xr.open_dataset(filename) as old_ds:
@@ -448,7 +448,7 @@ class PointOutputManager:
 
                     df = ds_out_point.to_dataframe()
 
-                    if date == self.write_dates[0]:
+                    if date <= self.write_dates[0]:
                         df.to_csv(filename)
                     else:
                         df.to_csv(filename, mode="a", header=False)
-- 
2.43.0


From de8b50a39a515417af0f16855b7bcf9e49ff6b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:07 +0000
Subject: [PATCH 25/37] fix: convert unitless cloud fractions depending on the
 number of dates and units

---
 openamundsen/forcing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openamundsen/forcing.py b/openamundsen/forcing.py
index 9dbb627..d4f5d6f 100644
--- a/openamundsen/forcing.py
+++ b/openamundsen/forcing.py
@@ -142,8 +142,9 @@ def make_point_dataset(
             # explicitly set to "1" or if no units are set but the maximum cloud fraction value is
             # <= 1. (As the cloud_fraction model variable has units "1" but for the forcing data
             # units "%" are expected, this could happen easily.)
-            if data["cloud_fraction"].attrs.get("units") == "1" or (
-                len(data) > 10 and data["cloud_fraction"].max() <= 1
+            units = data["cloud_fraction"].attrs.get("units")
+            if units == "1" or (
+                units is None and len(dates) > 10 and data["cloud_fraction"].max() <= 1
             ):
                 data["cloud_fraction"] *= 100
                 data["cloud_fraction"].attrs["units"] = "%"
@@ -151,7 +152,7 @@ def make_point_dataset(
         units = meta["units"]
         if "units" in data[var].attrs and data[var].units != units:
             raise errors.MeteoDataError(
-                f"{var} has wrong units: expected {units}, got {ds[var].units}"
+                f"{var} has wrong units: expected {units}, got {data[var].units}"
             )
 
         ds[var].values[:] = data[var].values
-- 
2.43.0


From 69916fc7a1aea76932f4de6e55b50bc5b253a20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:07 +0000
Subject: [PATCH 26/37] fix: align daily resampling with the model time steps
 instead of the first record

---
 openamundsen/fileio/meteo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index e9558ee..227b80c 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -328,7 +328,8 @@ def _slice_and_resample_dataset(ds, start_date, end_date, freq, aggregate=False)
             )
             aggregate = True
 
-        end_date = (end_date + td_1d).normalize()
+        # keep data until the end of the last day for aggregation
+        end_date = pd.date_range(start=start_date, end=end_date, freq=freq)[-1] + td_1d
 
     if inferred_freq is not None and inferred_freq != freq:
         # keep data from previous day for aggregation, if present
@@ -381,7 +382,7 @@ def _resample_dataset(ds, start_date, end_date, freq, aggregate=False):
         resample_kwargs = {
             "label": "left",
             "closed": "right",
-            "origin": "start",
+            "origin": pd.Timestamp(start_date),
         }
     else:
         raise errors.MeteoDataError("Resampling to frequencies > 1 day is not supported")
-- 
2.43.0


From edc362f572b72b45ce1c0836e2c568da21535052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:07 +0000
Subject: [PATCH 27/37] fix: do not resample daily records if the time step is
 specified as 24h or 1D

---
 openamundsen/fileio/meteo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index 227b80c..07addee 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -331,7 +331,7 @@ def _slice_and_resample_dataset(ds, start_date, end_date, freq, aggregate=False)
         # keep data until the end of the last day for aggregation
         end_date = pd.date_range(start=start_date, end=end_date, freq=freq)[-1] + td_1d
 
-    if inferred_freq is not None and inferred_freq != freq:
+    if inferred_freq is not None and util.to_offset(inferred_freq) != util.to_offset(freq):
         # keep data from previous day for aggregation, if present
         ds = ds.sel(time=slice(start_date - td_1d, end_date))
         ds = _resample_dataset(ds, start_date, end_date, freq, aggregate=aggregate)
-- 
2.43.0


From bfa9e42fd384515d789b5d0a4486a242f66065c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:07 +0000
Subject: [PATCH 28/37] fix: resample records which end off a model time step
 or before the first one

---
 openamundsen/fileio/meteo.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index 07addee..5a8bcaf 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -402,10 +402,9 @@ def _resample_dataset(ds, start_date, end_date, freq, aggregate=False):
         if "wind_dir" in df.columns:
             df_res["wind_dir"] = _aggregate_wind_dir(df, freq, resample_kwargs)
 
-        # We might end up with an extra bin after resampling; remove it here
-        df_res = df_res.loc[start_date:end_date]
-        if df_res.index[0] < df.index[0]:
-            df_res = df_res.iloc[1:]
+        # We might end up with an extra (incomplete) bin before or after the available data after
+        # resampling; remove it here
+        df_res = df_res.loc[start_date:end_date].loc[df.index[0] : df.index[-1]]
     else:
         # Take the instantaneous values
         df_res = df.reindex(
-- 
2.43.0


From 0aba022e146f265fbb338ce3039b438f644b7f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:07 +0000
Subject: [PATCH 29/37] fix: check the availability of meteo data for the time
 steps of the model run

---
 openamundsen/fileio/meteo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index 5a8bcaf..c2bd752 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -149,11 +149,11 @@ def read_meteo_data(
     ds_combined = forcing.combine_point_datasets(datasets)
     dates_combined = ds_combined.time.to_index()
 
-    if dates_combined[0] > start_date or dates_combined[-1] < end_date:
+    required_dates = pd.date_range(start=start_date, end=end_date, freq=freq)
+
+    if not required_dates.isin(dates_combined).all():
         if not raise_on_missing_data:
-            ds_combined = ds_combined.reindex(
-                time=pd.date_range(start=start_date, end=end_date, freq=freq),
-            )
+            ds_combined = ds_combined.reindex(time=required_dates)
         else:
             raise errors.MeteoDataError(
                 "Insufficient meteo data available.\n"
-- 
2.43.0


From ab73f5dd90f099cb49101ee658700c0d59a61eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:57 +0000
Subject: [PATCH 30/37] fix: reset boolean state variables which are not
 retained

---
 openamundsen/statevars.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openamundsen/statevars.py b/openamundsen/statevars.py
index 24132a8..f9bc53d 100644
--- a/openamundsen/statevars.py
+++ b/openamundsen/statevars.py
@@ -12,6 +12,7 @@ _DTYPE_INIT_VALS = {
 }
 _DTYPE_INIT_VALS[np.dtype("float64")] = _DTYPE_INIT_VALS[float]
 _DTYPE_INIT_VALS[np.dtype("int64")] = _DTYPE_INIT_VALS[int]
+_DTYPE_INIT_VALS[np.dtype("bool")] = _DTYPE_INIT_VALS[bool]
 
 
 class StateVariableManager:
-- 
2.43.0


From ebfda1d2c9928b97f648875ddf9b64aa0211d9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:58 +0000
Subject: [PATCH 31/37] fix: use the configured emissivities and rock emission
 factor in the longwave balance

---
 openamundsen/modules/radiation/irradiance.py | 5 ++---
 openamundsen/surface.py                      | 3 +--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/openamundsen/modules/radiation/irradiance.py b/openamundsen/modules/radiation/irradiance.py
index d13f3cf..3fdcca6 100644
--- a/openamundsen/modules/radiation/irradiance.py
+++ b/openamundsen/modules/radiation/irradiance.py
@@ -289,9 +289,8 @@ def longwave_irradiance(model):
     m = model.state.meteo
     clear_sky_emissivity = meteo.clear_sky_emissivity(m.precipitable_water[roi])
 
-    # TODO these should be parameters
-    cloud_emissivity = 0.976  # emissivity of totally overcast skies (Greuell et al., 1997) # noqa: E501 # fmt: skip
-    rock_emission_factor = 0.01  # (K W-1 m2) temperature of emitting rocks during daytime is assumed to be higher than the air temperature by this factor multiplied by the incoming shortwave radiation (Greuell et al., 1997) # noqa: E501
+    cloud_emissivity = model.config.meteo.radiation.cloud_emissivity
+    rock_emission_factor = model.config.meteo.radiation.rock_emission_factor
 
     # Incoming longwave radiation from the clear sky
     lw_in_clearsky = (
diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index a4934b6..75161a7 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -509,8 +509,7 @@ def calc_radiation_balance(model, pos):
     """
     s = model.state
 
-    # TODO this should be a parameter
-    snow_emissivity = 0.99
+    snow_emissivity = model.config.meteo.radiation.snow_emissivity
 
     s.meteo.sw_out[pos] = s.surface.albedo[pos] * s.meteo.sw_in[pos]
     s.meteo.lw_out[pos] = snow_emissivity * constants.STEFAN_BOLTZMANN * s.surface.temp[pos] ** 4
-- 
2.43.0


From 21bb26942e6f4512eb92616e5bd7941eba8feabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:08 +0000
Subject: [PATCH 32/37] fix: do not modify the dicts passed to parse_config,
 reject ambiguous wind parameters

---
 openamundsen/conf.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/openamundsen/conf.py b/openamundsen/conf.py
index 96ed4c6..6a644fe 100644
--- a/openamundsen/conf.py
+++ b/openamundsen/conf.py
@@ -55,13 +55,22 @@ class ConfigurationValidator(cerberus.Validator):
         return model
 
     def _normalize_coerce_meteo_interpolation(self, d: dict[str, Any]) -> dict[str, Any]:
+        d = dict(d)  # do not modify the dict passed in by the user
+
         # 'wind_speed' is deprecated -> change to 'wind'
         if "wind_speed" in d:
-            d["wind"] = d.pop("wind_speed")
+            if "wind" not in d:
+                d["wind"] = d.pop("wind_speed")
+            else:
+                raise ConfigurationError(
+                    "interpolation.wind_speed is deprecated. Please use interpolation.wind instead."
+                )
 
         return d
 
     def _normalize_coerce_cloudiness(self, d: dict[str, Any]) -> dict[str, Any]:
+        d = dict(d)  # do not modify the dict passed in by the user
+
         # 'day_method' is deprecated -> change to 'method'
         if "day_method" in d:
             if "method" not in d:
-- 
2.43.0


From 6c42e1f0e1d77179864c802ab144bc2e199963e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:08 +0000
Subject: [PATCH 33/37] fix: infer the end date from the actual time steps of
 the end day

---
 openamundsen/conf.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/openamundsen/conf.py b/openamundsen/conf.py
index 6a644fe..b0fb21e 100644
--- a/openamundsen/conf.py
+++ b/openamundsen/conf.py
@@ -95,7 +95,7 @@ class ConfigurationEncoder(json.JSONEncoder):
             raise TypeError
 
 
-def _parse_end_date(end_date, timestep):
+def _parse_end_date(start_date, end_date, timestep):
     # If end_date is specified without an hour value, the end hour should be inferred
     # (i.e., set to the latest time step of the end day).
     if (
@@ -113,8 +113,9 @@ def _parse_end_date(end_date, timestep):
     # of the respective day (for the start date the hour is automatically set
     # to 0 if not explicitly specified)
     timedelta = util.offset_to_timedelta(timestep)
-    if infer_end_hour and timedelta < pd.Timedelta(days=1):
-        end_date += pd.Timedelta(hours=24) - timedelta
+    if infer_end_hour and timedelta <= pd.Timedelta(days=1):
+        end_of_day = end_date + pd.Timedelta(hours=24)
+        end_date = end_of_day - ((end_of_day - start_date) % timedelta or timedelta)
 
     return end_date
 
@@ -155,7 +156,9 @@ def parse_config(config):
         raise ConfigurationError("Invalid configuration\n\n" + util.to_yaml(v.errors))
 
     full_config = Configuration.fromDict(v.document)
-    full_config["end_date"] = _parse_end_date(full_config["end_date"], full_config["timestep"])
+    full_config["end_date"] = _parse_end_date(
+        full_config["start_date"], full_config["end_date"], full_config["timestep"]
+    )
 
     full_config["land_cover"]["classes"] = _merge_land_cover_params(
         full_config["land_cover"]["classes"]
-- 
2.43.0


From 9b159bd0ef080d97930392101e49bcf9f49a1085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:08 +0000
Subject: [PATCH 34/37] fix: keep default leaf area index parameters which are
 not overridden

---
 openamundsen/conf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openamundsen/conf.py b/openamundsen/conf.py
index b0fb21e..8fe3256 100644
--- a/openamundsen/conf.py
+++ b/openamundsen/conf.py
@@ -215,7 +215,10 @@ def _merge_land_cover_params(class_params):
     for lcc, lcc_params in class_params.items():
         if lcc in merged_params:
             for k, v in lcc_params.items():
-                merged_params[lcc][k] = v
+                if isinstance(v, dict) and k in merged_params[lcc]:
+                    merged_params[lcc][k].update(v)
+                else:
+                    merged_params[lcc][k] = v
         else:
             merged_params[lcc] = lcc_params
 
-- 
2.43.0


From 55651a58b86f57383f3dd78b95ebd31f5a0d90ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:55 +0000
Subject: [PATCH 35/37] fix: use the stations within the extended grid if an
 extended DEM is available

---
 openamundsen/model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index 1fe1f64..2145bf0 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -778,6 +778,13 @@ class OpenAmundsen:
             y_min = self.grid.y_min
             x_max = self.grid.x_max
             y_max = self.grid.y_max
+
+            ext_grid = self.grid.extended_grid
+            if ext_grid.available:
+                x_min -= ext_grid.col_offset * self.grid.resolution
+                y_max += ext_grid.row_offset * self.grid.resolution
+                x_max = x_min + ext_grid.cols * self.grid.resolution
+                y_min = y_max - ext_grid.rows * self.grid.resolution
         elif bounds == "global":
             x_min = -np.inf
             y_min = -np.inf
-- 
2.43.0


From d52fa3ad896224141d980db9d00bfbbbb55641de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:28 +0000
Subject: [PATCH 36/37] fix: do not extend the ROI with stations where the DEM
 is missing

---
 openamundsen/model.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index 2145bf0..f7037c2 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -184,6 +184,17 @@ class OpenAmundsen:
         # Extend ROI with the station positions
         if config.extend_roi_with_stations:
             pos_outside_roi_stations = self.meteo.within_grid_extent & ~self.meteo.within_roi
+
+            # As for the other ROI pixels, do not include pixels where the DEM is NaN
+            station_idxs = np.where(pos_outside_roi_stations)[0]
+            dem_nan_pos = np.isnan(
+                self.state.base.dem[
+                    self.meteo.row.values[station_idxs],
+                    self.meteo.col.values[station_idxs],
+                ]
+            )
+            pos_outside_roi_stations[station_idxs[dem_nan_pos]] = False
+
             any_outside_roi_stations = np.any(pos_outside_roi_stations)
             if any_outside_roi_stations:
                 self.meteo.within_roi[pos_outside_roi_stations] = True
-- 
2.43.0


From 4f036ef74ccd7fede3a0fa790e5af4cd310e44ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:42 +0000
Subject: [PATCH 37/37] fix: leaf area index of land cover classes with several
 growth cycles

---
 openamundsen/landcover.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openamundsen/landcover.py b/openamundsen/landcover.py
index 98c9676..30ac286 100644
--- a/openamundsen/landcover.py
+++ b/openamundsen/landcover.py
@@ -68,8 +68,8 @@ class LandCover:
 
             lcc_lai = modules.evapotranspiration.crop_coefficient(
                 growing_period_day,
-                0,  # no initial period with constant LAI
-                length_ini + length_dev,
+                np.zeros_like(length_ini),  # no initial period with constant LAI
+                np.add(length_ini, length_dev),
                 length_mid,
                 length_late,
                 min_lai,
-- 
2.43.0

