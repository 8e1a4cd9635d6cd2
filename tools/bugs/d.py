SO = "openamundsen/modules/soil/soil.py"
SU = "openamundsen/surface.py"
CA = "openamundsen/modules/canopy/canopy.py"
ET = "openamundsen/modules/evapotranspiration/evapotranspiration.py"
GL = "openamundsen/modules/glacier/glaciermodel.py"
FOREST = '''
LC = np.full((3, 3), 1, int)
def forest(**kw):
    return model(grids={"lc": LC}, canopy={"enabled": True}, land_cover={"classes": {1: {"is_forest": True,
        "leaf_area_index": {"min": 3.0, "max": 4.0, "effective_add": 0.0}, "plant_date": 60, "growth_stage_lengths": [30, 30, 120, 30]}}}, **kw)
'''
BUGS = {
"soil-dry-layer-moisture": dict(property="P17", edits=[(SO, "* (vol_moisture_content_sat[i, j] / vol_moisture_content[k, i, j])\n                    ** clapp_hornberger[i, j]", "* (vol_moisture_content_sat[i, j] / vol_moisture_content[0, i, j])\n                    ** clapp_hornberger[i, j]")],
needs="soil layers with different moisture contents and temperatures slightly below zero",
breaks="whether the water of a deeper layer can freeze depends on the moisture of the top layer",
demo='''
m = model()
from openamundsen.modules import soil
s = m.state.soil
s.temp[:] = 273.15 - 0.3
s.vol_moisture_content[:] = 0.9 * s.vol_moisture_content_sat
soil.soil_properties(m)
a = s.frac_unfrozen_moisture_content[1, 1, 1]
s.vol_moisture_content[0] = 0.2 * s.vol_moisture_content_sat
soil.soil_properties(m)
close(s.frac_unfrozen_moisture_content[1, 1, 1], a, 1e-9, "second layer")
'''),
"stability-zero-wind": dict(property="P18", edits=[(SU, "    wind_speed = wind_speed.copy()\n    wind_speed[wind_speed == 0.0] = 0.5", "    wind_speed = np.where(wind_speed < 0.5, 0.5, wind_speed)")],
needs="wind speeds between 0 and 0.5 m/s",
breaks="exchange in light wind is calculated for a wind speed of 0.5 m/s",
demo='''
from openamundsen.surface import stability_factor
A = lambda *v: np.array(v, float)
r = stability_factor(A(275.0), A(272.0), A(0.2), A(0.0), 0.01, 0.1, 2.0, 10.0, 5.0)
ri = 9.80665 * 100 * 3 / (2 * 275 * 0.04)
close(r[0], 1 / (1 + 15 * ri * (1 + 5 * ri) ** 0.5), 1e-9, "light wind")
'''),
"canopy-unload-rain": dict(property="P19", edits=[(CA, "        s.meteo.snowfall[pos] += s.snow.canopy_melt[pos]\n", "        s.meteo.rainfall[pos] += np.where(s.snow.canopy_intercepted_load[pos] > 0, 0.0, s.snow.canopy_melt[pos])\n        s.meteo.snowfall[pos] += np.where(s.snow.canopy_intercepted_load[pos] > 0, s.snow.canopy_melt[pos], 0.0)\n")],
needs="a melting canopy load that is unloaded completely within the time step",
breaks="the last unloaded snow reaches the ground as rain",
demo=FOREST + '''
m = forest()
s = m.state
m.land_cover.lai()
for n, v in dict(temp=283.0, rel_hum=95.0, wind_speed=1.0, top_canopy_sw_in=0.0, sat_vap_press=1200.0, snowfall=0.0, rainfall=1.0, precip=1.0).items():
    s.meteo[n][:] = v
s.surface.albedo[:] = 0.5
s.snow.canopy_intercepted_load[:] = 0.2
m.canopy.snow()
close(s.meteo.rainfall[1, 1], 1.0, 1e-9, "rain")
close(s.meteo.snowfall[1, 1], s.snow.canopy_melt[1, 1], 1e-9, "snow to the ground")
'''),
"canopy-24h-ring": dict(property="P20", edits=[(CA, "        if self._temp_idx == s.meteo.last_24h_temps.shape[0]:\n            self._temp_idx = 0\n", "        self._temp_idx %= max(s.meteo.last_24h_temps.shape[0] - 1, 1)\n")],
needs="more than 24 hours of simulation",
breaks="the temperature one day minus one step ago is forgotten: the mean is not that of the last 24 hours",
demo=FOREST + '''
from openamundsen.modules.canopy.canopy import above_canopy_meteorology
m = forest()
m.land_cover.lai()
s = m.state.meteo
def step(t):
    for n, v in dict(temp=t, rel_hum=60.0, wind_speed=2.0, sw_in=100.0, lw_in=250.0).items():
        s[n][:] = v
    m.canopy.meteorology()
    return s.temp[1, 1]
for k in range(9):
    step(280.0)
step(270.0)
for k in range(7):
    t = step(280.0)
f = 0.55 + 0.29 * np.log(3.0)
tm = 278.75
close(t, 280.0 - f * (280.0 - (0.8 * (280.0 - tm) + tm - min((tm - 273.15) / 3, 2.0))), 1e-6, "temperature with the mean of the last day")
'''),
"et-root-rain-missing": dict(property="P21", edits=[(ET, "            + s_et.evaporation[pos] / exposed_wetted_frac\n            + soil_transpiration", "            + s_et.evaporation[pos]\n            + soil_transpiration")],
needs="a dual coefficient crop with partial vegetation cover (evaporation takes place from the exposed fraction only)",
breaks="the evaporation layer of the exposed soil fraction is depleted too slowly",
demo='''
LC = np.full((3, 3), 1, int)
m = model(grids={"lc": LC, "soil": np.full((3, 3), 4, int)}, evapotranspiration={"enabled": True}, land_cover={"classes": {1: dict(
    crop_coefficient_type="dual", rooting_depth=0.5, depletion_fraction=0.6, max_height=0.5, crop_coefficients=[0.3, 0.9, 0.8], plant_date=1, growth_stage_lengths=[1, 2, 200, 30],
    is_sparse=True, sparse_vegetation_fraction=0.4)}})
import pandas as pd
m.date = pd.Timestamp("2020-03-01 12:00")
m.sun_params = {"sun_over_horizon": True, "declination_angle": 10.0}
for n, v in dict(top_canopy_temp=288.15, top_canopy_wind_speed=3.0, top_canopy_sw_in=500.0, top_canopy_lw_in=300.0, psych_const=60.0, sat_vap_press=1700.0, vap_press=1000.0, atmos_press=9e4, rainfall=0.0).items():
    m.state.meteo[n][:] = v
m.state.snow.swe[:] = 0.0
e = m.state.evapotranspiration
e.cum_soil_surface_depletion[:] = 3.0
m.evapotranspiration.evapotranspiration()
check(e.evaporation[1, 1] > 0, "evaporation")
close(e.cum_soil_surface_depletion[1, 1], 3.0 + e.evaporation[1, 1] / 0.6, 1e-9, "depletion")
'''),
"crop-height-late": dict(property="P22", edits=[(ET, "        elif period_num == 2 or period_num == 3:  # mid season", "        elif period_num == 3 and growing_period_day >= lengths_cum[-1]:\n            min_plant_height = crop_coeff_min / crop_coeff_mid * max_plant_height\n        elif period_num == 2 or period_num == 3:  # mid season")],
needs="the last day of the growing season",
breaks="the plants shrink on the last day of the season",
demo='''
from openamundsen.modules.evapotranspiration.evapotranspiration import crop_coefficient
for d in (70, 79, 80):
    _, h = crop_coefficient(d, 10, 20, 30, 20, 0.3, 0.9, 0.4, 0.175, max_plant_height=1.5)
    close(h, 1.5, 1e-9, f"height on day {d}")
'''),
"glacier-clip-surplus": dict(property="P23", edits=[(GL, "            if clippies.any() and (~clippies).sum() > 1:\n", "            if clippies.any():\n"), (GL, "                mass_change[~clippies] += _mass_loss_surplus_distribution(\n                    we_change_diff,\n                    elevs[~clippies],\n                )\n", "                if (~clippies).sum() > 1:\n                    mass_change[~clippies] += _mass_loss_surplus_distribution(\n                        we_change_diff,\n                        elevs[~clippies],\n                    )\n")],
needs="a glacier of which all but one pixel would be lowered by more than the terminus balance",
breaks="mass loss exceeding the terminus balance is dropped: ice is created",
demo='''
G = np.array([[0, 0, 1], [0, 0, 1], [0, 0, 0]])
import pandas as pd
m = model(grids={"glaciers": G}, snow={"model": "cryolayers"}, glaciers={"enabled": True}, start_date="2020-10-01", end_date="2021-09-30")
s = m.state.snow
s.ice_content[3] = 50000.0; s.density[3] = 900.0; s.thickness[3] = 50000 / 900.0; s.layer_albedo[3] = 0.3
m.date_idx, m.date = 0, pd.Timestamp("2020-10-01 00:00")
m.glaciers.update()
s.ice_content[3, 0, 2] -= 500.0
s.ice_content[3, 1, 2] -= 3000.0
s.thickness[3] = s.ice_content[3] / 900.0
t = s.ice_content[3][G == 1].sum()
m.date_idx, m.date = 100, pd.Timestamp("2021-09-30 21:00")
m.glaciers.update()
close(s.ice_content[3][G == 1].sum(), t, 1e-6, "total ice")
'''),
"glacier-thin-total": dict(property="P23", edits=[(GL, "            total_mb = glacier_mbs[update_pos_local].sum()\n", "            total_mb = glacier_mbs.sum()\n")],
needs="a glacier with pixels of less than ten metres of ice",
breaks="the balance of thin pixels, which keep their own balance, is also charged to the other pixels",
demo='''
G = np.array([[0, 1, 1], [0, 0, 1], [0, 0, 0]])
import pandas as pd
m = model(grids={"glaciers": G}, snow={"model": "cryolayers"}, glaciers={"enabled": True}, start_date="2020-10-01", end_date="2021-09-30")
s = m.state.snow
s.ice_content[3] = 50000.0; s.ice_content[3, 0, 1] = 3000.0; s.density[3] = 900.0; s.thickness[3] = s.ice_content[3] / 900.0; s.layer_albedo[3] = 0.3
m.date_idx, m.date = 0, pd.Timestamp("2020-10-01 00:00")
m.glaciers.update()
s.ice_content[3] -= 1000.0
s.thickness[3] = s.ice_content[3] / 900.0
t = s.ice_content[3].sum()
m.date_idx, m.date = 100, pd.Timestamp("2021-09-30 21:00")
m.glaciers.update()
close(s.ice_content[3].sum(), t, 1e-6, "total ice")
'''),
}
