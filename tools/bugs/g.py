MO, CO, SU = "openamundsen/model.py", "openamundsen/conf.py", "openamundsen/surface.py"
IR, ET = "openamundsen/modules/radiation/irradiance.py", "openamundsen/modules/evapotranspiration/evapotranspiration.py"
EXT = '''
import tempfile
from openamundsen import forcing
import pandas as pd, pyproj
BIG = 2000.0 + np.add.outer(30.0 * np.arange(6), 10.0 * np.arange(7))
def write(path, a, x0, y0):
    with open(path, "w") as f:
        f.write(f"ncols {a.shape[1]}\\nnrows {a.shape[0]}\\nxllcorner {x0}\\nyllcorner {y0}\\ncellsize 100\\nNODATA_value -9999\\n")
        for r in a: f.write(" ".join(repr(float(v)) for v in r) + "\\n")
def station(name, row, col, i, j, sw):
    lon, lat = pyproj.Transformer.from_crs("epsg:32632", "epsg:4326", always_xy=True).transform(640000 + 100 * (col - j) + 50, 5180300 - 100 * (row - i) - 50)
    n = 5
    return forcing.make_point_dataset(data=pd.DataFrame({"temp": [270.0] * n, "precip": [0.0] * n, "rel_hum": [60.0] * n, "wind_speed": [2.0] * n, "sw_in": [sw] * n},
        index=pd.date_range("2020-06-15", periods=n, freq="3h")), point_id=name, name=name, lon=lon, lat=lat, alt=BIG[row, col])
def run(i, j, row, col, svf, sw=100.0, **rad):
    """Cloud factor in the model grid at offset i, j with one station in the extended grid."""
    m = model(init=False, dem=BIG[i:i + 3, j:j + 3], start_date="2020-06-15", end_date="2020-06-15 12:00", input_data={"meteo": {"format": "memory"}}, meteo={"radiation": rad})
    wd = m.config.input_data.grids.dir
    write(f"{wd}/extended-dem_t_100.asc", BIG, 640000 - 100 * j, 5180300 + 100 * i - 600)
    write(f"{wd}/extended-svf_t_100.asc", np.broadcast_to(svf, BIG.shape), 640000 - 100 * j, 5180300 + 100 * i - 600)
    m.initialize(meteo=forcing.combine_point_datasets([station("a", row, col, i, j, sw)]))
    m.run()
    return float(m.state.meteo.cloud_factor[1, 1])
'''
BUGS = {
"et-snow-keeps": dict(property="P30", edits=[(ET, "                s_et.evaporation[pos_snow] = 0.0\n                s_et.transpiration[pos_snow] = 0.0\n                s_et.evapotranspiration[pos_snow] = 0.0\n            else:\n", "                s_et.evaporation[pos_snow] = 0.0\n                s_et.evapotranspiration[pos_snow] = 0.0\n            else:\n")],
needs="a crop with dual coefficients that has transpired before it is covered by snow",
breaks="transpiration keeps the value of the last snow-free time step as long as there is snow",
demo='''
C = dict(crop_coefficient_type="dual", rooting_depth=0.5, depletion_fraction=0.6, crop_coefficients=[0.3, 0.9, 0.8], plant_date=1, growth_stage_lengths=[10, 20, 100, 30], max_height=0.5)
k = [0]
def cb(m):
    s, warm = m.state.meteo, k[0] < 3
    k[0] += 1
    s.temp[:], s.precip[:], s.rel_hum[:], s.wind_speed[:] = (290.0 if warm else 265.0), (0.0 if warm else 20.0), 50.0, 2.0
    s.cloud_factor[:], s.cloud_fraction[:] = 1.0, 0.0
m = model(callback=cb, start_date="2020-04-15 06:00", end_date="2020-04-16", evapotranspiration={"enabled": True}, land_cover={"classes": {3: C}}, grids={"lc": np.full((3, 3), 3), "soil": np.full((3, 3), 3)})
m.date_idx = None
for _ in range(3): m.run_single()
e=m.state.evapotranspiration
print(m.date, e)
check((m.state.evapotranspiration.transpiration > 0).all(), "transpires")
m.run_single()
m.run_single()
check((m.state.snow.swe > 0).all(), "snow-covered")
check((m.state.evapotranspiration.transpiration == 0).all(), "no transpiration below snow")
'''),
"month-two-days": dict(property="P30", edits=[(MO, "        strict_first_of_month = pot_prev_date.month != self.date.month\n", "        strict_first_of_month = self.date.day == 1 and strict_first_of_day\n"), (MO, "        strict_first_of_day = pot_prev_date.day != self.date.day\n        first_of_year", "        first_of_year"), (MO, "        strict_first_of_year = pot_prev_date.year", "        strict_first_of_day = pot_prev_date.day != self.date.day\n        strict_first_of_year = pot_prev_date.year")],
needs="time steps of more than one day that skip the first day of a month",
breaks="the first time step of such months is not recognized",
demo='''
m = model(start_date="2020-01-30", end_date="2020-02-03", timestep="2D", output_data={"timeseries": {"write_freq": "2D"}})
for k, t in enumerate(m.dates):
    m.date_idx, m.date = k, t
    p = m.timestep_props
    check(p.strict_first_of_month == (str(t)[:10] == "2020-02-01" and False or t.month != (t - np.timedelta64(2, 'D')).month), f"{t}")
m = model(start_date="2020-01-31", end_date="2020-02-04", timestep="2D", output_data={"timeseries": {"write_freq": "2D"}})
m.date_idx, m.date = 1, m.dates[1]
check(m.timestep_props.first_of_month, "first time step of February")
'''),
"ext-station-offset": dict(property="P33", edits=[(IR, "        extgrid_cols = (meteo_ds.col + ext_grid.col_offset).values\n", "        extgrid_cols = (meteo_ds.col + ext_grid.row_offset).values\n")],
needs="an extended elevation model with different row and column offsets and a radiation station outside of the model grid",
breaks="the clear-sky irradiance of the station is taken from another cell",
demo=EXT + '''
sky = np.full(BIG.shape, 0.25)
sky[0, 5] = 1.0
a, b = run(1, 3, 0, 5, sky), run(1, 3, 0, 5, 1.0)
close(a, b, 1e-9, "only the sky view of the own cell counts")
check(0 < b < 1, "not clipped")
'''),
"grid-small-ids": dict(property="P33", edits=[(MO, '''                    land_cover_file,
                    check_meta=self.grid,
                    fill_value=0,
                    dtype=int,
''', '''                    land_cover_file,
                    check_meta=self.grid,
                    fill_value=0,
                    dtype="uint8",
''')],
needs="land cover class ids above 255",
breaks="such pixels belong to another class",
demo='''
LC = np.array([[1, 2, 3], [311, 256, 257], [7, 8, 9]])
C = {k: dict(is_forest=True, leaf_area_index={"min": 2.0, "max": 4.0, "effective_add": 1.0}, plant_date=20, growth_stage_lengths=[30, 30, 120, 30], max_height=10.0) for k in (1, 257, 311)}
m = model(canopy={"enabled": True}, land_cover={"classes": C}, grids={"lc": LC})
check((m.state.land_cover.land_cover == LC).all(), "class ids")
'''),
"ext-visibility": dict(property="P33", edits=[(IR, '''            mean_surface_albedo,
            ozone_layer_thickness=model.config.meteo.radiation.ozone_layer_thickness,
            atmospheric_visibility=model.config.meteo.radiation.atmospheric_visibility,
            single''', '''            mean_surface_albedo,
            ozone_layer_thickness=model.config.meteo.radiation.ozone_layer_thickness,
            single''')],
needs="a visibility other than the default one and a radiation station outside of the model grid",
breaks="the clear-sky irradiance of such stations is calculated with the default visibility, the one of the grid with the given one",
demo=EXT + '''
f = [run(1, 2, 4, 5, 1.0, atmospheric_visibility=v) for v in (8000.0, 25000.0)]
check(abs(f[0] - f[1]) > 1e-4, f"visibility matters at the station: {f}")
'''),
"celsius-below-zero": dict(property="P34", edits=[(CO, "    if abs(config.meteo.precipitation_phase.threshold_temp) < 20:\n", "    if 0 <= config.meteo.precipitation_phase.threshold_temp < 20:\n")],
needs="a threshold temperature below zero degrees Celsius",
breaks="it is taken for Kelvin, all precipitation is rain",
demo='''
m = model(meteo={"precipitation_phase": {"threshold_temp": -0.5}}, init=False)
close(m.config.meteo.precipitation_phase.threshold_temp, 272.65, 1e-9, "threshold")
'''),
"end-day-of-days": dict(property="P34", edits=[(CO, "    if infer_end_hour and timedelta <= pd.Timedelta(days=1):\n", "    if infer_end_hour and timedelta < pd.Timedelta(days=1):\n")],
needs="daily time steps beginning off midnight and an end date without time",
breaks="the run is rejected",
demo='''
try:
    m = model(start_date="2020-01-15 06:00", end_date="2020-01-17", timestep="D", init=False)
    check(str(m.config.end_date)[:19] == "2020-01-17 06:00:00", f"end {m.config.end_date}")
except Exception as e:
    check(False, repr(e))
'''),
"stability-heights": dict(property="P35", edits=[(SU, "            temp_measurement_height,\n            wind_measurement_height,\n            model.config.meteo.stab", "            wind_measurement_height,\n            temp_measurement_height,\n            model.config.meteo.stab")],
needs="stability correction, measurement heights of temperature and wind that differ",
breaks="the heights are exchanged in the bulk Richardson number",
demo='''
from openamundsen import surface
m = model(meteo={"stability_correction": True, "measurement_height": {"temperature": 2.0, "wind": 10.0}})
s = m.state
s.meteo.temp[:], s.surface.temp[:], s.meteo.wind_speed[:] = 275.0, 270.0, 3.0
s.snow.area_fraction[:], s.surface.roughness_length[:] = 1.0, m.config.snow.roughness_length
surface.calc_turbulent_exchange_coefficient(m)
a = s.surface.turbulent_exchange_coeff[1, 1]
f = surface.stability_factor(np.array([275.0]), np.array([270.0]), np.array([3.0]), np.array([1.0]), m.config.snow.roughness_length, m.config.soil.roughness_length, 2.0, 10.0, m.config.meteo.stability_adjustment_parameter)[0]
z = m.config.snow.roughness_length
close(a, 0.16 * f / (np.log(10 / z) * np.log(2 / (0.1 * z))), 1e-6, "exchange coefficient")
'''),
"sealed-emissivity": dict(property="P35", edits=[(ET, "                s_et.ref_emissivity[pos] = model.config.evapotranspiration.sealed_emissivity\n", "                s_et.ref_emissivity[pos] = model.config.evapotranspiration.grass_emissivity\n")],
needs="sealed land cover and an emissivity other than that of grass",
breaks="the emissivity of sealed surfaces is ignored",
demo='''
r = []
for e in (0.8, 0.95):
    m = model(evapotranspiration={"enabled": True, "sealed_emissivity": e}, land_cover={"classes": {4: dict(is_sealed=True, max_sealed_interception=1.0)}}, grids={"lc": np.full((3, 3), 4), "soil": np.full((3, 3), 3)})
    r.append(m.state.evapotranspiration.ref_emissivity[1, 1])
check(r == [0.8, 0.95], f"emissivity {r}")
'''),
"compaction-limits": dict(property="P35", edits=[("openamundsen/modules/snow/snow.py", "            model.config.snow.compaction.max_cold_density,\n            model.config.snow.compaction.max_melting_density,\n", "            model.config.snow.compaction.max_melting_density,\n            model.config.snow.compaction.max_cold_density,\n")],
needs="empirical compaction and limits that differ",
breaks="cold snow settles towards the limit of melting snow and the other way round",
demo='''
from openamundsen.modules.snow.snow import compaction
m = model(snow={"model": "multilayer", "compaction": {"method": "empirical", "timescale": 10.0, "max_cold_density": 200.0, "max_melting_density": 600.0}})
s = m.state.snow
s.num_layers[:] = 1
s.thickness[0], s.ice_content[0], s.liquid_water_content[0], s.temp[0], s.density[0] = 0.5, 50.0, 0.0, 260.0, 100.0
for _ in range(400):
    compaction(m)
close(s.density[0, 1, 1], 200.0, 1.0, "limit of cold snow")
'''),
}
