CL, LC, GL = "openamundsen/modules/snow/cryolayermodel.py", "openamundsen/landcover.py", "openamundsen/modules/glacier/glaciermodel.py"
BUGS = {
"firn-january": dict(property="P09", edits=[(CL, "            and model.dates[model.date_idx - 1].month != transition_params.firn\n", "            and model.dates[model.date_idx - 1].month < transition_params.firn\n")],
needs="the transition month is January",
breaks="old snow never becomes firn",
demo='''
m = model(start_date="2019-12-31 21:00", end_date="2020-01-02", snow={"model": "cryolayers", "cryolayers": {"transition": {"firn": 1}}})
m.date_idx, m.date = 1, m.dates[1]
s = m.state.snow
s.ice_content[1], s.thickness[1], s.density[1], s.layer_albedo[1] = 100.0, 0.25, 400.0, 0.6
for v in (s.ice_content, s.liquid_water_content, s.thickness): v[[0, 2, 3]] = 0.0
s.liquid_water_content[1] = 0.0
m.snow.update_layers()
close(s.ice_content[2, 1, 1], 100.0, 1e-9, "firn")
'''),
"firn-subhourly": dict(property="P12", edits=[(CL, "            s.snow.density[CryoLayerID.FIRN, firnies] += densification_rate * (\n                model.timestep / constants.SECONDS_PER_HOUR\n            )\n", "            s.snow.density[CryoLayerID.FIRN, firnies] += densification_rate * (\n                model.timestep // constants.SECONDS_PER_HOUR\n            )\n")],
needs="time steps that are no multiple of an hour",
breaks="firn densifies too slowly (never for half-hourly time steps)",
demo='''
m = model(timestep="90min", snow={"model": "cryolayers"}, start_date="2020-01-15", end_date="2020-01-15 22:30")
s = m.state.snow
for v in (s.ice_content, s.liquid_water_content, s.thickness): v[:] = 0.0
s.ice_content[2], s.thickness[2], s.density[2] = 300.0, 0.5, 600.0
m.state.meteo.temp[:] = 265.0
m.snow.compaction()
close((s.density[2, 1, 1] - 600) * 10 * 365.25 * 24 / 400, 1.5, 1e-3, "hours of densification")
'''),
"leap-day": dict(property="P22", edits=[(LC, "        return self.model.date.dayofyear - lcc_params[\"plant_date\"] + 1  # (1-based)\n", "        date = self.model.date\n        leap_day = date.is_leap_year and date.month > 2\n        return date.dayofyear - leap_day - lcc_params[\"plant_date\"] + 1  # (1-based)\n")],
needs="leap years, plant dates up to the end of February",
breaks="the growing period loses a day in March",
demo='''
import pandas as pd
C = {7: dict(is_forest=True, leaf_area_index={"min": 1.0, "max": 5.0}, plant_date=31, growth_stage_lengths=[0, 80, 80, 80])}
m = model(canopy={"enabled": True}, land_cover={"classes": C}, grids={"lc": np.full((3, 3), 7)})
r = []
for d in ("2020-02-29", "2020-03-01", "2020-03-02"):
    m.date = pd.Timestamp(d)
    m.land_cover.lai()
    r.append(float(m.state.land_cover.lai[1, 1]))
close(r[1] - r[0], 0.05, 1e-9, "growth per day")
close(r[2] - r[1], 0.05, 1e-9, "growth per day")
'''),
"terminus-flat": dict(property="P23", edits=[(GL, "            terminus_mb = mb[pos].min()\n", "            terminus_mb = mb[update_pos & pos].min() if (update_pos & pos).any() else mb[pos].min()\n")],
needs="a terminus pixel with less than the minimum ice thickness that has the lowest mass balance, and lowering beyond the balance of the others",
breaks="the lowering is limited by the balance of thick terminus pixels only",
demo='''
from openamundsen.modules.glacier import glaciermodel as gm
'''),
}
del BUGS["terminus-flat"]
