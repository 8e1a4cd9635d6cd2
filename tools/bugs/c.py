MO = "openamundsen/model.py"
PC = "openamundsen/meteo/precipcorr.py"
IP = "openamundsen/interpolation.py"
MI = "openamundsen/meteo/interpolation.py"
BUGS = {
"phase-inversion": dict(property="P13", edits=[(MO, "snowfall_frac = np.where(roi_dem <= max_rain_elev, 0, snowfall_frac)", "snowfall_frac = np.where((roi_dem < max_rain_elev) & (snowfall_frac < 1), 0, snowfall_frac)")],
needs="an inversion: pixels cold enough for pure snow below (or level with) a pixel with rain only, enforce_no_snow_below_rain enabled",
breaks="pure snow falls below the highest rain pixel although no-snow-below-rain is enforced",
demo='''
m = model(meteo={"precipitation_phase": {"enforce_no_snow_below_rain": True, "method": "temp"}})
s = m.state.meteo
for n, v in dict(temp=268.0, precip=4.0, rel_hum=80.0, wind_speed=2.0, sw_in=0.0).items():
    s[n][:] = v
s.temp[:, 2] = 280.0  # the highest column is warm
m._process_meteo_data()
check((s.snowfall[:, :2] == 0).all(), f"snow below rain {s.snowfall}")
check(np.allclose(s.snowfall + s.rainfall, 4.0), "sum")
'''),
"scf-mixed-twice": dict(property="P14", edits=[(PC, "        precips *= corr_factors\n", "        precips *= corr_factors\n        snowfall_frac = np.where(pos_mixed, snowfall_frac * corr_factors, snowfall_frac)\n")],
needs="two constant factors in sequence (or any correction followed by a constant factor) and mixed precipitation",
breaks="the second correction works with a snow fraction altered by the first one",
demo='''
from types import SimpleNamespace as NS
import pandas as pd
from openamundsen.meteo import correct_station_precipitation
m = model(meteo={"precipitation_correction": [{"method": "constant_scf", "scf": 1.5}, {"method": "constant_scf", "scf": 2.0}],
                 "precipitation_phase": {"method": "temp", "threshold_temp": 273.65, "temp_range": 1.0}})
class DS(dict):
    indexes = {"time": pd.DatetimeIndex(["2020-01-15 00:00"])}
A = lambda v: NS(values=np.array([[v]]))
p = np.array([[10.0]])
m.meteo = DS(x=NS(values=np.zeros(1)), y=NS(values=np.zeros(1)), alt=NS(values=np.array([2000.0])), temp=A(273.65), rel_hum=A(80.0), wind_speed=A(2.0),
             precip=NS(values=p))
correct_station_precipitation(m)
close(p[0, 0], 10 * 1.25 * 1.5, 1e-9, "two corrections of mixed precipitation")
'''),
"idw-dist-restart": dict(property="P15", edits=[(IP, "            if dist == 0.0:\n", "            if dist < 1.0 and z_points[k] != 0.0:\n")],
needs="a station within less than one metre of, but not at, a target point, or a station of value zero at a target point",
breaks="stations close to a target are treated as coinciding, and coinciding stations with value zero are not",
demo='''
from openamundsen.interpolation import idw
r = idw([0.0, 1000.0], [0.0, 0.0], [0.0, 10.0], np.array([0.0]), np.array([0.0]))
check(r[0] == 0.0, f"value at the station {r}")
r = idw([0.0, 2.0], [0.0, 0.0], [5.0, 10.0], np.array([0.5]), np.array([0.0]))
close(r[0], (5 / 0.25 + 10 / 2.25) / (1 / 0.25 + 1 / 2.25), 1e-9, "two stations near the target")
'''),
"fractional-lapse-accum": dict(property="P16", edits=[(MI, "    if not param_config[\"extrapolate\"] and len(data) > 0:\n", "    if not param_config[\"extrapolate\"] and len(data) > 1:\n")],
needs="extrapolation disabled and a single station with data",
breaks="with one station left the field is extrapolated although extrapolation is disabled",
demo='''
import pandas as pd
from openamundsen.meteo import interpolate_param
cfg = {"trend_method": "fixed", "lapse_rate": [-0.0065] * 12, "extrapolate": False}
A = lambda *v: np.array(v, float)
v, _ = interpolate_param("temp", pd.Timestamp("2020-03-01"), cfg, A(280.0), A(0.0), A(0.0), A(500.0), A(100.0, 300.0), A(0.0, 50.0), A(1500.0, 200.0))
check(np.allclose(v, 280.0), f"extrapolated {v}")
'''),
}
