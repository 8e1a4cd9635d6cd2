AT = "openamundsen/meteo/atmosphere.py"
IR = "openamundsen/modules/radiation/irradiance.py"
CS = "openamundsen/modules/radiation/clearsky.py"
SP = "openamundsen/modules/radiation/sunparams.py"
SH = "openamundsen/modules/radiation/shadows.py"
TE = "openamundsen/terrain.py"
ST = '''
import pandas as pd, xarray as xr
X = {(i, j): (640050.0 + 100 * j, 5180250.0 - 100 * i) for i in range(3) for j in range(3)}
def stations(m, **v):
    px = [(0, 0), (2, 2)]
    t = pd.DatetimeIndex(["2020-01-15 00:00", "2020-01-15 03:00"])
    d = {k: (("station", "time"), np.array([[a, -777.0] for a in x], float)) for k, x in v.items()}
    for n, f in dict(x=lambda q: X[q][0], y=lambda q: X[q][1], alt=lambda q: 2000.0, row=lambda q: q[0], col=lambda q: q[1], within_grid_extent=lambda q: True, within_roi=lambda q: True).items():
        d[n] = ("station", np.array([f(q) for q in px]))
    m.meteo = xr.Dataset(d, coords={"station": ["a", "b"], "time": t})
    m.date = t[0]
'''
BUGS = {
"wet-bulb-median": dict(property="P24", edits=[(AT, "        if iter_pos.sum() == 0:\n            break", "        if 2 * iter_pos.sum() < iter_pos.size:\n            break")],
needs="fields in which the iteration of a minority of the pixels takes longer",
breaks="the wet-bulb temperature of slowly converging pixels is not iterated to the tolerance",
demo='''
from openamundsen import meteo
t = np.array([283.15, 283.15, 283.15, 303.15, 283.15]); rh = np.array([100.0, 100.0, 100.0, 10.0, 100.0])
e = meteo.vapor_pressure(t, rh); g = np.full(5, 60.0)
w = meteo.wet_bulb_temperature(t, rh, e, g)
one = meteo.wet_bulb_temperature(t[3:4], rh[3:4], e[3:4], g[3:4])
close(w[3], one[0], 0.02, "pixel differs from single calculation")
'''),
"prescribed-night": dict(property="P25", edits=[(IR, '        else:\n            method = cloud_config["clear_sky_fraction_night_method"]', '        elif cloud_config["method"] == "clear_sky_fraction":\n            method = cloud_config["clear_sky_fraction_night_method"]')],
needs="method prescribed, a time step at night without cloudiness measurements",
breaks="the fallback for nights without cloudiness measurements divides zero radiation by zero, cloudiness is unknown",
demo=ST + '''
m = model()
c = m.config.meteo.interpolation.cloudiness
c.method = "prescribed"
from openamundsen.modules import radiation
m.sun_params = {"sun_over_horizon": False}
m.state.meteo.sw_in_clearsky[:] = 0.0
stations(m, sw_in=[0.0, 0.0], temp=[270.0, 272.0], rel_hum=[60.0, 70.0], cloud_fraction=[np.nan, np.nan])
with np.errstate(all="ignore"):
    radiation.shortwave_irradiance(m)
check(np.isfinite(m.state.meteo.cloud_factor).all(), "cloudiness unknown")
'''),
"rock-fraction-grid": dict(property="P25", edits=[(IR, "    snowfree_count = (model.state.snow.swe[roi] == 0).sum()\n", "    snowfree_count = (model.state.snow.swe == 0).sum()\n")],
needs="pixels outside of the region of interest without snow",
breaks="snow-free pixels outside of the region of interest count as emitting rocks",
demo='''
m = model(roi=np.eye(3, dtype=int))
from openamundsen.modules import radiation
s = m.state
for n, v in dict(temp=270.0, cloud_fraction=0.5, sw_in=800.0, precipitable_water=10.0).items():
    s.meteo[n][:] = v
s.base.svf[:] = 0.5; s.surface.temp[:] = 265.0
s.snow.swe[:] = 10.0
radiation.longwave_irradiance(m)
a = s.meteo.lw_in[1, 1]
s.snow.swe[0, 1] = 0.0
radiation.longwave_irradiance(m)
close(s.meteo.lw_in[1, 1], a, 1e-9, "outside pixel matters")
'''),
"sun-fraction-domain": dict(property="P26", edits=[(CS, "    sun_frac = shadows[roi].mean()\n", "    sun_frac = shadows.mean()\n")],
needs="a region of interest with another share of shadowed pixels than the rest of the grid",
breaks="reflection from surrounding slopes uses the shadows of pixels outside of the region of interest",
demo='''
from openamundsen.modules.radiation.clearsky import _clear_sky_shortwave_irradiance as f
roi = np.array([[1, 1, 0]], bool)
nv = np.zeros((3, 1, 3)); nv[2] = 1
def run(last):
    sh = np.array([[1, 0, last]])
    return f(1.0, np.array([0.5, 0.5, 0.7071]), sh, np.full((1, 3), 2000.0), np.full((1, 3), 0.6), nv, np.full((1, 3), 8e4), np.full((1, 3), 10.0), 0.5, roi=roi)[1][0, 0]
close(run(1), run(0), 1e-9, "outside pixel matters")
'''),
"shadow-crop": dict(property="P26", edits=[(IR, "                shadows = shadows[: orig_shadows_shape[0], :]", "                shadows = shadows[-orig_shadows_shape[0] :, :]")],
needs="shadow downsampling with a factor that does not divide the number of rows",
breaks="upsampled shadows are shifted by some rows",
demo='''
import openamundsen
from openamundsen import modules
D = np.array([[2000.0, 2000.0, 2000.0, 2000.0]] * 5); D[2] += 300; D[4] += 100
m = model(dem=D, meteo={"radiation": {"shadows_downsampling_factor": 2}})
e = np.deg2rad(20)
m.sun_params = {"sun_over_horizon": True, "day_angle": 1.0, "sun_vector": np.array([1e-12, np.cos(e), np.sin(e)]), "zenith_angle": 70.0}
s = m.state.meteo
s.atmos_press[:] = 8e4; s.precipitable_water[:] = 10.0
modules.radiation.clear_sky_shortwave_irradiance(m)
sh = modules.radiation.shadows(D[::2, ::2].copy(), 200.0, m.sun_params["sun_vector"], num_sweeps=1)
for i in range(5):
    check((s.dir_in_clearsky[i, 0] > 0) == (sh[i // 2, 0] == 1 and s.dir_in_clearsky[i, 0] > 0) and (sh[i // 2, 0] == 1 or s.dir_in_clearsky[i, 0] == 0), f"row {i}")
check(sh.min() == 0, "shadow")
'''),
"sim-timezone-sign": dict(property="P26", edits=[("openamundsen/model.py", "            self.date + self._simulation_timezone_shift,", "            self.date - self._simulation_timezone_shift,")],
needs="a simulation time zone other than the local one",
breaks="the sun is calculated for the wrong time",
demo='''
from openamundsen import modules
a = model(timezone=1, start_date="2020-06-21 09:00", end_date="2020-06-22")
b = model(timezone=1, simulation_timezone=-2, start_date="2020-06-21 06:00", end_date="2020-06-22")
for f in ("clear_sky_shortwave_irradiance", "longwave_irradiance"):
    setattr(modules.radiation, f, lambda m: None)
a._irradiance(); b._irradiance()
close(a.sun_params["zenith_angle"], b.sun_params["zenith_angle"], 1e-9, "zenith")
'''),
"shadow-chain": dict(property="P27", edits=[(SH, "                illum[idy, jdx] = 0\n            else:\n                max_z_proj = z_proj\n", "                illum[idy, jdx] = 0\n            max_z_proj = z_proj\n")],
needs="a shadow more than one pixel long with rising ground in it",
breaks="ground rising within a shadow is lit",
demo='''
from openamundsen.modules.radiation import shadows
e = np.deg2rad(20)
d = np.zeros((4, 1)); d[3] = 500.0; d[1] = 60.0
r = shadows(d, 100.0, np.array([0.0, np.cos(e), np.sin(e)]))
check(r[2, 0] == 0 and r[1, 0] == 0 and r[0, 0] == 0, f"shadow of a 500 m wall {r[:, 0]}")
'''),
"curvature-length": dict(property="P27", edits=[(TE, "        L_px = int(np.ceil(L / res))\n", "        L_px = max(int(L / res), 1)\n        L = L_px * res\n")],
needs="a curvature length scale that is not a multiple of the resolution",
breaks="the curvature is calculated for another length scale than the configured one",
demo='''
from openamundsen import terrain
d = np.zeros((5, 5)); d[2, 2] = 100.0
r = terrain.curvature(d, 100.0, "liston", L=150.0)
close(r[2, 2], (100 / 300 * 2 + 100 / (300 * 2**0.5) * 2) / 4, 1e-9, "curvature")
'''),
}
