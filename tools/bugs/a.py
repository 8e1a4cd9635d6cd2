ML = "openamundsen/modules/snow/multilayermodel.py"
CL = "openamundsen/modules/snow/cryolayermodel.py"
SN = "openamundsen/modules/snow/snow.py"
SU = "openamundsen/surface.py"
HC = "openamundsen/heatconduction.py"
CLM = 'm = model(snow={"model": "cryolayers"})\ns = m.state\n'
BUGS = {
"ml-sublimation-cap": dict(property="P01", edits=[(ML,
"np.minimum(pot_sublim, s.snow.ice_content[:, pos].sum(axis=0))",
"np.minimum(pot_sublim, s.snow.swe[pos])")],
needs="potential sublimation exceeding the ice of a snowpack that also holds liquid water",
breaks="reported sublimation is capped by the total water instead of the ice, so more sublimation is reported than the layers lose",
demo='''
m = model()
s = m.state
m.snow.add_snow(m.grid.roi, np.full(9, 2.0), density=np.full(9, 200.0))
s.snow.liquid_water_content[0, :] = 1.0
m.snow.update_properties()
before = s.snow.swe[1, 1]
s.surface.temp[:] = 270.0
s.meteo.wet_bulb_temp[:] = 270.0
s.surface.moisture_flux[:] = -4.0 / m.timestep
m.snow.sublimation()
m.snow.update_properties()
close(before - s.snow.swe[1, 1], s.snow.sublimation[1, 1], 1e-9, "mass loss = sublimation")
'''),
"ml-relayer-energy": dict(property="P03", edits=[(ML, "                    energy_prev[k_old, i, j] *= 1 - weight\n", "")],
needs="an old layer that is split over two or more new layers and is colder than the melting point",
breaks="splitting a layer counts its internal energy more than once",
demo='''
m = model(snow={"min_thickness": [0.1, 0.2, 0.4]})
s = m.state
s.snow.num_layers[:] = 1
s.snow.thickness[0, :] = 1.0
s.snow.ice_content[0, :] = 300.0
s.snow.temp[0, :] = 263.15
m.snow.update_properties()
e = lambda: float((s.snow.heat_cap * (s.snow.temp - 273.15))[:, 1, 1].sum())
e0 = e()
m.snow.update_layers()
m.snow.update_properties()
close(e(), e0, 1.0, "energy")
'''),
"ml-refreeze-temp": dict(property="P04", edits=[(ML,
"temp[k, i, j] += c.LATENT_HEAT_OF_FUSION * ice_content_change / heat_cap[k, i, j]",
"temp[k, i, j] += c.LATENT_HEAT_OF_FUSION * ice_content_change / heat_cap[0, i, j]")],
needs="refreezing in a layer below the first one",
breaks="the warming by refreezing uses the heat capacity of the top layer",
demo='''
m = model()
s = m.state
s.snow.num_layers[:] = 2
s.snow.thickness[:2, :] = 0.2
s.snow.ice_content[0, :] = 20.0
s.snow.ice_content[1, :] = 60.0
s.snow.liquid_water_content[1, :] = 0.5
s.snow.temp[:, :] = 268.15
m.snow.update_properties()
s.meteo.rainfall[:] = 0
hc = float(s.snow.heat_cap[1, 1, 1])
m.snow.runoff()
close((s.snow.temp[1, 1, 1] - 268.15) * hc, 0.334e6 * 0.5, 10, "refreezing energy")
'''),
"ml-stale-albedo": dict(property="P02", edits=[(ML, "        s.snow.albedo[s.snow.num_layers == 0] = np.nan\n",
"        s.snow.albedo[s.snow.swe == 0] = np.nan\n")],
needs="a snowpack vanishing in the step: the water equivalent is only updated afterwards when update_layers drops a remainder",
breaks="albedo is kept on pixels whose layers were just removed",
demo='''
m = model()
s = m.state
s.snow.num_layers[:] = 1
s.snow.thickness[0, :] = 5e-7
s.snow.ice_content[0, :] = 1e-4
s.snow.albedo[:] = 0.6
m.snow.update_properties()
m.snow.update_layers()
m.snow.update_properties()
check(s.snow.num_layers[1, 1] == 0 and np.isnan(s.snow.albedo[1, 1]), "albedo without snow")
'''),
"cl-firn-melt-lost": dict(property="P07", edits=[(CL,
"            s.snow.liquid_water_content[i, pos] += cur_ice_content_change\n            ice_content_change[pos] -= cur_ice_content_change\n\n    def sublimation",
"            if i < 2:  # firn and ice do not hold liquid water\n                s.snow.liquid_water_content[i, pos] += cur_ice_content_change\n            ice_content_change[pos] -= cur_ice_content_change\n\n    def sublimation")],
needs="melt reaching the firn or ice layer",
breaks="meltwater of firn and ice disappears instead of running off",
demo=CLM + '''
s.snow.thickness[3, :] = 10.0
s.snow.ice_content[3, :] = 9000.0
s.snow.density[3, :] = 900.0
m.snow.update_properties()
s.snow.melt[:] = 5.0
s.meteo.rainfall[:] = 0.0
m.snow.melt()
m.snow.runoff()
close(s.snow.runoff[1, 1], 5.0, 1e-9, "runoff = melt")
'''),
"cl-transition-cold": dict(property="P09", edits=[(CL,
"s.cold_content[dst_layer, pos_merge] += s.cold_content[src_layer, pos_merge]",
"s.cold_content[dst_layer, pos_merge] = (\n            w1 * s.cold_content[src_layer, pos_merge] + w2 * s.cold_content[dst_layer, pos_merge]\n        )")],
needs="a layer with cold content merging into an existing layer",
breaks="the cold content of merged layers is averaged instead of added",
demo=CLM + '''
for k, w in ((0, 60.0), (1, 40.0)):
    s.snow.ice_content[k, :] = w
    s.snow.density[k, :] = 300.0
    s.snow.thickness[k, :] = w / 300.0
    s.snow.cold_content[k, :] = 2.0
    s.snow.layer_albedo[k, :] = 0.7
m.snow.update_layers()
close(s.snow.cold_content[:, 1, 1].sum(), 4.0, 1e-9, "cold content")
'''),
"cl-refreeze-twice": dict(property="P08", edits=[(SU, "        available_cc[cold_conties] -= refreeze_amount\n", "")],
needs="a freezing step with liquid water and spare cold holding capacity or liquid water in both snow layers",
breaks="energy already used for refreezing is used again",
demo=CLM + '''
s.meteo.temp[:] = 263.15
for k in (0, 1):
    s.snow.ice_content[k, :] = 60.0
    s.snow.liquid_water_content[k, :] = 2.0
    s.snow.density[k, :] = 200.0
    s.snow.thickness[k, :] = 0.3
    s.snow.layer_albedo[k, :] = 0.7
m.snow.update_properties()
s.surface.albedo[:] = 0.7
for n, v in dict(spec_hum=0.001, atmos_press=80000.0, sw_in=0.0, sw_out=0.0, lw_in=200.0, wind_speed=2.0, dry_air_density=1.0, snowfall=0.0, rainfall=0.0,
               wet_bulb_temp=263.0, sat_spec_hum=0.002).items():
    if n in s.meteo:
        s.meteo[n][:] = v
s.surface.turbulent_exchange_coeff[:] = 0.002
from openamundsen import surface, constants
l0, c0 = s.snow.liquid_water_content[:, 1, 1].sum(), s.snow.cold_content[:, 1, 1].sum()
from openamundsen.surface import energy_balance_remainder
roi = m.grid.roi
surface.calc_saturation_specific_humidity(m, roi); surface.calc_moisture_availability(m, roi); surface.calc_latent_heat(m, roi)
s.surface.heat_flux[:] = m.config.snow.cryolayers.surface_heat_flux
eb = energy_balance_remainder(m, roi, constants.T0)[4]
avail = -eb * m.timestep / constants.LATENT_HEAT_OF_FUSION * m.config.snow.cryolayers.refreezing_factor
surface.cryo_layer_energy_balance(m)
used = l0 - s.snow.liquid_water_content[:, 1, 1].sum() + s.snow.cold_content[:, 1, 1].sum() - c0
check(used <= avail + 1e-6, f"energy used {used} of {avail}")
'''),
"ti-melt-cap": dict(property="P10", edits=[(CL,
"            melt.clip(min=0),\n            s.snow.ice_content[:, snowies].sum(axis=0),",
"            melt.clip(min=0),\n            s.snow.swe[snowies],")],
needs="potential melt exceeding the ice of a wet snowpack",
breaks="temperature index melt is capped by water equivalent including liquid water, so more melt is reported than ice present",
demo='''
m = model(snow={"model": "cryolayers", "melt": {"method": "temperature_index", "threshold_temp": 273.15, "degree_day_factor": 8.0}})
s = m.state
s.snow.ice_content[0, :] = 1.0
s.snow.liquid_water_content[0, :] = 0.5
s.snow.density[0, :] = 300.0
s.snow.thickness[0, :] = 0.005
m.snow.update_properties()
s.meteo.temp[:] = 290.0
m.snow.temperature_index()
check(s.snow.melt[1, 1] <= 1.0 + 1e-9, f"melt {s.snow.melt[1, 1]}")
'''),
"albedo-refresh-rate": dict(property="P11", edits=[(SN,
"new_albedo[snowfall_rate >= refresh_snowfall_rate] = albedo_config.max",
"new_albedo[snowfall_rate >= refresh_snowfall_rate] = np.maximum(\n            albedo_config.max, new_albedo.max()\n        )")],
needs="one pixel with an albedo above the maximum (e.g. set by snow management or initial state) while another is refreshed",
breaks="the refresh of one pixel depends on other pixels and can exceed the maximum",
demo='''
m = model()
s = m.state
s.snow.albedo[:] = 0.6
s.snow.albedo[0, 0] = 0.95
s.meteo.temp[:] = 265.0
s.surface.temp[:] = 265.0
s.meteo.snowfall[:] = 0.0
s.meteo.snowfall[1, 1] = 20.0
from openamundsen.modules.snow.snow import albedo
albedo(m)
check(s.snow.albedo[1, 1] <= m.config.snow.albedo.max + 1e-9, f"albedo {s.snow.albedo[1, 1]}")
'''),
"heat-lowest-layer": dict(property="P05", edits=[(HC,
"        k = N - 1\n        a[k] = c[k - 1]\n        b[k] = heat_cap[k] + (therm_cond_between[k - 1] + therm_cond_between[k]) * dt\n        c[k] = 0\n        d[k] = (",
"        k = N - 1\n        a[k] = c[k - 1]\n        b[k] = heat_cap[k] + (therm_cond_between[k - 1] + therm_cond_between[k - 1]) * dt\n        c[k] = 0\n        d[k] = (")],
needs="a multi-layer column with different conductances above and below the lowest layer",
breaks="the implicit scheme no longer conserves energy at the lower boundary",
demo='''
from openamundsen.heatconduction import temp_change
T = np.array([260.0, 265.0, 270.0])
dx, lam, cap = np.array([0.1, 0.2, 0.5]), np.array([0.2, 0.3, 0.4]), np.array([5e4, 1e5, 2e5])
dT = temp_change(dx, 3600.0, T, lam, 275.0, 0.1, 1.5, 10.0, cap)
u = 2 / (dx[2] / lam[2] + 0.1 / 1.5)
close((dT * cap).sum(), 3600.0 * (10.0 + u * (275.0 - T[2] - dT[2])), 1.0, "energy")
'''),
"eb-melt-available": dict(property="P06", edits=[(SU,
"        s.snow.melt[melties] = s.snow.ice_content[:, melties].sum(axis=0)",
"        s.snow.melt[melties] = s.snow.swe[melties]")],
needs="melting surface over a wet snowpack whose ice melts completely",
breaks="melt larger than the ice is assumed, energy disappears",
demo='''
from openamundsen import surface
m = model()
s = m.state
m.snow.add_snow(m.grid.roi, np.full(9, 1.0), density=np.full(9, 200.0))
s.snow.liquid_water_content[0, :] = 3.0
s.snow.temp[0, :] = 273.15
m.snow.update_properties()
for n, v in dict(temp=290.0, spec_hum=0.005, atmos_press=80000.0, sw_in=300.0, lw_in=330.0, wind_speed=3.0, dry_air_density=1.0, snowfall=0.0,
                 rainfall=0.0, wet_bulb_temp=280.0).items():
    s.meteo[n][:] = v
s.surface.temp[:] = 273.0
s.surface.albedo[:] = 0.5
s.surface.turbulent_exchange_coeff[:] = 0.003
s.surface.therm_cond[:] = 0.2
s.surface.thickness[:] = 0.1
s.snow.therm_cond[0, :] = 0.2
s.surface.conductance[:] = 0.02
s.soil.temp[:] = 273.15
surface.multilayer_energy_balance(m)
check(s.snow.melt[1, 1] <= 1.0 + 1e-6, f"melt {s.snow.melt[1, 1]}")
'''),
"compaction-dense-layer": dict(property="P12", edits=[(SN,
"                if density[k, i, j] < max_density:\n", "                if density[k, i, j] < max_cold_density or density[k, i, j] < max_density or k > 0:\n")],
needs="a lower layer denser than the maximum density (e.g. refrozen)",
breaks="dense lower layers are expanded instead of being left alone",
demo='''
m = model(snow={"compaction": {"method": "empirical"}})
s = m.state
s.snow.num_layers[:] = 2
s.snow.thickness[:2, :] = 0.1
s.snow.ice_content[0, :] = 20.0
s.snow.ice_content[1, :] = 70.0
s.snow.temp[:] = 268.15
s.meteo.temp[:] = 268.15
m.snow.update_properties()
m.snow.compaction()
check(s.snow.thickness[1, 1, 1] <= 0.1 + 1e-12, f"layer expanded to {s.snow.thickness[1, 1, 1]}")
'''),
}
