SU = "openamundsen/surface.py"
BUGS = {
"eb-rain-heat-melt": dict(property="P06", edits=[(SU,
"            calc_turbulent_fluxes(model, partial_melties)\n            calc_advective_heat(model, partial_melties)\n",
"            calc_turbulent_fluxes(model, partial_melties)\n")],
needs="rain (or snowfall) in the step in which a cold snow surface reaches the melting point",
breaks="melt is computed with the advective heat of the previous, colder surface",
demo='''
from openamundsen import surface
m = model()
s = m.state
s.snow.num_layers[:] = 1
s.snow.thickness[0, :] = 1.0
s.snow.ice_content[0, :] = 300.0
s.snow.temp[0, :] = 263.15
m.snow.update_properties()
for n, v in dict(temp=281.0, spec_hum=0.005, atmos_press=80000.0, sw_in=600.0, lw_in=330.0, wind_speed=3.0, dry_air_density=1.0, snowfall=0.0,
                 rainfall=50.0, wet_bulb_temp=280.0).items():
    s.meteo[n][:] = v
s.surface.temp[:] = 263.15
s.surface.albedo[:] = 0.3
s.surface.turbulent_exchange_coeff[:] = 0.003
s.surface.therm_cond[:] = 0.2
s.surface.thickness[:] = 0.2
s.surface.layer_temp[:] = 270.0
s.surface.conductance[:] = 0.02
surface.energy_balance(m)
g = lambda c, n: float(s[c][n][1, 1])
melt = g("snow", "melt")
check(0 < melt < 300 and abs(g("surface", "temp") - 273.15) < 1e-9, f"partial melt expected {melt}")
e = g("meteo", "net_radiation") + g("surface", "sens_heat_flux") + g("surface", "lat_heat_flux") - g("surface", "heat_flux") \\
    + 4180.0 * (281.0 - 273.15) * 50.0 / m.timestep
close(melt * 0.334e6 / m.timestep, e, 0.1, "melt energy")
'''),
}
