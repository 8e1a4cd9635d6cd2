ML, CL, CA = "openamundsen/modules/snow/multilayermodel.py", "openamundsen/modules/snow/cryolayermodel.py", "openamundsen/modules/canopy/canopy.py"
BUGS = {
"relayer-four": dict(property="P03", edits=[(ML, "                if new_thickness <= min_thickness[k] or k == max_num_layers - 1:\n", "                if new_thickness <= min_thickness[k] or k == min(max_num_layers, 4) - 1:\n")],
needs="more than four configured snow layers and a deep snowpack",
breaks="the fifth layer is never used",
demo='''
m = model(snow={"model": "multilayer", "min_thickness": [0.1, 0.2, 0.2, 0.2, 0.4]})
s = m.state.snow
s.num_layers[:] = 1
s.thickness[0], s.ice_content[0], s.liquid_water_content[0], s.temp[0], s.albedo[:] = 3.0, 600.0, 0.0, 265.0, 0.8
m.snow.update_properties()
m.snow.update_layers()
check(s.num_layers[1, 1] == 5, f"layers {s.num_layers[1, 1]}")
close(s.thickness[3, 1, 1], 0.2, 1e-9, "configured thickness")
'''),
"canopy-shared-load": dict(property="P30", edits=[(CA, "            s.snow.canopy_intercepted_load[pos],\n        )\n        canopy_melt[np.isnan", "            s.snow.canopy_intercepted_load[pos].max(initial=0.0),\n        )\n        canopy_melt[np.isnan")],
needs="several forest pixels with different intercepted snow and melting",
breaks="melt unload of a pixel is limited by the load of the fullest pixel",
demo='''
C = {7: dict(is_forest=True, leaf_area_index={"min": 2.0, "max": 2.0, "effective_add": 1.0}, plant_date=1, growth_stage_lengths=[0, 80, 200, 80])}
m = model(canopy={"enabled": True}, land_cover={"classes": C}, grids={"lc": np.full((3, 3), 7)})
s = m.state
m.land_cover.lai()
for v, x in dict(temp=276.0, snowfall=0.0, rainfall=0.0, precip=0.0, rel_hum=99.0, wind_speed=1.0, top_canopy_sw_in=0.0, sat_vap_press=700.0, sw_in=0.0, lw_in=300.0).items(): s.meteo[v][:] = x
s.surface.albedo[:] = 0.5
s.snow.canopy_intercepted_load[:] = 0.25
s.snow.canopy_intercepted_load[0, 0] = 5.0
m.canopy.snow()
check((s.snow.canopy_intercepted_load >= 0).all(), "negative load")
'''),
"cold-content-max": dict(property="P30", edits=[(CL, "            runoff_cur = (s.snow.liquid_water_content[i, pos] - max_lwc[i, pos]).clip(min=0)\n", "            runoff_cur = (s.snow.liquid_water_content[i, pos] - max_lwc[i, pos].max(initial=0.0)).clip(min=0)\n")],
needs="pixels with different snow and more water than can be held",
breaks="the water that a pixel can hold is the one of the deepest snow in the model domain",
demo='''
r = []
for other in (50.0, 500.0):
    m = model(snow={"model": "cryolayers", "liquid_water_content": {"method": "mass_fraction", "max": 0.1}})
    s = m.state
    for v in (s.snow.ice_content, s.snow.liquid_water_content, s.snow.thickness): v[:] = 0.0
    s.snow.ice_content[0], s.snow.thickness[0] = 50.0, 0.25
    s.snow.ice_content[0, 0, 0], s.snow.thickness[0, 0, 0] = other, other / 200
    s.snow.layer_albedo[0] = 0.8
    m.snow.update_properties()
    s.meteo.rainfall[:] = 20.0
    m.snow.runoff()
    r.append(float(s.snow.runoff[1, 1]))
close(r[0], r[1], 1e-9, "runoff does not depend on the neighbour")
'''),
}
