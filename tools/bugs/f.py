GO, PO = "openamundsen/fileio/griddedoutput.py", "openamundsen/fileio/pointoutput.py"
FO, FM = "openamundsen/forcing.py", "openamundsen/fileio/meteo.py"
REC = '''
import pandas as pd, tempfile, shutil, os
from openamundsen import fileio, errors, forcing
D = tempfile.mkdtemp(prefix="oademo_")
def records(**st):
    shutil.rmtree(D, True); os.makedirs(D)
    pd.DataFrame(dict(name=list(st), x=[640050.0 + 100 * k for k in range(len(st))], y=5180050.0, alt=2000.0), index=pd.Index(list(st), name="id")).to_csv(D + "/stations.csv")
    for k, df in st.items():
        df.to_csv(f"{D}/{k}.csv")
def read(start, end, freq, **kw):
    return fileio.read_meteo_data("csv", D, pd.Timestamp(start), pd.Timestamp(end), meteo_crs="epsg:32632", grid_crs="epsg:32632", freq=freq, **kw)
def frame(start, n, step="h", **v):
    return pd.DataFrame({k: np.asarray(x, float) for k, x in v.items()}, index=pd.date_range(start, periods=n, freq=step))
'''
END = "shutil.rmtree(D, True)\n"
BUGS = {
"grid-mean-count": dict(property="P28", edits=[(GO, "                field.data = None\n                field.num_aggregations = 0\n", "                field.data = None\n                if date != self.model.dates[0]:\n                    field.num_aggregations = int(field.agg == \"mean\" and self.format == \"memory\" and date_idx > 0)\n")],
needs="mean values in memory over at least three intervals",
breaks="from the third interval on means are taken with a wrong number of values",
demo='''
m = model(start_date="2020-01-15", end_date="2020-01-18", timestep="12h", init=False)
m.config.output_data.grids.variables = [type(m.config)(dict(var="meteo.temp", freq="D", agg="mean"))]
m.initialize(meteo_callback=lambda m: None)
g = m.gridded_output
for k, t in enumerate(m.dates):
    m.date, m.date_idx = t, k
    m.state.meteo.temp[:] = 256.0 + k
    g.update()
a = g.data["temp"].values[:, 1, 1]
for k in range(3):
    close(a[k], 256.5 + 2 * k, 1e-3, f"mean of day {k}")
'''),
"grid-time-shared": dict(property="P28", edits=[(GO, "    return (tuple(field.write_dates), field.agg is None)\n", "    return (field.write_dates[0], field.write_dates[-1], len(field.write_dates), field.agg is None)\n")],
needs="two variables with equally many write dates, equal first and last ones, and others in between",
breaks="the second variable is labelled with the write dates of the first one",
demo='''
import pandas as pd
m = model(start_date="2020-01-15", end_date="2020-01-15 12:00", timestep="3h", init=False)
C = type(m.config)
d = pd.date_range("2020-01-15", periods=5, freq="3h")
m.config.output_data.grids.variables = [C(dict(var="meteo.temp", dates=list(d[[0, 1, 4]]))), C(dict(var="meteo.precip", dates=list(d[[0, 3, 4]])))]
m.initialize(meteo_callback=lambda m: None)
g = m.gridded_output
for k, t in enumerate(m.dates):
    m.date, m.date_idx = t, k
    m.state.meteo.temp[:] = m.state.meteo.precip[:] = k
    g.update()
for v, want in (("temp", d[[0, 1, 4]]), ("precip", d[[0, 3, 4]])):
    da = g.data[v]
    check(list(pd.DatetimeIndex(da[da.dims[0]].values)) == list(want), f"dates of {v}")
'''),
"grid-file-start": dict(property="P28", edits=[(GO, '''                        if date_idx == 0:
                            start_date = self.model.dates[0]
''','''                        if date_idx == 0:
                            start_date = max(
                                self.model.dates[0],
                                (date - pd.Timedelta(days=28)).normalize(),
                            )
''')],
needs="raster files of aggregated values, a first interval longer than 28 days",
breaks="the file name of the first interval states a wrong start date",
demo='''
m = model(start_date="2020-01-01", end_date="2020-02-29", timestep="D", init=False, output_data={"grids": {"format": "ascii"}})
m.config.output_data.grids.variables = [type(m.config)(dict(var="meteo.precip", freq="ME", agg="sum"))]
m.initialize(meteo_callback=lambda m: None)
for k, t in enumerate(m.dates):
    m.date, m.date_idx = t, k
    m.state.meteo.precip[:] = 1.0
    m.gridded_output.update()
n = sorted(p.name for p in m.config.results_dir.glob("precip_*.asc"))
check(n == ["precip_2020-01-01T0000_2020-01-31T0000.asc", "precip_2020-02-01T0000_2020-02-29T0000.asc"], f"files {n}")
'''),
"point-chunk-end": dict(property="P29", edits=[(PO, "            idxs = np.flatnonzero(self.write_dates < self.model.date)\n", "            idxs = np.flatnonzero(self.write_dates < self.model.date.normalize())\n")],
needs="files written more than once per day",
breaks="chunks after the first one of a day repeat time steps that have already been written, without values",
demo='''
import pandas as pd
m = model(start_date="2020-01-15", end_date="2020-01-15 21:00", timestep="3h", output_data={"timeseries": {"format": "csv", "write_freq": "6h", "points": [{"name": "p", "x": 640150.0, "y": 5180150.0}]}})
for k, t in enumerate(m.dates):
    m.date, m.date_idx = t, k
    m.state.meteo.temp[:] = 270.0 + k
    m.point_output.update()
df = pd.read_csv(next(m.config.results_dir.glob("point_*.csv")), index_col=0, parse_dates=True)
t = [str(pd.Timestamp(d)) for d in df.index]
check(t == [str(d) for d in m.dates], f"{t}")
'''),
"point-name-number": dict(property="P29", edits=[(PO, '                point_name = f"point{point_num + 1}"', '                point_name = f"point{len(points) + 1}"')],
needs="unnamed points together with stations in the region of interest",
breaks="unnamed points are numbered after the stations instead of by their position in the list",
demo='''
import pandas as pd, xarray as xr
from openamundsen.fileio.pointoutput import PointOutputManager
m = model()
t = m.config.output_data.timeseries
t.add_default_points = True
t.points = [type(m.config)(dict(x=640150.0, y=5180150.0))]
d = {n: ("station", np.array([v])) for n, v in dict(x=640050.0, y=5180050.0, lon=11.0, lat=46.0, alt=1.0, row=2, col=0, within_roi=True, within_grid_extent=True).items()}
m.meteo = xr.Dataset(d, coords={"station": ["s"]})
n = [p.name for p in PointOutputManager(m).points]
check(n == ["s", "point1"], f"names {n}")
'''),
"point-memory-index": dict(property="P29", edits=[(PO, "        date_idx = np.argmax(ds.time.values == date.to_datetime64())\n", "        date_idx = int((date - ds.indexes[\"time\"][0]) / pd.Timedelta(\"1h\")) * 3600 // int(self.model.timestep)\n")],
needs="time steps that are no whole hours",
breaks="values are written to wrong rows: the row index is truncated to whole hours",
demo='''
m = model(start_date="2020-01-15", end_date="2020-01-15 03:00", timestep="30min", output_data={"timeseries": {"points": [{"name": "p", "x": 640150.0, "y": 5180150.0}]}})
for k, t in enumerate(m.dates):
    m.date, m.date_idx = t, k
    m.state.meteo.temp[:] = 270.0 + k
    m.point_output.update()
v = m.point_output.data["temp"].values[:, 0]
for k in range(len(m.dates)):
    close(v[k], 270.0 + k, 1e-3, f"row {k}")
'''),
"rate-in-place": dict(property="P31", edits=[(FO, "        data = data.copy(deep=True)  # required because of the potential precipitation-altering\n", "        data = data.copy()\n        data.attrs = dict(data.attrs)\n"), (FO, '                data["precip"] *= dt\n', '                data["precip"].values[:] *= dt\n')],
needs="a dataset with precipitation rates that is used again after it has been passed in",
breaks="the precipitation of the dataset passed in is multiplied by the time step, so that a second use does so again",
demo='''
import pandas as pd, xarray as xr
from openamundsen import forcing
s = xr.Dataset({"precip": ("time", np.full(5, 0.001), {"units": "kg m-2 s-1"}), "lon": 11.0, "lat": 46.0, "alt": 2000.0}, coords={"time": pd.date_range("2020-01-01", periods=5, freq="h")}, attrs={"station_id": "a"})
a = forcing.make_point_dataset(s)
close(a.precip[0], 3.6, 1e-9, "first use")
close(s.precip[0], 0.001, 1e-12, "input changed")
'''),
"include-excluded": dict(property="P31", edits=[(FM, "    meta_all = meta.copy()\n", "    meta_all = meta if exclude is None else meta.drop(index=exclude, errors=\"ignore\")\n")],
needs="a station that is both excluded and included",
breaks="a station cannot be included any more if it is listed as excluded",
demo=REC + '''
records(a=frame("2020-01-15", 4, temp=[270.0] * 4), b=frame("2020-01-15", 4, temp=[271.0] * 4))
try:
    ds = read("2020-01-15", "2020-01-15 03:00", "h", exclude=["b"], include=["b"])
    check(list(ds.station.values) == ["a", "b"], f"stations {list(ds.station.values)}")
except errors.MeteoDataError as e:
    check(False, str(e))
''' + END),
"station-edge-roi": dict(property="P31", edits=[(FO, "        if dss.within_grid_extent:\n", "        if dss.within_grid_extent and dss.row > 0 and dss.col > 0:\n")],
needs="a station in the first row or column of the grid",
breaks="stations in the first row or column are not recognized as lying in the region of interest",
demo='''
from openamundsen import forcing, util
m = model()
lon, lat = util.transform_coords([640050.0, 640150.0], [5180050.0, 5180150.0], m.config.crs, "epsg:4326")
ds = forcing.combine_point_datasets([forcing.make_empty_point_dataset(m.dates, f"s{k}", "s", lon[k], lat[k], 0.0) for k in range(2)])
r = forcing.prepare_point_coordinates(ds, m.grid, m.config.crs)
check(list(r.within_roi.values) == [True, True], f"within ROI {r.within_roi.values}")
'''),
"resample-first-bin": dict(property="P32", edits=[(FM, "        ds = ds.sel(time=slice(start_date - td_1d, end_date))\n", "        ds = ds.sel(time=slice(start_date - (td_1d if aggregate else freq_td / 2), end_date))\n")],
needs="instantaneous values and precipitation at a coarser time step, records before the begin of the run",
breaks="the precipitation of the first time step lacks half of its interval",
demo=REC + '''
records(a=frame("2020-01-14", 48, temp=[270.0] * 48, precip=[1.0] * 48))
ds = read("2020-01-15", "2020-01-15 09:00", "6h")
close(ds.precip.values[0, 0], 6.0, 1e-9, "first time step")
''' + END),
"precip-gap": dict(property="P32", edits=[(FM, "            .agg(pd.Series.sum, skipna=False)\n", "            .sum(min_count=2)\n")],
needs="missing precipitation records within an interval",
breaks="precipitation sums ignore missing records instead of being missing",
demo=REC + '''
p = [1.0] * 24; p[5] = np.nan
records(a=frame("2020-01-15", 24, temp=[270.0] * 24, precip=p))
ds = read("2020-01-15", "2020-01-15 09:00", "3h", aggregate=True)
check(np.isnan(ds.precip.values[0, 2]) and ds.precip.values[0, 1] == 3.0, f"{ds.precip.values}")
''' + END),
"filter-last": dict(property="P32", edits=[(FM, '''        if filters is not None:
            ds = _apply_filters(ds, filters)

''', ""), (FM, '''        if ds.sizes["time"] == 0:
            logger.warning("File contains''', '''        if filters is not None:
            ds = _apply_filters(ds, filters)

        if ds.sizes["time"] == 0:
            logger.warning("File contains''')],
needs="records out of the filter range, aggregated to a coarser time step",
breaks="filters are applied after aggregation, so that single wrong values contaminate the means",
demo=REC + '''
t = [270.0] * 24; t[5] = 999.0
records(a=frame("2020-01-15", 24, temp=t))
ds = read("2020-01-15", "2020-01-15 09:00", "3h", aggregate=True, filters=[dict(filter="range", var="temp", min=200.0, max=330.0)])
check(np.allclose(ds.temp.values[0], 270.0), f"{ds.temp.values}")
''' + END),
"wind-dir-bin": dict(property="P32", edits=[(FM, '''    df_res = df.resample(freq, **resample_kwargs).mean()
    _, wd_res''', '''    df_res = df.resample(freq, label=resample_kwargs["label"], origin=resample_kwargs["origin"]).mean()
    _, wd_res''')],
needs="wind directions that change at the edge of an interval, aggregated",
breaks="the mean direction is that of the interval shifted by one record",
demo=REC + '''
wd = [90.0] * 7 + [180.0] * 17
records(a=frame("2020-01-15", 24, temp=[270.0] * 24, wind_speed=[2.0] * 24, wind_dir=wd))
ds = read("2020-01-15", "2020-01-15 09:00", "3h", aggregate=True)
close(ds.wind_dir.values[0, 2], 90.0, 1e-6, "04:00 to 06:00")
close(ds.wind_dir.values[0, 3], 180.0, 1e-6, "07:00 to 09:00")
''' + END),
}
