"""
Configuration: validation, conversion and effect of the given values.

conf.parse_config runs on configurations whose numbers, and whose points in time, are symbolic: which configurations are accepted, and what comes out for
every entry, is compared with the documentation of the entries. For the parameters of the radiation balance the computed fluxes are compared with the
formulas in the given values.
"""
from symex.api import *

scenario = Registry()
BOUNDS = (
    "all numeric entries of the configuration at once, anywhere in their documented range (values -1e4..1e4), and singly anywhere in -1e4..1e4 where a range is documented; "
    "start and end at any minute of two days with time steps of 10 min to 1 d; all combinations of snow model, melt and glacier methods; six land cover overrides"
)
OUTSIDE = "reading of YAML; coordinate reference systems; names of variables and files; the pandas frequency aliases; the snow management plugin; rounding"
NAN = float("nan")
MINIMAL = {"domain": "t", "start_date": "2020-01-15", "end_date": "2020-01-17", "crs": "epsg:32632", "resolution": 100, "timezone": 1}

# number, documented range
NUMBERS = {
    "meteo.interpolation.temperature.regression_params.delta_aic_threshold": (0, 100), "meteo.interpolation.humidity.regression_params.delta_aic_threshold": (0, 100),
    "meteo.interpolation.wind.curvature_length_scale": (1, 5000), "meteo.interpolation.wind.slope_weight": (0, 1), "meteo.interpolation.wind.curvature_weight": (0, 1),
    "meteo.interpolation.cloudiness.pressure_level": (300, 1000), "meteo.interpolation.cloudiness.saturation_cloud_fraction": (0, 1), "meteo.interpolation.cloudiness.e_folding_humidity": (1, 100),
    "meteo.precipitation_phase.threshold_temp": (200, 300), "meteo.precipitation_phase.temp_range": (0, 10),
    "meteo.radiation.snow_emissivity": (0, 1), "meteo.radiation.cloud_emissivity": (0, 1), "meteo.radiation.rock_emission_factor": (0, 1), "meteo.radiation.ozone_layer_thickness": (0, 1),
    "meteo.radiation.atmospheric_visibility": (1, 1e4), "meteo.radiation.single_scattering_albedo": (0, 1), "meteo.radiation.clear_sky_albedo": (0, 1),
    "meteo.measurement_height.temperature": (0.1, 50), "meteo.measurement_height.wind": (0.1, 50), "meteo.stability_adjustment_parameter": (0, 10),
    "snow.melt.threshold_temp": (200, 300), "snow.melt.degree_day_factor": (0, 20), "snow.melt.albedo_factor": (0, 20),
    "snow.thermal_conductivity": (0, 3), "snow.roughness_length": (0, 1), "snow.snow_cover_fraction_depth_scale": (0, 10), "snow.liquid_water_content.max": (0, 1),
    "snow.compaction.timescale": (1, 1e4), "snow.compaction.max_cold_density": (50, 917), "snow.compaction.max_melting_density": (50, 917),
    "snow.albedo.min": (0, 1), "snow.albedo.max": (0, 1), "snow.albedo.cold_snow_decay_timescale": (1, 1e4), "snow.albedo.melting_snow_decay_timescale": (1, 1e4),
    "snow.albedo.refresh_snowfall": (0, 100), "snow.albedo.k_pos": (0.01, 10), "snow.albedo.k_neg": (0.01, 10), "snow.albedo.significant_snowfall": (0, 100),
    "snow.albedo.firn": (0, 1), "snow.albedo.ice": (0, 1), "snow.cryolayers.transition.old_snow": (50, 917), "snow.cryolayers.transition.ice": (50, 917),
    "snow.cryolayers.cold_holding_capacity": (0, 1), "snow.cryolayers.refreezing_factor": (0, 1), "snow.cryolayers.surface_heat_flux": (-100, 100),
    "soil.sand_fraction": (0, 1), "soil.clay_fraction": (0, 1), "soil.init_moisture_content": (0, 1), "soil.init_temp": (200, 320),
    "soil.saturated_soil_surface_conductance": (0, 1), "soil.roughness_length": (0, 10), "soil.albedo": (0, 1),
    "canopy.extinction_coefficient": (0, 1), "canopy.temperature_scaling_coefficient": (0, 1), "canopy.canopy_flow_index_coefficient": (0, 10),
    "canopy.spherical_ice_particle_radius": (0, 1), "canopy.kinematic_air_viscosity": (0, 1), "canopy.max_interception_storage_coefficient": (0, 10),
    "canopy.exposure_coefficient_coefficient": (0, 1), "canopy.degree_day_factor": (0, 20),
    "evapotranspiration.min_crop_coefficient": (0, 1), "evapotranspiration.grass_albedo": (0, 1), "evapotranspiration.grass_emissivity": (0, 1), "evapotranspiration.sealed_albedo": (0, 1),
    "evapotranspiration.sealed_emissivity": (0, 1), "evapotranspiration.mean_wind_speed": (0, 50), "evapotranspiration.mean_min_humidity": (0, 100),
    "evapotranspiration.surface_soil_layer_evaporation_depth": (0, 1),
}
WHOLE = {  # accepted, rejected
    "meteo.interpolation.temperature.regression_params.max_segments": ((1, 2, 5), (0, -1)), "meteo.interpolation.temperature.regression_params.min_points_per_segment": ((2, 3), (1, 0)),
    "meteo.interpolation.humidity.regression_params.max_segments": ((1, 2, 5), (0, -1)), "meteo.interpolation.humidity.regression_params.min_points_per_segment": ((2, 3), (1, 0)),
    "meteo.radiation.num_shadow_sweeps": ((1, 2), ()), "meteo.radiation.shadows_downsampling_factor": ((1, 2, 4), (0, -1)), "numba_threads": ((1, 4, "auto"), (0, "all")),
    "snow.cryolayers.transition.firn": ((1, 10), ()), "liveview.downsample": ((1, 3), (0,)), "glaciers.delta_h.mass_balance_year_start_month": ((1, 10, 12), (0, 13)),
    "simulation_timezone": ((-3, 0, 5, None), ()), "timezone": ((-11, 0, 5), ()), "snow.albedo.method": (("snow_age",), ("none",)), "snow.compaction.method": (("anderson", "empirical"), ("none",)),
    "snow.liquid_water_content.method": (("pore_volume_fraction", "mass_fraction"), ("none",)), "snow.albedo.refresh_method": (("binary", "continuous"), ("none",)),
    "snow.albedo.decay_timescale_determination_temperature": (("surface", "air"), ("none",)), "snow.cryolayers.surface_temperature_iteration_method": (("legacy", "secant"), ("none",)),
    "meteo.precipitation_phase.method": (("temp", "wet_bulb_temp"), ("none",)), "meteo.interpolation.temperature.trend_method": (("regression", "fixed"), ("none", "fractional")),
    "meteo.interpolation.precipitation.trend_method": (("regression", "adjustment_factor", "fractional"), ("fixed",)), "meteo.interpolation.humidity.trend_method": (("regression", "fixed"), ("fractional",)),
    "meteo.interpolation.wind.trend_method": (("regression", "fixed"), ("fractional",)), "meteo.interpolation.wind.method": (("idw", "liston"), ("none",)),
    "meteo.interpolation.cloudiness.method": (("clear_sky_fraction", "humidity", "prescribed"), ("none",)), "meteo.interpolation.cloudiness.clear_sky_fraction_night_method": (("humidity", "constant"), ("none",)),
    "input_data.meteo.format": (("netcdf", "csv", "memory", "callback"), ("xls",)), "output_data.grids.format": (("netcdf", "ascii", "geotiff", "memory"), ("csv",)),
    "output_data.timeseries.format": (("netcdf", "csv", "memory"), ("ascii",)), "snow.unknown_entry": ((), (1,)), "unknown_entry": ((), (1,)), "snow.albedo.unknown_entry": ((), (0.5,)),
}
FLAGS = (
    "enable_default_logging", "reset_state_variables", "extend_roi_with_stations", "input_data.meteo.aggregate_when_downsampling", "input_data.meteo.enable_missing_data_checks",
    "output_data.grids.append", "output_data.grids.compress", "output_data.timeseries.add_default_points", "output_data.timeseries.add_default_variables", "meteo.interpolation.temperature.extrapolate",
    "meteo.interpolation.precipitation.extrapolate", "meteo.interpolation.humidity.extrapolate", "meteo.interpolation.wind.extrapolate", "meteo.interpolation.cloudiness.allow_fallback",
    "meteo.precipitation_phase.enforce_no_snow_below_rain", "meteo.stability_correction", "snow.measurement_height_adjustment", "snow.cryolayers.use_single_snow_albedo", "canopy.enabled",
    "evapotranspiration.enabled", "liveview.enabled", "liveview.blit",
)


def put(d, path, v):
    *head, last = path.split(".")
    for k in head:
        d = d.setdefault(k, {})
    d[last] = v
    return d


def get(d, path):
    for k in path.split("."):
        d = d[k]
    return d


def config(**over):
    import copy

    d = copy.deepcopy(MINIMAL)
    for k, v in over.items():
        put(d, k.replace("__", "."), v)
    return d


def frozen(d):
    """Deep copy keeping the leaves."""
    if isinstance(d, dict):
        return {k: frozen(v) for k, v in d.items()}
    if isinstance(d, list):
        return [frozen(v) for v in d]
    return d


def same(a, b):
    """Structural equality where leaves are equal if identical, or by value."""
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is b:
        return True
    if isinstance(a, float) and a != a:
        return isinstance(b, float) and b != b
    return bool(a == b)


class types:
    """Let symbolic numbers and points in time pass as what they stand for."""

    def __init__(self, ctx):
        import cerberus
        from openamundsen import conf

        self.v, self.old = conf.ConfigurationValidator, conf.ConfigurationValidator.types_mapping
        base, T = cerberus.Validator, cerberus.TypeDefinition
        more = (core.SymReal,) if ctx.symbolic else ()
        m = dict(base.types_mapping)
        for n in ("number", "float"):
            m[n] = T(n, m[n].included_types + more, m[n].excluded_types)
        m["datetime"] = T("datetime", m["datetime"].included_types + (Time,), ())
        self.new = m

    def __enter__(self):
        import cerberus

        self.saved = [(c, c.types_mapping) for c in (self.v, cerberus.Validator)]
        for c, _ in self.saved:
            c.types_mapping = self.new

    def __exit__(self, *a):
        for c, old in self.saved:
            c.types_mapping = old


def parse(ctx, d):
    """Parsed configuration or None if it is rejected."""
    import warnings

    from openamundsen import conf, errors

    with types(ctx), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return conf.parse_config(conf.Configuration.fromDict(d))
        except errors.ConfigurationError:
            return None


@scenario
def kept(ctx):
    """Every number that is given is used as given; every other entry keeps its default; the dictionary passed in is left alone."""
    half = ctx.choose(2, "half")
    method = ("energy_balance", "temperature_index", "enhanced_temperature_index")[ctx.choose(3, "melt")]
    d = config(snow__melt__method=method, snow__model="cryolayers")
    ref = parse(ctx, config(snow__melt__method=method, snow__model="cryolayers", snow__melt__degree_day_factor=1.0, snow__melt__albedo_factor=1.0))
    given = {}
    for k, (n, (lo, hi)) in enumerate(NUMBERS.items()):
        if k % 2 == half or n.startswith("snow.melt."):
            given[n] = ctx.real(n, lo, hi)
            put(d, n, given[n])
    for n in ("temperature", "precipitation", "humidity", "wind"):
        given[f"meteo.interpolation.{n}.lapse_rate"] = [ctx.real(f"{n}{k}", -1, 1) for k in range(12)]
        put(d, f"meteo.interpolation.{n}.lapse_rate", list(given[f"meteo.interpolation.{n}.lapse_rate"]))
    for n in ("snow.min_thickness", "soil.thickness"):
        given[n] = [ctx.real(f"{n}{k}", 0.01, 1) for k in range(3)]
        put(d, n, list(given[n]))
    before = frozen(d)
    c = parse(ctx, d)
    ctx.claim("accepted", c is not None)
    ctx.claim("untouched", same(before, frozen(d)))
    for n, v in given.items():
        w = get(c, n)
        for x, y in zip(v, w) if isinstance(v, list) else [(v, w)]:
            ctx.claim_eq("kept:" + n, y, x, 0)
        put(c, n, None)
        put(ref, n, None)
    ctx.claim("others", same(frozen(ref), frozen(c)))


@scenario
def ranges(ctx):
    """Numbers are accepted exactly in their documented range."""
    n = ("snow.albedo.min", "snow.albedo.max", "snow.cryolayers.cold_holding_capacity", "snow.cryolayers.refreezing_factor")[ctx.choose(4, "entry")]
    v = ctx.real(n, -100, 100)
    c = parse(ctx, config(**{n.replace(".", "__"): v}))
    inside = bool(0.0 <= v) and bool(v <= 1.0)
    ctx.claim("accepted-in-range" if inside else "rejected-out-of-range", (c is not None) == inside)
    if inside:
        ctx.claim_eq("kept", get(c, n), v, 0)


@scenario
def choices(ctx):
    """Whole numbers, options and flags: accepted and kept, or rejected."""
    n = list(WHOLE)[ctx.choose(len(WHOLE), "entry")]
    x = ctx.real("value", 0.25, 0.75)  # some number that comes along
    for ok, values in zip((True, False), WHOLE[n]):
        for v in values:
            c = parse(ctx, config(snow__albedo__min=x, **{n.replace(".", "__"): v}))
            ctx.claim("accepted" if ok else "rejected", (c is not None) == ok)
            if ok:
                ctx.claim("kept", get(c, n) == v and type(get(c, n)) is type(v))
                ctx.claim_eq("number", c["snow"]["albedo"]["min"], x, 0)


@scenario
def required(ctx):
    """Entries without a default have to be given."""
    x = ctx.real("value", 0.25, 0.75)
    for n in MINIMAL:
        d = config(snow__albedo__min=x)
        del d[n]
        ctx.claim("required", parse(ctx, d) is None)


@scenario
def flags(ctx):
    """Flags are kept, whatever the others are."""
    x = ctx.real("value", 0.25, 0.75)
    a = ctx.choose(2, "pattern")
    for k in range(6):
        want = {n: (i >> k) % 2 == a for i, n in enumerate(FLAGS)}
        c = parse(ctx, config(snow__albedo__max=x, **{n.replace(".", "__"): v for n, v in want.items()}))
        ctx.claim("accepted", c is not None)
        for n, v in want.items():
            ctx.claim("kept", get(c, n) is v)


@scenario
def phase_threshold(ctx):
    """A threshold temperature in degrees Celsius is converted to K, one in K is kept."""
    from openamundsen import constants  # noqa: F401

    v = ctx.real("threshold", -100, 400)
    c = parse(ctx, config(meteo__precipitation_phase__threshold_temp=v))
    ctx.claim("accepted", c is not None)
    celsius = bool(v < 20.0) and bool(v > -20.0)
    ctx.claim_eq("converted" if celsius else "kept", c["meteo"]["precipitation_phase"]["threshold_temp"], v + 273.15 if celsius else v, 1e-9)
    again = parse(ctx, c)
    ctx.claim("again", again is not None)
    ctx.claim_eq("once", again["meteo"]["precipitation_phase"]["threshold_temp"], c["meteo"]["precipitation_phase"]["threshold_temp"], 0)


@scenario(params={m: dict(method=m) for m in ("usaco", "fsm", "snow_age")}, merged=True)
def albedo_methods(ctx, method):
    """Former names of the albedo methods stand for the equivalent parameters of the snow age method; a second pass changes nothing."""
    num = {k: ctx.real(k, lo, hi) for k, (lo, hi) in dict(k_pos=(0.01, 5), k_neg=(0.01, 5), significant_snowfall=(0, 20), cold_snow_decay_timescale=(1, 1000), melting_snow_decay_timescale=(1, 1000), refresh_snowfall=(0, 20)).items()}
    d = config()
    d["snow"] = {"albedo": dict(method=method, **num)}
    c = parse(ctx, d)
    ctx.claim("accepted", c is not None)
    a = c["snow"]["albedo"]
    ctx.claim("method", a["method"] == "snow_age")
    want = dict(num)
    temp, refresh = "surface", "binary"
    if method == "usaco":
        want.update(refresh_snowfall=num["significant_snowfall"])
        # rates per day, time scales in hours
        ctx.claim_eq("cold-time-scale", a["cold_snow_decay_timescale"] * num["k_neg"], 24.0, 1e-6)
        ctx.claim_eq("melting-time-scale", a["melting_snow_decay_timescale"] * num["k_pos"], 24.0, 1e-6)
        temp = "air"
    else:
        ctx.claim_eq("cold-time-scale", a["cold_snow_decay_timescale"], num["cold_snow_decay_timescale"], 0)
        ctx.claim_eq("melting-time-scale", a["melting_snow_decay_timescale"], num["melting_snow_decay_timescale"], 0)
        refresh = "continuous" if method == "fsm" else "binary"
    ctx.claim_eq("refresh", a["refresh_snowfall"], want["refresh_snowfall"], 0)
    ctx.claim("refresh-method", a["refresh_method"] == refresh)
    ctx.claim("temperature", a["decay_timescale_determination_temperature"] == temp)
    held = frozen(c)
    again = parse(ctx, c)
    ctx.claim("again", again is not None and same(frozen(again), held))


@scenario
def combinations(ctx):
    """Models and methods that need each other."""
    snow = ("multilayer", "cryolayers", "layers")[ctx.choose(3, "snow")]
    melt = ("energy_balance", "temperature_index", "enhanced_temperature_index")[ctx.choose(3, "melt")]
    glaciers = bool(ctx.choose(2, "glaciers"))
    given = ctx.choose(4, "factors")
    ddf, af = ctx.real("ddf", -10, 10), ctx.real("af", -10, 10)
    d = config(snow__model=snow, snow__melt__method=melt, glaciers__enabled=glaciers)
    if given & 1:
        put(d, "snow.melt.degree_day_factor", ddf)
    if given & 2:
        put(d, "snow.melt.albedo_factor", af)
    model = "multilayer" if snow == "layers" else snow
    ok = model == "cryolayers" or melt == "energy_balance" and not glaciers
    ok = ok and (melt == "energy_balance" or bool(given & 1) and (melt == "temperature_index" or bool(given & 2)))
    c = parse(ctx, d)
    ctx.claim("accepted" if ok else "rejected", (c is not None) == ok)
    if ok:
        ctx.claim("model", c["snow"]["model"] == model and c["snow"]["melt"]["method"] == melt and c["glaciers"]["enabled"] == glaciers)
        for n, v, bit in (("degree_day_factor", ddf, 1), ("albedo_factor", af, 2)):
            if given & bit:
                ctx.claim_eq(n, c["snow"]["melt"][n], v, 0)
            else:
                ctx.claim("no-" + n, c["snow"]["melt"][n] is None)


@scenario
def renamed(ctx):
    """Former names of entries, without touching the dictionary passed in."""
    v, w = ctx.real("v", 0, 1), ctx.real("w", 100, 1000)
    case = ctx.choose(5, "case")
    d = config(meteo__interpolation__cloudiness__pressure_level=w)
    mi = put(d, "meteo.interpolation.wind" if case in (1, 4) else "meteo.interpolation.wind_speed", {"slope_weight": v, "trend_method": "fixed"})
    if case in (2, 3):
        put(d, "meteo.interpolation.cloudiness.day_method", "humidity")
        put(d, "meteo.interpolation.cloudiness.night_method", "constant")
        if case == 3:
            put(d, "meteo.interpolation.cloudiness.method", "humidity")
    if case == 4:
        mi["wind_speed"] = {"slope_weight": w}
    before = frozen(d)
    c = parse(ctx, d)
    ctx.claim("untouched", same(frozen(d), before))
    if case in (3, 4):
        ctx.claim("ambiguous", c is None)
        return
    ctx.claim("accepted", c is not None)
    ctx.claim_eq("wind", get(c, "meteo.interpolation.wind.slope_weight"), v, 0)
    ctx.claim("trend", get(c, "meteo.interpolation.wind.trend_method") == "fixed" and "wind_speed" not in get(c, "meteo.interpolation"))
    cl = get(c, "meteo.interpolation.cloudiness")
    ctx.claim_eq("level", cl["pressure_level"], w, 0)
    want = ("humidity", "constant") if case == 2 else ("clear_sky_fraction", "humidity")
    ctx.claim("cloudiness", (cl["method"], cl["clear_sky_fraction_night_method"]) == want and "day_method" not in cl and "night_method" not in cl)


SHIPPED = {  # land cover classes which come with default parameters
    4: dict(crop_coefficient_type="dual", crop_coefficients=[0.3, 0.9, 0.8], plant_date=60, growth_stage_lengths=[10, 20, 210, 30], max_height=0.225, rooting_depth=0.5, depletion_fraction=0.6),
}


@scenario
def land_cover(ctx):
    """Given land cover parameters replace exactly the ones of the same name of the same class; new classes hold what is given."""
    x, y, z = ctx.real("x", 0.1, 10), ctx.real("y", 0.1, 10), ctx.real("z", 0.1, 10)
    case = ctx.choose(6, "case")
    base = frozen(parse(ctx, config())["land_cover"]["classes"])
    for n, v in SHIPPED[4].items():
        ctx.claim("default:" + n, same(base[4][n], v))
    over = {
        0: {5: {"leaf_area_index": {"max": x}}},
        1: {5: {"leaf_area_index": {"min": x, "effective_add": y}, "max_height": z}},
        2: {4: {"max_height": x, "crop_coefficients": [x, y, z]}},
        3: {99: {"max_height": x, "leaf_area_index": {"min": y, "max": z, "effective_add": x}}},
        4: {1: {"rooting_depth": x, "is_water_body": False}, 2: {"max_sealed_interception": y}, 77: {"is_forest": True, "depletion_fraction": z}},
        5: {},
    }[case]
    want = frozen(base)
    for k, ps in over.items():
        c = want.setdefault(k, {})
        for n, v in ps.items():
            if isinstance(v, dict):
                c[n] = {**c.get(n, {}), **v}
            else:
                c[n] = v
    d = config()
    d["land_cover"] = {"classes": frozen(over)}
    before = frozen(d)
    c = parse(ctx, d)
    ctx.claim("accepted", c is not None)
    ctx.claim("untouched", same(frozen(d), before))
    got = frozen(c["land_cover"]["classes"])
    ctx.claim("classes", set(got) == set(want))
    for k in want:
        ctx.claim("parameters", set(got[k]) == set(want[k]))
        for n in want[k]:
            ctx.claim("value:" + n, same(got[k][n], want[k][n]))
    # the defaults are not changed by an earlier configuration
    ctx.claim("defaults", same(frozen(parse(ctx, config())["land_cover"]["classes"]), base))


class Time:
    """Point in time (minutes)."""

    def __init__(self, t):
        self.t = t

    def __add__(self, d):
        return Time(self.t + minutes(d))

    def __sub__(self, o):
        return Span(self.t - o.t) if isinstance(o, Time) else Time(self.t - minutes(o))

    def normalize(self):
        import pandas as pd

        return Time(1440.0 * below(self.t, 1440.0))

    def _cmp(f):
        return lambda self, o: bool(f(self.t, o.t if isinstance(o, Time) else instant(o)))

    __radd__ = __add__
    __lt__, __le__ = _cmp(lambda a, b: a < b), _cmp(lambda a, b: a <= b)
    __gt__, __ge__ = _cmp(lambda a, b: a > b), _cmp(lambda a, b: a >= b)
    __eq__, __ne__ = _cmp(lambda a, b: a == b), _cmp(lambda a, b: a != b)
    __hash__ = None

    def __rsub__(self, o):
        return Span(instant(o) - self.t)


class Span:
    def __init__(self, m):
        self.m = m

    def __mod__(self, o):
        return Span(self.m - minutes(o) * below(self.m, minutes(o)))

    def __floordiv__(self, o):
        return below(self.m, minutes(o))

    def __add__(self, o):
        return o + self if isinstance(o, Time) else Span(self.m + minutes(o))

    __radd__ = __add__

    def __sub__(self, o):
        return Span(self.m - minutes(o))

    def __rsub__(self, o):
        return Span(minutes(o) - self.m) if not hasattr(o, "year") else Time(instant(o) - self.m)

    def __mul__(self, o):
        return Span(self.m * o)

    __rmul__ = __mul__
    __neg__ = lambda self: Span(-self.m)
    total_seconds = lambda self: self.m * 60.0
    __bool__ = lambda self: not bool(self.m == 0.0)
    __lt__ = lambda self, o: bool(self.m < minutes(o))
    __le__ = lambda self, o: bool(self.m <= minutes(o))
    __gt__ = lambda self, o: bool(self.m > minutes(o))
    __ge__ = lambda self, o: bool(self.m >= minutes(o))
    __eq__ = lambda self, o: bool(self.m == minutes(o))
    __ne__ = lambda self, o: not bool(self.m == minutes(o))
    __hash__ = None


def minutes(d):
    return d.m if isinstance(d, Span) else 0.0 if d == 0 else d.total_seconds() / 60.0


def instant(d):
    import pandas as pd

    return d.t if isinstance(d, Time) else (pd.Timestamp(d) - pd.Timestamp("2020-01-15")).total_seconds() / 60.0


def below(m, dt):
    """Whole number of steps of dt in m."""
    k = 0
    while bool(m < k * dt):
        k -= 1
    while bool(m >= (k + 1) * dt):
        k += 1
    return k


class Range(list):
    pass


@scenario(params={str(dt): dict(dt=dt, explicit=False, _tiers=("quick", "thorough") if dt in (180, 420, 1440) else ("thorough",)) for dt in (60, 180, 420, 720, 1440)}
          | {f"{dt}e": dict(dt=dt, explicit=True, _tiers=("quick", "thorough") if dt in (180, 1440) else ("thorough",)) for dt in (60, 180, 420, 720, 1440)}, merged=True)
def dates(ctx, dt, explicit):
    """
    A run ends at a point in time that is reached with whole time steps, not before its start. An end day without a time of day means
    the latest time step of this day.
    """
    import pandas as pd
    from openamundsen import conf

    day = pd.Timestamp("2020-01-16")
    s = whole(ctx, "start", 0, 1440 * 2 - 1)
    if explicit:
        e = whole(ctx, "end", 0, 1440 * 2 - 1)

    def to_datetime(d, *a, **k):
        return d if isinstance(d, Time) else real_to(d, *a, **k)

    def date_range(start=None, end=None, periods=None, freq=None, inclusive="both", **k):
        a, b, step = instant(start), instant(end), conf.util.offset_to_timedelta(freq).total_seconds() / 60.0
        r = Range()
        t = a
        while bool(t <= b) if inclusive in ("both", "right") else bool(t < b):
            r.append(Time(t))
            t = t + step
        if inclusive in ("right", "neither"):
            r = Range(r[1:])
        return r

    real_to, real_range = pd.to_datetime, pd.date_range
    start = Time(s) if ctx.symbolic else pd.Timestamp("2020-01-15") + pd.Timedelta(minutes=s)
    end = "2020-01-16" if not explicit else Time(e) if ctx.symbolic else pd.Timestamp("2020-01-15") + pd.Timedelta(minutes=e)
    d = config(timestep=f"{dt}min" if dt < 1440 else "D")
    d["start_date"], d["end_date"] = start, end
    with stubbed((pd, "to_datetime", to_datetime), (pd, "date_range", date_range)) if ctx.symbolic else stubbed():
        c = parse(ctx, d)
    if explicit:
        last = e
        ok = bool(e >= s) and bool(s + below(e - s, dt) * dt == e)
    else:
        last = s + dt * below(2879.0 - s, dt)
        ok = True
    ctx.claim("accepted" if ok else "rejected", (c is not None) == ok)
    if ok:
        ctx.claim_eq("start", instant(c["start_date"]), s, 0)
        ctx.claim_eq("end", instant(c["end_date"]), last, 0)


@scenario(params={"balance": dict()}, merged=True)
def balance(ctx):
    """The emissivities and the rock emission factor given are those of the longwave balance."""
    from openamundsen import constants, surface
    from openamundsen.modules import radiation

    roi = np.zeros((3, 3), int)
    roi[0, 0] = roi[2, 1] = 1
    m = prepare(ctx, "p34bal", roi=roi)
    s, b, r, sb = m.state.meteo, m.state.surface, m.config.meteo.radiation, constants.STEFAN_BOLTZMANN
    es, ec, f = ctx.real("snow_emissivity", 0, 1), ctx.real("cloud_emissivity", 0, 1), ctx.real("rock_emission_factor", 0, 1 / 32)
    r.snow_emissivity, r.cloud_emissivity, r.rock_emission_factor = es, ec, f
    a, pw = ctx.real("albedo", 0, 1), 8.0
    for q, swe in (((0, 0), 0.0), ((2, 1), 5.0)):
        s.temp[q], b.temp[q], m.state.base.svf[q], s.cloud_fraction[q], s.sw_in[q], s.precipitable_water[q] = 272.0, 265.0, 0.75, 0.5, 256.0, pw
        m.state.snow.swe[q], b.albedo[q] = swe, a
    radiation.longwave_irradiance(m)
    em = float(1 - (1 + pw / 10) * np.exp(-np.sqrt(1.2 + 3 * pw / 10)))
    want = sb * ((em * 0.75 + ec * 0.25) * 272.0**4 * 0.75 + 0.25 * 0.5 * ((272.0 + f * 256.0) ** 4 + 265.0**4))
    pos = (np.array([0, 2]), np.array([0, 1]))
    surface.calc_radiation_balance(m, pos)
    for q in ((0, 0), (2, 1)):
        ctx.claim_eq("incoming", s.lw_in[q], want, 1e-4)
        ctx.claim_eq("outgoing", s.lw_out[q], es * sb * 265.0**4, 1e-6)
        ctx.claim_eq("shortwave", s.sw_out[q], a * s.sw_in[q], 1e-9)
