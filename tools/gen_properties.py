#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the wording is reviewable)."""
import json, os
SPA = ["src/sunwhere/libspa/ne_nrel.py", "src/sunwhere/libspa/ne_psa.py", "src/sunwhere/libspa/py_psa.py",
       "src/sunwhere/libspa/ne_soltrack.py", "src/sunwhere/libspa/py_soltrack.py",
       "src/sunwhere/libspa/ne_iqbal.py", "src/sunwhere/libspa/py_iqbal.py"]
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"state": state} if state else {}),
                               observe_at=observe, hook_needed=hook)))

prop("C01", "sites, regular_grid and transect give the same answer for the same cell",
     "For every algorithm, engine, refraction setting, instant and location, the zenith, azimuth, declination, "
     "equation of time, sun-earth distance factor and every derived quantity (solar time, sunrise and sunset, incidence, "
     "irradiance, air mass) of a cell are the same, up to floating-point rounding, whether it is computed with sites, "
     "regular_grid or transect.",
     ["inputs", "configurations"],
     "every (algorithm, engine, refraction) x calendar-edge instants x a location lattice with poles, equator, antimeridian",
     "The tests compare algorithms with each other within 2 degrees, without refraction, on 6 random sites of 2024-25; the "
     "three layouts are separate copies of each algorithm and are never compared exactly.",
     SPA + ["src/sunwhere/usecases.py", "src/sunwhere/_core.py", "src/sunwhere/_base.py"],
     [("per-layout kernels that must stay copies of each other", "libspa/*: _sunpos_{one,two,three}_dimensional"),
      ("shape bookkeeping", "_core.evaluate, _base.Sunpos.__init__")],
     ["Sunpos accessors returned by sites/regular_grid/transect"])

prop("C02", "The numpy and numexpr engines agree",
     "For the psa, soltrack and iqbal algorithms, the numpy and the numexpr engines return the same zenith, azimuth, "
     "declination, equation of time and distance factor to within 0.001 degrees (or the equivalent), for every use case, "
     "refraction setting, instant and location, including the sun near the zenith, the nadir, the horizon and the poles.",
     ["inputs", "configurations"],
     "3 algorithms x 3 use cases x refraction on/off x instants over 1900-2100 (sparsely -2000..6000) x location lattice incl. subsolar points",
     "The tests compare both engines only through a 2-degree tolerance on zenith without refraction.",
     SPA[1:], [("two independent implementations of each algorithm", "libspa/ne_*.py vs libspa/py_*.py")],
     ["Sunpos.zenith/azimuth/declination/eot/ecf for engine='numpy' and 'numexpr'"])

prop("C03", "The nrel algorithm reproduces NREL's SPA over the years -2000 to 6000",
     "For every instant from the year -2000 to the year 6000 and every location, the nrel algorithm returns the zenith, "
     "azimuth, declination, equation of time and sun-earth distance of NREL's Solar Position Algorithm (sea level, 1013.25 hPa, "
     "12 degC, delta-T 67 s) far within its stated uncertainty of 0.0003 degrees, with and without refraction.",
     ["inputs"],
     "instants covering -2000..6000 (every century, every month, calendar edges) x location lattice x refraction",
     "The tests only look at 2024-25 within 2 degrees; a corrupted periodic term or a wrong polynomial order shows only in "
     "remote centuries or below 0.01 degrees.",
     ["src/sunwhere/libspa/ne_nrel.py"],
     [("periodic-term tables and time polynomials", "ne_nrel.py: time_dependent_calculations, PARAMS_*")],
     ["Sunpos accessors with algorithm='nrel'"])

prop("C04", "psa, soltrack and iqbal follow their published formulas with stated accuracy",
     "The psa, soltrack and iqbal algorithms return, for every date from 1950 to 2100 and every location, the declination, equation "
     "of time, distance factor, zenith and azimuth of the published formulas they cite, so that within 2020-2050 psa and soltrack "
     "stay within 0.02 degrees (0.005 on average) of the nrel position and iqbal within 1.2 degrees.",
     ["inputs", "configurations"],
     "every day 1950..2100 at several hours, all hours of leap/non-leap edge days, location lattice, both engines, 3 use cases",
     "The tests accept 2 degrees of zenith error and never check the azimuth, the declination or the equation of time.",
     SPA[1:], [("published series", "libspa/{ne,py}_{psa,soltrack,iqbal}.py: time_dependent_calculations and helpers")],
     ["Sunpos accessors"])

prop("C05", "Results depend only on the instants, not on how the times are written",
     "Two time arguments that denote the same instants give identical solar positions in every use case, whatever their type "
     "(string, datetime, Timestamp, numpy datetime64 of any unit, DatetimeIndex, list, scalar) and time zone (any zone of pytz, "
     "zoneinfo, dateutil or a fixed offset; naive times mean UTC), including times inside daylight-saving folds and around gaps, "
     "and sub-second parts never move the instant by more than one second.",
     ["inputs", "configurations"],
     "representations x time-zone providers x use cases x instants around every DST transition of the chosen zones",
     "The tests only use UTC date ranges.",
     ["src/sunwhere/usecases.py", "src/sunwhere/utils/validate.py", "src/sunwhere/_base.py"],
     [("normalisation to naive UTC seconds", "usecases.*, utils/validate.check_timelatlon")],
     ["zenith/azimuth/eot values", "derived times"])

prop("C06", "Sunpos reports the caller's times, their UTC equivalents and their zone",
     "For every accepted time argument, the result's times show the caller's wall-clock times in the caller's time zone (UTC if "
     "naive), times_utc shows the same instants in UTC, timezone names that zone, and the time coordinate of every "
     "time-dependent output carries the caller's wall-clock times in the caller's order.",
     ["inputs", "configurations"],
     "time-zone providers x zones x instants around DST transitions, unsorted, duplicated and missing times x use cases",
     "The tests never look at times, times_utc, timezone or the coordinates.",
     ["src/sunwhere/_base.py"],
     [("times, times_utc, timezone", "_base.Sunpos.__init__")],
     ["Sunpos.times, times_utc, timezone, local_standard_time, DataArray.coords['time']"])

prop("C07", "Missing times and coordinates stay missing and never disturb the others",
     "A NaT among the times gives NaN (or NaT) exactly at its own positions, a NaN latitude or longitude gives NaN zenith and azimuth exactly "
     "in its own cells, and every other value is the one computed without the missing entries, for every pattern of missing "
     "entries, every use case, algorithm and engine, including all entries missing and no entries at all.",
     ["inputs", "configurations"],
     "all 2^n patterns of missing times (n <= 4..6) x use cases x algorithms x engines x NaN coordinate patterns",
     "No test passes a NaT or a NaN.",
     ["src/sunwhere/_core.py", "src/sunwhere/_base.py", "src/sunwhere/utils/validate.py"],
     [("NaT masking and refilling", "_core.evaluate: nonat, reshape")],
     ["all Sunpos accessors"])

prop("C08", "Each result depends only on its own time and place",
     "The value at a (time, location) cell does not depend on which other times and locations are in the request, on their "
     "number (from one to many thousands), order or repetition: splitting, concatenating, permuting, repeating or extending the "
     "arguments splits, concatenates, permutes, repeats or extends the results likewise.",
     ["inputs", "configurations"],
     "all (times x lats x lons) sizes up to a bound and sizes around block boundaries up to tens of thousands, all permutations and "
     "repetitions of short sequences, all splits",
     "The tests use one fixed size; block-size, broadcasting and sorting mistakes need other shapes.",
     SPA + ["src/sunwhere/_core.py", "src/sunwhere/usecases.py"],
     [("vectorised evaluation with broadcasting", "libspa/*"), ("blockwise time series sums", "ne_nrel.py")],
     ["zenith/azimuth/eot/declination/ecf"])

prop("C09", "Invalid requests are rejected and valid ones accepted",
     "Latitudes outside [-90, 90], longitudes outside [-180, 180), arguments with two or more dimensions, sites with different numbers "
     "of latitudes and longitudes, transects with different numbers of times, latitudes and longitudes, and unknown "
     "algorithms, engines, engine-algorithm combinations, air-mass parameterisations, corrections or units are all rejected with an error (a ValueError from the accessors, as documented); every other "
     "combination of numeric scalars, lists, tuples, arrays of any numeric type and valid times is accepted and produces a result of the documented shape.",
     ["inputs", "configurations"],
     "boundary values (and their floating-point neighbours) at every position x shapes x containers x dtypes x algorithm/engine names x use cases",
     "No test passes an invalid argument.",
     ["src/sunwhere/utils/validate.py", "src/sunwhere/usecases.py", "src/sunwhere/_core.py", "src/sunwhere/_base.py"],
     [("argument validation", "utils/validate.*, usecases.*, _core.evaluate, _base.airmass/eth")],
     ["exceptions", "result shapes"])

prop("C10", "Every output is finite and within its documented range",
     "For every valid instant and location, with any algorithm, engine, use case and refraction setting, the zenith is a number in "
     "[0, 180], the elevation in [-90, 90], the azimuth in [-180, 180], cosz in [-1, 1], the declination within +-23.7 degrees, the equation "
     "of time within +-18 minutes (both for the years 1950-2100; +-24.2 degrees and +-25 minutes for nrel in -2000..6000) and the distance factor within 0.96-1.04, zenith, elevation, azimuth and cosz for all algorithms in -2000..6000, also at the exact poles, on the equator, on the antimeridian, and with "
     "the sun exactly at the zenith, the nadir or the horizon. No output has values out of the range that its own attributes declare.",
     ["inputs", "configurations"],
     "location lattice with poles/equator/antimeridian, subsolar and antisolar points at every minute of chosen days, every day 1950-2100",
     "Random sites never hit the subsolar point, a pole or an exact horizon crossing.",
     SPA + ["src/sunwhere/_base.py"],
     [("domain of arccos/arcsin, azimuth wrap", "libspa/*")],
     ["Sunpos.zenith, elevation, azimuth, cosz, declination, eot, ecf"])

prop("C11", "Refraction lifts the sun only near the horizon and changes only the zenith",
     "Switching refraction on changes nothing but the zenith and what derives from it; it never lowers the sun (beyond 0.001 degrees), "
     "lifts a sun within half a degree above the horizon by 0.3 to 0.8 degrees, any sun by less than 0.8 degrees, by less than 0.1 degrees above 10 degrees of elevation and not at all when the sun is well "
     "below the horizon (2 degrees or more), and it is honoured identically by every algorithm's engines and use cases and "
     "reported by has_refraction.",
     ["inputs", "configurations"],
     "every second through twilight at chosen days/locations, elevations from -90 to 90, all algorithms/engines/use cases, all truthy/falsy spellings",
     "The tests always switch refraction off.",
     SPA + ["src/sunwhere/_core.py"],
     [("refraction formulas and cut-offs", "libspa/*: with_refraction branches")],
     ["Sunpos.zenith/azimuth/... with refraction True and False"])

prop("C12", "Outputs are labelled arrays with the documented shape and coordinates",
     "In sites, zenith-like outputs have dimensions (time, location) with latitude and longitude attached to location; in regular_grid they have "
     "dimensions (time, latitude, longitude); in transect they have the single dimension time with latitude and longitude attached to "
     "it; location-independent outputs have dimension time only; every output carries its documented name and units, the aliases "
     "equal their originals, and selecting by coordinate returns the value of that time and place.",
     ["inputs", "configurations"],
     "all (times, lats, lons) sizes up to 3 (equal and different, so that swapped axes cannot hide) x use cases x accessors",
     "The tests only read sza and saa values by position.",
     ["src/sunwhere/_base.py", "src/sunwhere/usecases.py"],
     [("xarray construction per use case", "_base.Sunpos.__init__"), ("names and attributes", "_base.Sunpos properties")],
     ["DataArray dims, coords, name, attrs"])

prop("C13", "Calls and accessors have no side effects and no memory",
     "No sequence of calls to the library and to the accessors of its results changes what a later call or accessor "
     "returns, modifies the arguments passed by the caller, or makes a result change when the caller later modifies the "
     "arrays it passed or receives a second result.",
     ["histories", "inputs"],
     "all sequences up to depth 3 of an alphabet of calls (every algorithm/engine/use case) and accessors, with argument mutation between",
     "Each test performs one call and reads two accessors.",
     ["src/sunwhere/_core.py", "src/sunwhere/_base.py", "src/sunwhere/usecases.py"] + SPA,
     [("absence of shared mutable state", "module globals of libspa/* and _core, Sunpos attributes")],
     ["accessor values before/after", "argument arrays"])

prop("C14", "Concurrent calls return what they return alone",
     "Any interleaving of calls made from several threads, including the first call of each algorithm and concurrent reads of "
     "one result's accessors, returns to every caller exactly what the same call returns alone.",
     ["schedules"],
     "all 2-thread schedules of pairs of calls up to a preemption bound at library source-line granularity, plus free-running threads",
     "The tests are single-threaded.",
     ["src/sunwhere/_core.py", "src/sunwhere/_base.py"] + SPA,
     [("thread confinement: no shared mutable scratch", "libspa/* module level, _core.evaluate")],
     ["values returned in each thread"])

prop("C15", "Zenith, azimuth, declination and solar time describe one and the same sun",
     "For every algorithm, instant of 1950-2100 and location, without refraction, the zenith and azimuth are those of the spherical triangle "
     "given by the reported declination, the latitude and the hour angle of the reported true solar time (within 0.05 degrees), elevation is 90 minus "
     "zenith, cosz is the cosine of zenith, and azimuth is zero to the south, negative before and positive after solar noon.",
     ["inputs", "configurations"],
     "location lattice x instants (every hour of edge days, solar noon and midnight neighbourhoods) x algorithms x engines x use cases",
     "The tests do not relate outputs to each other and never check azimuth values.",
     ["src/sunwhere/_base.py"] + SPA,
     [("shared hour angle and declination", "libspa/*"), ("derived accessors", "_base.Sunpos")],
     ["Sunpos.zenith, azimuth, declination, true_solar_time, elevation, cosz"])

prop("C16", "True solar time is UTC plus longitude plus equation of time, and is invertible",
     "For the years 1678 to 2261, the true solar time of every cell equals its UTC instant plus 4 minutes per degree of east longitude plus the "
     "equation of time, to the millisecond and on the right calendar day, and converting true solar times back to coordinated universal time "
     "recovers the instant within 30 seconds, for scalars and arrays of times and longitudes.",
     ["inputs", "configurations"],
     "instants at calendar/day-wrap edges x longitudes from -180 to 179.99 x use cases x time zones",
     "No test evaluates the solar time or the public conversion function.",
     ["src/sunwhere/_base.py", "src/sunwhere/utils/datetime.py"],
     [("true_solar_time", "_base.Sunpos.true_solar_time"), ("conversions", "utils/datetime.py")],
     ["Sunpos.true_solar_time", "sunwhere.universal_time_coordinated"])

prop("C17", "Sunrise, sunset and daylight length are consistent in every unit",
     "For the years 1678 to 2261, sunrise satisfies the sunrise equation cos(w) = -tan(lat) tan(dec); sunset is its mirror image about solar noon; the daylight length is the time between "
     "them; the deg, rad, tst, utc and local forms denote the same event, local being the wall clock of the caller's zone at "
     "the event; and all of them are undefined exactly in polar day and polar night.",
     ["inputs", "configurations"],
     "latitude lattice around both polar circles x every day of a year x longitudes x time zones incl. DST days x use cases x algorithms",
     "No test calls sunrise, sunset or daylight_length.",
     ["src/sunwhere/_base.py"],
     [("sunrise/sunset/daylight_length", "_base.Sunpos")],
     ["Sunpos.sunrise, sunset, daylight_length"])

prop("C18", "Incidence is the cosine of the angle between the sun and the surface normal",
     "For every slope and orientation (zero south, positive east), the incidence equals the scalar product of the surface normal and "
     "the unrefracted sun direction of that cell (within 0.001), lies in [-1, 1], equals the cosine of the zenith for a horizontal surface, "
     "flips sign when the surface is turned over, and is available in every use case.",
     ["inputs", "configurations"],
     "slopes 0..180 x orientations -180..360 x location lattice x hours of edge days x algorithms x use cases",
     "No test calls incidence.",
     ["src/sunwhere/_base.py"], [("incidence", "_base.Sunpos.incidence")], ["Sunpos.incidence"])

prop("C19", "Extraterrestrial irradiance and air mass follow their formulas",
     "The extraterrestrial horizontal irradiance equals solar constant x distance factor x max(0, cosz), is zero at night and scales "
     "linearly with the solar constant, with each named correction multiplying it by its published factor by day; the air mass follows each named published "
     "parameterisation, is at least 1, grows with the zenith angle, and is undefined exactly when the sun is below the horizon.",
     ["inputs", "configurations"],
     "zenith lattice 0..180 incl. exact horizon (through location/instant sweeps) x parameterisations x corrections x solar constants x use cases x refraction",
     "No test calls eth or airmass.",
     ["src/sunwhere/_base.py"], [("eth, airmass", "_base.Sunpos")], ["Sunpos.eth, Sunpos.airmass"])

prop("C20", "The command line reports what the library computes",
     "For every valid time, site, algorithm, refraction option and time zone, the `sunwhere at` command prints the position, dates, "
     "sunrise, sunset and equation of time (with its sign) that the library computes for that wall-clock time in that zone, also in polar day and night; `now` means the present "
     "instant in whatever zone is asked for; hemisphere letters set the signs; and an invalid argument ends with a non-zero status and a message rather than a traceback.",
     ["inputs", "configurations"],
     "hemispheres x algorithms x refraction x zones x system zones x edge times (DST fold/gap, polar, eot sign changes) x invalid arguments",
     "No test runs the command line.",
     ["src/sunwhere/_cli/main.py", "src/sunwhere/_cli/position.py"],
     [("argument parsing", "_cli/main.py"), ("report", "_cli/position.calculate_position")],
     ["stdout and exit status of `sunwhere at`"])

prop("C21", "Horizons ephemerides are requested, parsed and cached faithfully",
     "A Horizons request asks for exactly the given interval, step and site and is refused beyond the service's line limit; a downloaded table is "
     "read back as one row per line with UTC instants, azimuth zero to the south, zenith = 90 - elevation and distance factor = 1/R^2; and a "
     "year of ephemeris contains every expected instant exactly once, even if earlier attempts failed or were cut at any point.",
     ["inputs", "fault_sequences", "crash_points"],
     "intervals around the line limit, all table edge rows, every failure/truncation point of the monthly downloads followed by a retry",
     "No test touches this module, which needs the network.",
     ["src/sunwhere/utils/jpl_horizons.py"],
     [("get/read/load", "utils/jpl_horizons.py")],
     ["returned DataFrame", "files written", "requested URL"])

prop("C22", "The sun moves continuously",
     "From each second to the next, for every algorithm, engine and location, the sun's direction moves by no more than the earth's rotation allows "
     "(about 0.0042 degrees of arc per second) and the declination, equation of time and distance factor drift by no more than their natural daily rates, "
     "across day, month, year, leap-day, century and epoch boundaries alike, apart from a single refraction cut-off step below the horizon and iqbal's own step (less than 0.15 degrees) at the end of leap years, whose day angle restarts on 1 January.",
     ["inputs", "configurations"],
     "every one-second step around all calendar boundaries, every minute of whole years, every day 1950-2100, all algorithms/engines",
     "A wrap-around or calendar mistake shows for a single instant that no sampled test visits.",
     SPA, [("calendar arithmetic, angle wraps", "libspa/*: day_angle, eot wrap, ra wrap")],
     ["zenith/azimuth/eot/declination/ecf at consecutive instants"])

prop("C23", "Omitted arguments mean the documented defaults, and results say what was asked",
     "However a call is written - with optional arguments omitted, given by position (times, latitude, longitude, algorithm, refraction, engine) or by keyword in any order, refraction given as True, 1 or np.True_ (or their contraries) - it means "
     "the same call with psa, refraction and numexpr as the defaults (and for the accessors 1361.1 W/m2, no correction, gueymard_2003 and degrees), and the result reports the "
     "algorithm, engine, refraction, use case, latitudes, longitudes and times of the request; SPA_ALGORITHMS lists exactly the accepted algorithms.",
     ["inputs", "configurations"],
     "all subsets of omitted arguments x positional/keyword styles and orders x algorithms x engines x refraction x use cases; all accessor argument forms",
     "The tests always name the algorithm and engine by keyword.",
     ["src/sunwhere/usecases.py", "src/sunwhere/_base.py", "src/sunwhere/_core.py"],
     [("signatures and defaults", "usecases.sites, regular_grid, transect"), ("self-description", "_base.Sunpos")],
     ["Sunpos outputs and attributes"])

prop("C24", "On every solar day the sun is up exactly from its sunrise to its sunset",
     "For every algorithm, engine, use case, place and instant of 1950-2100, the unrefracted elevation is positive exactly between the reported sunrise and sunset (whether in "
     "degrees, true solar time, UTC or local time) of its solar day, within 0.055 degrees of elevation; where sunrise is undefined the sun stays up (or down) "
     "all day, according to whether latitude and declination have the same sign; and up to 60 degrees of latitude each solar day has one sunrise, one sunset and the reported daylight length.",
     ["inputs", "configurations"],
     "walks through solar days 1950-2100 in fixed steps x latitude/longitude lattice x algorithms x use cases x zones",
     "No test relates the position to the events.",
     ["src/sunwhere/_base.py"] + SPA, [("sunrise/sunset/daylight_length", "_base.Sunpos"), ("zenith", "libspa")],
     ["Sunpos.elevation, sunrise, sunset, daylight_length, true_solar_time"])

prop("C25", "Process settings neither change the results nor are changed by the library",
     "The same request gives the same outputs (values, names, units, coordinates) or the same error whatever the machine's time zone, the locale, the working directory, the hash seed, the number of "
     "numexpr threads, the order of imports, the interpreter's optimisation level and the options of xarray, pandas and numpy printing (naive times mean UTC on every machine); and importing "
     "or calling the library alters no setting of the process (environment, locale, time zone, numpy error state, print options and random state, warning filters, xarray and pandas options, "
     "numexpr threads, signal handlers, working directory, module path), leaves no file behind and prints nothing on the standard output.",
     ["configurations", "histories"],
     "products of in-process options; processes started under enumerated environments, flags and import orders; a photograph of all settings around every operation",
     "The tests run in a single environment.",
     ["src/sunwhere/_base.py", "src/sunwhere/_core.py", "src/sunwhere/usecases.py", "src/sunwhere/__init__.py"] + SPA,
     [("arithmetic on labelled arrays", "_base.Sunpos"), ("time conversion", "usecases, validate.check_timelatlon, _base.Sunpos.__init__"), ("import time effects", "__init__, _core")],
     ["all outputs", "settings of the process before and after"])

prop("C26", "An interrupted call leaves nothing behind",
     "If a call or accessor is cut short by an exception at any point (a keyboard interrupt, a signal handler, lack of memory), including the first call of the process, then every later "
     "call and accessor - the same request, another one, or any accessor of the same result - returns exactly what it would have returned without the interruption.",
     ["crash_points", "histories"],
     "an exception injected at every step of calls, first calls and accessors, all algorithms/engines/use cases, followed by the same and by other requests",
     "Tests never interrupt a call.",
     ["src/sunwhere/_core.py", "src/sunwhere/_base.py", "src/sunwhere/usecases.py"] + SPA, [("state that outlives a call", "_core, libspa, Sunpos")],
     ["outputs after the interruption"])

prop("C27", "Missing parts only take away what needs them",
     "Importing sunwhere and computing with it needs none of the packages of the command-line, Horizons and benchmark parts; and if the implementation of some algorithms and engines cannot "
     "be imported, the library still imports, requests for those are refused with an error, and every other algorithm and engine returns its usual results.",
     ["fault_sequences", "configurations"],
     "all subsets of the seven implementation modules and of the optional packages failing to import",
     "The tests run with everything installed.",
     ["src/sunwhere/_core.py", "src/sunwhere/__init__.py", "src/sunwhere/utils/__init__.py"], [("tolerant import of the engines", "utils.safe_import, _core.__ALGORITHMS__")],
     ["outcome of requests after the import"])

prop("C28", "Copied, pickled and restored results report the same, in any process",
     "A result that is copied, deep-copied, or pickled (protocol 2 or later) and restored, in the same or another process, before or after its accessors were read and any number of times, "
     "reports exactly what the original reports (outputs with names, units and coordinates, times, time zone, algorithm, engine, refraction, use case); deep copies and restored results are "
     "independent of the original; and requests computed in worker processes (forked, forkserver or spawned, before or after the library was used) return what the parent returns.",
     ["histories", "configurations"],
     "all sequences of copy, deepcopy, pickle round trips and readings up to a length; worker processes of every start method x state of the parent",
     "No test copies or pickles a result or calls the library in a worker process.",
     ["src/sunwhere/_base.py", "src/sunwhere/_core.py", "src/sunwhere/usecases.py"], [("state of a result", "_base.Sunpos"), ("state of the library", "_core, libspa")],
     ["outputs of the copies and of the workers"])

prop("C29", "The solar chart draws the sun where it is",
     "Charts made with sunwhere._cli.solar_chart (make_solar_chart, SolarChart), polar or rectilinear, draw the sun where sunwhere.sites reports it: every path drawn is the sun at the place through "
     "the day, local to the chart's time zone, written on its label; every analemma is the sun at the labelled wall-clock time of that zone on every day of the year; the hour labels stand at that time on 21 June "
     "(exactly those with the sun up) and the day labels (outside the tropics) on their path where it is due south; the marked point is the sun at the requested time, which the chart states with its place; the compass points and the "
     "numbers along the axes stand at the azimuths and elevations they name; a chart without a requested time is drawn too, and charts can be saved to a file.",
     ["inputs", "configurations"],
     "products of places (hemispheres, poles, antimeridian) x time zones (clock changes, fractional offsets) x requested times x projections x grids",
     "No test draws a chart.",
     ["src/sunwhere/_cli/solar_chart.py"], [("wall clock to UTC and sun to drawing", "solar_chart.SolarChart")],
     ["lines, texts and axes of the chart, saved files"])

prop("C30", "The benchmark scores algorithms by their true differences from the reference",
     "In sunwhere._cli.benchmark (soltrack, sg2, pysparta and pvlib being installed or stood in for), the tables of ephemerides hold, for any UTC instants, any site and any choice of methods, exactly the "
     "zenith, azimuth (zero to the south) and distance factor that each named method yields there without refraction; calc_residues gives method minus reference, azimuth differences being the signed smallest "
     "rotation between them, relative to the reference if asked, and leaves its argument alone; the scores of a variable and method are mean bias, sample standard deviation, mean absolute error, root mean "
     "square error and 66th and 90th percentiles of the absolute deviation from the mean, missing values left out, of the daytime instants only for the clear-sky irradiances; and run_benchmark works for every year and "
     "site (equator and Greenwich included), asks for that whole year at that site once, never uses another's file, and prints the scores by increasing rmse, zenith and azimuth in arc-seconds and ecf in thousandths.",
     ["inputs", "configurations", "histories"],
     "instants x sites x methods x options; all pairs of azimuths of an alphabet of the circle; all columns of errors up to length 4 with missing values; sequences of runs over years and mirrored sites",
     "No test imports the benchmark; a wrong sign at the turn of the azimuth or another site's file shows only in particular cells or sequences of runs.",
     ["src/sunwhere/_cli/benchmark.py"],
     [("tables of ephemerides", "benchmark.*_ephemeris"), ("differences and scores", "benchmark.calc_residues, get_bulk_ephemeris_errors, get_bulk_clearsky_errors"),
      ("whole run and its file", "benchmark.run_benchmark, print_bulk_errors")],
     ["tables returned by the functions, HTTP requests and printed tables of run_benchmark"])

prop("C31", "The speed tests time the computations they name and keep every measurement",
     "In sunwhere._cli.benchmark (pvlib and sg2 being installed or stood in for), speed_meter runs, for each library, algorithm, number of times and places (one, several, or a grid written NxM) and whatever the "
     "random draws, exactly the named number of repetitions of exactly the named computation - that algorithm, engine, number of distinct times and valid places, without refraction - and returns mean and "
     "deviation in microseconds per time and place; load_speed_tests returns a table where each of its measurements stands at its own library, algorithm, number of times and places and nothing else does, "
     "measures nothing twice when read again from the same directory (created if missing), and after an interruption at any measurement gives a complete table at the next call.",
     ["inputs", "configurations", "fault and crash points", "histories"],
     "library x algorithm x times x places x repetitions x extreme random draws; whole speed tests in empty, missing and default directories, interrupted and resumed",
     "No test imports the benchmark; the tables were silently empty with the pandas that the package requires.",
     ["src/sunwhere/_cli/benchmark.py"],
     [("one measurement", "benchmark.speed_meter"), ("table of measurements and its files", "benchmark.load_speed_tests")],
     ["computations asked of recording stand-ins of the libraries, returned values and tables"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
