"""C17: sunrise, sunset and daylight length are consistent in every unit.

Oracle: an event model. Sunrise and sunset are instants of the solar day (the calendar day of the true solar time) of the cell;
each unit is a way of writing them, `local` being the wall clock at the event by the system's zone database.
"""
import datetime as d

import numpy as np
import pandas as pd

from lib import drive, space, zones

TOL_DEG, TOL_NS = 2e-5, 10_000_000
DAY = 86400*10**9


def off_at(tz, ns):
    """utc offset in ns at utc instants, by the system's zone database"""
    if tz is None:
        return np.zeros(ns.shape, 'int64')
    out = np.zeros(ns.shape, 'int64')
    for k in np.ndindex(ns.shape):
        u = int(ns[k]//10**9)
        o = zones.offset(tz, u) if isinstance(tz, str) else int(tz.utcoffset(d.datetime(2024, 1, 1)).total_seconds())
        out[k] = o*10**9
    return out


def check(ctx, uc, t, y, x, alg='psa', eng='numexpr', tz=None, tag='', ref=True, local_every=1):
    arg = t if tz is None else pd.DatetimeIndex(t).tz_localize('UTC').tz_convert(tz)
    s = drive.call(uc, arg, y, x, alg, eng, ref)
    nt, nla, nlo = len(t), np.size(y), np.size(x)
    cells = lambda a: drive.to_cells(a, uc, nt, nla, nlo)  # noqa: E731
    if uc == 'regular_grid':
        lat, lon = (v.ravel()[None, :] for v in np.meshgrid(np.asarray(y, float), np.asarray(x, float), indexing='ij'))
    else:
        lat, lon = np.asarray(y, float), np.asarray(x, float)
        lat, lon = (lat, lon) if uc == 'transect' else (lat[None, :], lon[None, :])
    dec, eot, tst = cells(s.declination), cells(s.eot), cells(s.true_solar_time).astype('M8[ns]')
    lat, lon = np.broadcast_to(lat, dec.shape), np.broadcast_to(lon, dec.shape)
    tt = np.tan(np.radians(lat))*np.tan(np.radians(dec))
    edge = np.abs(np.abs(tt) - 1) < 1e-9
    up = np.abs(tt) <= 1
    with np.errstate(invalid='ignore'):
        w = np.degrees(np.arccos(np.where(up, -tt, np.nan)))
    ctx.cover(states=w.size, transitions=11*w.size, traces=1)
    key = f'{uc}/{alg}/{eng}' + ('' if tz is None else '/zone')
    midnight = tst.astype('M8[D]').astype('M8[ns]').astype('int64')
    shift = np.rint((eot + 4*lon)*60e9).astype('int64')
    noon = midnight + DAY//2

    def bad(what, m, txt):
        k = tuple(int(i) for i in np.argwhere(m)[0])
        tk = np.asarray(t)[k[0]]
        z = f'pd.DatetimeIndex(["{tk}"]).tz_localize("UTC").tz_convert({str(tz)!r})' if tz is not None else f'np.array(["{tk}"], "M8[s]")'
        rep = (drive.PRELUDE + f's = sunwhere.{uc}({z}, [{float(lat[k])}], [{float(lon[k])}], algorithm={alg!r}, engine={eng!r}, refraction={ref})\n'
               'for u in ("deg", "rad", "tst", "utc", "local"): print(u, s.sunrise(u).values.ravel(), s.sunset(u).values.ravel())\n'
               'print(s.daylight_length().values.ravel(), s.true_solar_time.values.ravel(), s.declination.values)\n')
        ctx.fail(f'{key}/{what}', f'{what} at {tk} lat={lat[k]!r} lon={lon[k]!r} zone={tz} ({tag}): {txt(k)}; {int(m.sum())} cells', rep)

    def angle(what, got, exp, tol):
        got = np.asarray(got, float)
        d_ = np.abs(got - exp)
        m = ~edge & ((np.isnan(got) != np.isnan(exp)) | (d_ > tol))
        if m.any():
            bad(what, m, lambda k: f'{got[k]!r} instead of {exp[k]!r}')

    def instant(what, got, exp):
        if got.dtype.kind != 'M':
            raise drive.ImplError(f'{what} of type {got.dtype}')
        nat = np.isnat(got)
        g = got.astype('M8[ns]').astype('int64')
        m = ~edge & ((nat == up) | (up & ~nat & (np.abs(g - exp) > TOL_NS)))
        if m.any():
            bad(what, m, lambda k: f'{got[k]} instead of {np.int64(exp[k]).astype("M8[ns]") if up[k] else "NaT"}')

    angle('sunrise deg', cells(s.sunrise('deg')), w, TOL_DEG)
    angle('sunrise rad', cells(s.sunrise('rad')), np.radians(w), TOL_DEG)
    angle('sunset deg', cells(s.sunset('deg')), -w, TOL_DEG)
    angle('sunset rad', cells(s.sunset('rad')), np.radians(-w), TOL_DEG)
    angle('sunrise default', cells(s.sunrise()), w, TOL_DEG)
    angle('sunset default', cells(s.sunset()), -w, TOL_DEG)
    angle('daylight length', cells(s.daylight_length()), w*2/15, TOL_DEG)
    half = np.where(up, np.nan_to_num(w)/15*3600e9, 0.).astype('int64')
    for name, f, sgn in (('sunrise', s.sunrise, -1), ('sunset', s.sunset, 1)):
        e = noon + sgn*half
        instant(f'{name} tst', cells(f('tst')), e)
        instant(f'{name} utc', cells(f('utc')), e - shift)
        loc = cells(f('local'))
        if local_every == 1:
            instant(f'{name} local', loc, e - shift + off_at(tz, e - shift))
        else:
            ex = e - shift
            o = np.zeros(ex.shape, 'int64')
            o[::local_every] = off_at(tz, ex[::local_every])
            exp = np.where(np.arange(len(ex)).reshape((-1,) + (1,)*(ex.ndim - 1)) % local_every == 0, ex + o,
                           np.where(np.isnat(loc), 0, loc.astype('M8[ns]').astype('int64')))
            instant(f'{name} local', loc, exp)


def task(ctx, what, *args):
    th = ctx.thorough
    circle = np.array([-90., -89.99, -78., -67., -66.7, -66.56, -66.5, -60., -33.3, -1e-6, 0., 23.44, 45., 60., 65., 66.0, 66.3, 66.56, 66.6, 67., 68.5, 75., 89.9, 90.])
    if what == 'formula':
        alg, eng = args
        fl, fo = space.product(space.LATS, space.LONS)
        for ref in (True, False):
            check(ctx, 'regular_grid', space.EDGE, space.LATS, space.LONS, alg, eng, None, 'edge', ref)
            check(ctx, 'sites', space.EDGE, fl, fo, alg, eng, None, 'edge', ref)
        n = len(space.EDGE)
        check(ctx, 'transect', np.repeat(space.EDGE, fl.size), np.tile(fl, n), np.tile(fo, n), alg, eng, None, 'edge')
        for uc, t, y, x in space.small(2):
            check(ctx, uc, t, y, x, alg, eng, None, 'small request')
        # latitudes around both polar circles on every day of two years, noon and midnight
        t = space.daterange('2023-01-01', '2025-01-01', 43200)
        check(ctx, 'sites', t, circle, np.linspace(-180, 179.9, len(circle)), alg, eng, None, 'circles')
        check(ctx, 'regular_grid', t[::1 if th else 4], circle, [-180., -74., 0., 151., 179.9], alg, eng, None, 'circles')
        k = np.arange(len(t))
        for lat in circle[::1 if th else 3]:
            check(ctx, 'transect', t, np.full(len(t), lat), (k*101.3) % 360 - 180, alg, eng, None, 'circles')
        lat = np.arange(-90, 90.001, 0.25 if th else 1)
        check(ctx, 'regular_grid', space.EDGE, lat, [-180., 0., 100.], alg, eng, None, 'latitudes')
        days = space.daterange('1950-01-01', '2101-01-01', 86400)
        k = np.arange(len(days))
        check(ctx, 'transect', days + (k*7919 % 86400).astype('m8[s]'), (k*37.7) % 180 - 90, (k*101.3) % 360 - 180, alg, eng, None, 'every day')
        # the days in which polar day and night begin and end
        for lat in (-80., -67., 67., 72.3, 89.):
            s = drive.call('sites', space.daterange('2024-01-01', '2025-01-01', 3600), [lat], [0.], alg, eng).sunrise().values.ravel()
            for i in np.argwhere(np.diff(np.isnan(s).astype(int)) != 0).ravel():
                t = np.datetime64('2024-01-01T00:00:00') + np.timedelta64(int(i)*3600, 's') + np.arange(0, 3600, 60 if th else 300).astype('m8[s]')
                check(ctx, 'sites', t, [lat], [0.], alg, eng, None, 'start or end of polar day/night')
        ctx.sample(dict(alg=alg, eng=eng, latitudes=len(circle)))
    else:
        name, uc = args
        # every clock change of the zone: the days around it, every hour
        us = np.array(sorted(set(int(u)//86400 for u in zones.transitions(name, 2019 if th else 2023, 2026 if th else 2025))))
        base = np.concatenate([np.arange(u - 1, u + 2) for u in us]) if us.size else np.array([19800, 19900])
        t = np.unique((base[:, None]*86400 + np.arange(0, 86400, 3600 if th else 7200)[None, :]).ravel()).astype('M8[s]')
        t = np.sort(np.concatenate([t, space.daterange('2024-01-01', '2025-01-01', 86400*(1 if th else 9))]))
        lons = {'Europe/Madrid': -3.7, 'America/New_York': -74., 'Australia/Lord_Howe': 159., 'Pacific/Auckland': 174.8,
                'Pacific/Apia': -171.8}.get(name, 10.)
        y, x = np.array([-33., 0.5, 40., 67.]), np.array([lons, -180., 0., 179.9])
        for alg, eng in (('psa', 'numexpr'), ('nrel', 'numexpr')) if th else (('psa', 'numexpr'),):
            if uc == 'transect':
                for i in range(4):
                    check(ctx, uc, t, np.full(len(t), y[i]), np.full(len(t), x[i]), alg, eng, name, 'clock changes')
            else:
                check(ctx, uc, t, y, x, alg, eng, name, 'clock changes')
        if uc == 'sites':
            # clock changes at the very hour of the event: longitudes chosen so that sunrise / sunset happens around it
            for u in zones.transitions(name, 2023, 2025):
                lon = np.arange(-180., 180., 2. if th else 7.5)
                check(ctx, uc, np.array([u - 90000, u - 3600, u, u + 3600, u + 90000], 'M8[s]'), np.full(lon.size, 30.), lon, 'psa', 'numexpr', name, 'event at the clock change')


def run(ctx):
    ctx.assume('the sunrise equation is evaluated with the declination and equation of time of the requested instant, on the solar day of the instant',
               'cells within 1e-9 of the limit of polar day/night may be on either side')
    names = zones.NAMES if ctx.thorough else zones.NAMES_Q
    ctx.pmap('checks.c17', [('zone', n, uc) for n in names for uc in drive.USECASES] + [('formula', a, e) for a, e in drive.CONFIGS])
