"""C01: sites, regular_grid and transect give the same answer for the same cell.

State = one cell (algorithm, engine, refraction, instant, latitude, longitude). Every state of the product of the
alphabets is evaluated through the three use cases and the outputs are compared (core outputs and every derived one).
"""
import numpy as np
import pandas as pd

from lib import drive, model, space

TOL = 1e-7     # degrees; 1e-5 next to the zenith and nadir, where arccos amplifies rounding
TTOL = 1e-9    # declination, eot, ecf


def repro(t, la, lo, alg, eng, ref, var):
    c = lambda uc: drive.call_src(uc, np.array([t]), [float(la)], [float(lo)], alg, eng, ref)  # noqa: E731
    get = var if var in drive.CORE else 'zenith'
    return (drive.PRELUDE + f'r = [{c("sites")}, {c("regular_grid")}, {c("transect")}]\n'
            f'v = [float(np.ravel(x.{get}.values)[0]) for x in r]\nprint(v)\n'
            f'assert max(v) - min(v) < {TOL} or max(v) - min(v) > 359.99 or v[0] != v[0]\n')


def tolerance(name, zen, wsr):
    """what rounding may do to a derived output; wsr: sunrise angle, degrees"""
    if name.startswith(('sunrise', 'sunset', 'daylight')):
        steep = ~((wsr > 0.1) & (wsr < 179.9))      # arccos again
        if name.endswith(('tst', 'utc', 'local')):
            return np.where(steep, 2e-3, 1e-5)
        return np.where(steep, 1e-5, TOL)
    if name == 'true_solar_time':
        return 1e-5
    if name in ('elevation', 'sza'):
        return drive.rounding(zen, TOL)
    if name.startswith(('eth', 'airmass')):
        return 1e-5
    return 1e-8 if name == 'cosz' or name.startswith('incidence') else TOL


def compare(ctx, times, lats, lons, alg, eng, ref, derived, tag):
    nt, ny, nx = len(times), len(lats), len(lons)
    flat, flon = space.product(lats, lons)
    nc = flat.size
    g = drive.call('regular_grid', times, lats, lons, alg, eng, ref)
    s = drive.call('sites', times, flat, flon, alg, eng, ref)
    ttimes = times.repeat(nc) if isinstance(times, pd.DatetimeIndex) else np.repeat(times, nc)
    r = drive.call('transect', ttimes, np.tile(flat, nt), np.tile(flon, nt), alg, eng, ref)
    naive = np.asarray(pd.to_datetime(times, utc=True).tz_localize(None), 'M8[s]')

    def cells(name, fn):
        return (drive.to_cells(fn(g), 'regular_grid', nt, ny, nx), drive.to_cells(fn(s), 'sites', nt, nc, nc),
                drive.to_cells(fn(r), 'transect', nt*nc, nc, nc).reshape(nt, nc))

    def report(name, pair, idx, text):
        t, la, lo = (naive[idx[0]], flat[idx[1]], flon[idx[1]]) if len(idx) == 2 else (naive[0], flat[0], flon[0])
        ctx.fail(f'{alg}/{eng}/ref={ref}/{name}/{pair}',
                 f'{name} differs between {pair} at {t} lat={la} lon={lo} ({tag}): {text}',
                 repro(t, la, lo, alg, eng, ref, name), times=nt, lats=ny, lons=nx)

    vals = {n: cells(n, f) for n, f in drive.BASIC}
    for pair, i in (('sites-regular_grid', 0), ('sites-transect', 2)):
        got = {n: v[i] for n, v in vals.items()}
        base = {n: v[1] for n, v in vals.items()}
        for name, idx, text in drive.worst_pair(got, base, TOL, TTOL):
            report(name, pair, idx, text)
    ctx.cover(states=nt*nc, transitions=3*nt*nc)
    if not derived:
        return
    zen = vals['zenith'][1]
    wsr = drive.to_cells(s.sunrise('deg'), 'sites', nt, nc, nc)
    for name, fn in drive.DERIVED:
        v = cells(name, fn)
        for pair, i in (('sites-regular_grid', 0), ('sites-transect', 2)):
            a, b = v[i], v[1]
            if name == 'saa':
                a = drive.sep(zen, a, zen, b)
                b = np.where(np.isnan(a), np.nan, 0.)
                tol = TOL
            else:
                if name.startswith(('eth', 'airmass')):
                    a, b = [np.where(np.abs(zen - 90) < 1e-6, 0, x) for x in (a, b)]
                tol = tolerance(name, zen, wsr)
            w = drive.worst(a, b, tol)
            if w:
                report(name, pair, w[0], w[1])
    ctx.cover(transitions=3*len(drive.DERIVED)*nt*nc, derived_outputs=len(drive.DERIVED)*nt*nc)


def follow(ctx, times, lats, lons, alg, eng, ref, tag):
    """a transect that stays at one place (or keeps its latitude or longitude) for many times: every derived output of its
    cells is that of a one-cell request of sites for that instant, and of one sites request for the whole place"""
    n = len(times)
    r = drive.call('transect', times, lats, lons, alg, eng, ref)
    one = np.unique(np.c_[lats, lons], axis=0)
    s = drive.call('sites', times, one[:, 0], one[:, 1], alg, eng, ref)
    k = np.array([int(np.argwhere((one == (a, b)).all(1))[0][0]) for a, b in zip(lats, lons)])
    naive = np.asarray(pd.to_datetime(times, utc=True).tz_localize(None), 'M8[s]')
    zen = drive.to_cells(s.zenith, 'sites', n, len(one), len(one))[np.arange(n), k]
    wsr = drive.to_cells(s.sunrise('deg'), 'sites', n, len(one), len(one))[np.arange(n), k]
    for name, fn in drive.ALL:
        a = drive.to_cells(fn(r), 'transect', n, n, n)
        b = drive.to_cells(fn(s), 'sites', n, len(one), len(one))[np.arange(n), k]
        if name in ('azimuth', 'saa'):
            a = drive.sep(zen, a, zen, b)
            b = np.where(np.isnan(a), np.nan, 0.)
            tol = TOL
        else:
            if name.startswith(('eth', 'airmass')):
                a, b = [np.where(np.abs(zen - 90) < 1e-6, 0, x) for x in (a, b)]
            tol = TTOL if name in ('declination', 'eot', 'ecf', 'dec') else tolerance(name, zen, wsr)
        w = drive.worst(a, b, tol)
        if w:
            i = w[0][0] if w[0] else 0
            ctx.fail(f'{alg}/{eng}/ref={ref}/{name}/follow', f'{name} of the transect differs from sites at {naive[i]} lat={lats[i]} '
                     f'lon={lons[i]} ({tag}, {n} cells): {w[1]}', repro(naive[i], lats[i], lons[i], alg, eng, ref, name))
    ctx.cover(states=n, transitions=2*n*len(drive.ALL), derived_outputs=n*len(drive.ALL))


def run(ctx):
    ctx.assume('cells are compared to 1e-7 degrees (zenith, azimuth as arc), 1e-9 (declination, eot, ecf), 10 us (times); 1e-5 degrees next to the vertical')
    ctx.pmap('checks.c01', [(a, e, r) for a, e in drive.CONFIGS for r in (False, True)])
    ctx.sample(dict(cell=['2024-06-20T20:51:00', 66.56, 179.999], compared='sites = regular_grid = transect'))
    ctx.cover(traces=ctx.states)


def task(ctx, alg, eng, ref):
    th = ctx.thorough
    rng_years = np.array([space.year_start(y) + np.timedelta64(86400*d + 3601*h, 's')
                                for y in range(1900, 2101, 1 if th else 4)
                                for d, h in ((0, 0), (58, 5), (59, 11), (60, 17), (172, 9), (355, 21), (364, 23))])
    hourly = space.daterange('2023-01-01', '2025-01-01', 3600 if th else 3600*7)
    minutes = space.daterange('2024-06-20', '2024-06-21', 60 if th else 120)
    madrid = pd.DatetimeIndex(['2024-10-27 00:30', '2024-03-31 00:59:59', '2024-10-27 01:30', '2024-10-26 23:30',
                               '2024-07-01 12:00', '2024-03-31 01:00', '2024-07-01 12:00', '2020-02-29 23:30'],
                              tz='UTC').tz_convert('Europe/Madrid')
    tokyo = pd.DatetimeIndex(space.EDGE[20:40][::-1], tz='UTC').tz_convert('Asia/Tokyo')
    compare(ctx, space.EDGE, space.LATS, space.LONS, alg, eng, ref, True, 'edge instants')
    compare(ctx, rng_years, space.LATS_S, space.LONS_S, alg, eng, ref, False, 'years 1900-2100')
    compare(ctx, hourly, space.LATS_S, space.LONS_S, alg, eng, ref, False, '2023-2024')
    compare(ctx, minutes, np.array([-90., -70, -55, 0, 23.44, 48, 66.5, 80, 90]), np.array([-110., 0., 77.7]),
            alg, eng, ref, False, 'minutes of a day')
    compare(ctx, madrid, space.LATS_S, space.LONS_S, alg, eng, ref, True, 'Europe/Madrid, unsorted')
    compare(ctx, tokyo, space.LATS_S[::-1], space.LONS_S[:3], alg, eng, ref, True, 'Asia/Tokyo, descending')
    # all small shapes, so that equal and different numbers of times, latitudes and longitudes all occur
    for nt in (1, 2, 3):
        for ny in (1, 2, 3):
            for nx in (1, 2, 3):
                compare(ctx, space.EDGE[22:22+nt], np.array([41.3, -12.2, 89.])[:ny],
                        np.array([10.5, -120.1, 60.])[:nx], alg, eng, ref,
                        (nt == ny or nx == ny) and eng == 'numexpr' and ref == (alg in ('psa', 'nrel')), 'shape')
    if eng == 'numexpr' and ref == (alg in ('psa', 'nrel')) or th:
        day = space.daterange('2024-03-20', '2024-03-22', 1800)
        year = space.daterange('2023-11-01', '2024-11-01', 86400*3 + 3607*5)
        for tag, t in (('two days', day), ('two days backwards', day[::-1]), ('a year', year),
                       ('one instant', day[20:21].repeat(9)), ('days interleaved', day.reshape(2, -1).T.ravel())):
            n, j = len(t), np.arange(len(t))
            for label, la, lo in (('fixed place', np.full(n, 41.3), np.full(n, 2.1)), ('origin', np.zeros(n), np.zeros(n)),
                                  ('fixed latitude', np.full(n, -33.4), np.resize(space.LONS_S, n)),
                                  ('fixed longitude', np.resize(space.LATS_S, n), np.full(n, 150.2)),
                                  ('two places', np.where(j % 2, 66.5, -12.), np.where(j % 2, -70., 179.9)),
                                  ('half and half', np.where(j < n//2, 10., 55.), np.where(j < n//2, 10., -55.))):
                follow(ctx, t, la, lo, alg, eng, ref, f'{tag}, {label}')
    # the sun at the vertical, and large requests
    t = space.daterange('2024-01-03', '2024-12-30', 86400*(2 if th else 9) - 3607)
    q = model.EPHEM[alg](model.unix(t))
    gha = q['gha'] if 'gha' in q else q['sid'] - q['ra']
    for i in range(len(t)):
        x = -((gha[i] + 180) % 360 - 180)
        compare(ctx, t[i:i+1], q['dec'][i] + np.array([0., 1e-9, -1e-6]), np.array([x, (x + 360) % 360 - 180]),
                alg, eng, ref, False, 'subsolar')
        compare(ctx, t[i:i+1], -q['dec'][i] + np.array([0., 1e-9, -1e-6]), np.array([x, (x + 360) % 360 - 180]),
                alg, eng, ref, False, 'antisolar')
    k = np.arange(500)
    for n in range(4, 41, 1 if th else 3):          # as many latitudes as longitudes, and nearly as many
        for nx in (n, n + 1):
            compare(ctx, space.EDGE[22:24], ((k*37.7) % 180 - 90)[:n], ((k*101.3) % 360 - 180)[:nx], alg, eng, ref, False, 'square grids')
    compare(ctx, space.EDGE[25:27], ((k*37.7) % 180 - 90)[:300], ((k*101.3) % 360 - 180)[:301], alg, eng, ref, False, 'many locations')
    compare(ctx, space.daterange('2024-01-01', '2100-01-01', 39000)[:40000 if th else 12000], np.array([40.]), np.array([-3.]),
            alg, eng, ref, False, 'many times')
    far = np.array([space.year_start(y) + np.timedelta64(86400*((y*37) % 365) + 3607*(y % 24), 's')
                    for y in range(-2000, 6001, 10 if th else 100)])
    compare(ctx, far, space.LATS_S, space.LONS_S, alg, eng, ref, False, 'years -2000..6000')
