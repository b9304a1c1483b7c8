"""C15: zenith, azimuth, declination and solar time describe one and the same sun.

Oracle: the spherical triangle of the reported declination, the latitude and the hour angle of the reported true solar time
(fully independent of the position code, which uses sidereal times and right ascensions).
"""
import numpy as np

from lib import drive, space

LIMIT = 0.05


def triangle(lat, dec, ha):
    """zenith, azimuth (zero south, negative in the morning) in degrees"""
    y, d, h = np.radians(lat), np.radians(dec), np.radians(ha)
    e = np.cos(d)*np.sin(h)                             # towards west
    s = np.sin(y)*np.cos(d)*np.cos(h) - np.cos(y)*np.sin(d)   # towards south
    u = np.sin(y)*np.sin(d) + np.cos(y)*np.cos(d)*np.cos(h)   # up
    return np.degrees(np.arctan2(np.hypot(e, s), u)), np.degrees(np.arctan2(e, s))


def check(ctx, uc, t, y, x, alg, eng, ref=False, tag=''):
    s = drive.call(uc, t, y, x, alg, eng, ref)
    nt, nla, nlo = len(t), np.size(y), np.size(x)
    cells = lambda d: drive.to_cells(d, uc, nt, nla, nlo)  # noqa: E731
    zen, azi, dec, tst = cells(s.zenith), cells(s.azimuth), cells(s.declination), cells(s.true_solar_time)
    if uc == 'regular_grid':
        lat, lon = (v.ravel()[None, :] for v in np.meshgrid(y, x, indexing='ij'))
    else:
        lat, lon = (np.asarray(y, float), np.asarray(x, float)) if uc == 'transect' else (np.asarray(y)[None, :], np.asarray(x)[None, :])
    lat, lon = np.broadcast_to(lat, zen.shape), np.broadcast_to(lon, zen.shape)
    ns = tst.astype('M8[ns]')
    hour = (ns - ns.astype('M8[D]')).astype('m8[ns]').astype('int64')/3.6e12
    ctx.cover(states=zen.size, transitions=zen.size, traces=1)
    key = f'{alg}/{eng}/{uc}'

    def bad(what, m, txt):
        k = tuple(int(i) for i in np.argwhere(m)[0])
        c = drive.call_src(uc, np.asarray(t)[k[0]:k[0]+1], [float(lat[k])], [float(lon[k])], alg, eng, ref)
        rep = (drive.PRELUDE + 'import sys\nsys.path.insert(0, "/verif")\nfrom checks.c15 import check\n'
               f's = {c}\nprint(s.zenith.values, s.azimuth.values, s.declination.values, s.true_solar_time.values)\n')
        ctx.fail(f'{key}/{what}', f'{what} at {np.asarray(t)[k[0]]} lat={lat[k]!r} lon={lon[k]!r} ref={ref} ({tag}): {txt(k)}; {int(m.sum())} cells', rep)

    if not ref:
        z, a = triangle(lat, dec, (hour - 12)*15)
        d = drive.sep(zen, azi, z, a)
        ctx.extra['max_separation_' + alg] = max(ctx.extra.get('max_separation_' + alg, 0.), float(np.nanmax(d)) if d.size else 0.)
        m = ~(d <= LIMIT)
        if m.any():
            bad('direction', m, lambda k: f'zenith {zen[k]:.5f} azimuth {azi[k]:.5f}, but declination {dec[k]:.5f} and solar time {tst[k]} '
                f'give {z[k]:.5f}, {a[k]:.5f} ({d[k]:.4f} degrees apart)')
        # the azimuth sign, away from the meridian and the vertical
        h = (hour - 12)*15
        side = np.sin(np.radians(h))*np.cos(np.radians(dec))
        off = (np.abs(side) > 0.003)
        m = off & (np.sign(azi) != np.sign(side))
        if m.any():
            bad('side', m, lambda k: f'azimuth {azi[k]} at solar time {tst[k]}')
    for name, got, exp in (('elevation', cells(s.elevation), 90 - zen), ('cosz', cells(s.cosz), np.cos(np.radians(zen)))):
        m = ~(np.abs(got - exp) <= 1e-9)
        if m.any():
            bad(name, m, lambda k: f'{name} {got[k]} with zenith {zen[k]}')


def task(ctx, alg, eng):
    th = ctx.thorough
    y, x = space.LATS, space.LONS
    fl, fo = space.product(y, x)
    for ref in (False, True):
        check(ctx, 'regular_grid', space.EDGE, y, x, alg, eng, ref, 'edge')
        check(ctx, 'sites', space.EDGE, fl, fo, alg, eng, ref, 'edge')
        n = len(space.EDGE)
        check(ctx, 'transect', np.repeat(space.EDGE, fl.size), np.tile(fl, n), np.tile(fo, n), alg, eng, ref, 'edge')
    for uc, t, y, x in space.small():
        check(ctx, uc, t, y, x, alg, eng, False, 'small request')
    days = space.daterange('1950-01-01', '2101-01-01', 86400)
    k = np.arange(len(days))
    for sec in (0, 43200, 86399, None):
        t = days + (k*7919 % 86400 if sec is None else k*0 + sec).astype('m8[s]')
        check(ctx, 'transect', t, (k*37.7) % 180 - 90, (k*101.3) % 360 - 180, alg, eng, False, 'every day')
    for i in range(25, 46, 5 if th else 10):
        check(ctx, 'regular_grid', space.EDGE[i:i+1], space.DENSE_LATS, space.DENSE_LONS, alg, eng, False, 'dense')
        check(ctx, 'sites', space.EDGE[i+1:i+2], *space.product(space.DENSE_LATS, space.DENSE_LONS[i % 3::3]), alg, eng, False, 'dense')
    step = 60 if th else 600
    for d in ('2024-03-20', '2024-06-20', '2024-11-03', '2024-12-31', '2024-02-29', '2023-02-12'):
        t = space.daterange(d, np.datetime64(d) + 1, step)
        check(ctx, 'regular_grid', t, y, x, alg, eng, False, d)
    t = np.concatenate([m + np.arange(0, 86400, 3600).astype('m8[s]') for m in space.edge_days([1950, 1972, 1999, 2000, 2024, 2049, 2100] if th else [1950, 2000, 2024])])
    check(ctx, 'regular_grid', t, space.LATS_S, space.LONS_S, alg, eng, False, 'edge days')
    # every second around solar noon and midnight
    for lat in (-60., -23.44, 0., 10.1, 45.):
        for lon in (-179.99, 0., 100.):
            s = drive.call('sites', space.dt('2024-05-05T12:00:00'), [lat], [lon], alg, eng, False)
            off = (s.true_solar_time.values.ravel()[0] - np.datetime64('2024-05-05T12:00:00')).astype('m8[s]')
            for c in (np.datetime64('2024-05-05T12:00:00') - off, np.datetime64('2024-05-06T00:00:00') - off):
                t = c + np.arange(-300 if th else -90, 300 if th else 90).astype('m8[s]')
                check(ctx, 'sites', t, [lat], [lon], alg, eng, False, 'meridian')
    ctx.sample(dict(alg=alg, eng=eng, max_separation=ctx.extra.get('max_separation_' + alg)))


def run(ctx):
    ctx.assume('the reported solar time and declination are checked on their own by C03, C04 and C16')
    ctx.pmap('checks.c15', drive.CONFIGS)
