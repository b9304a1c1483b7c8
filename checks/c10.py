"""C10: every output is finite and within its documented range."""
import re

import numpy as np

from lib import drive, model, space

EPS = 1e-9


def check(ctx, uc, times, lats, lons, alg, eng, ref, tag, far=False):
    sp = drive.call(uc, times, lats, lons, alg, eng, ref)
    g = drive.grab(sp, uc)
    g['elevation'] = drive.arr(sp.elevation, drive.DIMS[uc])
    g['cosz'] = drive.arr(sp.cosz, drive.DIMS[uc])
    ctx.cover(states=g['zenith'].size, transitions=g['zenith'].size, traces=1)
    for var, lo, hi in (('zenith', 0, 180), ('elevation', -90, 90), ('azimuth', -180, 180), ('cosz', -1, 1),
                        ('declination', *((-24.2, 24.2) if far else (-23.7, 23.7))),
                        ('eot', *((-25, 25) if far else (-18, 18))), ('ecf', 0.96, 1.04)):
        a = g[var]
        eps = EPS if var not in ('zenith', 'elevation') else 1e-9
        bad = ~((a >= lo - eps) & (a <= hi + eps))
        if bad.any():
            k = tuple(int(i) for i in np.argwhere(bad)[0])
            if uc == 'transect':
                y, x = lats[k[0]], lons[k[0]]
            elif len(k) == 1:
                y, x = lats[0], lons[0]
            else:
                y, x = (lats[k[1]], lons[k[-1]])
            rep = (drive.PRELUDE + f's = {drive.call_src(uc, times[k[0]:k[0]+1], [float(y)], [float(x)], alg, eng, ref)}\n'
                   f'v = float(np.ravel(s.{var}.values)[0])\nprint(v)\nassert {lo} - 1e-9 <= v <= {hi} + 1e-9\n')
            ctx.fail(f'{alg}/{eng}/{uc}/ref={ref}/{var}', f'{var} = {a[k]} at {times[k[0]]} lat={y!r} lon={x!r} ({tag}), '
                     f'{int(bad.sum())} such values', rep)
    return g


def declared(ctx, uc, alg, eng, ref):
    """no output leaves the range that its own attributes declare"""
    s = drive.call(uc, space.EDGE[:len(space.LATS)] if uc == 'transect' else space.EDGE, space.LATS, space.LONS if uc == 'regular_grid' else
                   np.resize(space.LONS, len(space.LATS)), alg, eng, ref)
    for name, f in drive.ALL:
        da = f(s)
        nums = re.findall(r'[-+]?[0-9.]+', str(da.attrs.get('range', '')))
        v = np.asarray(da.values)
        if len(nums) == 2 and v.dtype.kind == 'f':
            lo, hi = map(float, nums)
            ctx.cover(states=v.size, transitions=v.size, traces=1)
            bad = (v < lo - EPS) | (v > hi + EPS)
            if bad.any():
                ctx.fail(f'{alg}/{eng}/{uc}/ref={ref}/{name}/range', f'{name} declares the range {da.attrs["range"]} but has {v[bad][0]} in {uc} with {alg}/{eng}')


def subsolar(alg, eng, times):
    """points where the implementation itself puts the sun at the vertical, refined from the model's by Newton steps"""
    u = model.unix(times)
    q = model.EPHEM[alg](u)
    lat = np.clip(q['dec'], -90, 90)
    gha = q['gha'] if 'gha' in q else q['sid'] - q['ra']
    lon = -((gha + 180) % 360 - 180)
    lon = np.where(lon >= 180, lon - 360, lon)
    for _ in range(3):
        g = drive.run('transect', times, lat, lon, alg, eng, False)
        z, a = g['zenith'], np.radians(g['azimuth'])
        ok = np.isfinite(z) & np.isfinite(a) & (z < 1)
        lat = lat - np.where(ok, z*np.cos(a), 0.)        # azimuth zero south: the sun is z degrees to the south
        lon = lon - np.where(ok, z*np.sin(a)/np.cos(np.radians(lat)), 0.)
        lon = (lon + 180) % 360 - 180
    return lat, lon


def ring(lat0, lon0, dist, bearing):
    """points at angular distance dist from (lat0, lon0)"""
    y0, d, b = np.radians(lat0), np.radians(dist), np.radians(bearing)
    lat = np.arcsin(np.clip(np.sin(y0)*np.cos(d) + np.cos(y0)*np.sin(d)*np.cos(b), -1, 1))
    lon = np.radians(lon0) + np.arctan2(np.sin(b)*np.sin(d)*np.cos(y0), np.cos(d) - np.sin(y0)*np.sin(lat))
    lon = (np.degrees(lon) + 180) % 360 - 180
    return np.degrees(lat), np.where(lon >= 180, -180., lon)


def task(ctx, alg, eng, ref):
    th = ctx.thorough
    fl, fo = space.product(space.LATS, space.LONS)
    for uc in drive.USECASES:
        declared(ctx, uc, alg, eng, ref)
    every = space.daterange('1950-01-01', '2101-01-01', 86400)
    k = np.arange(len(every))
    for s in (k*0, k*0 + 43200, k*0 + 86399, k*7919 % 86400):
        t = every + s.astype('m8[s]')
        check(ctx, 'transect', t, ((k*0.7) % 180) - 90, ((k*1.7) % 360) - 180, alg, eng, ref, 'every day')
    check(ctx, 'sites', every, np.array([-90., 0., 90.]), np.array([-180., 0., 179.9]), alg, eng, ref, 'every day')
    far = np.array([space.year_start(y) + np.timedelta64(86400*((y*37) % 365) + 3607*(y % 24), 's') for y in range(-2000, 6000, 3)])
    check(ctx, 'regular_grid', far, np.array([-90., -23., 66.5, 90.]), np.array([-180., 0.]), alg, eng, ref, '-2000..6000', True)
    check(ctx, 'regular_grid', space.EDGE, space.LATS, space.LONS, alg, eng, ref, 'edge')
    check(ctx, 'sites', space.EDGE, fl, fo, alg, eng, ref, 'edge')
    for uc, t, y, x in space.small():
        check(ctx, uc, t, y, x, alg, eng, ref, 'small request', True)
    n = len(space.EDGE)
    check(ctx, 'transect', np.repeat(space.EDGE, fl.size), np.tile(fl, n), np.tile(fo, n), alg, eng, ref, 'edge')
    for i in range(25, 46, 5 if th else 10):
        check(ctx, 'regular_grid', space.EDGE[i:i+1], space.DENSE_LATS, space.DENSE_LONS, alg, eng, ref, 'dense')
        check(ctx, 'sites', space.EDGE[i+1:i+2], *space.product(space.DENSE_LATS, space.DENSE_LONS[i % 3::3]), alg, eng, ref, 'dense')
    for d0 in ('2024-03-20', '2024-06-20', '2024-12-31') if not th else ('2024-03-20', '2024-06-20', '2024-12-31', '2023-12-31', '2024-02-29', '1969-12-31', '2000-01-01'):
        t = space.daterange(d0, np.datetime64(d0) + 1, 20 if th else 60)
        check(ctx, 'regular_grid', t, space.LATS, space.LONS, alg, eng, ref, d0)
    # the sun exactly at the zenith and the nadir, at every minute of the year's edge days and every hour of a year
    t = np.concatenate([space.daterange('2024-01-01', '2025-01-01', 3600 if th else 7207),
                        space.daterange('2024-03-20', '2024-03-21', 60), space.daterange('2024-06-20', '2024-06-21', 60)])
    lat, lon = subsolar(alg, eng, t)
    offs = [0., 5e-15, -5e-15, 1e-13, -1e-13, 1e-11, -1e-11, 1e-9, -1e-9, 1e-7, 1e-5, -1e-3]
    for sgn in (1, -1):
        base_lon = lon if sgn == 1 else (lon + 360) % 360 - 180
        for oy in offs:
            for ox in (offs if th else offs[:6:2] + offs[-2:]):
                y = np.clip(sgn*lat + oy, -90, 90)
                x = (base_lon + ox + 180) % 360 - 180
                x = np.where(x >= 180, -180., x)
                check(ctx, 'transect', t, y, x, alg, eng, ref, f'{"sub" if sgn == 1 else "anti"}solar {oy:g} {ox:g}')
        for uc in ('sites', 'regular_grid'):
            y, x = np.clip(sgn*lat, -90, 90), np.where(base_lon >= 180, -180., base_lon)
            for i in range(0, len(t), 5 if th else 45):
                o = np.array([0., 5e-15, -5e-15, 1e-13, -1e-11, 1e-9])
                xx = (x[i] + o + 180) % 360 - 180
                check(ctx, uc, t[i:i+1], y[i] + o, np.where(xx >= 180, -180., xx), alg, eng, ref, 'vertical')
    # equinox on the equator: the sun passes overhead; poles at the equinox: the sun on the horizon
    t = space.daterange('2024-03-20T00:00:00', '2024-03-20T12:00:00', 1 if th else 7)
    check(ctx, 'regular_grid', t, np.array([-90., -1e-9, 0., 1e-9, 90.]), np.array([-180., 0., 90.]), alg, eng, ref, 'equinox')
    # the sun exactly at the horizon and at the refraction cut-off
    t = space.EDGE
    lat, lon = subsolar(alg, eng, t)
    for dist in (90., 90. + 1e-12, 90. - 1e-12, 90.5, 90.8333, np.degrees(1.4545e-2) + 90., 90.83337, 91., 95.1, 95.11, 100., 45., 135., 89.5,
                 92.7, 92.8, 92.9, 93.0, 94.9, 95.0, 95.2):
        for b in range(0, 360, 15 if th else 45):
            y, x = ring(lat, lon, dist, b)
            check(ctx, 'transect', t, y, x, alg, eng, ref, f'sun {dist} degrees from the vertical')
    for b in (0, 90, 200):
        y, x = ring(lat[:8], lon[:8], 90., b)
        for i in range(8):
            d = np.arange(85., 97., 0.01 if th else 0.05)
            y, x = ring(lat[i], lon[i], d, b)
            for uc in ('sites', 'regular_grid'):
                check(ctx, uc, t[i:i+1], y, x if uc == 'sites' else x[::40], alg, eng, ref, 'horizon')
    ctx.sample(dict(config=[alg, eng, ref], subsolar=[float(lat[0]), float(lon[0]), str(t[0])]))


def run(ctx):
    ctx.assume('ranges are checked with a slack of 1e-9 for the rounding of the conversion to degrees')
    ctx.pmap('checks.c10', [(a, e, r) for a, e in drive.CONFIGS for r in (False, True)])
