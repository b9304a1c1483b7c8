"""C18: incidence is the cosine of the angle between the sun and the surface normal.

Oracle: scalar product of the surface normal (slope, orientation from south, positive east) with the unrefracted sun direction.
"""
import itertools

import numpy as np
import pandas as pd

from lib import drive, space

TOL = 1e-3
SLOPES = [0., 1e-9, 0.5, 10., 30., 45., 60., 89.999, 90., 90.001, 120., 179.5, 180.]
ORIENT = [-360., -270., -180., -135., -90., -45., -1e-9, 0., 1., 37., 90., 135., 180., 225., 270., 360.]


def normal(slope, orient):
    """south, east, up"""
    b, g = np.radians(slope), np.radians(orient)
    return np.array([np.sin(b)*np.cos(g), np.sin(b)*np.sin(g), np.cos(b)])


def check(ctx, uc, t, y, x, alg, eng, ref, slopes, orients, tz=None, tag=''):
    arg = t if tz is None else pd.DatetimeIndex(t).tz_localize('UTC').tz_convert(tz)
    s = drive.call(uc, arg, y, x, alg, eng, ref)
    s0 = s if not ref else drive.call(uc, arg, y, x, alg, eng, False)
    n = (len(t), np.size(y), np.size(x))
    cells = lambda a: drive.to_cells(a, uc, *n)  # noqa: E731
    z, a = np.radians(cells(s0.zenith)), np.radians(cells(s0.azimuth))
    sun = np.stack([np.sin(z)*np.cos(a), -np.sin(z)*np.sin(a), np.cos(z)], axis=-1)   # azimuth is positive to the west
    key = f'{uc}/{alg}/{eng}'

    def bad(what, m, txt, sl, az):
        k = tuple(int(i) for i in np.argwhere(m)[0])
        yk = np.asarray(y, float).ravel()[k[0] if uc == 'transect' else (k[-1] if uc == 'sites' else k[-1]//n[2])]
        xk = np.asarray(x, float).ravel()[k[0] if uc == 'transect' else (k[-1] if uc == 'sites' else k[-1] % n[2])]
        rep = (drive.PRELUDE + f's = {drive.call_src(uc, np.asarray(t)[k[0]:k[0]+1], [float(yk)], [float(xk)], alg, eng, False)}\n'
               f'g = float(s.incidence({sl}, {az}).values.ravel()[0])\n'
               'z, a = np.radians(s.zenith.values.ravel()[0]), np.radians(s.azimuth.values.ravel()[0])\n'
               f'b, c = np.radians({sl}), np.radians({az})\n'
               'e = np.sin(b)*np.cos(c)*np.sin(z)*np.cos(a) - np.sin(b)*np.sin(c)*np.sin(z)*np.sin(a) + np.cos(b)*np.cos(z)\n'
               'print(g, e)\nassert abs(g - e) < 1e-3 and abs(g) <= 1 + 1e-9\n')
        ctx.fail(f'{key}/{what}', f'{what}: incidence({sl}, {az}) at {np.asarray(t)[k[0]]} lat={yk!r} lon={xk!r} zone={tz} ref={ref} ({tag}): {txt(k)}; '
                 f'{int(m.sum())} cells', rep)

    # closely: the angle to the sun of the position, or to that of the declination and solar time (0.05 degrees apart, C15)
    tst = cells(s0.true_solar_time).astype('M8[ns]')
    ha = np.pi*((tst - tst.astype('M8[D]')).astype('m8[ns]').astype('int64')/43200e9 - 1)
    de = np.radians(cells(s0.declination))
    la = np.radians(np.asarray(y, float))
    la = (np.repeat(la, n[2])[None] if uc == 'regular_grid' else la[None]) if uc != 'transect' else la
    sun2 = np.stack(np.broadcast_arrays(np.sin(la)*np.cos(de)*np.cos(ha) - np.cos(la)*np.sin(de), -np.cos(de)*np.sin(ha),
                                        np.sin(la)*np.sin(de) + np.cos(la)*np.cos(de)*np.cos(ha)), axis=-1)
    got = {}
    for sl, az in itertools.product(slopes, orients):
        g = cells(s.incidence(sl, az))
        got[sl, az] = g
        e = sun @ normal(sl, az)
        ctx.cover(states=g.size, transitions=g.size, traces=1)
        m = ~(np.abs(g - e) <= TOL)
        if m.any():
            bad('cosine', m, lambda k: f'{g[k]!r}, the scalar product is {e[k]!r}', sl, az)     # noqa: B023
        e2 = sun2 @ normal(sl, az)
        m = ~((np.abs(g - e) <= 1e-6) | (np.abs(g - e2) <= 1e-6))
        if m.any():
            bad('precision', m, lambda k: f'{g[k]!r}, the scalar product is {e[k]!r} with the position, {e2[k]!r} with the declination and solar time', sl, az)     # noqa: B023
        m = ~(np.abs(g) <= 1 + 1e-9)
        if m.any():
            bad('range', m, lambda k: f'{g[k]!r}', sl, az)    # noqa: B023
    for az in orients:
        g = cells(s.incidence(0, az))
        m = ~(np.abs(g - np.cos(z)) <= TOL)
        if m.any():
            bad('horizontal', m, lambda k: f'{g[k]!r}, cosz {np.cos(z)[k]!r}', 0., az)    # noqa: B023
        for sl in slopes:
            # turned over: slope 180 - b, orientation + 180
            h = cells(s.incidence(180. - sl, az + 180.))
            m = ~(np.abs(h + got[sl, az]) <= 1e-9)
            if m.any():
                bad('turned over', m, lambda k: f'{got[sl, az][k]!r} and turned over {h[k]!r}', sl, az)   # noqa: B023
            ctx.cover(transitions=h.size)


def kinds(ctx):
    """slopes and orientations of every numeric type, and one per location, against plain numbers"""
    import xarray as xr
    t = space.EDGE[::9]
    y, x = space.LATS_S, np.linspace(-180, 179, len(space.LATS_S))
    types = ('i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8', 'f2', 'f4', 'f8', 'f16')
    for uc in drive.USECASES:
        lat, lon = (y, x) if uc != 'transect' else (y[np.arange(len(t)) % len(y)], x[np.arange(len(t)) % len(x)])
        s = drive.call(uc, t, lat, lon, 'psa', 'numexpr', True)

        def same(tag, sl, az, e, text):
            g = ctx.guarded(f'kinds/{uc}/{tag}', lambda: s.incidence(sl, az))
            ctx.cover(states=1, transitions=e.size, traces=1)
            if g is None:
                return
            d = np.abs(g.transpose(*e.dims).to_numpy() - e.to_numpy()) if sorted(g.dims) == sorted(e.dims) and g.size == e.size else np.array([np.inf])
            if not (d <= 1e-6).all():
                ctx.fail(f'kinds/{uc}/{tag}', f'incidence with {tag} differs from that of plain numbers by {np.nanmax(d)} {text}',
                         drive.PRELUDE + f's = {drive.call_src(uc, t[:1], lat[:1], lon[:1], "psa", "numexpr", True)}\n'
                         'for k in ("u1", "i2", "f2"):\n    a, b = (s.incidence(f(60), f(100)).values for f in (np.dtype(k).type, float))\n'
                         '    print(k, a - b)\n    assert abs(a - b).max() < 1e-6\n')
        for dt in types:
            top = {'i1': 127, 'u1': 255}.get(dt, 359)
            for sl, az in itertools.product((0, 35, 60, 90, 127), (0, 10, 100, 126, top) + ((-100, -45, -128) if dt[0] != 'u' else ())):
                e = s.incidence(float(sl), float(az))
                k = np.dtype(dt).type
                same(f'scalars of type {dt}', k(sl), k(az), e, f'at slope {sl} and orientation {az}')
                if az in (0, -128, top):
                    same(f'slopes of type {dt}', k(sl), float(az), e, f'at slope {sl} and orientation {az}')
                    same(f'orientations of type {dt}', sl, k(az), e, f'at slope {sl} and orientation {az}')
                    same(f'arrays without dimensions of type {dt}', np.array(sl, dt), np.array(az, dt), e, f'at slope {sl} and orientation {az}')
            if uc == 'sites':
                sl, az = np.arange(len(y))*13 % 91, np.arange(len(y))*29 % 127
                e = np.stack(
                    [s.incidence(float(b), float(c)).transpose('time', 'location').to_numpy()[:, i] for i, (b, c) in enumerate(zip(sl, az))], axis=1)
                e = xr.DataArray(e, dims=('time', 'location'))
                da = lambda v: xr.DataArray(v.astype(dt), dims=['location'])     # noqa: E731, B023
                same(f'labelled arrays of type {dt}', da(sl), da(az), e, 'with a surface per location')


def task(ctx, alg, eng):
    if alg == 'kinds':
        return kinds(ctx)
    th = ctx.thorough
    fl, fo = space.product(space.LATS, space.LONS)
    n = len(space.EDGE)
    # the sparse lattice of surfaces on all cells, the full one on a coarser lattice of cells
    for ref in (True, False):
        check(ctx, 'regular_grid', space.EDGE, space.LATS, space.LONS, alg, eng, ref, [0., 35., 90.], [-120., 0., 50.], None, 'edge')
        check(ctx, 'sites', space.EDGE, fl, fo, alg, eng, ref, [20., 90., 150.], [-90., 180.], None, 'edge')
        check(ctx, 'transect', np.repeat(space.EDGE, fl.size), np.tile(fl, n), np.tile(fo, n), alg, eng, ref, [0., 60.], [-170., 10.], None, 'edge')
    t = space.EDGE[::1 if th else 5]
    for uc in drive.USECASES:
        y, x = space.LATS_S, space.LONS_S
        if uc == 'sites':
            y, x = space.product(space.LATS_S, space.LONS_S)
        if uc == 'transect':
            y, x = space.LATS[np.arange(len(t)) % 14], space.LONS[np.arange(len(t)) % 12]
        check(ctx, uc, t, y, x, alg, eng, True, SLOPES, ORIENT, None, 'surfaces')
    for uc, t, y, x in space.small():
        check(ctx, uc, t, y, x, alg, eng, False, [30.], [-60.], None, 'small request')
    days = space.daterange('1950-01-01', '2101-01-01', 86400)
    k = np.arange(len(days))
    check(ctx, 'transect', days + (k*7919 % 86400).astype('m8[s]'), (k*37.7) % 180 - 90, (k*101.3) % 360 - 180, alg, eng, False, [40., 90.], [-60., 100.], None, 'every day')
    check(ctx, 'regular_grid', space.EDGE[29:30], space.DENSE_LATS, space.DENSE_LONS[::2], alg, eng, True, [35., 90.], [-70., 110.], None, 'dense')
    check(ctx, 'sites', space.EDGE[35:36], *space.product(space.DENSE_LATS, space.DENSE_LONS[1::3]), alg, eng, True, [35.], [-70., 110.], None, 'dense')
    for d in ('2024-03-20', '2024-06-20', '2024-12-31'):
        t = space.daterange(d, np.datetime64(d) + 1, 60 if th else 600)
        check(ctx, 'regular_grid', t, space.LATS_S, space.LONS_S, alg, eng, True, [0., 25., 90.], [-45., 0., 135.], None, d)
    for tz in ('Europe/Madrid', 'Australia/Lord_Howe'):
        t = space.daterange('2024-03-31', '2024-04-08', 3600)
        check(ctx, 'sites', t, space.LATS_S, np.linspace(-180, 179, 6), alg, eng, True, [30.], [-30., 200.], tz, 'zone')
        check(ctx, 'transect', t, np.full(len(t), 40.), np.full(len(t), 150.), alg, eng, True, [30.], [-30.], tz, 'zone')
    ctx.sample(dict(alg=alg, eng=eng, slopes=SLOPES, orientations=ORIENT))


def run(ctx):
    ctx.assume('solar time and position of one instant agree within 0.05 degrees (C15), hence the tolerance of 0.001')
    ctx.pmap('checks.c18', [('kinds', '')] + list(drive.CONFIGS))
