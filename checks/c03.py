"""C03: nrel reproduces NREL's SPA over -2000..6000, against the independent SPA of lib/model.py (pvlib's tables)."""
import numpy as np

from lib import drive, model, space

TOL = 1e-5          # degrees, without refraction
RTOL = 6e-5         # with refraction: the constants are rounded to five digits (2.9e-5 degrees)


def repro(uc, t, la, lo, ref, var):
    u = float(model.unix(np.array([t]))[0])
    return (drive.PRELUDE + "import sys; sys.path.insert(0, '/verif')\nfrom lib import model\n"
            f'r = {drive.call_src(uc, np.array([t]), [float(la)], [float(lo)], "nrel", "numexpr", ref)}\n'
            f'q = model.spa_ephem(np.array([{u}]))\n'
            f'z, a = model.spa_position(np.array([{u}]), np.array([{float(la)}]), np.array([{float(lo)}]), {ref}, q)\n'
            "m = dict(zenith=z, azimuth=a, declination=q['dec'], eot=q['eot'], ecf=q['ecf'])\n"
            f'print(np.ravel(r.{var}.values)[0], m[{var!r}][0])\n'
            f'd = abs(float(np.ravel(r.{var}.values)[0]) - m[{var!r}][0])\nassert min(d, abs(360 - d)) < 1e-4\n')


def compare(ctx, uc, times, lats, lons, refs, tag):
    u = model.unix(times)
    q = model.spa_ephem(u)
    if uc == 'regular_grid':
        la, lo = lats[None, :, None], lons[None, None, :]
    elif uc == 'sites':
        la, lo = lats[None, :], lons[None, :]
    else:
        la, lo = lats, lons
    air, azi = model.spa_position(u, la, lo, False, q)
    for ref in refs:
        g = drive.run(uc, times, lats, lons, 'nrel', 'numexpr', ref)
        zen = 90 - model.spa_refraction(90 - air) if ref else air
        near = np.abs((90 - air) + 0.83335) < 1e-3
        m = dict(zenith=zen, azimuth=azi, declination=q['dec'], eot=q['eot'], ecf=q['ecf'])
        ctx.cover(states=zen.size, transitions=zen.size, traces=zen.size)

        def at(idx):
            t = times[idx[0]] if idx else times[0]
            if uc == 'transect':
                return (t, lats[idx[0]], lons[idx[0]]) if idx else (t, lats[0], lons[0])
            if len(idx) < 2:
                return t, lats[0], lons[0]
            return (t, lats[idx[1]], lons[idx[1]]) if len(idx) == 2 else (t, lats[idx[1]], lons[idx[2]])

        if ref and g['zenith'].shape == near.shape:
            g['zenith'] = np.where(near, zen, g['zenith'])
        for var, tol in (('zenith', RTOL if ref else TOL), ('declination', TOL), ('eot', 4*TOL), ('ecf', 1e-9)):
            w = drive.worst(g[var], m[var], tol)
            if w:
                t, y, x = at(w[0])
                ctx.fail(f'{uc}/ref={ref}/{var}', f'{var} vs SPA at {t} lat={y} lon={x} ({tag}): {w[1]}',
                         repro(uc, t, y, x, ref, var))
        for var, idx, text in drive.worst_pair(dict(zenith=air, azimuth=g['azimuth']), dict(zenith=air, azimuth=azi), 2*TOL):
            t, y, x = at(idx)
            ctx.fail(f'{uc}/ref={ref}/{var}', f'{var} vs SPA at {t} lat={y} lon={x} ({tag}): {text}',
                     repro(uc, t, y, x, ref, var))


def run(ctx):
    th = ctx.thorough
    ctx.assume("oracle: lib/model.py, SPA assembled from pvlib's published periodic-term tables",
               'zeniths within 1e-3 degrees of the refraction cut-off are compared without refraction only')
    both = (False, True)
    years = range(-2000, 6001)
    day = lambda y, d, s: space.year_start(y) + np.timedelta64(int(d)*86400 + int(s), 's')  # noqa: E731
    # every year, the day of the year and the second of the day walk through all their values
    walk = np.array([day(y, (y*97) % 366, (y*7919*11) % 86400) for y in years])
    la = ((np.arange(len(walk))*0.7) % 180) - 90
    lo = ((np.arange(len(walk))*1.7) % 360) - 180
    compare(ctx, 'transect', walk, la, lo, both, 'every year')
    # every century (decade), every month, first and last second
    edges = []
    for y in range(-2000, 6001, 10 if th else 100):
        base = np.datetime64('1970', 'Y') + (y - 1970)
        for m in range(12):
            a = base.astype('M8[M]') + m
            edges += [a.astype('M8[s]'), (a + 1).astype('M8[s]') - np.timedelta64(1, 's')]
    edges = np.array(edges)
    compare(ctx, 'sites', edges, np.array([-90., -33.3, 0., 47.7, 90.]), np.array([0., -180., 77., -3., 179.9]), both, 'centuries')
    compare(ctx, 'regular_grid', edges[::1 if th else 7], space.LATS_S, np.array([-180., -60., 0., 120.]), both, 'centuries')
    compare(ctx, 'regular_grid', space.EDGE, space.LATS, space.LONS, both, 'edge instants')
    fl, fo = space.product(space.LATS, space.LONS)
    compare(ctx, 'sites', space.EDGE, fl, fo, both, 'edge instants')
    for uc, t, y, x in space.small():
        compare(ctx, uc, t, y, x, both, 'small request')
    n = len(space.EDGE)
    compare(ctx, 'transect', np.repeat(space.EDGE, fl.size), np.tile(fl, n), np.tile(fo, n), both, 'edge instants')
    for i in range(25, 46, 5 if th else 10):
        compare(ctx, 'regular_grid', space.EDGE[i:i+1], space.DENSE_LATS, space.DENSE_LONS[i % 2::2], both, 'dense')
        compare(ctx, 'sites', space.EDGE[i+1:i+2], *space.product(space.DENSE_LATS, space.DENSE_LONS[i % 3::3]), both, 'dense')
    # leap years of both calendars' conventions, every day
    for y in ((-2000, -1, 0, 4, 100, 1582, 1600, 1700, 1900, 1904, 2000, 2024, 2100, 2400, 4000, 6000) if th else
              (-2000, 0, 1582, 1900, 2024, 6000)):
        d = np.array([day(y, k, (k*11*3607) % 86400) for k in range(366)])
        compare(ctx, 'sites', d, np.array([-23.4, 10., 66.6]), np.array([-100., 0.01, 140.]), both, f'days of {y}')
    # a nutation cycle of the moon's node (18.6 y), every day, then every minute of four days
    t = space.daterange('1950-01-01', '2100-01-01' if th else '1970-01-01', 86400 - 613)
    compare(ctx, 'sites', t, np.array([-40., 30.]), np.array([20., -60.]), both, '1950-')
    for d0 in ('2024-03-20', '2024-12-31', '1999-12-31', '1969-12-31'):
        t = space.daterange(d0, np.datetime64(d0) + 2, 60)
        compare(ctx, 'regular_grid', t, np.array([-90., -50., 0., 65., 90.]), np.array([-179.9, 0., 45.]), both, d0)
    # refraction through twilight
    t = space.daterange('2024-10-01', '2024-10-02', 3 if th else 13)
    for y, x in ((0., 0.), (40., -4.), (-70., 100.)):
        compare(ctx, 'sites', t, np.array([y]), np.array([x]), both, 'twilight')
    # subsolar points (by the model)
    t = space.daterange('2024-01-01', '2025-01-01', 3607 if th else 86400 - 3607)
    q = model.spa_ephem(model.unix(t))
    la, lo = q['dec'], -((q['sid'] - q['ra'] + 180) % 360 - 180)
    for sgn in (1, -1):
        x = lo if sgn == 1 else (lo + 360) % 360 - 180
        compare(ctx, 'transect', t, sgn*la, x, both, 'subsolar')
    ctx.sample(dict(instant=str(walk[123]), latitude=float(la[5])))
