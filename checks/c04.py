"""C04: psa, soltrack and iqbal follow their published formulas (1950-2100) and their accuracy against nrel (2020-2050)."""
import numpy as np

from lib import drive, model, space

TOL = 2e-5


def repro(uc, t, la, lo, alg, eng, ref, var):
    u = float(model.unix(np.array([t]))[0])
    return (drive.PRELUDE + "import sys; sys.path.insert(0, '/verif')\nfrom lib import model\n"
            f'r = {drive.call_src(uc, np.array([t]), [float(la)], [float(lo)], alg, eng, ref)}\n'
            f'q = model.EPHEM[{alg!r}](np.array([{u}]))\n'
            f'z, a = model.position({alg!r}, np.array([{u}]), np.array([{float(la)}]), np.array([{float(lo)}]), {ref}, q)\n'
            "m = dict(zenith=z, azimuth=a, declination=q['dec'], eot=q['eot'], ecf=q['ecf'])\n"
            f'print(np.ravel(r.{var}.values)[0], m[{var!r}][0])\n'
            f'd = abs(float(np.ravel(r.{var}.values)[0]) - m[{var!r}][0])\nassert min(d, abs(360 - d)) < 1e-4\n')


def compare(ctx, uc, times, lats, lons, alg, eng, refs, tag):
    u = model.unix(times)
    q = model.EPHEM[alg](u)
    if uc == 'regular_grid':
        la, lo = lats[None, :, None], lons[None, None, :]
    elif uc == 'sites':
        la, lo = lats[None, :], lons[None, :]
    else:
        la, lo = lats, lons
    air, azi = model.position(alg, u, la, lo, False, q)
    near = model.nan_at_cut(air)
    for ref in refs:
        g = drive.run(uc, times, lats, lons, alg, eng, ref)
        zen = model.REFR[alg](air) if ref else air
        ctx.cover(states=zen.size, transitions=zen.size, traces=zen.size)

        def at(idx):
            t = times[idx[0]] if idx else times[0]
            if uc == 'transect':
                return (t, lats[idx[0]], lons[idx[0]]) if idx else (t, lats[0], lons[0])
            if len(idx) < 2:
                return t, lats[0], lons[0]
            return (t, lats[idx[1]], lons[idx[1]]) if len(idx) == 2 else (t, lats[idx[1]], lons[idx[2]])

        if ref and g['zenith'].shape == near.shape:
            g['zenith'] = np.where(near, zen, g['zenith'])
        for var, ref_, tol in (('zenith', zen, TOL), ('declination', q['dec'], TOL), ('eot', q['eot'], 4*TOL),
                               ('ecf', q['ecf'], 1e-8)):
            w = drive.worst(g[var], ref_, tol)
            if w:
                t, y, x = at(w[0])
                ctx.fail(f'{alg}/{eng}/{uc}/ref={ref}/{var}', f'{var} vs published formula at {t} lat={y} lon={x} ({tag}): '
                         f'{w[1]}', repro(uc, t, y, x, alg, eng, ref, var))
        for var, idx, text in drive.worst_pair(dict(zenith=air, azimuth=g['azimuth']), dict(zenith=air, azimuth=azi), TOL):
            t, y, x = at(idx)
            ctx.fail(f'{alg}/{eng}/{uc}/ref={ref}/{var}', f'{var} vs published formula at {t} lat={y} lon={x} ({tag}): {text}',
                     repro(uc, t, y, x, alg, eng, ref, var))


def accuracy(ctx, alg, eng, times, lats, lons):
    lim, mean = dict(psa=(0.02, 0.005), soltrack=(0.02, 0.005), iqbal=(1.2, 1.2))[alg]
    for uc in ('sites', 'regular_grid'):
        a = drive.run(uc, times, lats, lons, alg, eng, False)
        b = drive.run(uc, times, lats, lons, 'nrel', 'numexpr', False)
        d = drive.sep(a['zenith'], a['azimuth'], b['zenith'], b['azimuth'])
        ctx.cover(states=d.size, transitions=2*d.size)
        d = np.where(np.isnan(d), np.inf, d)
        k = np.unravel_index(np.argmax(d), d.shape)
        if d.max() > lim or d.mean() > mean:
            ctx.fail(f'{alg}/{eng}/{uc}/accuracy', f'{d.max():.4f} degrees (mean {d.mean():.5f}) away from nrel at '
                     f'{times[k[0]]}, location index {k[1:]}, allowed {lim} ({mean})')
        ctx.note(**{f'max_error_{alg}_{eng}_{uc}': round(float(d.max()), 5), f'mean_error_{alg}_{eng}_{uc}': round(float(d.mean()), 5)})


def run(ctx):
    th = ctx.thorough
    ctx.assume('oracle: lib/model.py, series written from the publications (PSA+ 2020, SolTrack 2022, Iqbal 1983 refit)',
               'zeniths within 1e-4 degrees of the refraction cut-off are compared without refraction only')
    every = space.daterange('1950-01-01', '2101-01-01', 86400)
    k = np.arange(len(every))
    both = (False, True)
    fl, fo = space.product(space.LATS, space.LONS)
    n = len(space.EDGE)
    for alg, eng in drive.CONFIGS:
        if alg == 'nrel':
            continue
        # every day: first and last second and a walking second
        for name, s in (('first', k*0), ('last', k*0 + 86399), ('walk', k*7919 % 86400)):
            t = every + s.astype('m8[s]')
            compare(ctx, 'transect', t, ((k*0.7) % 180) - 90, ((k*1.7) % 360) - 180, alg, eng, both, f'{name} second of every day')
            if th or name == 'walk':
                compare(ctx, 'sites', t, np.array([-62., 37., 0.]), np.array([-180., 3., 100.]), alg, eng, both, name)
                compare(ctx, 'regular_grid', t, np.array([-90., 50.]), np.array([-20., 150.]), alg, eng, both, name)
        compare(ctx, 'regular_grid', space.EDGE, space.LATS, space.LONS, alg, eng, both, 'edge instants')
        for uc, t, y, x in space.small(3):
            compare(ctx, uc, t, y, x, alg, eng, both, 'small request')
        compare(ctx, 'sites', space.EDGE, fl, fo, alg, eng, both, 'edge instants')
        compare(ctx, 'transect', np.repeat(space.EDGE, fl.size), np.tile(fl, n), np.tile(fo, n), alg, eng, both, 'edge instants')
        for i in range(25, 46, 5 if th else 10):
            compare(ctx, 'regular_grid', space.EDGE[i:i+1], space.DENSE_LATS, space.DENSE_LONS[i % 2::2], alg, eng, both, 'dense')
            compare(ctx, 'sites', space.EDGE[i+1:i+2], *space.product(space.DENSE_LATS, space.DENSE_LONS[i % 3::3]), alg, eng, both, 'dense')
        # every minute of days around calendar edges
        for d0 in ('1969-12-31', '2000-02-28', '2023-12-31', '2024-02-28', '2024-12-30', '2100-02-28', '2024-04-15', '2024-06-13',
                   '2024-09-01', '2024-12-25'):
            t = space.daterange(d0, np.datetime64(d0) + 3, 60 if th else 420)
            compare(ctx, 'sites', t, fl[::11], fo[::11], alg, eng, both, d0)
            compare(ctx, 'regular_grid', t[::3], space.LATS_S, space.LONS_S, alg, eng, both, d0)
        # subsolar and antisolar points
        t = space.daterange('2024-01-01', '2025-01-01', 3607 if th else 86400 - 3607)
        q = model.EPHEM[alg](model.unix(t))
        lo = -((q['gha'] + 180) % 360 - 180)
        compare(ctx, 'transect', t, q['dec'], lo, alg, eng, both, 'subsolar')
        compare(ctx, 'transect', t, -q['dec'], (lo + 360) % 360 - 180, alg, eng, both, 'antisolar')
        t = space.daterange('2020-01-01', '2051-01-01', 3600 if th else 86400*2 + 3607)
        accuracy(ctx, alg, eng, t, np.array([-90., -45., 0., 23.4, 60.]), np.array([-180., -75., 0., 12., 100.]))
    ctx.sample(dict(days=len(every), configs=len(drive.CONFIGS) - 1))
