"""C02: numpy and numexpr engines agree (psa, soltrack, iqbal)."""
import numpy as np

from lib import drive, model, space

TOL = 1e-3


def repro(uc, t, la, lo, alg, ref, var):
    c = lambda e: drive.call_src(uc, np.array([t]), [float(la)], [float(lo)], alg, e, ref)  # noqa: E731
    return (drive.PRELUDE + f'a, b = {c("numpy")}, {c("numexpr")}\n'
            f'a, b = [float(np.ravel(x.{var}.values)[0]) for x in (a, b)]\nprint(a, b)\n'
            f'assert a == b or abs(a - b) < {TOL} or abs(abs(a - b) - 360) < {TOL}\n')


def compare(ctx, uc, times, lats, lons, alg, ref, tag):
    a = drive.run(uc, times, lats, lons, alg, 'numpy', ref)
    b = drive.run(uc, times, lats, lons, alg, 'numexpr', ref)
    ctx.cover(states=a['zenith'].size, transitions=2*a['zenith'].size)
    if uc == 'regular_grid':
        la, lo = lats[None, :, None], lons[None, None, :]
    elif uc == 'sites':
        la, lo = lats[None, :], lons[None, :]
    else:
        la, lo = lats, lons
    if ref:  # the side of the refraction cut-off is decided by rounding there
        near = model.nan_at_cut(model.position(alg, model.unix(times), la, lo, False)[0])
        for d in (a, b):
            if d['zenith'].shape == near.shape:
                d['zenith'] = np.where(near, 0., d['zenith'])

    def where(idx):
        if len(idx) < 1:
            return times[0], lats[0], lons[0]
        t = times[idx[0]]
        if len(idx) == 1:
            return (t, lats[idx[0]], lons[idx[0]]) if uc == 'transect' else (t, lats[0], lons[0])
        return (t, lats[idx[1]], lons[idx[1]]) if len(idx) == 2 else (t, lats[idx[1]], lons[idx[2]])

    for var, tol in (('zenith', TOL), ('declination', TOL), ('eot', 4*TOL), ('ecf', 2e-5)):
        w = drive.worst(a[var], b[var], tol)
        if w:
            t, y, x = where(w[0])
            ctx.fail(f'{alg}/{uc}/ref={ref}/{var}', f'{var} numpy vs numexpr at {t} lat={y} lon={x} ({tag}): {w[1]}',
                     repro(uc, t, y, x, alg, ref, var))
    if a['azimuth'].shape == b['azimuth'].shape == b['zenith'].shape:
        d = np.abs(a['azimuth'] - b['azimuth'])
        d = np.minimum(d, np.abs(360 - d))
        arc = drive.sep(b['zenith'], a['azimuth'], b['zenith'], b['azimuth'])
        # an azimuth has no meaning with the sun within a hair of the vertical
        d = np.where(np.sin(np.radians(b['zenith'])) > 1e-3, d, arc)
        d = np.where(np.isnan(a['azimuth']) != np.isnan(b['azimuth']), np.inf, np.where(np.isnan(d), 0., d))
        if d.size and d.max() > TOL:
            k = np.unravel_index(np.argmax(d), d.shape)
            t, y, x = where(tuple(int(i) for i in k))
            ctx.fail(f'{alg}/{uc}/ref={ref}/azimuth', f'azimuth {a["azimuth"][k]} vs {b["azimuth"][k]} at {t} lat={y} '
                     f'lon={x} zenith={b["zenith"][k]} ({tag})', repro(uc, t, y, x, alg, ref, 'azimuth'))
    else:
        ctx.fail(f'{alg}/{uc}/ref={ref}/azimuth', 'shapes of the azimuths differ')


def subsolar(alg, times):
    q = model.EPHEM[alg](model.unix(times))
    return q['dec'], -((q['gha'] + 180) % 360 - 180)


def run(ctx):
    th = ctx.thorough
    ctx.assume('azimuths within 0.06 degrees of the vertical are compared as arcs on the sky',
               'zeniths within 1e-4 degrees of the refraction cut-off are not compared')
    every = space.daterange('1900-01-01', '2101-01-01', 86400)
    every = every + (np.arange(len(every))*7919 % 86400).astype('m8[s]')   # every day, the second of the day walks
    flat, flon = space.product(space.LATS, space.LONS)
    minutes = space.daterange('2024-03-20', '2024-03-21', 60)
    far = space.daterange('-2000-01-01', '6000-01-01', 86400*29 + 16411)
    for alg in ('psa', 'soltrack', 'iqbal'):
        for ref in (False, True):
            n = len(far)
            compare(ctx, 'transect', far, ((np.arange(n)*0.7) % 180) - 90, ((np.arange(n)*1.7) % 360) - 180, alg, ref, 'years -2000..6000')
            compare(ctx, 'sites', far[::7], np.array([-67., 90.]), np.array([-180., 100.]), alg, ref, 'years -2000..6000')
            compare(ctx, 'regular_grid', far[::7], np.array([0., 66.]), np.array([-70., 179.]), alg, ref, 'years -2000..6000')
            for uc in drive.USECASES:
                for i in range(25, 46, 5 if th else 10):
                    if uc == 'regular_grid':
                        compare(ctx, uc, space.EDGE[i:i+1], space.DENSE_LATS, space.DENSE_LONS[i % 2::2], alg, ref, 'dense')
                    elif uc == 'sites':
                        compare(ctx, uc, space.EDGE[i:i+1], *space.product(space.DENSE_LATS, space.DENSE_LONS[i % 3::3]), alg, ref, 'dense')
                if uc == 'regular_grid':
                    compare(ctx, uc, space.EDGE, space.LATS, space.LONS, alg, ref, 'edge')
                    days = every if th else every[::7]
                    compare(ctx, uc, days, np.array([-90., -35, 0, 52., 90]), np.array([-179., 30.]), alg, ref, 'days')
                    compare(ctx, uc, minutes, space.LATS, space.LONS_S, alg, ref, 'minutes')
                elif uc == 'sites':
                    compare(ctx, uc, space.EDGE, flat, flon, alg, ref, 'edge')
                    days = every if th else every[3::7]
                    compare(ctx, uc, days, np.array([-67., 0, 28., 66.]), np.array([-180., 1e-9, 0., 100.]), alg, ref, 'days')
                    compare(ctx, uc, minutes, flat[::3], flon[::3], alg, ref, 'minutes')
                else:
                    nc = flat.size
                    compare(ctx, uc, np.repeat(space.EDGE, nc), np.tile(flat, len(space.EDGE)),
                            np.tile(flon, len(space.EDGE)), alg, ref, 'edge')
                    n = len(every)
                    compare(ctx, uc, every, ((np.arange(n)*0.7) % 180) - 90, ((np.arange(n)*1.7) % 360) - 180, alg, ref, 'days')
                # subsolar and antisolar points
                t = space.daterange('2024-01-03', '2024-12-20', 3607 if th else 86400 - 3607)
                dec, lon = subsolar(alg, t)
                for off in (0., 1e-9, -1e-7, 1e-5, 1e-3):
                    for y, x in ((dec, lon), (-dec, (lon + 360) % 360 - 180)):
                        y, x = np.clip(y + off, -90, 90), (x + off + 180) % 360 - 180
                        if uc == 'transect':
                            compare(ctx, uc, t, y, x, alg, ref, 'subsolar')
                        else:
                            k = slice(None, None, max(1, len(t)//40))
                            compare(ctx, uc, t[k], y[k], x[k], alg, ref, 'subsolar')
                # twilight: every 4 s (1 s) through sunrise and sunset at four sites
                tw = space.daterange('2024-04-10', '2024-04-11', 5 if th else 29)
                for y, x in ((0., 0.), (45., 12.), (-60., -75.), (80., 170.)):
                    if uc == 'transect':
                        compare(ctx, uc, tw, np.full(len(tw), y), np.full(len(tw), x), alg, ref, 'day by seconds')
                    else:
                        compare(ctx, uc, tw, np.array([y]), np.array([x]), alg, ref, 'day by seconds')
    ctx.cover(traces=ctx.states)
    ctx.sample(dict(algorithms=3, days=len(every), lattice=int(flat.size)))
