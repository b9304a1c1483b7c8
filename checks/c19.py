"""C19: extraterrestrial irradiance and air mass follow their formulas.

The states are sun elevations: observers on rings around the subsolar point at every zenith distance of a lattice (fine at the
horizon and the zenith), plus days at fixed sites. Oracle: executable formulas of the cited papers (lib/model.py).
"""
import numpy as np

from checks.c10 import ring, subsolar
from lib import drive, model, space

RTOL = 1e-9
CONSTANTS = (1361.1, 1., 0., 1366., 1000.)


def rel(got, exp):
    with np.errstate(invalid='ignore', divide='ignore'):
        d = np.abs(got - exp)/np.maximum(1., np.abs(exp))
    d = np.where(np.isnan(got) & np.isnan(exp), 0., d)
    return np.where(np.isnan(got) != np.isnan(exp), np.inf, d)


def check(ctx, uc, t, y, x, alg, eng, ref, tag='', constants=CONSTANTS[:2]):
    s = drive.call(uc, t, y, x, alg, eng, ref)
    n = (len(t), np.size(y), np.size(x))
    cells = lambda a: drive.to_cells(a, uc, *n)  # noqa: E731
    zen, ecf = cells(s.zenith), cells(s.ecf)
    zen = np.asarray(zen, float)
    key = f'{uc}/{alg}/{eng}'

    def bad(what, m, txt):
        k = tuple(int(i) for i in np.argwhere(m)[0])
        yk = np.asarray(y, float).ravel()[k[0] if uc == 'transect' else (k[-1] if uc == 'sites' else k[-1]//n[2])]
        xk = np.asarray(x, float).ravel()[k[0] if uc == 'transect' else (k[-1] if uc == 'sites' else k[-1] % n[2])]
        rep = (drive.PRELUDE + f's = {drive.call_src(uc, np.asarray(t)[k[0]:k[0]+1], [float(yk)], [float(xk)], alg, eng, ref)}\n'
               'print(s.zenith.values, s.ecf.values, s.eth().values, s.airmass().values)\n')
        ctx.fail(f'{key}/{what}', f'{what} at {np.asarray(t)[k[0]]} lat={yk!r} lon={xk!r} zenith={zen[k]!r} ref={ref} ({tag}): {txt(k)}; '
                 f'{int(m.sum())} cells', rep)

    flat = zen.ravel()
    order = np.argsort(flat)
    for p in drive.AIRMASS:
        am = np.asarray(cells(s.airmass(p)), float)
        e = model.airmass(p, zen)
        m = rel(am, e) > RTOL
        ctx.cover(states=am.size, transitions=am.size, traces=1)
        if m.any():
            bad(f'airmass {p}', m, lambda k: f'{am[k]!r}, the formula gives {e[k]!r}')     # noqa: B023
        m = (np.isnan(am) != (zen > 90)) | (am < 1)
        if m.any():
            bad(f'airmass {p} domain', m, lambda k: f'{am[k]!r}')    # noqa: B023
        v = am.ravel()[order]
        v = v[~np.isnan(v)]
        if v.size and (np.diff(v) < -1e-9*v[1:]).any():
            k = int(np.argmax(np.diff(v) < -1e-9*v[1:]))
            ctx.fail(f'{key}/airmass {p} monotone', f'air mass {v[k]!r} then {v[k+1]!r} for a larger zenith angle ({tag})')
    if rel(np.asarray(cells(s.airmass()), float), np.asarray(cells(s.airmass('gueymard_2003')), float)).max(initial=0) > 0:
        ctx.fail(f'{key}/airmass default', 'the default parameterisation is not gueymard_2003')
    day = np.cos(np.radians(zen)) > 0
    # the model's ecf is independent of the reported one
    q = model.EPHEM[alg](model.unix(np.asarray(t)))['ecf']
    m = np.abs(s.ecf.values - q) > 1e-4
    if m.any():
        bad('ecf', np.broadcast_to(m[:, None] if zen.ndim == 2 else m, zen.shape), lambda k: f'{ecf[k]!r}')
    base = {}
    for isc in constants:
        e = model.eth(ecf, zen, isc)
        g = np.asarray(cells(s.eth(ISC=isc)), float)
        base[isc] = g
        m = rel(g, e) > RTOL
        ctx.cover(states=g.size, transitions=g.size, traces=1)
        if m.any():
            bad(f'eth {isc}', m, lambda k: f'{g[k]!r}, the formula gives {e[k]!r}')     # noqa: B023
        m = ~day & (g != 0)
        if m.any():
            bad(f'eth {isc} at night', m, lambda k: f'{g[k]!r}')     # noqa: B023
        for c in drive.CORRECTIONS[1:]:
            h = np.asarray(cells(s.eth(ISC=isc, am_correction=c)), float)
            e = model.eth(ecf, zen, isc, c)
            m = day & (zen <= 90) & (rel(h, e) > RTOL)
            ctx.cover(states=h.size, transitions=h.size, traces=1)
            if m.any():
                bad(f'eth {c}', m, lambda k: f'{h[k]!r}, the formula gives {e[k]!r} (solar constant {isc})')    # noqa: B023
            m = (zen > 90) & ~(np.isnan(h) | (np.abs(h) < 1e-9))
            if m.any():
                bad(f'eth {c} at night', m, lambda k: f'{h[k]!r}')    # noqa: B023
    if rel(np.asarray(cells(s.eth()), float), base[1361.1]).max(initial=0) > RTOL:
        ctx.fail(f'{key}/eth default', 'the default solar constant is not 1361.1 W m-2')


def task(ctx, alg, eng):
    th = ctx.thorough
    dist = np.unique(np.concatenate([np.arange(0, 180.01, 0.5 if th else 2), np.arange(80, 97, 0.01 if th else 0.1), 90 + np.arange(-60, 61)*1e-4,
                                     90 + np.array([-1e-6, -1e-9, -1e-12, 0, 1e-12, 1e-9, 1e-6]), np.arange(0, 2, 0.02), [1e-7, 1e-5, 179.999]]))
    T = space.EDGE[::1 if th else 4]
    lat, lon = subsolar(alg, eng, T)
    for uc, t, y, x in space.small(1 if th else 3):
        check(ctx, uc, t, y, x, alg, eng, True, 'small request')
    for ref in (True, False):
        for i in range(len(T)):
            for b in (7, 97, 232) if th else ((7, 232) if i % 2 else (97,)):
                y, x = ring(lat[i], lon[i], dist, b)
                if (i + b) % 2:
                    check(ctx, 'sites', T[i:i+1], y, x, alg, eng, ref, f'ring {b}')
                else:
                    check(ctx, 'transect', np.repeat(T[i], len(dist)), y, x, alg, eng, ref, f'ring {b}')
                if th or i % 3 == 0:
                    check(ctx, 'regular_grid', T[i:i+1], y[::6], x[::9], alg, eng, ref, f'ring {b}')
        check(ctx, 'regular_grid', space.EDGE, space.LATS, space.LONS, alg, eng, ref, 'edge', CONSTANTS)
        fl, fo = space.product(space.LATS_S, space.LONS_S)
        check(ctx, 'sites', space.EDGE, fl, fo, alg, eng, ref, 'edge', CONSTANTS)
        t = space.daterange('2024-06-20', '2024-06-21', 60 if th else 300)
        check(ctx, 'regular_grid', t, space.LATS_S, space.LONS_S, alg, eng, ref, 'day')
        days = space.daterange('1950-01-01', '2101-01-01', 86400)
        k = np.arange(len(days))
        check(ctx, 'transect', days + (k*7919 % 86400).astype('m8[s]'), (k*37.7) % 180 - 90, (k*101.3) % 360 - 180, alg, eng, ref, 'every day')
    ctx.sample(dict(alg=alg, eng=eng, zenith_distances=len(dist), constants=CONSTANTS))


def run(ctx):
    ctx.assume('corrected irradiance at night may be 0 or undefined; the published factors only apply by day')
    ctx.pmap('checks.c19', drive.CONFIGS)
