"""C11: refraction lifts the sun only near the horizon and changes only the zenith.

States: every sun elevation of a lattice from -90 to 90 degrees (fine next to the horizon), reached by placing observers on
rings around the subsolar point, and every second of chosen twilights. Transition: switching refraction on.
"""
import numpy as np

from checks.c10 import ring, subsolar
from lib import drive, space

TRUE = [True, 1, np.True_, np.bool_(1), 'yes']
FALSE = [False, 0, np.False_, None, '']
OTHERS = ['true_solar_time', 'sunrise_rad', 'sunrise_deg', 'sunrise_tst', 'sunrise_utc', 'sunrise_local', 'sunset_deg',
          'sunset_utc', 'sunset_local', 'daylight_length', 'incidence_0_0', 'incidence_35_-50', 'incidence_90_120']
GET = dict(drive.ALL)
SAME = 1e-6        # rounding of the azimuth next to the vertical


def invariants(ctx, uc, alg, eng, t, y, x, tag, others=False):
    """the properties of the step refraction off -> on; returns (elevation off, lift)"""
    off = drive.call(uc, t, y, x, alg, eng, False)
    on = drive.call(uc, t, y, x, alg, eng, True)
    a, b = drive.grab(off, uc), drive.grab(on, uc)
    el, lift = 90 - a['zenith'], a['zenith'] - b['zenith']
    ctx.cover(states=2*el.size, transitions=el.size, traces=1)

    def where(k):
        return (t[k[0]], y[k[0]] if uc == 'transect' else y[k[1]], x[k[0]] if uc == 'transect' else x[k[-1]])

    bad = dict(
        nan=~np.isfinite(lift),
        lowered=lift < -0.001,
        big=lift >= 0.8,
        big_high=(el > 10) & (lift >= 0.1),
        below=(el <= -2) & (np.abs(lift) > 1e-6),
        missing=(el >= 0) & (el <= 0.5) & (lift < 0.3))
    for what, m in bad.items():
        if m.any():
            k = tuple(int(i) for i in np.argwhere(m)[0])
            ti, yi, xi = where(k)
            c = [drive.call_src(uc, np.array([ti]), [float(yi)], [float(xi)], alg, eng, r) for r in (False, True)]
            rep = (drive.PRELUDE + f'a = {c[0]}\nb = {c[1]}\nel = 90 - float(a.zenith.values.ravel()[0])\n'
                   'lift = float((a.zenith.values - b.zenith.values).ravel()[0])\nprint(el, lift)\n'
                   'assert -0.001 <= lift < 0.8\nassert el <= 10 or lift < 0.1\nassert el > -2 or abs(lift) < 1e-6\n'
                   'assert not 0 <= el <= 0.5 or lift >= 0.3\n')
            ctx.fail(f'{alg}/{eng}/{uc}/{what}', f'{what}: elevation {el[k]:.5f} lifted by {lift[k]:.6f} at {ti} lat={yi!r} '
                     f'lon={xi!r} ({tag}); {int(m.sum())} such cells', rep)
    for var, idx, text in drive.worst_pair({v: b[v] for v in ('declination', 'eot', 'ecf', 'azimuth')} | {'zenith': a['zenith']}, a, SAME, 1e-9):
        ctx.fail(f'{alg}/{eng}/{uc}/changed/{var}', f'{var} changes with refraction at {idx} ({tag}): {text}')
    if others:
        for name in OTHERS:
            p, q = GET[name](off), GET[name](on)
            w = drive.worst(q.values, p.values, 1e-9)
            if w:
                ctx.fail(f'{alg}/{eng}/{uc}/changed/{name}', f'{name} changes with refraction at {w[0]} ({tag}): {w[1]}')
        for name, s in (('off', off), ('on', on)):
            z = drive.arr(s.zenith)
            for nm, exp in (('elevation', 90 - z), ('cosz', np.cos(np.radians(z))), ('sza', z)):
                w = drive.worst(GET[nm](s).values, exp, 1e-9)
                if w:
                    ctx.fail(f'{alg}/{eng}/{uc}/follows/{nm}', f'{nm} does not follow the zenith with refraction {name} ({tag}) at {w[0]}: {w[1]}')
        if bool(on.has_refraction) is not True or bool(off.has_refraction) is not False:
            ctx.fail(f'{alg}/{eng}/{uc}/flag', f'has_refraction is {on.has_refraction!r} when on, {off.has_refraction!r} when off')
    return el, lift


def same(ctx, key, what, el, a, b, tol):
    d = np.where(np.abs(el + 0.8333) < 1e-3, 0., np.abs(a - b))    # either side of the cut-off
    if not (d <= tol).all():
        k = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d)), d.shape)
        ctx.fail(key, f'lift {a[k]} vs {b[k]} ({what}) at elevation {el[k]:.5f}')
    ctx.cover(transitions=d.size)


def grid(th):
    f = 0.01 if th else 0.05
    return np.unique(np.round(np.concatenate([np.arange(0, 180.01, 0.25 if th else 1), np.arange(78, 94, f),
                                              np.arange(90.75, 90.95, 0.0005 if th else 0.002), np.arange(94, 98, f),
                                              [90 + 1e-9, 90 - 1e-9, 179.999, 1e-6, 180 - 1e-6]]), 10))


def task(ctx, alg, engs):
    th = ctx.thorough
    dist = grid(th)
    T = space.EDGE if th else space.EDGE[::3]
    bearings = (7, 52, 97, 142, 187, 232, 277, 322) if th else (7, 97, 232, 322)
    lat, lon = subsolar(alg, engs[0], T)
    for i, t in enumerate(T):
        for b in bearings:
            y, x = ring(lat[i], lon[i], dist, b)
            res = {}
            for eng in engs:
                tt = np.repeat(t, len(dist))
                res[eng] = invariants(ctx, 'transect', alg, eng, tt, y, x, f'ring {b}', others=(b == 7 and i % 5 == 0))
                el, ls = invariants(ctx, 'sites', alg, eng, T[i:i+1], y, x, f'ring {b}', others=(b == 97 and i % 5 == 0))
                same(ctx, f'{alg}/{eng}/sites-transect', 'sites vs transect', el[0], ls[0], res[eng][1], 2e-5)
                g, _ = ring(lat[i], lon[i], dist[::8], b)
                xs = x[4::16]
                el, lg = invariants(ctx, 'regular_grid', alg, eng, T[i:i+1], g, xs, f'ring {b}', others=(b == 232 and i % 5 == 0))
                gy, gx = space.product(g, xs)
                el1, l1 = invariants(ctx, 'sites', alg, eng, T[i:i+1], gy, gx, f'ring grid {b}')
                same(ctx, f'{alg}/{eng}/grid-sites', 'regular_grid vs sites', el1[0], lg[0].ravel(), l1[0], 2e-5)
            for eng in engs[1:]:
                same(ctx, f'{alg}/engines', f'{eng} vs {engs[0]}', res[eng][0], res[eng][1], res[engs[0]][1], 1e-3)
    # every second of twilights (and whole days by the minute) at fixed sites, several times per request
    lats, lons = np.array([-90., -65., -33.9, 0., 36.9, 60., 69.6, 90.]), np.array([0., 151.2, 18.4, -51., -3., 10., 18.9, 0.])
    days = ('2024-03-20', '2024-06-20', '2024-12-21', '2024-02-29') if th else ('2024-03-20', '2024-12-21')
    for eng in engs:
        for d in days:
            t = space.daterange(d, np.datetime64(d) + 1, 10 if th else 60)
            invariants(ctx, 'sites', alg, eng, t, lats, lons, f'day {d}', others=True)
            invariants(ctx, 'regular_grid', alg, eng, t, lats, lons[:3], f'day {d}', others=True)
            for y, x in zip(lats, lons):
                ev = drive.call('sites', t[:1], [y], [x], alg, eng, False)
                for e in (ev.sunrise('utc').values.ravel()[0], ev.sunset('utc').values.ravel()[0]):
                    if np.isnat(e):
                        continue
                    e = e.astype('M8[s]')
                    h = 1800 if th else 420
                    tt = np.arange(e - np.timedelta64(h, 's'), e + np.timedelta64(h, 's'))
                    for uc in drive.USECASES:
                        k = len(tt) if uc == 'transect' else 1
                        invariants(ctx, uc, alg, eng, tt, np.full(k, y), np.full(k, x), f'twilight {d}')
    # every spelling of the switch
    t = space.EDGE[:12]
    y, x = ring(*[np.repeat(v[:1], 12) for v in subsolar(alg, engs[0], t[:1])], np.linspace(86, 91, 12), 33.)
    for eng in engs:
        for uc in drive.USECASES:
            t1 = np.repeat(t[:1], 12) if uc == 'transect' else t[:1]
            ref = {r: drive.call(uc, t1, y, x, alg, eng, r).zenith.values for r in (True, False)}
            for v, spell in [(True, s) for s in TRUE] + [(False, s) for s in FALSE]:
                s = drive.call(uc, t1, y, x, alg, eng, spell)
                ctx.cover(states=1, transitions=1, traces=1)
                rep = (drive.PRELUDE + f'a = {drive.call_src(uc, t1, y, x, alg, eng, spell)}\nb = {drive.call_src(uc, t1, y, x, alg, eng, v)}\n'
                       f'assert np.allclose(a.zenith.values, b.zenith.values, atol=1e-6, rtol=0)\nassert bool(a.has_refraction) is {v}\n')
                if not np.allclose(s.zenith.values, ref[v], atol=1e-6, rtol=0):
                    ctx.fail(f'{alg}/{eng}/{uc}/spelling', f'refraction={spell!r} is not treated as {v}', rep)
                if bool(s.has_refraction) is not v:
                    ctx.fail(f'{alg}/{eng}/{uc}/has_refraction', f'refraction={spell!r} reported as {s.has_refraction!r}', rep)
    ctx.sample(dict(alg=alg, engines=list(engs), elevations=len(dist), subsolar=[float(lat[0]), float(lon[0]), str(T[0])]))


def run(ctx):
    ctx.assume('azimuth equality within 1e-6 degrees; engines within 1e-3, use cases within 2e-5 degrees of lift, outside 0.001 degrees of the cut-off')
    ctx.pmap('checks.c11', [(a, drive.ENGINES[a]) for a in drive.ALGS])
