"""C22: the sun moves continuously.

The transition system is "the same place, one step later" (a second, a minute, a day). Every step of whole days second by
second, of every calendar boundary and of every solar midnight and noon, of whole years minute by minute and of 1950-2100
day by day is executed on the real code and must satisfy the step invariant: the direction of the sun moves by no more than the
earth's rotation and the slow outputs drift by no more than their natural rates.
"""
import numpy as np

from lib import drive, mc, space

ROT = 360/86400.
# largest rates per day of declination (degrees), equation of time (minutes), distance factor
RATE = dict(declination=0.41, eot=0.54, ecf=6.3e-4)
RATE_NREL = dict(declination=0.44, eot=0.66, ecf=7.6e-4)       # -2000..6000: larger obliquity and eccentricity
NOISE = dict(declination=2e-7, eot=2e-6, ecf=1e-9)


def leap_end(a, b):
    """the step leaves a leap year"""
    ya, yb = a.astype('M8[Y]').astype(int) + 1970, b.astype('M8[Y]').astype(int) + 1970
    return (ya != yb) & (ya % 4 == 0) & ((ya % 100 != 0) | (ya % 400 == 0))


def vec(zen, az):
    z, a = np.radians(zen), np.radians(az)
    return np.stack([np.sin(z)*np.cos(a), np.sin(z)*np.sin(a), np.cos(z)])


def repro(t, i, la, lo, uc, alg, eng, ref, cond):
    tt = t[[i, i + 1]]
    call = drive.call_src(uc, tt, np.repeat(la, 2) if uc == 'transect' else [float(la)],
                          np.repeat(lo, 2) if uc == 'transect' else [float(lo)], alg, eng, ref)
    return (drive.PRELUDE + f's = {call}\n'
            'z, a = [np.radians(np.ravel(x.values)) for x in (s.zenith, s.azimuth)]\n'
            'v = np.stack([np.sin(z)*np.cos(a), np.sin(z)*np.sin(a), np.cos(z)])\n'
            'arc = 2*np.degrees(np.arcsin(np.linalg.norm(v[:, 1] - v[:, 0])/2))\n'
            'step = {k: float(abs(np.diff(getattr(s, k).values)[0])) for k in ("declination", "eot", "ecf")}\n'
            f'print(arc, step)\nassert {cond}\n')


def check(ctx, t, pairs, lats, lons, uc, alg, eng, ref, what, wide=False):
    """t: times (s); pairs: indices i for which (i, i+1) is a step to check"""
    t = np.asarray(t).astype('M8[s]')
    lats, lons = np.asarray(lats, float), np.asarray(lons, float)
    if uc == 'transect':
        n = len(lats)
        r = drive.run(uc, np.repeat(t, n), np.tile(lats, len(t)), np.tile(lons, len(t)), alg, eng, ref)
        r = {k: v.reshape(len(t), n) for k, v in r.items()}
        if any((np.ptp(r[k], axis=1) > 0).any() for k in RATE):
            k = next(k for k in RATE if (np.ptp(r[k], axis=1) > 0).any())
            i = int(np.argmax(np.ptp(r[k], axis=1)))
            ctx.fail(f'{what}/{k}/location', f'{alg}/{eng}: {k} at {t[i]} depends on the position in the transect: {r[k][i]}')
        r.update({k: r[k][:, 0] for k in RATE})
        la, lo = lats, lons
    elif uc == 'sites':
        r = drive.run(uc, t, lats, lons, alg, eng, ref)
        la, lo = lats, lons
    else:
        r = drive.run(uc, t, lats, lons, alg, eng, ref)
        la, lo = space.product(lats, lons)
        r['zenith'], r['azimuth'] = [r[k].reshape(len(t), -1) for k in ('zenith', 'azimuth')]
    i = np.arange(len(t) - 1) if pairs is None else np.asarray(pairs)
    dt = (t[i + 1] - t[i]).astype(float)
    wrap = leap_end(t[i], t[i + 1]) if alg == 'iqbal' else np.zeros(len(i), bool)
    rates = RATE_NREL if wide else RATE
    ctx.cover(states=r['zenith'].size, transitions=len(i)*la.size, traces=len(i)*la.size)
    for k, rate in rates.items():
        d = np.abs(r[k][i + 1] - r[k][i])
        lim = rate/86400*dt + NOISE[k] + np.where(wrap, dict(declination=0.15, eot=0.6, ecf=1e-4)[k], 0)
        bad = ~(d <= lim)
        ctx.note(**{f'max_{k}_rate_{alg}': round(float((d/dt*86400)[~wrap].max()), 6)} if (~wrap).any() and dt.max() >= 60 else {})
        if bad.any():
            j = int(np.argmax(np.where(bad, np.nan_to_num(d - lim, nan=1e9), -1)))
            ctx.fail(f'{what}/{k}/{alg}/{eng}', f'{alg}/{eng}: {k} changes from {r[k][i[j]]!r} to {r[k][i[j]+1]!r} between {t[i[j]]} and '
                     f'{t[i[j]+1]} ({int(bad.sum())} such steps)',
                     repro(t, i[j], la[0], lo[0], uc, alg, eng, ref, f'step["{k}"] <= {lim[j]!r}'))
    if dt.max() > 600:
        return
    v = vec(r['zenith'], r['azimuth'])
    arc = 2*np.degrees(np.arcsin(np.minimum(1, np.linalg.norm(v[:, i + 1] - v[:, i], axis=0)/2)))
    lim = (0.0042*dt + 3e-6 + np.where(wrap, 0.15, 0))[:, None]
    if ref:
        e0 = 90 - np.minimum(r['zenith'][i + 1], r['zenith'][i])
        e1 = 90 - np.maximum(r['zenith'][i + 1], r['zenith'][i])
        # the refracted sun never moves faster except, below the horizon, over the cut-off
        cut = (e1 < 0) & (e1 > -2.) & (e0 < 0.75)
    bad = ~(arc <= lim)
    if ref and bad.any():
        # one cut-off step per crossing: among the jumps, those below the horizon, smaller than the refraction, and isolated
        ok = bad & cut & (arc < 0.8 + lim)
        gap = 3600
        for c in np.nonzero(ok.any(axis=0))[0]:
            rows = np.nonzero(ok[:, c])[0]
            tt, u = np.unique(t[i[rows]].astype('int64'), return_index=True)
            rows = rows[u]
            # a slow sun grazing the cut-off crosses it twice: once in each direction
            sgn = np.sign(r['zenith'][i[rows] + 1, c] - r['zenith'][i[rows], c])
            for a in range(len(rows)):
                if a and tt[a] - tt[a-1] < gap and sgn[a] == sgn[a-1]:
                    ctx.fail(f'{what}/cutoff/{alg}/{eng}', f'{alg}/{eng}: two refraction steps at {t[i[rows[a-1]]]} and {t[i[rows[a]]]}, '
                             f'latitude {la[c]}, longitude {lo[c]}')
        ctx.cover(cutoff_steps=int(ok.sum()))
        bad &= ~ok
    if not ref:
        ctx.note(**{f'max_arc_per_second_{alg}': float((arc/dt[:, None])[~wrap].max())} if (~wrap).any() else {})
    if bad.any():
        j, c = np.unravel_index(int(np.argmax(np.where(bad, np.nan_to_num(arc - lim, nan=1e9), -1))), bad.shape)
        ctx.fail(f'{what}/direction/{alg}/{eng}/{"refraction" if ref else "geometric"}',
                 f'{alg}/{eng}: the sun moves {arc[j, c]:.5f} degrees between {t[i[j]]} and {t[i[j]+1]} at latitude {la[c]}, longitude {lo[c]}: '
                 f'zenith {r["zenith"][i[j], c]:.5f} -> {r["zenith"][i[j]+1, c]:.5f}, azimuth {r["azimuth"][i[j], c]:.5f} -> '
                 f'{r["azimuth"][i[j]+1, c]:.5f} ({int(bad.sum())} such steps)',
                 repro(t, i[j], la[c], lo[c], uc, alg, eng, ref, f'arc <= {float(lim[j, 0])!r}'))


def around(instants, before=2, after=2):
    """windows [x-before, x+after] in seconds; returns times and the indices of the steps inside the windows"""
    x = np.asarray(instants).astype('M8[s]')
    w = np.arange(-before, after + 1)
    t = (x[:, None] + w.astype('m8[s]')[None, :]).ravel()
    n = len(w)
    p = (np.arange(len(x))[:, None]*n + np.arange(n - 1)[None, :]).ravel()
    return t, p


def blocks(t, p, size):
    """split a list of windows"""
    n = int(np.argmax(np.diff(p) > 1)) + 2 if (np.diff(p) > 1).any() else len(t)
    k = max(1, size//n)*n
    for a in range(0, len(t), k):
        q = p[(p >= a) & (p < a + k - 1)] - a
        yield t[a:a+k], q


def task(ctx, what, alg, eng):
    th = ctx.thorough
    lats, lons = space.LATS, space.LONS
    fl, fo = space.product(lats, lons)
    refs = (False, True)
    if what == 'calendar':
        # every midnight and noon 1950-2100, all places of a small alphabet
        for h in (0, 12):
            t, p = around(space.daterange('1950-01-01', '2101-01-01', 86400) + np.timedelta64(h, 'h'), 1, 1)
            for tb, pb in blocks(t, p, 40000):
                check(ctx, tb, pb, [-66.6, 0., 51.5], [-122.4, 0., 139.7], 'sites', alg, eng, False, 'midnight' if h == 0 else 'noon')
        # month and year ends with all places and use cases, refraction on and off
        days = space.edge_days(range(1950, 2101) if th else [1950, 1951, 1952, 1999, 2000, 2001, 2023, 2024, 2025, 2026, 2027, 2028, 2099, 2100])
        days = np.unique(np.concatenate([days, days + np.timedelta64(1, 'D')]))
        t, p = around(days, 3, 3)
        for tb, pb in blocks(t, p, 3000):
            for ref in refs:
                check(ctx, tb, pb, lats, lons, 'regular_grid', alg, eng, ref, 'month end')
                check(ctx, tb, pb, fl[::5], fo[::5], 'sites', alg, eng, ref, 'month end')
                check(ctx, tb, pb, fl[::5], fo[::5], 'transect', alg, eng, ref, 'month end')
        # epochs of the time scales
        t, p = around(space.dt('1970-01-01', '2000-01-01T12:00:00', '2000-01-01T11:58:55', '2001-09-09T01:46:40', '2038-01-19T03:14:08',
                               '1950-01-02', '2100-12-31'), 60, 60)
        for ref in refs:
            check(ctx, t, p, lats, lons, 'regular_grid', alg, eng, ref, 'epoch')
        if alg == 'nrel':
            ys = np.arange(-2000, 6000, 1 if th else 4)
            for m in range(12):
                x = (np.array([np.datetime64('1970', 'Y') + int(y - 1970) for y in ys]).astype('M8[M]') + (m if th else m)).astype('M8[s]')
                t, p = around(x[m % 3::3] if not th else x, 1, 0)
                check(ctx, t, p, [-40., 10., 75.], [-170., 12., 99.], 'sites', alg, eng, False, 'centuries', wide=True)
            # 365.25-day cycles and the Gregorian leap-day rules day by day around centuries
            for c in range(-2000, 6000, 100 if th else 500):
                x = space.year_start(c) + np.arange(-60*86400, 430*86400, 86400).astype('m8[s]')
                check(ctx, x, None, [0.], [0.], 'sites', alg, eng, False, 'century days', wide=True)
        ctx.sample(dict(alg=alg, eng=eng, what=what, days=len(days)))
    elif what == 'days':
        # whole days second by second
        days = ['2024-03-20', '2024-06-20', '2024-12-31', '2024-02-29'] + (['2023-09-23', '2050-12-31', '1999-12-31', '2000-02-28', '2100-03-01',
                '1950-01-01', '2024-11-03', '2024-04-16', '2024-09-01', '2024-12-25'] if th else [])
        for k, d in enumerate(days):
            for h in range(0, 24, 3):
                t = np.datetime64(d, 's') + np.arange(h*3600 - 1, (h + 3)*3600 + 2).astype('m8[s]')
                ref = refs[(k + h//3) % 2]
                for ref in refs if th else (ref,):
                    check(ctx, t, None, fl[k % 7::7], fo[k % 7::7], 'sites', alg, eng, ref, 'seconds')
        # sunrise to sunset and the night at places where the sun is slow, and grazes
        for la in (66.9, 67.5, -66.9, 89.9, 90., -90.):
            t = space.daterange('2024-03-15', '2024-03-26', 30) if abs(la) > 80 else space.daterange('2024-06-19', '2024-06-23', 5)
            for ref in refs:
                check(ctx, t, None, [la], [10.], 'sites', alg, eng, ref, 'slow sun')
    elif what == 'solar':
        # every second around solar midnight and noon, where azimuth and hour angle wrap, over the days of a year
        lo = np.concatenate([np.arange(-180, 180, 15.), [-179.999, 179.999, 1e-6, -1e-6]])
        for d in space.daterange('2024-01-01', '2025-01-02', 86400*(1 if th else 8)):
            s = drive.call('sites', d + np.arange(0, 86400, 3600).astype('m8[s]'), 0., 0., alg, eng, False)
            eot = float(np.mean(s.eot.values))
            if th:
                sub = lo
            else:
                sub = lo[int(d.astype('int64')//86400//8) % 4::4]
            for x in sub:
                for off in (0, 43200):
                    c = int(np.rint((-4*x - eot)*60)) + off
                    t = d + np.arange(c - 45, c + 46).astype('m8[s]')
                    check(ctx, t, None, lats[::2], np.full(len(lats[::2]), x), 'sites', alg, eng, False, 'solar midnight and noon')
    elif what == 'year':
        # whole years minute by minute
        for y in (range(2020, 2029) if th else (2024,)):
            for m in range(12):
                a = np.datetime64(f'{y}-01', 'M') + m
                t = np.arange(a.astype('M8[s]'), (a + 1).astype('M8[s]') + np.timedelta64(120, 's'), np.timedelta64(60, 's'))
                k = m % 3
                for ref in refs:
                    check(ctx, t, None, [-89.9, -23.44, 51.5][k:] + [66.56, 78.2, 10.1][:k + 1],
                          [-180., 0., 90.][k:] + [12.5, -90., 179.9][:k + 1], 'sites', alg, eng, ref, 'minutes')
        # 1950-2100 day by day, at different times of day
        for h in range(0, 86400, 3600*(2 if th else 6)):
            t = space.daterange('1950-01-01', '2101-01-01', 86400) + np.timedelta64(h, 's')
            check(ctx, t, None, [0.], [0.], 'sites', alg, eng, False, 'days')


def run(ctx):
    ctx.assume('an isolated step of less than 0.8 degrees below the horizon, where refraction is switched off, is allowed once per crossing',
               'iqbal may step by less than 0.15 degrees (and as much as a day\'s motion in its slow outputs) at the end of a leap year')
    ctx.pmap('checks.c22', [(w, a, e) for w in ('calendar', 'days', 'solar', 'year') for a, e in drive.CONFIGS])
