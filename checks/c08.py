"""C08: each result depends only on its own time and place.

The request is a sequence over an alphabet of times and locations. All sequences up to a length, all permutations,
repetitions, splits and all sizes up to a bound (and sizes around powers of two and ten up to 131073; millions of cells) are evaluated; the
oracle is the value of the cell evaluated alone (short requests) or in small blocks (long ones).
"""
import itertools

import numpy as np

from lib import drive, space

ATOL, TTOL = 1e-7, 1e-9


def cell_slices(g, uc, it, ic, nlon):
    out = {v: g[v][it] for v in ('declination', 'eot', 'ecf')}
    for v in ('zenith', 'azimuth'):
        a = g[v]
        if uc == 'regular_grid':
            a = a.reshape(a.shape[0], -1)
        out[v] = a[it] if uc == 'transect' else a[np.ix_(it, ic)]
    return out


def check(ctx, key, got, ref, msg, rep):
    for var, idx, text in drive.worst_pair(got, ref, ATOL, TTOL):
        ctx.fail(f'{key}/{var}', f'{var} {msg} at {idx}: {text}', rep)


def sequences(ctx, uc, alg, eng, times, lats, lons, maxlen):
    """all sequences (with repetition) of times and of locations up to maxlen against the cell evaluated alone"""
    nt, nl = len(times), len(lats)
    single = {}
    for i in range(nt):
        for j in range(nl):
            for k in range(nl):
                if uc != 'regular_grid' and j != k:
                    continue
                g = drive.run(uc, times[i:i+1], lats[j:j+1], lons[k:k+1], alg, eng, True)
                single[i, j, k] = {v: float(np.ravel(a)[0]) for v, a in g.items()}
    ctx.cover(states=len(single))
    tseqs = [s for n in range(1, maxlen + 1) for s in itertools.product(range(nt), repeat=n)]
    lseqs = [s for n in range(1, maxlen + 1) for s in itertools.product(range(nl), repeat=n)]
    key = f'{uc}/{alg}/{eng}/sequence'

    def one(ti, li, lj):
        ti, li, lj = list(ti), list(li), list(lj)
        g = drive.run(uc, times[ti], lats[li], lons[lj], alg, eng, True)
        pick = lambda i, j, k, v: single[i, j, k][v]  # noqa: E731
        if uc == 'transect':
            exp = {v: np.array([pick(i, j, j, v) for i, j in zip(ti, li)]) for v in ('zenith', 'azimuth')}
        elif uc == 'sites':
            exp = {v: np.array([[pick(i, j, j, v) for j in li] for i in ti]) for v in ('zenith', 'azimuth')}
        else:
            exp = {v: np.array([[[pick(i, j, k, v) for k in lj] for j in li] for i in ti]) for v in ('zenith', 'azimuth')}
        for v in ('declination', 'eot', 'ecf'):
            exp[v] = np.array([pick(i, 0, 0, v) for i in ti])
        rep = drive.PRELUDE + f's = {drive.call_src(uc, times[ti], lats[li], lons[lj], alg, eng, True)}\nprint(s.zenith.values, s.azimuth.values)\n'
        check(ctx, key, g, exp, f'of times {ti} latitudes {li} longitudes {lj} differs from the cell alone', rep)
        ctx.cover(transitions=g['zenith'].size, traces=1)

    if uc == 'transect':
        for ts in tseqs:
            for rot in range(nl):
                ls = [(rot + i*(1 + rot)) % nl for i in range(len(ts))]
                one(ts, ls, ls)
        for ls in lseqs:
            one([i % nt for i in range(len(ls))], ls, ls)
            one([0]*len(ls), ls, ls)
    elif uc == 'sites':
        for ts in tseqs:
            one(ts, range(nl), range(nl))
        for ls in lseqs:
            one(range(nt), ls, ls)
            one([1], ls, ls)
    else:
        for ts in tseqs:
            one(ts, range(nl), range(nl - 1))
        for ls in lseqs:
            one(range(2), ls, [0, 2])
            one(range(2), [2, 0], ls)
            one([1], ls, ls)


def sizes(ctx, uc, alg, eng, ns, small, times, lats, lons):
    """prefixes of every size against the same cells evaluated in small blocks"""
    n = max(ns)
    bl = 61 if n <= 1100 else 1009    # blocks of 1009 are themselves compared with blocks of 61
    times, lats, lons = times[:n], lats[:n], lons[:n]
    rep = ''
    if uc == 'transect':
        blocks = [drive.run(uc, times[i:i+bl], lats[i:i+bl], lons[i:i+bl], alg, eng, True) for i in range(0, n, bl)]
        ref = {v: np.concatenate([b[v] for b in blocks]) for v in drive.CORE}
        for m in ns:
            g = drive.run(uc, times[:m], lats[:m], lons[:m], alg, eng, True)
            check(ctx, f'{uc}/{alg}/{eng}/size', g, {v: a[:m] for v, a in ref.items()}, f'in a request of {m} entries', rep)
            ctx.cover(states=1, transitions=m, traces=1)
    elif uc == 'sites':
        blocks = [drive.run(uc, times[i:i+bl], lats[:small], lons[:small], alg, eng, True) for i in range(0, n, bl)]
        ref = {v: np.concatenate([b[v] for b in blocks]) for v in drive.CORE}
        for m in ns:
            g = drive.run(uc, times[:m], lats[:small], lons[:small], alg, eng, True)
            check(ctx, f'{uc}/{alg}/{eng}/times', g, {v: a[:m] for v, a in ref.items()}, f'in a request of {m} times', rep)
            ctx.cover(states=1, transitions=g['zenith'].size, traces=1)
        blocks = [drive.run(uc, times[:small], lats[i:i+bl], lons[i:i+bl], alg, eng, True) for i in range(0, n, bl)]
        ref = {v: np.concatenate([b[v] for b in blocks], axis=1) for v in ('zenith', 'azimuth')}
        for m in ns:
            g = drive.run(uc, times[:small], lats[:m], lons[:m], alg, eng, True)
            exp = {v: a[:, :m] for v, a in ref.items()} | {v: blocks[0][v] for v in ('declination', 'eot', 'ecf')}
            check(ctx, f'{uc}/{alg}/{eng}/locations', g, exp, f'in a request of {m} locations', rep)
            ctx.cover(states=1, transitions=g['zenith'].size, traces=1)
    else:
        y, x = lats[:small], lons[:small + 1]
        blocks = [drive.run(uc, times[i:i+bl], y, x, alg, eng, True) for i in range(0, n, bl)]
        ref = {v: np.concatenate([b[v] for b in blocks]) for v in drive.CORE}
        for m in ns:
            g = drive.run(uc, times[:m], y, x, alg, eng, True)
            check(ctx, f'{uc}/{alg}/{eng}/times', g, {v: a[:m] for v, a in ref.items()}, f'in a request of {m} times', rep)
            ctx.cover(states=1, transitions=g['zenith'].size, traces=1)
        for axis in (1, 2):
            t = times[:2]
            blk = lambda i, j: drive.run(uc, t, lats[i:j] if axis == 1 else lats[:small], lons[i:j] if axis == 2 else lons[:small], alg, eng, True)  # noqa: E731,B023
            blocks = [blk(i, min(i + bl, n)) for i in range(0, n, bl)]
            ref = {v: np.concatenate([b[v] for b in blocks], axis=axis) for v in ('zenith', 'azimuth')}
            for m in ns:
                g = blk(0, m)
                exp = {v: (a[:, :m] if axis == 1 else a[:, :, :m]) for v, a in ref.items()}
                exp |= {v: blocks[0][v] for v in ('declination', 'eot', 'ecf')}
                check(ctx, f'{uc}/{alg}/{eng}/axis{axis}', g, exp, f'in a request of {m} {"latitudes" if axis == 1 else "longitudes"}', rep)
                ctx.cover(states=1, transitions=g['zenith'].size, traces=1)


def huge(ctx, uc, alg, eng, cells):
    """millions of cells, all of them against blocks of at most twenty thousand"""
    if uc == 'transect':
        n = cells if alg != 'nrel' else min(cells, 400003)
        k = np.arange(n)
        t = np.datetime64('2010-03-05T01:02:03', 's') + ((k*7919*137) % (86400*365*30)).astype('m8[s]')
        y, x = ((k*37.7) % 180) - 90, ((k*101.3) % 360) - 180
        shape, blocks = (n,), [(slice(i, i + 20011),)*3 for i in range(0, n, 20011)]
    else:
        shape = (2003, cells//2003 + 1) if uc == 'sites' else (23, int((cells/23)**0.5) + 1, int((cells/23)**0.5) + 2)
        k = np.arange(max(shape))
        t = np.datetime64('2010-03-05T01:02:03', 's') + ((k[:shape[0]]*7919*137) % (86400*365*30)).astype('m8[s]')
        y, x = (((k*37.7) % 180) - 90)[:shape[1]], (((k*101.3) % 360) - 180)[:shape[-1]]
        cut = lambda n, b: [slice(i, i + b) for i in range(0, n, b)]  # noqa: E731
        blocks = ([(a, b, b) for a in cut(shape[0], 131) for b in cut(shape[1], 151)] if uc == 'sites' else
                  [(a, b, slice(None)) for a in cut(shape[0], 1) for b in cut(shape[1], 40)])
    g = drive.run(uc, t, y, x, alg, eng, True)
    ctx.cover(states=g['zenith'].size, transitions=g['zenith'].size, traces=1)
    for a, b, c in blocks:
        r = drive.run(uc, t[a], y[b], x[c], alg, eng, True)
        sl = {'transect': (a,), 'sites': (a, b), 'regular_grid': (a, b, c)}[uc]
        got = {v: g[v][sl] for v in ('zenith', 'azimuth')} | {v: g[v][a] for v in ('declination', 'eot', 'ecf')}
        check(ctx, f'{uc}/{alg}/{eng}/huge', got, r, f'in a request of {" x ".join(map(str, shape))}', '')


SKIES = (80., 40., 8., 1., 0.3, -0.2, -0.5, -0.8, -0.9, -2., -15.)


def skies(ctx, uc, alg, eng, ref):
    """the sun high, low, within refraction of the horizon, beyond it and at night: all choices of company for each of them"""
    t0 = space.dt('2024-05-05T12:00:00')
    s = drive.call('sites', t0, 0., 0., alg, eng, False)
    dec, lon = float(s.declination[0]), -float(s.eot[0])/4
    lats = dec - 90 + np.array(SKIES)
    day = space.daterange('2024-05-05T12:00:00', '2024-05-06T00:00:00', 20)
    elev = drive.call('sites', day, 0., 0., alg, eng, False).elevation.values[:, 0]
    times = day[[int(np.abs(elev - e).argmin()) for e in SKIES]]
    n = len(SKIES)
    words = [(i,) for i in range(n)] + list(itertools.product(range(n), repeat=2))
    words += [w for k in (range(3, n + 1) if ctx.thorough else (3, n)) for w in itertools.combinations(range(n), k)]
    runs = []
    if uc == 'regular_grid':
        runs.append(('latitudes', lambda w: (t0, lats[w], np.array([lon])), lambda a, w: a[:, w]))
        runs.append(('latitudes', lambda w: (t0, lats[w], np.array([lon, lon - 180 if lon >= 0 else lon + 180])), lambda a, w: a[:, w]))
        runs.append(('times', lambda w: (times[w], np.array([0.]), np.array([0.])), lambda a, w: a[w]))
    elif uc == 'sites':
        runs.append(('places', lambda w: (t0, lats[w], np.full(len(w), lon)), lambda a, w: a[:, w]))
        runs.append(('times', lambda w: (times[w], np.array([0.]), np.array([0.])), lambda a, w: a[w]))
    else:
        runs.append(('places', lambda w: (np.repeat(t0, len(w)), lats[w], np.full(len(w), lon)), lambda a, w: a[w]))
        runs.append(('times', lambda w: (times[w], np.zeros(len(w)), np.zeros(len(w))), lambda a, w: a[w]))
    for what, args, take in runs:
        alone = {}
        for w in words:
            w = list(w)
            t, y, x = args(w)
            g = drive.run(uc, t, y, x, alg, eng, ref)
            ctx.cover(states=1, transitions=g['zenith'].size, traces=1)
            if len(w) == 1:
                alone[w[0]] = g
                continue
            along = 1 if what != 'times' and uc != 'transect' else 0
            exp = {v: np.concatenate([alone[i][v] for i in w], axis=along) for v in ('zenith', 'azimuth')}
            check(ctx, f'{uc}/{alg}/{eng}/skies', g, exp, f'(refraction {ref}) of {what} with the sun at {[SKIES[i] for i in w]} degrees differs from those alone',
                  drive.PRELUDE + f's = {drive.call_src(uc, t, y, x, alg, eng, ref)}\nprint(s.zenith.values)\n')


def shapes(ctx, uc, alg, eng, bound, times, lats, lons):
    """every (times, latitudes, longitudes) size up to the bound, against slices of the biggest"""
    if uc == 'transect':
        return
    full = drive.run(uc, times[:bound], lats[:bound], lons[:bound], alg, eng, True)
    for a in range(1, bound + 1):
        for b in range(1, bound + 1):
            for c in (range(1, bound + 1) if uc == 'regular_grid' else [b]):
                g = drive.run(uc, times[:a], lats[:b], lons[:c], alg, eng, True)
                sl = (slice(a), slice(b), slice(c))[:full['zenith'].ndim]
                exp = {v: full[v][sl] for v in ('zenith', 'azimuth')} | {v: full[v][:a] for v in ('declination', 'eot', 'ecf')}
                check(ctx, f'{uc}/{alg}/{eng}/shape', g, exp, f'in a request of shape {(a, b, c)}',
                      drive.PRELUDE + f's = {drive.call_src(uc, times[:a], lats[:b], lons[:c], alg, eng, True)}\nprint(s.zenith.values)\n')
                ctx.cover(states=1, transitions=g['zenith'].size, traces=1)


def diagonal(ctx, uc, alg, eng, bound, times, lats, lons):
    """as many latitudes as longitudes (and as times), against slices of the biggest"""
    if uc == 'transect':
        return
    for nt in (2, None):
        full = drive.run(uc, times[:nt or bound], lats[:bound], lons[:bound], alg, eng, True)
        for n in [*range(1, bound + 1)]:
            a = nt or n
            g = drive.run(uc, times[:a], lats[:n], lons[:n], alg, eng, True)
            sl = (slice(a), slice(n), slice(n))[:full['zenith'].ndim]
            exp = {v: full[v][sl] for v in ('zenith', 'azimuth')} | {v: full[v][:a] for v in ('declination', 'eot', 'ecf')}
            check(ctx, f'{uc}/{alg}/{eng}/diagonal', g, exp, f'in a request of {a} times, {n} latitudes and {n} longitudes', '')
            ctx.cover(states=1, transitions=g['zenith'].size, traces=1)


def runs(ctx, uc, alg, eng, ns, times, lats, lons):
    """long requests where neighbouring entries share their instant, their latitude, their longitude or all of them"""
    for n in ns:
        k = np.arange(n)
        for tag, i, j, m in (('runs of one instant', k//7, k, k), ('one instant', k*0, k, k), ('one place', k, k*0, k*0), ('runs of one place', k, k//5, k//5),
                             ('one latitude', k, k*0, k), ('one longitude', k//2, k, k*0), ('everything in pairs', k//2, k//2, k//2), ('periodic', k % 24, k % 11, k % 11)):
            if uc == 'transect':
                args = times[i], lats[j], lons[m]
                cut = lambda a, u, v: tuple(x[u:v] for x in a)  # noqa: E731
            elif uc == 'sites':
                args = times[i], lats[j][:2], lons[m][:2]
                cut = lambda a, u, v: (a[0][u:v], *a[1:])  # noqa: E731
            else:
                args = times[i], lats[j][:3], lons[m][:2]
                cut = lambda a, u, v: (a[0][u:v], *a[1:])  # noqa: E731
            g = drive.run(uc, *args, alg, eng, True)
            blocks = [drive.run(uc, *cut(args, u, u + 509), alg, eng, True) for u in range(0, n, 509)]
            check(ctx, f'{uc}/{alg}/{eng}/runs', g, {v: np.concatenate([b[v] for b in blocks]) for v in drive.CORE}, f'in a request of {n} entries with {tag}', '')
            ctx.cover(states=1, transitions=g['zenith'].size, traces=1)
            if uc == 'sites':
                args = times[i[:2]], lats[j], lons[m]
                g = drive.run(uc, *args, alg, eng, True)
                blocks = [drive.run(uc, args[0], lats[j[u:u+509]], lons[m[u:u+509]], alg, eng, True) for u in range(0, n, 509)]
                exp = {v: np.concatenate([b[v] for b in blocks], axis=1) for v in ('zenith', 'azimuth')} | {v: blocks[0][v] for v in ('declination', 'eot', 'ecf')}
                check(ctx, f'{uc}/{alg}/{eng}/runs', g, exp, f'in a request of {n} places with {tag}', '')
                ctx.cover(states=1, transitions=g['zenith'].size, traces=1)


def permutations(ctx, uc, alg, eng, times, lats, lons):
    n = len(times)
    base = drive.run(uc, times, lats, lons, alg, eng, True)
    for p in itertools.permutations(range(n)):
        p = list(p)
        ctx.cover(states=1, transitions=base['zenith'].size, traces=1)
        rep = drive.PRELUDE + f's = {drive.call_src(uc, times[p], lats, lons, alg, eng, True)}\nprint(s.zenith.values)\n'
        if uc == 'transect':
            g = drive.run(uc, times[p], lats[p], lons[p], alg, eng, True)
            check(ctx, f'{uc}/{alg}/{eng}/permutation', g, {v: a[p] for v, a in base.items()}, f'permuted {p}', rep)
            continue
        g = drive.run(uc, times[p], lats, lons, alg, eng, True)
        check(ctx, f'{uc}/{alg}/{eng}/permutation', g, {v: a[p] for v, a in base.items()}, f'with times permuted {p}', rep)
        if uc == 'sites':
            g = drive.run(uc, times, lats[p], lons[p], alg, eng, True)
            exp = {v: (a[:, p] if a.ndim == 2 else a) for v, a in base.items()}
            check(ctx, f'{uc}/{alg}/{eng}/permutation', g, exp, f'with locations permuted {p}', rep)
        else:
            q = p[::-1]
            g = drive.run(uc, times, lats[p], lons[q], alg, eng, True)
            exp = {v: (a[:, p][:, :, q] if a.ndim == 3 else a) for v, a in base.items()}
            check(ctx, f'{uc}/{alg}/{eng}/permutation', g, exp, f'with latitudes permuted {p}, longitudes {q}', rep)


def run(ctx):
    th = ctx.thorough
    ctx.assume('equal cells agree to 1e-7 degrees (1e-5 next to the vertical, where arccos amplifies rounding) whatever the request they belong to')
    ctx.pmap('checks.c08', [(p, uc, alg, eng) for p in ('huge', 'big', 'small') for alg, eng in drive.CONFIGS for uc in drive.USECASES])
    ctx.sample(dict(sequences_up_to=4 if th else 3, biggest=131073))


def task(ctx, part, uc, alg, eng):
    th = ctx.thorough
    # the alphabets contain near-duplicates (one second, 1e-9 degrees apart) and exact duplicates arise in the sequences
    T3 = space.dt('2024-06-20T20:51:00', '2024-06-20T20:51:01', '1969-12-31T23:59:59')
    LA3, LO3 = np.array([41.3, 41.3 + 1e-7, -90.]), np.array([-179.9999, 2.1, 2.1 + 1e-7])
    T5 = space.dt('2024-12-31T23:59:59', '2025-01-01T00:00:00', '2024-02-29T06:07:08', '2000-01-01T12:00:00', '2024-02-29T06:07:09')
    LA5, LO5 = np.array([0., 66.5, -23.4, 66.5, 90.]), np.array([10., -180., 10., 10., 179.9])
    # times are neither sorted nor equally spaced; coordinates are neither sorted nor unique
    n = 131073
    k = np.arange(n)
    times = np.datetime64('2010-03-05T01:02:03', 's') + ((k*7919*137) % (86400*365*30)).astype('m8[s]')
    lats, lons = ((k*37.7) % 180) - 90, ((k*101.3) % 360) - 180
    sorted_times = space.daterange('2024-01-01', '2100-01-01', 1800)[:n]
    around = lambda *c: sorted({max(1, x + d) for x in c for d in (-1, 0, 1)})  # noqa: E731
    small_ns = list(range(1, 131)) + around(256, 365, 512, 1000, 1009, 1024)
    big_ns = around(2048, 4096, 5000, 8192, 8760, 10000, 16384, 20000, 32768, 50000, 65536, 100000, 131072)
    if part == 'huge':
        for c in (1000003, 2097155, 4194307, 8388611) if th else (4200001,):
            huge(ctx, uc, alg, eng, c)
        return
    if part == 'small':
        for ref in (True, False):
            skies(ctx, uc, alg, eng, ref)
        sequences(ctx, uc, alg, eng, T3, LA3, LO3, 4 if th else 3)
        permutations(ctx, uc, alg, eng, T5 if th else T5[:4], LA5 if th else LA5[:4], LO5 if th else LO5[:4])
        shapes(ctx, uc, alg, eng, 8 if th else 5, times, lats, lons)
        diagonal(ctx, uc, alg, eng, 72 if th else 33, times, lats, lons)
        runs(ctx, uc, alg, eng, (60, 1025), times, lats, lons)
        ns = small_ns if th else [m for m in small_ns if m < 20 or m % 16 in (15, 0, 1) or m > 130]
        sizes(ctx, uc, alg, eng, ns, 2, times, lats, lons)
        return
    sizes(ctx, uc, alg, eng, [365, 1024, 3000], 3, sorted_times, np.sort(lats), np.sort(lons))
    bn = big_ns if (th or alg != 'nrel') else [m for m in big_ns if m in (4096, 8192, 8760, 8761, 10000, 10001, 16385, 20001, 32769, 65537)]
    if uc != 'regular_grid':
        sizes(ctx, uc, alg, eng, bn, 1, times, lats, lons)
    else:
        sizes(ctx, uc, alg, eng, bn if th else [5000, 10001, 65537][:2 if alg == 'nrel' else 3], 1, times, lats, lons)
    runs(ctx, uc, alg, eng, (4100, 10001, 70001) if th or alg != 'nrel' else (4100,), times, lats, lons)
    # large in both directions
    if uc == 'sites':
        for a, b in ((700, 701), (1500, 90)):
            g = drive.run(uc, times[:a], lats[:b], lons[:b], alg, eng, True)
            parts = [drive.run(uc, times[:a], lats[i:i+1], lons[i:i+1], alg, eng, True) for i in range(0, b, 10)]
            exp = {v: np.concatenate([p[v] for p in parts], axis=1) for v in ('zenith', 'azimuth')}
            got = {v: g[v][:, ::10] for v in ('zenith', 'azimuth')}
            check(ctx, f'{uc}/{alg}/{eng}/large', got, exp, f'in a request of {a} x {b}', '')
            ctx.cover(states=1, transitions=g['zenith'].size, traces=1)
    if uc == 'regular_grid':
        for a, b, c in ((30, 120, 121), (3, 400, 399)):
            g = drive.run(uc, times[:a], lats[:b], lons[:c], alg, eng, True)
            parts = [drive.run(uc, times[:a], lats[i:i+1], lons[:c], alg, eng, True) for i in range(0, b, 10)]
            exp = {v: np.concatenate([p[v] for p in parts], axis=1) for v in ('zenith', 'azimuth')}
            got = {v: g[v][:, ::10] for v in ('zenith', 'azimuth')}
            check(ctx, f'{uc}/{alg}/{eng}/large', got, exp, f'in a request of {a} x {b} x {c}', '')
            ctx.cover(states=1, transitions=g['zenith'].size, traces=1)
