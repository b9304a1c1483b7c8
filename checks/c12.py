"""C12: outputs are labelled arrays with the documented shape and coordinates.

Every (times, latitudes, longitudes) size up to a bound, every use case and accessor; the oracle is a small label model and,
for the values, the same cell computed alone.
"""
import itertools

import numpy as np
import pandas as pd

from lib import drive, space

ZLIKE = ('zenith', 'azimuth', 'elevation', 'cosz', 'sza', 'saa', 'eth', 'airmass')
TONLY = ('declination', 'dec', 'eot', 'ecf')
NAMES = {'dec': ('declination', 'dec'), 'sunrise': ('wsr', 'sunrise'), 'sunset': ('wss', 'sunset')}
UNIT = {'zenith': ('degrees',), 'azimuth': ('degrees',), 'elevation': ('degrees',), 'sza': ('degrees',), 'saa': ('degrees',),
        'declination': ('degrees',), 'dec': ('degrees',), 'eot': ('minutes',), 'ecf': ('-',), 'cosz': ('-',), 'airmass': ('-',),
        'incidence': ('-',), 'eth': ('W m-2',), 'daylight_length': ('hour', 'hours'), 'latitude': ('degrees north',),
        'longitude': ('degrees east',)}
EVENT_UNITS = {'deg': 'degrees', 'rad': 'radians', 'tst': 'TST', 'utc': 'UTC'}
ALIAS = [('sza', 'zenith'), ('saa', 'azimuth'), ('dec', 'declination')]
ORDER = {}   # order of the dimensions of every output, whatever the size of the request
TIMES = space.dt('2024-03-01T05:00:00', '2023-12-31T23:59:59', '2024-06-03T18:00:00', '2024-03-31T01:30:00', '2023-07-01T12:00:00')
LATS = np.array([10.25, -33.5, 71., 0., 52.])
LONS = np.array([1.5, -170., 20., 179., -60.])


def base(name):
    for b in ('sunrise', 'sunset', 'incidence', 'eth', 'airmass'):
        if name.startswith(b + '_'):
            return b, name[len(b) + 1:]
    return name, ''


def singles(alg, eng, ref, tz, T, LA, LO):
    """value of every output in every cell computed alone; dict name -> array (time, lat, lon)"""
    out = {}
    for (i, t), (j, y), (k, x) in itertools.product(enumerate(T), enumerate(LA), enumerate(LO)):
        s = drive.call('transect', arg(T[i:i+1], tz), [y], [x], alg, eng, ref)
        for name, f in drive.ALL:
            v = f(s).values
            if name not in out:
                out[name] = np.empty((len(T), len(LA), len(LO)), v.dtype)
            out[name][i, j, k] = v.ravel()[0]
    return out


def cells(alg, eng, ref, tz, T, LA, LO):
    """the same, from one transect with all cells"""
    i, j, k = [a.ravel() for a in np.meshgrid(range(len(T)), range(len(LA)), range(len(LO)), indexing='ij')]
    s = drive.call('transect', arg(T[i], tz), LA[j], LO[k], alg, eng, ref)
    return {name: f(s).values.reshape(len(T), len(LA), len(LO)) for name, f in drive.ALL}


def arg(T, tz):
    return T if tz is None else pd.DatetimeIndex(T).tz_localize('UTC').tz_convert(tz)


def wall(T, tz):
    t = arg(T, tz)
    return (t if tz is None else t.tz_localize(None).values).astype('M8[ns]')


def check(ctx, uc, tz, T, LA, LO, ti, li, lj, alg, eng, ref, single):
    t, y, x = T[ti], LA[li], LO[lj]
    n = (len(t), len(y), len(x))
    s = drive.call(uc, arg(t, tz), y, x, alg, eng, ref)
    key = f'{uc}/{alg}/{eng}'
    rep0 = (drive.PRELUDE + (f's = {drive.call_src(uc, t, y, x, alg, eng, ref)}\n' if tz is None else
            f't = pd.DatetimeIndex({drive.src(t)}).tz_localize("UTC").tz_convert({str(tz)!r})\n'
            f's = sunwhere.{uc}(t, {drive.src(y)}, {drive.src(x)}, algorithm={alg!r}, engine={eng!r}, refraction={ref!r})\n'))

    def bad(name, what, expr=None):
        ctx.fail(f'{key}/{name}/{what.split(":")[0]}', f'{name} of a request of {n} (zone {tz}): {what}',
                 rep0 + f'd = {expr}\nprint(d)\n' if expr else rep0)

    w = wall(t, tz)
    coords = {'time': ('time', w)}
    if uc == 'sites':
        coords |= {'location': ('location', np.arange(n[1])), 'latitude': ('location', y), 'longitude': ('location', x)}
    elif uc == 'regular_grid':
        coords |= {'latitude': ('latitude', y), 'longitude': ('longitude', x)}
    else:
        coords |= {'latitude': ('time', y), 'longitude': ('time', x)}
    full = drive.DIMS[uc]
    for name, f in [('latitude', lambda s: s.latitude), ('longitude', lambda s: s.longitude)] + drive.ALL:
        d = f(s)
        b, arg_ = base(name)
        ctx.cover(states=1, traces=1)
        if not hasattr(d, 'dims') or not hasattr(d, 'coords'):
            bad(name, f'type: not a labelled array but {type(d)}')
            continue
        # dimensions
        if b in ZLIKE and d.dims != full:
            bad(name, f'dims: {d.dims} instead of {full}')
            continue
        if b in TONLY and d.dims != ('time',):
            bad(name, f'dims: {d.dims} instead of time only')
            continue
        if b in ('latitude', 'longitude'):
            exp = {'sites': 'location', 'regular_grid': b, 'transect': 'time'}[uc]
            if d.dims != (exp,):
                bad(name, f'dims: {d.dims} instead of {exp}')
                continue
            if not np.array_equal(d.values, y if b == 'latitude' else x):
                bad(name, f'values: {d.values} instead of the requested ones')
        elif not set(d.dims) <= set(full) or 'time' not in d.dims:
            bad(name, f'dims: {d.dims} not among {full}')
            continue
        order = ORDER.setdefault((uc, name), d.dims)
        if d.dims != order:
            bad(name, f'dims order: {d.dims}, {order} in a request of another size')
        sizes = dict(zip(full, n if uc == 'regular_grid' else n[:len(full)]))
        if any(d.sizes[k] != sizes[k] for k in d.dims):
            bad(name, f'shape: {dict(d.sizes)} instead of {sizes}')
            continue
        # coordinates
        must = set(d.dims) | ({'latitude', 'longitude'} if b in ZLIKE else set())
        for c in must - set(d.coords):
            bad(name, f'coordinate: {c} is missing')
        for c in set(d.coords) & set(coords):
            dim, val = coords[c]
            if d.coords[c].dims != (dim,) or not np.array_equal(d.coords[c].values, val):
                bad(name, f'coordinate: {c} is {d.coords[c].values} on {d.coords[c].dims} instead of {val} on {dim}')
        # name, units
        if d.name not in NAMES.get(b, (b,)):
            bad(name, f'name: {d.name!r}')
        u = d.attrs.get('units')
        if b in UNIT and u not in UNIT[b]:
            bad(name, f'units: {u!r} instead of {UNIT[b][0]!r}')
        if b in ('sunrise', 'sunset'):
            e = EVENT_UNITS.get(arg_, s.timezone)
            if u != e:
                bad(name, f'units: {u!r} instead of {e!r}')
        # values, selected by coordinate
        if b in ('latitude', 'longitude'):
            continue
        tol = 1e-5 if d.dtype.kind == 'f' else 1e-3
        for i in range(n[0]):
            if uc == 'transect':
                cells = [(i, i)]
            elif uc == 'sites':
                cells = [(j, j) for j in range(n[1])]
            else:
                cells = list(itertools.product(range(n[1]), range(n[2])))
            for j, k in cells:
                sel = {'time': w[i]}
                if uc == 'sites' and 'location' in d.dims:
                    sel['location'] = j
                if uc == 'regular_grid':
                    sel |= {c: v for c, v in (('latitude', y[j]), ('longitude', x[k])) if c in d.dims}
                try:
                    v = d.sel(sel).values
                except KeyError as exc:
                    bad(name, f'selection: {sel} fails: {exc!r}')
                    continue
                e = single[name][ti[i], li[j], lj[k]]
                m = drive.worst(np.atleast_1d(v), np.atleast_1d(e), tol)
                if m:
                    bad(name, f'value: selected at {sel} is {v} but the cell alone gives {e}')
                ctx.cover(transitions=1)
    for al, orig in ALIAS:
        p, q = getattr(s, al), getattr(s, orig)
        if p.dims != q.dims or not np.array_equal(p.values, q.values, equal_nan=True) or set(p.coords) != set(q.coords):
            bad(al, f'alias: differs from {orig}')
    if s.usecase != uc or s.algorithm != alg or s.engine != eng:
        bad('usecase', f'description: {s.usecase}, {s.algorithm}, {s.engine}')


def long_labels(ctx, uc):
    """labels of requests beyond the ranges of the short integers"""
    k = np.arange(131074 if ctx.thorough else 65540)
    T = np.datetime64('2010-03-05T01:02:03', 's') + ((k*7919*137) % (86400*365*30)).astype('m8[s]')
    LA, LO = (k*0.37) % 180 - 90 + 1e-7, (k*0.101) % 360 - 180 + 1e-7
    for n in (126, 127, 128, 129, 255, 256, 257, 1000, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 131073):
        if n > len(k):
            continue
        for nt, ny, nx in {'sites': ((n, 1, 1), (1, n, n)), 'transect': ((n, n, n),), 'regular_grid': ((n, 1, 1), (1, n, 1), (1, 1, n))}[uc]:
            s = drive.call(uc, T[:nt], LA[:ny], LO[:nx])
            want = dict(time=T[:nt].astype('M8[ns]'), latitude=LA[:ny], longitude=LO[:nx])
            if uc == 'sites':
                want['location'] = np.arange(ny)
            for name, da in dict(zenith=s.zenith, azimuth=s.azimuth, eot=s.eot, sunrise=s.sunrise('tst'), latitude=s.latitude, longitude=s.longitude).items():
                ctx.cover(states=da.size, transitions=da.size, traces=1)
                for c, co in da.coords.items():
                    if not np.array_equal(co.values, want[c]):
                        i = int(np.argmax(np.asarray(co.values) != want[c])) if co.shape == want[c].shape else 0
                        ctx.fail(f'{uc}/long/{name}/{c}', f'{c} of {name} of a request of {(nt, ny, nx)} is {co.values[i]} instead of {want[c][i]} at {i}')
            for name, v, w in (('latitude', s.latitude, LA[:ny]), ('longitude', s.longitude, LO[:nx])):
                if not np.array_equal(v.values, w):
                    ctx.fail(f'{uc}/long/{name}', f'{name} of a request of {(nt, ny, nx)} is not the requested one')


def task(ctx, uc, alg, eng):
    if alg == 'long':
        long_labels(ctx, uc)
        return
    th = ctx.thorough
    n = 4 if th else 3
    zs = [None, 'Europe/Madrid']
    for tz in zs:
        for ref in (True, False) if th else (True,):
            T, LA, LO = TIMES[:n], LATS[:n], LONS[:n]
            single = singles(alg, eng, ref, tz, T, LA, LO)
            R = range(1, n + 1)
            for a in R:
                if uc == 'transect':
                    for ti in itertools.permutations(range(n), a):
                        check(ctx, uc, tz, T, LA, LO, list(ti), list(ti)[::-1], list(ti), alg, eng, ref, single)
                    continue
                for b in R:
                    for c in (R if uc == 'regular_grid' else [b]):
                        first = lambda m: list(range(m))       # noqa: E731
                        last = lambda m: list(range(n))[::-1][:m]   # noqa: E731
                        check(ctx, uc, tz, T, LA, LO, first(a), last(b), first(c), alg, eng, ref, single)
                        check(ctx, uc, tz, T, LA, LO, last(a), first(b), first(c) if uc == 'sites' else last(c), alg, eng, ref, single)
    # larger requests, in every combination of small and large sizes
    sizes = (1, 6, 17) if th else (1, 7)
    big = 130 if th else 40
    k = np.arange(big)
    T = np.datetime64('2024-02-27T05:00:00') + (k*7919*13 % (86400*20)).astype('m8[s]')
    LA, LO = np.round((k*37.7) % 180 - 90, 3), np.round((k*101.3) % 360 - 180, 3)
    for tz in zs:
        m = max(sizes)
        single = cells(alg, eng, True, tz, T[:m], LA[:m], LO[:m])
        for a, b, c in itertools.product(sizes, sizes, sizes):
            if uc == 'regular_grid' or uc == 'sites' and b == c or a == b == c:
                f = list(range(max(sizes)))
                check(ctx, uc, tz, T[:m], LA[:m], LO[:m], f[:a], f[:b][::-1], f[:c][::-1] if uc != 'regular_grid' else f[:c],
                      alg, eng, True, single)
        # one long dimension
        for n3 in ((big, 1, 1), (1, big, 1), (1, 1, big), (big, big, big)):
            t, y, x = T[:n3[0]], LA[:n3[1]], LO[:n3[2]]
            f = [list(range(v)) for v in n3]
            if uc == 'regular_grid' and n3[0]*n3[1]*n3[2] <= big:
                check(ctx, uc, tz, t, y, x, *f, alg, eng, True, cells(alg, eng, True, tz, t, y, x))
            if uc == 'sites' and n3 in ((big, 1, 1), (1, big, 1)):
                y, x = LA[:n3[1]], LO[:n3[1]]
                check(ctx, uc, tz, t, y, x, f[0], f[1], f[1], alg, eng, True, cells(alg, eng, True, tz, t, y, x))
            if uc == 'transect' and n3 == (big, big, big):
                s = drive.call('transect', arg(T, tz), LA, LO, alg, eng, True)
                single_ = {}
                for name, fn in drive.ALL:
                    v = fn(s).values
                    single_[name] = np.zeros((big, big, big), v.dtype)
                    single_[name][k, k, k] = v
                check(ctx, uc, tz, T, LA, LO, f[0], f[0], f[0], alg, eng, True, single_)
    ctx.sample(dict(uc=uc, alg=alg, eng=eng, sizes_up_to=n))


def run(ctx):
    cf = drive.CONFIGS if ctx.thorough else [('nrel', 'numexpr'), ('psa', 'numexpr'), ('psa', 'numpy'), ('soltrack', 'numpy'), ('iqbal', 'numexpr')]
    ctx.pmap('checks.c12', [(uc, 'long', None) for uc in drive.USECASES] + [(uc, a, e) for uc in ('regular_grid', 'sites', 'transect') for a, e in cf])
