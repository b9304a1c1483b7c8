"""C09: invalid requests are rejected, valid ones accepted with the documented shape.

An acceptance model (valid()) is compared with the implementation over an enumerated lattice of arguments: boundary
values and their floating-point neighbours at every position, shapes, containers, dtypes, names.
"""
import decimal
import fractions
import itertools

import numpy as np
import pandas as pd

from lib import drive, space

INF = float('inf')
up, down = (lambda x: float(np.nextafter(x, INF))), (lambda x: float(np.nextafter(x, -INF)))
LAT_OK = [-90., up(-90.), -1e-300, -0., 0., 45.5, down(90.), 90., -90, 90, 0]
LAT_BAD = [down(-90.), up(90.), -90.0001, 90.0001, 91, -91, 180., -180., 1e6, INF, -INF, 100]
LON_OK = [-180., up(-180.), -1e-300, -0., 0., 179.5, down(180.), -180, 179, 0]
LON_BAD = [down(-180.), 180., up(180.), -180.0001, 180.0001, 181, 359.9, 360., -360., 1e6, INF, -INF, 180]
T = space.dt('2024-06-20T20:51:00', '1969-12-31T23:59:59', '2024-12-31T18:45:00', '2000-02-29T18:30:15')


def attempt(uc, *a, **k):
    """(result, exception)"""
    try:
        return drive.call(uc, *a, **k), None
    except Exception as exc:
        return None, exc


def shape_of(uc, nt, ny, nx):
    return {'sites': (nt, ny), 'regular_grid': (nt, ny, nx), 'transect': (nt,)}[uc]


def expect(ctx, key, ok, uc, t, la, lo, shape=None, msg='', **kw):
    ctx.cover(states=1, transitions=1, traces=1)
    rep = drive.PRELUDE + f's = {drive.call_src(uc, t, la, lo, kw.get("alg", "psa"), kw.get("eng", "numexpr"))}\nprint(s.zenith.shape)\n'
    sp, exc = attempt(uc, t, la, lo, **kw)
    if ok and exc is not None:
        ctx.fail(f'{uc}/{key}/rejected', f'valid request rejected ({msg}): {drive.src(la)} {drive.src(lo)} {kw}: {exc!r}', rep)
    elif not ok and exc is None:
        ctx.fail(f'{uc}/{key}/accepted', f'invalid request accepted ({msg}): {drive.src(la)} {drive.src(lo)} {kw}', rep)
    elif ok and shape is not None and tuple(sp.zenith.shape) != shape:
        ctx.fail(f'{uc}/{key}/shape', f'shape {sp.zenith.shape}, expected {shape} ({msg})', rep)
    return sp


def bounds(ctx):
    for uc in drive.USECASES:
        for alg, eng in drive.CONFIGS:
            # every boundary value alone
            for v in LAT_OK + LAT_BAD:
                expect(ctx, f'latitude {v!r}', v in LAT_OK, uc, T[:1], [v], [10.], shape_of(uc, 1, 1, 1), f'latitude {v!r}', alg=alg, eng=eng)
            for v in LON_OK + LON_BAD:
                ok = -180 <= v < 180
                expect(ctx, f'longitude {v!r}', ok, uc, T[:1], [10.], [v], shape_of(uc, 1, 1, 1), f'longitude {v!r}', alg=alg, eng=eng)
        # at every position among valid (or missing) values
        for n in (2, 3, 4):
            for i in range(n):
                for filler in (12.5, np.nan, -90.):
                    for v in LAT_OK + LAT_BAD:
                        la = [filler]*n
                        la[i] = v
                        expect(ctx, 'position latitude', v in LAT_OK, uc, T[:n], la, [1.]*n, shape_of(uc, n, n, n), f'latitude {v!r} at {i}')
                    for v in LON_OK + LON_BAD:
                        lo = [filler]*n
                        lo[i] = v
                        expect(ctx, 'position longitude', -180 <= v < 180, uc, T[:n], [1.]*n, lo, shape_of(uc, n, n, n), f'longitude {v!r} at {i}')
        # two wrongs, in any combination, are still wrong; mixed values
        for a, b in itertools.product(LAT_BAD[:4] + LAT_OK[:2], LON_BAD[:4] + LON_OK[:2]):
            expect(ctx, 'pairs', a in LAT_OK and -180 <= b < 180, uc, T[:2], [0., a], [b, 0.], shape_of(uc, 2, 2, 2), 'pair')
        for a, b in itertools.product(LAT_BAD, LAT_BAD):
            expect(ctx, 'two bad latitudes', False, uc, T[:2], [a, b], [0., 0.], None, 'two bad')
        for a, b in itertools.product(LON_BAD, LON_BAD):
            expect(ctx, 'two bad longitudes', False, uc, T[:2], [0., 0.], [a, b], None, 'two bad')
        # one bad value in a long request
        for i in (0, 1, 499, 998, 999):
            la, lo = np.zeros(1000), np.zeros(1000)
            t = np.repeat(T[:1], 1000)
            la[i] = 90.5
            small = dict(regular_grid=(T[:1], la, lo[:2]), sites=(T[:1], la, lo), transect=(t, la, lo))[uc]
            expect(ctx, 'long', False, uc, *small, None, f'latitude 90.5 at {i}')
            la[i], lo[i] = 0, 180.
            small = dict(regular_grid=(T[:1], la[:2], lo), sites=(T[:1], la, lo), transect=(t, la, lo))[uc]
            expect(ctx, 'long', False, uc, *small, None, f'longitude 180 at {i}')
        # missing coordinates do not hide bad ones and are valid themselves
        for la, lo, ok in (([np.nan]*2, [0., 1.], True), ([0., 1.], [np.nan]*2, True), ([np.nan, 91.], [0., 1.], False),
                           ([91., np.nan], [0., 1.], False), ([0., np.nan], [np.nan, 180.], False)):
            expect(ctx, 'nan', ok, uc, T[:2], la, lo, shape_of(uc, 2, 2, 2), 'nan')


def containers(ctx):
    I8 = [np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64]
    F = [np.float16, np.float32, np.float64, np.longdouble]
    for uc in drive.USECASES:
        vals = ([10, 20], [30, 40])
        base = drive.run(uc, T[:2], [10., 20.], [30., 40.])
        forms = [('list int', list), ('list float', lambda v: [float(x) for x in v]), ('tuple', tuple), ('range-like', lambda v: range(v[0], v[0] + 20, 10)),
                 ('list of np.float32', lambda v: [np.float32(x) for x in v]), ('list of 0-dim', lambda v: [np.array(float(x)) for x in v]),
                 ('Series', lambda v: pd.Series(v, index=[5, 7])), ('Index', pd.Index), ('object', lambda v: np.array(v, dtype=object)),
                 ('strided', lambda v: np.repeat(np.array(v, float), 3)[::3]), ('reversed view', lambda v: np.array(v[::-1], float)[::-1]),
                 ('big endian', lambda v: np.array(v, '>f8')), ('fortran', lambda v: np.asfortranarray(np.array(v, float))),
                 ('Decimal', lambda v: [decimal.Decimal(x) for x in v]), ('Fraction', lambda v: [fractions.Fraction(x) for x in v]),
                 ('masked', lambda v: np.ma.array(v, float))]
        forms += [(f'array {np.dtype(d)}', lambda v, d=d: np.array(v, d)) for d in I8 + F]
        for (n1, f1), (n2, f2) in itertools.product(forms, forms):
            if n1 != n2 and not (n1 == 'list float' or n2 == 'list float'):
                continue
            sp = expect(ctx, f'container {n1}/{n2}', True, uc, T[:2], f1(vals[0]), f2(vals[1]), shape_of(uc, 2, 2, 2), f'{n1}, {n2}')
            if sp is not None:
                g = drive.grab(sp, uc)
                for var, idx, text in drive.worst_pair(g, base, 1e-6, 1e-9):
                    ctx.fail(f'{uc}/container {n1}/{n2}/{var}', f'{var} differs with {n1}, {n2}: {text}')
        # booleans are numbers too
        # scalars of every type
        one = drive.run(uc, T[:1], [10.], [30.])
        scal = [10, 10., np.float64(10), np.float32(10), np.float16(10), np.int8(10), np.int64(10), np.uint8(10), np.longdouble(10),
                np.array(10.), np.array([10.]), [10], (10.,)]
        for s in scal:
            for s2 in (30, 30., np.float32(30), np.array(30), np.array([30]), [30.]):
                for t in (T[0], T[:1], [T[0]], str(T[0]), pd.Timestamp(T[0])):
                    sp = expect(ctx, f'scalar {type(s).__name__}/{type(s2).__name__}', True, uc, t, s, s2, shape_of(uc, 1, 1, 1), f'{s!r}, {s2!r}')
                    if sp is not None:
                        g = drive.grab(sp, uc)
                        for var, idx, text in drive.worst_pair(g, one, 1e-6, 1e-9):
                            ctx.fail(f'{uc}/scalar/{var}', f'{var} differs with {s!r}, {s2!r}: {text}')


def shapes(ctx):
    for uc in drive.USECASES:
        # every combination of numbers of times, latitudes and longitudes
        for nt, ny, nx in itertools.product(range(1, 5), repeat=3):
            ok = {'sites': ny == nx, 'regular_grid': True, 'transect': nt == ny == nx}[uc]
            expect(ctx, f'sizes {nt},{ny},{nx}', ok, uc, T[:nt], list(np.arange(ny)*10.), list(np.arange(nx)*10.),
                   shape_of(uc, nt, ny, nx), f'{nt} times, {ny} latitudes, {nx} longitudes')
        for alg, eng in drive.CONFIGS:
            for nt, ny, nx in ((2, 3, 1), (2, 1, 3), (1, 2, 2), (3, 1, 1), (2, 2, 3), (3, 2, 2)):
                ok = {'sites': ny == nx, 'regular_grid': True, 'transect': nt == ny == nx}[uc]
                expect(ctx, f'sizes {nt},{ny},{nx}', ok, uc, T[:nt], list(np.arange(ny)*10.), list(np.arange(nx)*10.),
                       shape_of(uc, nt, ny, nx), f'{nt}x{ny}x{nx}', alg=alg, eng=eng)
        # two and more dimensions
        flat = [0., 10., 20., 30.]
        for shape in ((1, 1), (2, 2), (1, 4), (4, 1), (2, 2, 1), (1, 1, 1)):
            n = int(np.prod(shape))
            m = np.array(flat[:n]).reshape(shape)
            t2 = T[:n].reshape(shape)
            for la, lo in itertools.product((flat[:n], m, m.tolist()), repeat=2):
                if np.ndim(la) == np.ndim(lo) == 1:
                    continue
                for t in (T[:n], T[:1], T[0]):
                    expect(ctx, f'dimensions {shape}', False, uc, t, la, lo, None, f'{np.ndim(la)}-dim latitude, {np.ndim(lo)}-dim longitude')
                expect(ctx, f'dimensions {shape}', False, uc, t2, la, lo, None, 'all with several dimensions')
            expect(ctx, f'dimensions {shape}', False, uc, t2, flat[:n], flat[:n], None, f'times of shape {shape}')
            expect(ctx, f'dimensions {shape}', False, uc, t2.astype('M8[ns]'), flat[:n], flat[:n], None, f'times of shape {shape}')


def names(ctx):
    algs = list(drive.ALGS) + ['PSA', 'Nrel', 'psa ', ' psa', '', 'spa', 'solpos', 'nrel_numpy', None, 0, 'iqba', 'sg2', 'all']
    engs = ['numpy', 'numexpr', 'NUMPY', 'Numexpr', 'numexpr ', '', 'numba', 'python', None, 1, 'ne', 'py']
    for uc in drive.USECASES:
        for a, e in itertools.product(algs, engs):
            ok = (a, e) in drive.CONFIGS
            for nt in (2, 0) if not ok else (2,):
                t = T[:nt]
                n = nt if uc == 'transect' else 2
                expect(ctx, f'{a}/{e}', ok, uc, t, [0., 10.][:n], [0., 10.][:n], shape_of(uc, 2, 2, 2), f'algorithm {a!r}, engine {e!r}', alg=a, eng=e)
        # names are case-sensitive strings, whatever else is in the request
        for t in (T[:1], np.array(['NaT'], 'M8[s]')):
            expect(ctx, 'bad name', False, uc, t, [0.], [0.], None, 'algorithm', alg='nope')
            expect(ctx, 'bad name', False, uc, t, [0.], [0.], None, 'engine', eng='nope')
        for alg, eng in drive.CONFIGS[:3]:
            sp = drive.call(uc, T[:2], [0., 10.], [0., 10.], alg, eng)
            sp_night = drive.call(uc, T[:1].repeat(2), [-80., -85.], [0., 10.], alg, eng)
            for s in (sp, sp_night):
                for name in list(drive.AIRMASS) + ['', None, 'KASTEN_1965', 'kasten', 'gueymard', 'kasten_1989', 'gueymard_2003 ', 3]:
                    ok = name in drive.AIRMASS
                    run_name(ctx, uc, 'airmass', ok, lambda: s.airmass(name), name)  # noqa: B023
                for name in list(drive.CORRECTIONS) + ['', None, 'perez', 'NONE', 'None', 'perez_1991', 'gonzalez', 'skartveit_1998', True]:
                    ok = name in drive.CORRECTIONS
                    run_name(ctx, uc, 'eth', ok, lambda: s.eth(am_correction=name), name)  # noqa: B023
                for fn in ('sunrise', 'sunset'):
                    for name in list(drive.UNITS) + ['', 'degrees', 'UTC', 'Local', 'hour', None]:
                        run_name(ctx, uc, fn, name in drive.UNITS, lambda: getattr(s, fn)(name), name)  # noqa: B023


def run_name(ctx, uc, what, ok, fn, name):
    ctx.cover(states=1, transitions=1, traces=1)
    try:
        fn()
        if not ok:
            ctx.fail(f'{uc}/{what} {name!r}/accepted', f'{what}({name!r}) is accepted')
    except Exception as exc:
        if ok:
            ctx.fail(f'{uc}/{what} {name!r}/rejected', f'{what}({name!r}) raises {exc!r}')
        elif not isinstance(exc, ValueError):
            ctx.fail(f'{uc}/{what} {name!r}/kind', f'{what}({name!r}) raises {exc!r} instead of the documented ValueError')


def run(ctx):
    ctx.assume('any exception counts as a rejection (ValueError, as documented, for the accessors)', 'NaN coordinates are valid (missing)')
    bounds(ctx)
    shapes(ctx)
    containers(ctx)
    names(ctx)
    ctx.sample(dict(latitudes=[repr(v) for v in LAT_OK + LAT_BAD]))
