"""C07: missing times and coordinates stay missing and never disturb the others.

Every pattern of missing entries of short requests is enumerated; the oracle is the result of the same request with no
missing entry, whose values must reappear unchanged in every cell that is not missing.
"""
import itertools

import numpy as np
import pandas as pd

from lib import drive, space

LATS, LONS = np.array([41.3, -77.7, 5.]), np.array([2.1, -170.2, 88.])
TIMES = space.dt('2024-06-20T20:51:00', '1969-12-31T23:59:59', '2024-12-31T18:45:00', '2000-02-29T18:30:15', '2024-03-20T03:06:00',
                 '2023-10-29T00:30:00', '1950-01-01T00:00:00')
TOL = dict(M=1e-3)


def time_axis_first(da):
    return da.transpose('time', ...).values if 'time' in da.dims else None


def compare(ctx, key, got, base, tmask, msg, rep):
    """got/base: time-first arrays; rows where tmask are missing"""
    if got.shape != base.shape:
        ctx.fail(key, f'{msg}: shape {got.shape}, expected {base.shape}', rep)
        return
    isnull = np.isnat(got) if got.dtype.kind in 'mM' else np.isnan(got.astype(float))
    if tmask.any() and not isnull[tmask].all():
        ctx.fail(key, f'{msg}: values where the time is missing: {got[tmask].ravel()[:4]}', rep)
    w = drive.worst(got[~tmask], base[~tmask], 1e-3 if got.dtype.kind in 'mM' else 1e-8)
    if w:
        ctx.fail(key, f'{msg}: other entries are disturbed: {w[1]}', rep)


def patterns_of_times(ctx, uc, alg, eng, n, accessors, form, tz=None, lats=LATS, lons=LONS, times=TIMES, patterns=None):
    t = times[:n]
    if uc == 'transect':
        la, lo = np.resize(lats, n), np.resize(lons, n)
    else:
        la, lo = lats, lons

    def wrap(a):
        if form == 'array':
            return a
        ix = pd.DatetimeIndex(a.astype('M8[ns]'))
        if tz:
            ix = ix.tz_localize('UTC').tz_convert(tz)
        return list(ix) if form == 'list' else ix

    base_sp = drive.call(uc, wrap(t), la, lo, alg, eng, True)
    base = {name: time_axis_first(fn(base_sp)) for name, fn in accessors}
    for pat in (patterns if patterns is not None else itertools.product((False, True), repeat=n)):
        mask = np.array(pat)
        tt = t.copy()
        tt[mask] = np.datetime64('NaT')
        arg = wrap(tt)
        key = f'NaT/{uc}/{alg}/{eng}/{form}'
        rep = (drive.PRELUDE + f's = {drive.call_src(uc, tt[:50], la[:50], lo[:50], alg, eng, True)}\n'
               'print(s.zenith.values, s.azimuth.values, s.eot.values)\n')
        ctx.cover(states=1, transitions=len(accessors), traces=n)
        try:
            sp = drive.call(uc, arg, la, lo, alg, eng, True)
        except Exception as exc:
            ctx.fail(key, f'{exc!r} with missing times {pat if n < 50 else "..."}', rep)
            continue
        for name, fn in accessors:
            da = ctx.guarded(f'{key}/{name}', fn, sp, repro=rep)
            if da is None or base[name] is None:
                continue
            got = time_axis_first(da)
            compare(ctx, f'{key}/{name}', got, base[name], mask, f'{name} with missing times {pat if n < 50 else mask.nonzero()[0][:9]}', rep)


def patterns_of_coords(ctx, uc, alg, eng, n, derived, LATS=LATS, LONS=LONS):
    """each location is fine / has NaN latitude / NaN longitude / both (and, in a transect, a missing time)"""
    acc = drive.BASIC + [d for d in drive.DERIVED if d[0] in ('elevation', 'cosz', 'sza', 'saa', 'sunrise_deg', 'eth_none',
                                                              'airmass_gueymard_2003', 'incidence_35_-50', 'true_solar_time') and (derived or d[0] == 'cosz')]
    t = TIMES[:3] if uc != 'transect' else TIMES[:n]
    lats, lons = np.resize(LATS, n), np.resize(LONS, n)
    base_sp = drive.call(uc, t, lats, lons, alg, eng, True)
    zenlike = ('zenith', 'azimuth', 'elevation', 'cosz', 'sza', 'saa', 'eth_none', 'airmass_gueymard_2003')

    def cells(sp, fn):
        v = drive.to_cells(fn(sp), uc, len(t), n, n)
        return v if uc != 'transect' else v[:, None]

    base = {name: cells(base_sp, fn) for name, fn in acc}
    kinds = range(5 if uc == 'transect' else 4)
    for pat in itertools.product(kinds, repeat=n):
        la, lo, tt = lats.copy(), lons.copy(), t.copy()
        for i, k in enumerate(pat):
            if k in (1, 3):
                la[i] = np.nan
            if k in (2, 3):
                lo[i] = np.nan
            if k == 4:
                tt[i] = np.datetime64('NaT')
        if uc == 'sites':
            bad = np.broadcast_to((np.isnan(la) | np.isnan(lo))[None, :], (len(t), n))
        elif uc == 'regular_grid':
            bad = np.broadcast_to((np.isnan(la)[:, None] | np.isnan(lo)[None, :]).ravel()[None, :], (len(t), n*n))
        else:
            bad = (np.isnan(la) | np.isnan(lo) | np.isnat(tt))[:, None]
        tmiss = np.isnat(tt)
        key = f'NaN/{uc}/{alg}/{eng}'
        rep = (drive.PRELUDE + f's = {drive.call_src(uc, tt, la, lo, alg, eng, True)}\n'
               'print(s.zenith.values, s.azimuth.values, s.eot.values)\n')
        ctx.cover(states=1, transitions=len(acc), traces=1)
        try:
            sp = drive.call(uc, tt, la, lo, alg, eng, True)
        except Exception as exc:
            ctx.fail(key, f'{exc!r} with latitude {la} longitude {lo} times {tt}', rep)
            continue
        for name, fn in acc:
            da = ctx.guarded(f'{key}/{name}', fn, sp, repro=rep)
            if da is None:
                continue
            got = cells(sp, fn)
            msg = f'{name} with latitude {la} longitude {lo} times {tt}'
            if name in ('declination', 'eot', 'ecf'):
                m = np.broadcast_to(tmiss[:, None], got.shape)
            else:
                m = bad
            isnull = np.isnat(got) if got.dtype.kind in 'mM' else np.isnan(got.astype(float))
            if (name in zenlike or name in ('declination', 'eot', 'ecf')) and not isnull[m].all():
                ctx.fail(f'{key}/{name}', f'{msg}: value in a missing cell', rep)
            w = drive.worst(np.where(m, base[name], got), base[name], 1e-3 if got.dtype.kind in 'mM' else 1e-8)
            if w:
                ctx.fail(f'{key}/{name}', f'{msg}: other cells are disturbed: {w[1]}', rep)


def run(ctx):
    ctx.assume('sunrise etc. of cells with a NaN coordinate are only required not to disturb the other cells')
    ctx.pmap('checks.c07', [(uc, alg, eng) for alg, eng in drive.CONFIGS for uc in drive.USECASES])
    ctx.sample(dict(patterns_of_times=2**(7 if ctx.thorough else 5)))


def task(ctx, uc, alg, eng):
    th = ctx.thorough
    n = 7 if th else 5
    if True:
        if True:
            main = (alg, eng) in (('psa', 'numexpr'), ('nrel', 'numexpr')) or th
            patterns_of_times(ctx, uc, alg, eng, n, drive.BASIC, 'array')
            patterns_of_times(ctx, uc, alg, eng, 4, drive.BASIC, 'index', 'Europe/Madrid')
            if main:
                patterns_of_times(ctx, uc, alg, eng, 3, drive.ALL, 'array')
                patterns_of_times(ctx, uc, alg, eng, 3, drive.ALL, 'index', 'Europe/Madrid')
                patterns_of_times(ctx, uc, alg, eng, 3, drive.ALL, 'list', 'Australia/Lord_Howe')
            # one location only
            patterns_of_times(ctx, uc, alg, eng, 3, drive.BASIC, 'array', lats=LATS[:1], lons=LONS[:1])
            # long requests with a few missing entries, at block boundaries and at a stride
            big = 3000 if not th else 20000
            t = space.daterange('2024-01-01', '2030-01-01', 7211)[:big]
            k = np.arange(len(t))
            pats = [k % 97 == 5, np.isin(k, [0, len(t) - 1, 1023, 1024, 1025, 2047, 2048]), k < 1500, k >= 1500, k % 2 == 0, k != 1234]
            patterns_of_times(ctx, uc, alg, eng, len(t), drive.BASIC, 'array', times=t, patterns=pats,
                              lats=LATS[:2], lons=LONS[:2])
            patterns_of_coords(ctx, uc, alg, eng, 3, main and (uc != 'transect' or th))
            # special places next to the missing ones
            for y in ([90., 0., -90.], [-90., 41.3, 90.], [0., 0., 23.4]) if main or not th else ([90., 0., -90.],):
                for x in ([-180., 0., 179.9], [0., 0., 90.], [-90., 0., -180.]):
                    patterns_of_coords(ctx, uc, alg, eng, 2 if uc == 'transect' else 3, False, np.array(y), np.array(x))
            # no entries at all
            for label, e in (('list', []), ('tuple', ()), ('array', np.array([], 'M8[s]')), ('index', pd.DatetimeIndex([])),
                             ('zoned index', pd.DatetimeIndex([], tz='Europe/Madrid'))):
                la, lo = (LATS[:0], LONS[:0]) if uc == 'transect' else (LATS, LONS)
                key = f'empty/{uc}/{alg}/{eng}/{label}'
                ctx.cover(states=1, transitions=len(drive.ALL), traces=1)
                sp = ctx.guarded(key, drive.call, uc, e, la, lo, alg, eng, True, repro=drive.PRELUDE +
                                 f'sunwhere.{uc}({e!r}, {la.tolist()}, {lo.tolist()}, algorithm={alg!r}, engine={eng!r})\n')
                if sp is None:
                    continue
                exp = {'sites': (0, 3), 'regular_grid': (0, 3, 3), 'transect': (0,)}[uc]
                g = ctx.guarded(key, drive.grab, sp, uc)
                if g and (g['zenith'].shape != exp or g['azimuth'].shape != exp or g['eot'].shape != (0,)):
                    ctx.fail(key, f'shapes {[(k, v.shape) for k, v in g.items()]}')
                for name, fn in (drive.ALL if main else drive.BASIC):
                    ctx.guarded(f'{key}/{name}', fn, sp)
