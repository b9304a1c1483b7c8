"""C23: omitted arguments mean the documented defaults, and results describe the request that produced them.

State = one way of writing a call: which optional arguments are given, by position or by keyword, with which values. All of them
are enumerated; the oracle is the call with every argument written out by keyword.
"""
import itertools

import numpy as np
import pandas as pd

import sunwhere
from lib import drive, space

DEFAULTS = dict(algorithm='psa', refraction=True, engine='numexpr')
ORDER = ('algorithm', 'refraction', 'engine')
T = space.dt('2024-06-20T20:51:00', '1969-12-31T23:59:59', '2000-02-29T18:30:15', '2024-12-31T05:00:00', '2024-03-20T07:10:00')
LAT = np.array([41.3, -77.7, 5., 66.56, 0.])
LON = np.array([2.1, -170.2, 88., 0., -3.822])
CONFIGS = drive.CONFIGS


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and bool(np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
                                                             or ((a == b) | (np.isnat(a) & np.isnat(b))).all() if a.dtype.kind == 'M'
                                                             else np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'))


def describe(ctx, key, s, uc, cfg, times, lat, lon, rep, tz='UTC'):
    """the result's own account of the request"""
    want = dict(algorithm=cfg['algorithm'], engine=cfg['engine'], usecase=uc)
    for k, v in want.items():
        if getattr(s, k) != v:
            ctx.fail(f'{key}/{k}', f'{k} is reported as {getattr(s, k)!r} instead of {v!r}', rep)
    if bool(s.has_refraction) != bool(cfg['refraction']):
        ctx.fail(f'{key}/has_refraction', f'has_refraction is {s.has_refraction!r} with refraction={cfg["refraction"]!r}', rep)
    for k, v in (('latitude', lat), ('longitude', lon)):
        da = getattr(s, k)
        dim = {'sites': 'location', 'transect': 'time', 'regular_grid': k}[uc]
        if da.dims != (dim,) or not np.array_equal(da.values, np.atleast_1d(np.asarray(v, float)), equal_nan=True):
            ctx.fail(f'{key}/{k}', f'{k} is reported as {da.dims} {da.values} for {v}', rep)
    u = pd.DatetimeIndex(s.times_utc).tz_localize(None).values.astype('M8[s]')
    if not np.array_equal(u, np.atleast_1d(times)):
        ctx.fail(f'{key}/times', f'times_utc is {u} for {times}', rep)
    if not (pd.DatetimeIndex(s.local_standard_time) == pd.DatetimeIndex(s.times)).all():
        ctx.fail(f'{key}/local_standard_time', 'local_standard_time differs from times', rep)
    if s.timezone != tz:
        ctx.fail(f'{key}/timezone', f'timezone is {s.timezone!r}', rep)


def diff(s, e, names):
    for name, fn in names:
        a, b = fn(s), fn(e)
        if a.dims != b.dims or a.name != b.name or not same(a.values, b.values):
            return name
    return None


def task(ctx, uc, *only):
    th = ctx.thorough
    f = getattr(sunwhere, uc)
    names = drive.ALL if th else drive.BASIC + [d for d in drive.DERIVED if d[0] in ('cosz', 'sunrise_utc', 'sunset_local', 'eth_none', 'airmass_gueymard_2003', 'incidence_35_-50', 'true_solar_time')]
    args = dict(times=T, latitude=LAT, longitude=LON)
    configs = [only] if only else CONFIGS
    for alg, eng in configs:
        for ref in (True, False):
            cfg = dict(algorithm=alg, refraction=ref, engine=eng)
            for given in itertools.product((False, True), repeat=3):
                eff = {k: cfg[k] if g else DEFAULTS[k] for k, g in zip(ORDER, given)}
                if (eff['algorithm'], eff['engine']) not in CONFIGS:
                    continue
                exp = f(**args, **eff)
                # how many leading optional arguments by position (the rest by keyword, in every order)
                lead = 0
                while lead < 3 and given[lead]:
                    lead += 1
                for npos in range(lead + 1):
                    kw = [k for k, g in list(zip(ORDER, given))[npos:] if g]
                    for perm in itertools.permutations(kw):
                        for style in ('positional', 'keyword', 'mixed'):
                            if style != 'positional' and npos:
                                continue
                            p = [cfg[k] for k in ORDER[:npos]]
                            k2 = {k: cfg[k] for k in perm}
                            key = f'{uc}/{style}/npos={npos}/{"+".join(perm) or "none"}'
                            txt = f'{uc}({style} times and places, {p}, {k2})'
                            rep = drive.PRELUDE + (f'T, LAT, LON = {drive.src(T)}, {LAT.tolist()}, {LON.tolist()}\n'
                                                   f'a = sunwhere.{uc}(T, LAT, LON, *{p!r}, **{k2!r})\nb = sunwhere.{uc}(times=T, latitude=LAT, longitude=LON, **{eff!r})\n'
                                                   'assert a.algorithm == b.algorithm and a.engine == b.engine and a.has_refraction == b.has_refraction\n'
                                                   'assert np.array_equal(a.zenith.values, b.zenith.values) and np.array_equal(a.azimuth.values, b.azimuth.values)\n')
                            ctx.cover(states=1, transitions=len(names), traces=1)
                            if style == 'positional':
                                s = ctx.guarded(key, f, T, LAT, LON, *p, **k2, repro=rep)
                            elif style == 'keyword':
                                s = ctx.guarded(key, f, **k2, longitude=LON, times=T, latitude=LAT, repro=rep)
                            else:
                                s = ctx.guarded(key, f, T, longitude=LON, latitude=LAT, **k2, repro=rep)
                            if s is None:
                                continue
                            w = diff(s, exp, names)
                            if w:
                                ctx.fail(f'{key}/{w}', f'{w} of {txt} is not that of the call with {eff}', rep)
                            describe(ctx, key, s, uc, eff, T, LAT, LON, rep)
            # the truth value given for refraction, as a number or from an array
            full = f(**args, algorithm=alg, engine=eng, refraction=ref)
            for v in ((np.True_, 1, np.int64(1)) if ref else (np.False_, 0, np.int64(0))):
                key = f'{uc}/refraction={type(v).__name__}'
                rep = drive.PRELUDE + (f'T, LAT, LON = {drive.src(T)}, {LAT.tolist()}, {LON.tolist()}\n'
                                       f'v = {repr(v) if type(v) is int else "np." + type(v).__name__ + f"({int(v)})"}\n'
                                       f'a, b = (sunwhere.{uc}(T, LAT, LON, {alg!r}, r, {eng!r}) for r in (v, {ref}))\n'
                                       'assert a.has_refraction == b.has_refraction and np.array_equal(a.zenith.values, b.zenith.values)\n')
                ctx.cover(states=1, transitions=len(names), traces=1)
                for s in (ctx.guarded(key, f, T, LAT, LON, alg, v, eng, repro=rep), ctx.guarded(key, f, **args, algorithm=alg, engine=eng, refraction=v, repro=rep)):
                    if s is None:
                        continue
                    w = diff(s, full, names)
                    if w:
                        ctx.fail(f'{key}/{w}', f'{w} of {uc} ({alg}/{eng}) with refraction={v!r} is not that with {ref}', rep)
                    describe(ctx, key, s, uc, dict(algorithm=alg, engine=eng, refraction=ref), T, LAT, LON, rep)
    # the accessors' own optional arguments
    table = [('eth()', lambda s: s.eth(), lambda s: s.eth(ISC=1361.1, am_correction='none')),
             ('airmass()', lambda s: s.airmass(), lambda s: s.airmass(parameterization='gueymard_2003')),
             ('sunrise()', lambda s: s.sunrise(), lambda s: s.sunrise(units='deg')),
             ('sunset()', lambda s: s.sunset(), lambda s: s.sunset(units='deg')),
             ('incidence(slope, azimuth)', lambda s: s.incidence(35., -50.), lambda s: s.incidence(sfc_azimuth=-50., sfc_slope=35.)),
             ('dec', lambda s: s.dec, lambda s: s.declination)]
    for isc, c in itertools.product((1., 1000, 1361.1, 1367.), drive.CORRECTIONS):
        table += [(f'eth({isc}, {c})', lambda s, isc=isc, c=c: s.eth(isc, c), lambda s, isc=isc, c=c: s.eth(am_correction=c, ISC=isc)),
                  (f'eth({isc})', lambda s, isc=isc: s.eth(isc), lambda s, isc=isc: s.eth(ISC=isc, am_correction='none')),
                  (f'eth(am_correction={c})', lambda s, c=c: s.eth(am_correction=c), lambda s, c=c: s.eth(1361.1, c))]
    for p in drive.AIRMASS:
        table.append((f'airmass({p})', lambda s, p=p: s.airmass(p), lambda s, p=p: s.airmass(parameterization=p)))
    for u in drive.UNITS:
        table += [(f'sunrise({u})', lambda s, u=u: s.sunrise(u), lambda s, u=u: s.sunrise(units=u)),
                  (f'sunset({u})', lambda s, u=u: s.sunset(u), lambda s, u=u: s.sunset(units=u))]
    times = [T, pd.DatetimeIndex(T).tz_localize('UTC').tz_convert('Europe/Madrid')]
    for (alg, eng), ref, t in itertools.product(configs, (True, False), times):
        s = f(t, LAT, LON, algorithm=alg, engine=eng, refraction=ref)
        for name, got, exp in table:
            key = f'accessor/{uc}/{name}'
            rep = drive.PRELUDE + f's = sunwhere.{uc}({drive.src(T)}, {LAT.tolist()}, {LON.tolist()}, algorithm={alg!r}, engine={eng!r}, refraction={ref})\n'
            ctx.cover(states=1, transitions=1, traces=1)
            a, b = ctx.guarded(key, got, s, repro=rep), ctx.guarded(key, exp, s, repro=rep)
            if a is None or b is None:
                continue
            if a.dims != b.dims or not same(a.values, b.values) or a.attrs != b.attrs:
                ctx.fail(key, f'{name} of {uc} ({alg}/{eng}) differs from the call with its arguments written out', rep)
        describe(ctx, f'report/{uc}', s, uc, dict(algorithm=alg, engine=eng, refraction=ref), T, LAT, LON, '', 'UTC' if t is T else 'Europe/Madrid')
    if only != CONFIGS[0]:
        return
    # one cell, many ways of writing it
    for la, lo, t in itertools.product((41.3, 0, -90., 90, np.float32(10.5)), (2.1, 0, -180, 179.5), (T[0], '2024-06-20 20:51:00', pd.Timestamp(T[0]))):
        s = ctx.guarded(f'scalar/{uc}', f, t, la, lo)
        ctx.cover(states=1, transitions=1, traces=1)
        if s is not None:
            describe(ctx, f'scalar/{uc}', s, uc, DEFAULTS, T[:1], la, lo, '')
    # the documented names
    if sorted(sunwhere.SPA_ALGORITHMS) != sorted(drive.ALGS):
        ctx.fail('SPA_ALGORITHMS', f'SPA_ALGORITHMS is {sunwhere.SPA_ALGORITHMS}')
    for alg in sunwhere.SPA_ALGORITHMS:
        s = ctx.guarded(f'SPA_ALGORITHMS/{uc}/{alg}', f, T, LAT, LON, alg)
        ctx.cover(states=1, transitions=1, traces=1)
        if s is not None and s.algorithm != alg:
            ctx.fail(f'SPA_ALGORITHMS/{uc}/{alg}', f'algorithm {alg} is reported as {s.algorithm}')


def run(ctx):
    import importlib.metadata
    ctx.assume('documented defaults: algorithm psa, refraction on, engine numexpr, ISC 1361.1, no air-mass correction, gueymard_2003, degrees')
    ctx.cover(states=1)
    if sunwhere.__version__ != importlib.metadata.version('sunwhere'):
        ctx.fail('version', f'__version__ is {sunwhere.__version__}')
    ctx.pmap('checks.c23', [(uc, a, e) for a, e in drive.CONFIGS for uc in drive.USECASES])
    ctx.sample(dict(call='transect(T, LAT, LON, "iqbal", engine="numpy")', meaning='refraction on'))
