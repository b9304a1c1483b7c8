"""C16: true solar time is UTC plus longitude plus equation of time, and is invertible."""
import itertools

import numpy as np
import pandas as pd

import sunwhere
from lib import drive, model, space, zones

MS = 1_000_000


def expected(t, lon, eot):
    """ns, exact integer arithmetic on the instant"""
    u = np.asarray(t).astype('M8[ns]').astype('int64')
    return u + np.rint((eot + 4*lon)*60e9).astype('int64')


def check(ctx, uc, t, y, x, alg, eng, tz=None, tag=''):
    arg = t if tz is None else pd.DatetimeIndex(t).tz_localize('UTC').tz_convert(tz)
    s = drive.call(uc, arg, y, x, alg, eng)
    nt, nla, nlo = len(t), np.size(y), np.size(x)
    if str(s.true_solar_time.dtype).startswith('datetime64') is False:
        raise drive.ImplError(f'solar time of type {s.true_solar_time.dtype}')
    tst = drive.to_cells(s.true_solar_time, uc, nt, nla, nlo).astype('M8[ns]').astype('int64')
    eot = s.eot.values
    if uc == 'transect':
        lon, tt, ee = np.asarray(x, float), np.asarray(t), eot
    else:
        lon = np.tile(np.asarray(x, float), nla)[None, :] if uc == 'regular_grid' else np.asarray(x, float)[None, :]
        tt, ee = np.asarray(t)[:, None], eot[:, None]
    e = expected(tt, lon, ee)
    d = np.abs(tst - e)
    ctx.cover(states=d.size, transitions=d.size, traces=1)
    # the equation of time is that of the algorithm
    q = model.EPHEM[alg](model.unix(np.asarray(t)))['eot']
    m = ~(np.abs(eot - q) < 0.02)
    if m.any():
        k = int(np.argwhere(m)[0][0])
        ctx.fail(f'{uc}/{alg}/{eng}/eot', f'eot {eot[k]} at {t[k]}, the published formula gives {q[k]} ({tag})')
    if (d > MS).any():
        k = tuple(int(i) for i in np.argwhere(d > MS)[0])
        lonk = float(np.broadcast_to(lon, d.shape)[k])
        tk = np.asarray(t)[k[0]]
        rep = (drive.PRELUDE + f's = {drive.call_src(uc, np.array([tk]), [0.], [lonk], alg, eng)}\n'
               f'e = np.datetime64("{tk}", "ns") + np.timedelta64(int(round((float(s.eot.values.ravel()[0]) + 4*{lonk})*60e9)), "ns")\n'
               'g = s.true_solar_time.values.ravel()[0]\nprint(g, e)\nassert abs((g - e).astype("m8[ns]").astype(int)) <= 1000000\n')
        ctx.fail(f'{uc}/{alg}/{eng}/tst', f'solar time {np.int64(tst[k]).astype("M8[ns]")} instead of {np.int64(e[k]).astype("M8[ns]")} '
                 f'at {tk} lon={lonk} zone={tz} ({tag})', rep)


def inverse(ctx, times, lons, kind):
    """tst -> utc through the public conversion; true solar times come from psa, the algorithm it documents"""
    lons_ = np.atleast_1d(np.asarray(lons, float))
    times_ = np.atleast_1d(times)
    s = drive.call('regular_grid', times_, [0.], lons_, 'psa', 'numexpr')
    tst = drive.to_cells(s.true_solar_time, 'regular_grid', len(times_), 1, len(lons_)).astype('M8[ns]')
    ctx.cover(states=tst.size, traces=1)
    for j in range(len(lons_)):
        if np.ndim(times) == 0:
            a = tst[0, j]
        else:
            a = tst[:, j]
        arg = {'ns': lambda a: a, 's': lambda a: a.astype('M8[s]'), 'index': lambda a: pd.DatetimeIndex(np.atleast_1d(a)),
               'list': lambda a: [pd.Timestamp(v).to_pydatetime() for v in np.atleast_1d(a)],
               'timestamp': lambda a: pd.Timestamp(a), 'datetime': lambda a: pd.Timestamp(a).to_pydatetime()}[kind](a)
        u = np.asarray(sunwhere.universal_time_coordinated(arg, float(lons_[j])))
        exp = times_[0] if np.ndim(times) == 0 else times_
        if u.dtype.kind != 'M':
            ctx.fail(f'inverse/{kind}/dtype', f'universal_time_coordinated returns {u.dtype}')
            return
        if u.shape != np.shape(np.squeeze(exp)):
            ctx.fail(f'inverse/{kind}/shape', f'shape {u.shape} for {np.shape(exp)} times and one longitude')
            return
        d = np.abs((u.astype('M8[ns]') - np.squeeze(exp).astype('M8[ns]')).astype('m8[ns]').astype('int64'))
        ctx.cover(transitions=d.size)
        if (d > 30e9).any():
            k = int(np.argmax(d))
            ctx.fail(f'inverse/{kind}', f'{np.ravel(tst[:, j])[k]} at longitude {lons_[j]} converts to {np.ravel(u)[k]} '
                     f'instead of {np.ravel(exp)[k]}')
    # several longitudes at once: every time with every longitude
    for n in range(2, min(4, len(lons_)) + 1) if kind == 'ns' and np.ndim(times) else []:
        for m in range(1, min(5, len(times_)) + 1):
            for js in itertools.permutations(range(min(5, len(lons_))), n) if m < 4 else [tuple(range(n))]:
                a = tst[:m, 0]
                u = np.asarray(sunwhere.universal_time_coordinated(a, lons_[list(js)]))
                e = np.array([[np.asarray(sunwhere.universal_time_coordinated(a[i], lons_[j])).ravel()[0] for j in js] for i in range(m)])
                ctx.cover(states=1, transitions=e.size, traces=1)
                if u.shape != np.squeeze(e).shape or (np.abs((u - np.squeeze(e)).astype('m8[ns]').astype('int64')) > MS).any():
                    ctx.fail('inverse/grid', f'{m} times and {n} longitudes: {u} instead of {np.squeeze(e)}')


def helper(ctx, times, lons, kind):
    """the public conversion from utc: the formula with the equation of time of psa, and undone by its inverse"""
    from sunwhere.utils.datetime import true_solar_time
    lons_, times_ = np.atleast_1d(np.asarray(lons, float)), np.atleast_1d(times)
    eot = model.EPHEM['psa'](model.unix(times_))['eot']
    exp = expected(times_[:, None], lons_[None, :], eot[:, None])
    arg = {'ns': lambda a: a.astype('M8[ns]'), 's': lambda a: a, 'index': lambda a: pd.DatetimeIndex(a),
           'list': lambda a: [pd.Timestamp(v).to_pydatetime() for v in np.atleast_1d(a)],
           'timestamp': lambda a: pd.Timestamp(a), 'datetime': lambda a: pd.Timestamp(a).to_pydatetime()}[kind](times)
    for name, lon, e in [('all', lons_ if np.ndim(lons) else float(lons), exp)] + [
            (f'longitude {x}', float(x), exp[:, j:j+1]) for j, x in enumerate(lons_[:12])]:
        g = np.asarray(true_solar_time(arg, lon))
        ctx.cover(states=e.size, transitions=e.size, traces=1)
        if g.dtype.kind != 'M' or g.shape != np.squeeze(e).shape:
            ctx.fail(f'helper/{kind}/shape', f'true_solar_time returns {g.dtype} of shape {g.shape} for {len(times_)} times and {name}')
            return
        d = np.abs(g.astype('M8[ns]').astype('int64') - np.squeeze(e))
        if (d > 1.3e9).any():           # 0.02 min between the formulas
            k = int(np.argmax(d))
            ctx.fail(f'helper/{kind}', f'true_solar_time of {np.broadcast_to(times_[:, None], e.shape).ravel()[k]} ({name}) is {g.ravel()[k]} '
                     f'instead of {np.int64(np.ravel(e)[k]).astype("M8[ns]")}')
        if np.ndim(lon) == 0:
            sp = drive.call('sites', times_, [0.], [lon], 'psa', 'numexpr').true_solar_time.values.ravel().astype('M8[ns]').astype('int64')
            if (np.abs(sp - g.astype('M8[ns]').astype('int64').ravel()) > 2*MS).any():
                ctx.fail(f'helper/{kind}/same', f'true_solar_time of the package and of the results differ at longitude {lon}')
            back = np.asarray(sunwhere.universal_time_coordinated(g, lon)).astype('M8[ns]').ravel()
            if (np.abs((back - times_.astype('M8[ns]')).astype('m8[ns]').astype('int64')) > 30e9).any():
                ctx.fail(f'helper/{kind}/inverse', f'round trip at longitude {lon} fails')


def kinds(ctx):
    """both conversions with the longitudes and times written in every way, against one time and one longitude at once"""
    from sunwhere.utils.datetime import true_solar_time
    t = space.dt('2024-06-20T10:00:00', '2023-12-31T23:59:59', '1999-02-28T12:34:56')
    naive = pd.DatetimeIndex(t)
    times = {'ns': t.astype('M8[ns]'), 's': t, 'us': t.astype('M8[us]'), 'list': list(t.astype('M8[ns]')), 'text': [str(x) for x in t], 'index': naive,
             'utc': naive.tz_localize('UTC'), 'madrid': naive.tz_localize('UTC').tz_convert('Europe/Madrid'), 'kiritimati': naive.tz_localize('UTC').tz_convert('Pacific/Kiritimati'),
             'datetimes': [x.to_pydatetime() for x in naive], 'zoned datetimes': [x.to_pydatetime() for x in naive.tz_localize('UTC').tz_convert('America/New_York')],
             'timestamps': list(naive), 'tuple': tuple(naive)}
    lons = {}
    for dt in ('i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8', 'f2', 'f4', 'f8', 'f16', 'O'):
        lons[dt] = np.array([0, 1, 31, 32, 63, 64, 100, 127] + ([] if dt in ('i1', 'O') else [128, 179]) + ([] if dt[0] == 'u' else [-1, -32, -33, -100, -128])).astype(dt)
    lons |= dict(list=[0, 100, -100, 0.5], tuple=(100, -100), ints=[100, -100], series=pd.Series([100, -100], dtype='int8').to_numpy(), scalar=100, float=100., np0=np.array(100, 'i1'), npscalar=np.int8(100),
                 npu=np.uint8(179), square=np.array([[0., 100.], [-100., 0.5]]), column=np.array([[100], [-100]], 'i1'), missing=[np.nan, 10.], zero_d=np.array(-77.5))
    for name, fn, sign in (('true_solar_time', true_solar_time, 1), ('universal_time_coordinated', sunwhere.universal_time_coordinated, -1)):
        eot = np.array([((np.asarray(fn(x, 0.)).astype('M8[ns]') - x.astype('M8[ns]')).astype('int64')) for x in t])
        q = model.EPHEM['psa'](model.unix(t))['eot']*60e9*sign
        if (np.abs(eot - q) > 1.3e9).any():
            ctx.fail(f'kinds/{name}', f'{name} at Greenwich is off by {eot/60e9} min, the equation of time is {q/60e9}')
        def one(key, tt, n, lon):
            lo = np.asarray(lon).astype(float)
            got = ctx.guarded(f'kinds/{name}/{key}', fn, tt, lon, repro=drive.PRELUDE + f'from sunwhere.utils.datetime import true_solar_time\nfrom sunwhere import universal_time_coordinated\n'
                              f'print({name}(np.datetime64("2024-06-20T10:00:00"), np.array([100], "i1")))\n')
            ctx.cover(states=1, traces=1)
            if got is None:
                return
            base = np.atleast_1d(t[n]).astype('M8[ns]').astype('int64') + np.atleast_1d(eot[n])
            with np.errstate(invalid='ignore'):
                e = base.reshape((-1,) + (1,)*lo.ndim) + sign*lo[None]*240e9
            e, bad = np.squeeze(e), np.squeeze(np.broadcast_to(np.isnan(lo)[None], e.shape))
            g = np.asarray(got)
            ctx.cover(transitions=e.size)
            if g.dtype.kind != 'M' or g.shape != e.shape:
                ctx.fail(f'kinds/{name}/{key}', f'{name} of {key} returns {g.dtype} of shape {g.shape} instead of {e.shape}')
                return
            d = np.abs(g.astype('M8[ns]').astype('int64') - np.where(bad, 0, e).astype('int64'))
            wrong = np.where(bad, ~np.isnat(g), d > 1e6)
            if np.any(wrong):
                k = tuple(int(v) for v in np.argwhere(wrong)[0])
                ctx.fail(f'kinds/{name}/{key}', f'{name} of {key}: {g[k]} instead of {"NaT" if bad[k] else np.int64(e[k]).astype("M8[ns]")}',
                         drive.PRELUDE + f'from sunwhere.utils.datetime import true_solar_time\nfrom sunwhere import universal_time_coordinated\n'
                         f'a = {name}(np.datetime64("2024-06-20T10:00:00"), np.array([100], "i1"))\nb = {name}(np.datetime64("2024-06-20T10:00:00"), 100.)\nprint(a, b)\nassert a == b\n')
        for kl, lon in lons.items():
            for kt, tt in times.items():
                if kt == 'ns' or kl in ('f8', 'i1', 'scalar', 'square'):
                    one(f'{kt} times and {kl} longitudes', tt, slice(None), lon)
                    for i in range(3) if kt in ('ns', 's', 'text', 'madrid', 'timestamps') else ():
                        one(f'one of {kt} times and {kl} longitudes', tt[i], i, lon)


def task(ctx, what, *args):
    th = ctx.thorough
    if what == 'kinds':
        return kinds(ctx)
    y, x = space.LATS, space.LONS
    if what == 'tst':
        alg, eng = args
        fl, fo = space.product(y, x)
        n = len(space.EDGE)
        for tz in (None, 'Europe/Madrid', 'America/New_York', 'Australia/Lord_Howe', 'Pacific/Apia'):
            t = space.EDGE[space.EDGE < np.datetime64('2037')]
            check(ctx, 'regular_grid', t, y, x, alg, eng, tz, 'edge')
            check(ctx, 'sites', t, fl, fo, alg, eng, tz, 'edge')
            check(ctx, 'transect', np.repeat(t, fl.size), np.tile(fl, len(t)), np.tile(fo, len(t)), alg, eng, tz, 'edge')
        check(ctx, 'regular_grid', space.EDGE, y, x, alg, eng, None, 'edge')
        for uc, t, y, x in space.small():
            check(ctx, uc, t, y, x, alg, eng, None, 'small request')
        ends = space.dt('1678-01-02T00:00:00', '1700-02-28T23:59:59', '1800-12-31T23:59:59', '1899-12-31T23:59:59', '1900-03-01T00:00:00',
                        '2200-02-28T23:59:59', '2261-12-31T23:59:59')
        for uc in ('sites', 'regular_grid'):
            check(ctx, uc, ends, [0., 1.], [-180., 179.9], alg, eng, None, 'ends of the range')
        # every clock change of chosen zones
        for name in zones.NAMES if th else zones.NAMES_Q:
            us = np.array(sorted(zones.around(name))[:400])
            if us.size:
                t = us.astype('M8[s]')
                check(ctx, 'regular_grid', t, [40.], [-180., -3., 179.99], alg, eng, name, 'clock changes')
                check(ctx, 'transect', t, np.full(len(t), 40.), np.full(len(t), -3.), alg, eng, name, 'clock changes')
        # the day wrap of the solar time: every second around it at many longitudes
        lon = np.arange(-180, 180, 5. if th else 15.)
        c = np.datetime64('2024-02-29T00:00:00') - np.rint((4*lon)*60).astype('int64').astype('m8[s]')
        for j, xx in enumerate(lon):
            t = c[j] + np.arange(-1200, 1200, 1 if th else 30).astype('m8[s]')
            check(ctx, 'sites', t, [10.], [xx], alg, eng, None, 'day wrap')
        days = space.daterange('1950-01-01', '2101-01-01', 86400)
        k = np.arange(len(days))
        check(ctx, 'transect', days + (k*7919 % 86400).astype('m8[s]'), (k*37.7) % 180 - 90, (k*101.3) % 360 - 180, alg, eng, None, 'every day')
        ctx.sample(dict(alg=alg, eng=eng))
    else:
        kind = args[0]
        if kind in ('timestamp', 'datetime'):
            for t in space.EDGE:
                inverse(ctx, t, x, kind)
        else:
            inverse(ctx, space.EDGE, np.arange(-180, 180, 1. if th else 10.), kind)
            t = space.daterange('2024-01-01', '2025-01-02', 1801 if th else 7207)
            inverse(ctx, t, [-180., -179.99, -90., 0., 12.5, 179.99], kind)
            for y0 in (1950, 1999, 2000, 2023, 2049, 2100):
                t = np.concatenate([d + np.arange(0, 86400, 3599).astype('m8[s]') for d in space.edge_days([y0])])
                inverse(ctx, t, [-180., 0., 179.99], kind)
            if kind == 'ns':
                inverse(ctx, space.EDGE[::-1], x[:6], kind)
                for t in space.EDGE:
                    inverse(ctx, t, x, kind)
        if kind in ('timestamp', 'datetime'):
            for t in space.EDGE:
                helper(ctx, t, x, kind)
        else:
            helper(ctx, space.EDGE, x, kind)
            helper(ctx, space.EDGE, -3.5, kind)
            for n in range(1, 4):
                helper(ctx, space.EDGE[20:20+n], x[:3], kind)


def run(ctx):
    ctx.assume('the conversion to coordinated universal time uses the default algorithm (psa)')
    ctx.pmap('checks.c16', [('kinds',)] + [('tst', a, e) for a, e in drive.CONFIGS] +
             [('inverse', k) for k in ('ns', 's', 'index', 'list', 'timestamp', 'datetime')])
