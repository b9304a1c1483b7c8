"""C05: results depend only on the instants, not on how the times are written.

State = (use case, representation, instants). Every representation of every instant list is driven through every use
case and compared with the position of the same unix seconds by the reference models (lib/model.py).
"""
import datetime as d

import numpy as np
import pandas as pd

from lib import drive, model, space, zones

TOL = 2e-5


def naive(u):
    return zones.epoch(u).replace(tzinfo=None)


def scalar_forms(u, mixed_ok=True):
    """(label, value) all denoting unix second u, naive meaning UTC"""
    n = naive(u)
    iso = n.isoformat()
    m = np.datetime64(int(u), 's')
    yield 'str', iso
    yield 'str-space', iso.replace('T', ' ')
    yield 'str-Z', iso + 'Z'
    yield 'str+05:30', zones.epoch(u).astimezone(d.timezone(d.timedelta(hours=5, minutes=30))).isoformat()
    yield 'str-03:00', zones.epoch(u).astimezone(d.timezone(d.timedelta(hours=-3))).isoformat()
    yield 'datetime', n
    yield 'datetime+utc', zones.epoch(u)
    yield 'Timestamp', pd.Timestamp(n)
    yield 'Timestamp+utc', pd.Timestamp(zones.epoch(u))
    for unit in ('s', 'ms', 'us', 'ns'):
        yield f'datetime64[{unit}]', m.astype(f'M8[{unit}]')
        yield f'Timestamp.{unit}', pd.Timestamp(n).as_unit(unit)
    for unit in ('m', 'h', 'D'):
        if m.astype(f'M8[{unit}]').astype('M8[s]') == m:
            yield f'datetime64[{unit}]', m.astype(f'M8[{unit}]')
    if u % 86400 == 0:
        yield 'date', n.date()
        yield 'str-date', str(n.date())
    for tz in zones.FIXED:
        yield f'datetime+{tz!r}', zones.epoch(u).astimezone(tz)
        yield f'Timestamp+{tz!r}', pd.Timestamp(zones.epoch(u)).tz_convert(tz)


def zoned_forms(u, names):
    for name in names:
        for kind in zones.PROVIDERS:
            tz = zones.provider(kind, name)
            yield f'datetime+{kind}:{name}', zones.epoch(u).astimezone(tz)
            yield f'Timestamp+{kind}:{name}', pd.Timestamp(zones.epoch(u)).tz_convert(tz)


def sequence_forms(us, names):
    ns = [naive(u) for u in us]
    m = np.array(us, 'int64').astype('M8[s]')
    ix = pd.DatetimeIndex(m)
    aware = [zones.epoch(u) for u in us]
    yield 'list of str', [n.isoformat() for n in ns]
    yield 'tuple of str', tuple(n.isoformat() for n in ns)
    yield 'list of str Z', [n.isoformat() + 'Z' for n in ns]
    yield 'array of str', np.array([n.isoformat() for n in ns])
    yield 'list of datetime', ns
    yield 'tuple of datetime', tuple(ns)
    yield 'list of datetime+utc', aware
    yield 'list of Timestamp', [pd.Timestamp(n) for n in ns]
    yield 'list of datetime64', [x for x in m]
    yield 'object array of datetime', np.array(ns, dtype=object)
    yield 'object Index', pd.Index(ns, dtype=object)
    for unit in ('s', 'ms', 'us', 'ns'):
        yield f'array datetime64[{unit}]', m.astype(f'M8[{unit}]')
        yield f'DatetimeIndex[{unit}]', ix.as_unit(unit)
        yield f'DatetimeIndex[{unit}]+utc', ix.as_unit(unit).tz_localize('UTC')
    yield 'array datetime64 strided', np.repeat(m, 2)[::2]
    yield 'array datetime64 big endian', m.astype('>M8[s]')
    yield 'read-only array', _readonly(m.copy())
    for unit in ('m', 'h', 'D'):
        if (m.astype(f'M8[{unit}]').astype('M8[s]') == m).all():
            yield f'array datetime64[{unit}]', m.astype(f'M8[{unit}]')
    for tz in zones.FIXED:
        yield f'DatetimeIndex+{tz!r}', ix.tz_localize('UTC').tz_convert(tz)
        yield f'list of datetime+{tz!r}', [a.astimezone(tz) for a in aware]
    for name in names:
        for kind in zones.PROVIDERS:
            tz = zones.provider(kind, name)
            z = ix.tz_localize('UTC').tz_convert(tz)
            yield f'DatetimeIndex+{kind}:{name}', z
            yield f'DatetimeIndex[s]+{kind}:{name}', z.as_unit('s')
            yield f'list of datetime+{kind}:{name}', [a.astimezone(tz) for a in aware]
            yield f'list of Timestamp+{kind}:{name}', list(z)


def _readonly(a):
    a.flags.writeable = False
    return a


def run(ctx):
    ctx.assume('zone rules come from the system zone database through zoneinfo, not from pandas',
               'dateutil zones are used up to 2036 (pandas reads their rules up to 2037)')
    parts = ('scalars', 'zoned scalars', 'sequences', 'clock changes', 'sub-second', 'every zone')
    ctx.pmap('checks.c05', [(p, uc) for p in parts for uc in drive.USECASES])
    ctx.sample(dict(representations=len(list(sequence_forms([0, 3600], zones.NAMES_Q))), zones=list(zones.NAMES_Q)))


def task(ctx, part, uc):
    th = ctx.thorough
    names = zones.NAMES if th else zones.NAMES_Q
    lats, lons = np.array([41.3, -33.9]), np.array([2.1, 151.2])

    def check(form, value, us, uc, alg, eng, tol_s=0):
        us = np.asarray(us, 'float64')
        n = len(us)
        if uc == 'transect':
            la, lo = np.tile(lats, n)[:n], np.tile(lons, n)[:n]
            mla, mlo = la, lo
        elif uc == 'sites':
            la, lo = lats, lons
            mla, mlo = la[None], lo[None]
        else:
            la, lo = lats, lons
            mla, mlo = la[None, :, None], lo[None, None, :]
        key = f'{uc}/{form}'
        what = f'{drive.src(value)[:300]}'
        rep = (drive.PRELUDE + 'import datetime, pytz, zoneinfo, dateutil.tz\n'
               f'# {uc} {alg} {eng}: {what}, equivalent to unix seconds {us.tolist()[:10]}\n')
        g = ctx.guarded(key, drive.run, uc, value, la, lo, alg, eng, False, repro=rep)
        ctx.cover(states=1, transitions=1, traces=n)
        if g is None:
            return
        q = model.EPHEM[alg](us)
        zen, azi = model.position(alg, us, mla, mlo, False, q)
        if g['zenith'].shape != zen.shape:
            ctx.fail(key, f'{what}: shape {g["zenith"].shape}, expected {zen.shape}', rep)
            return
        s = drive.sep(g['zenith'], g['azimuth'], zen, azi)
        s = np.where(np.isnan(s), np.inf, s)
        lim = TOL + 0.00419*tol_s
        if s.max() > lim:
            ctx.fail(key, f'{uc}({what}) is {s.max():.5f} degrees away from the position at unix seconds '
                     f'{us[np.unravel_index(np.argmax(s), s.shape)[0]]:.3f}', rep)
        for var, k, tol in (('declination', 'dec', TOL), ('eot', 'eot', 4*TOL), ('ecf', 'ecf', 1e-7)):
            w = drive.worst(g[var], q[k], tol + (0. if not tol_s else 1e-5))
            if w:
                ctx.fail(key + '/' + var, f'{uc}({what}): {var} {w[1]}', rep)

    configs = drive.CONFIGS if th else [('nrel', 'numexpr')]
    fast = ('psa', 'numexpr')
    insts = [int(x) for x in space.EDGE.astype('int64')]
    # pandas' view of dateutil zones ends in 2037
    to2037 = [u for u in insts if u < 2114380800]
    if part == 'scalars':      # every form of every edge instant
        for u in insts:
            for form, v in scalar_forms(u):
                check('scalar ' + form, v, [u], uc, *fast)
    if part == 'zoned scalars':
        for name in names:
            for u in zones.around(name):
                for form, v in zoned_forms(int(u), [name]):
                    check('scalar ' + form, v, [u], uc, *fast)
    if part == 'sequences':
        midnights = [int(x) for x in space.edge_days([2023, 2024]).astype('int64')]
        hours = [u*3600 + 473352*3600 for u in range(5)]
        for us in ([insts[22]], to2037, to2037[::-1], midnights, hours, [insts[3]]*3):
            for form, v in sequence_forms(us, names):
                for alg, eng in (configs if len(us) > 5 else [fast]):
                    check('sequence ' + form, v, us, uc, alg, eng)
        for form, v in sequence_forms(insts, ()):
            check('sequence to 2100 ' + form, v, insts, uc, *fast)
        days = [d.date(2024, 2, 28 + k) for k in range(2)]
        us = [int(np.datetime64(x, 's').astype('int64')) for x in days]
        check('list of date', days, us, uc, *fast)
        check('date_range', pd.date_range('2024-02-28', periods=2, freq='D'), us, uc, *fast)
        check('date_range+zone', pd.date_range('2024-02-28 01:00', periods=2, freq='D', tz='Europe/Madrid'), us, uc, *fast)
    if part == 'clock changes':
        for name in names:
            us = zones.around(name)
            for form, v in sequence_forms(us, [name]):
                for alg, eng in drive.CONFIGS:
                    check('clock changes ' + form, v, us, uc, alg, eng)
    if part == 'every zone':
        us = [int(np.datetime64(x, 's').astype('int64')) for x in ('2024-01-15T03:30:00', '2024-07-15T21:05:59', '2010-07-01T12:00:00', '1999-12-31T23:59:59')]
        ix = pd.DatetimeIndex(np.array(us, 'M8[s]')).tz_localize('UTC')
        for name in zones.EVERY:
            check(f'every zone {name}', ix.tz_convert(zones.provider('zoneinfo', name)), us, uc, *fast)
            check(f'every zone {name} list', [x.to_pydatetime() for x in ix.tz_convert(zones.provider('pytz', name))], us, uc, *fast)
            wall = ix.tz_convert(zones.provider('zoneinfo', name))
            for u, x in zip(us, wall):
                check(f'every zone {name} string', x.isoformat(), [u], uc, *fast)
    if part == 'sub-second':   # never move the instant by more than one second, and all forms alike
        for u in insts:
            for frac in (1, 400_000_000, 500_000_000, 999_999_999):
                ns = np.datetime64(int(u)*10**9 + frac, 'ns')
                forms = dict(subseconds(ns))
                for form, v in forms.items():
                    check('sub-second ' + form, v, [u + frac/1e9], uc, *fast, tol_s=1)
        for alg, eng in drive.CONFIGS if th else [fast, ('nrel', 'numexpr')]:
            us = np.array(insts)[:, None]*10**9 + np.array([1, 400_000_000, 500_000_000, 999_999_999])
            for ns in (us.ravel()[::-1], *(us[k:k+1, j] for k in (3, 22) for j in range(4))):
                ns = ns.astype('M8[ns]')
                n = len(ns)
                la, lo = (np.resize(lats, n), np.resize(lons, n)) if uc == 'transect' else (lats, lons)
                first = None
                for form, v in subseconds(ns):
                    g = ctx.guarded(f'{uc}/sub-seconds {form}', drive.run, uc, v, la, lo, alg, eng, False)
                    if g is None:
                        continue
                    ctx.cover(states=1, transitions=n, traces=1)
                    first = first or (form, g)
                    for var, x in g.items():
                        w = drive.worst(x, first[1][var], TOL) if var != 'azimuth' else None
                        if w:
                            ctx.fail(f'{uc}/sub-seconds {form}/{var}', f'{uc} of instants with fractions of a second: {var} of {form} differs from that of {first[0]}: {w[1]} at {w[0]}',
                                     drive.PRELUDE + "t = pd.DatetimeIndex(['2024-06-01 10:00:00.7', '2024-06-01 15:10:11.9'])\n"
                                     "for z in ('UTC', 'Europe/Madrid'):\n    for f in (lambda i: i, list, lambda i: [str(x) for x in i]):\n"
                                     f"        g = sunwhere.{uc}(f(t.tz_localize('UTC').tz_convert(z)), [10., 20.], [20., 30.])\n"
                                     f"        assert abs(g.zenith.values - sunwhere.{uc}(t, [10., 20.], [20., 30.]).zenith.values).max() < 1e-9\n")


def subseconds(ns):
    """ways of writing one instant, or a sequence of them, with a fraction of a second"""
    one = np.ndim(ns) == 0
    ix = pd.DatetimeIndex(np.atleast_1d(ns))
    wrap = (lambda v: v[0]) if one else (lambda v: v)
    yield 'datetime64[ns]', ns
    yield 'DatetimeIndex', ix
    yield 'Timestamp', wrap(list(ix))
    yield 'str', wrap([str(x) for x in np.atleast_1d(ns)])
    yield 'datetime', wrap([x.floor('us').to_pydatetime() for x in ix])
    yield 'datetime64[us]', wrap(np.atleast_1d(ns).astype('M8[us]'))
    for name in ('UTC', 'Europe/Madrid', 'Asia/Kolkata'):
        z = ix.tz_localize('UTC').tz_convert(name)
        yield f'DatetimeIndex+{name}', z
        yield f'DatetimeIndex[us]+{name}', z.as_unit('us')
        yield f'Timestamp+{name}', wrap(list(z))
        yield f'datetime+{name}', wrap([x.floor('us').to_pydatetime() for x in z.tz_convert('UTC')] if name == 'UTC' else
                                       [x.to_pydatetime(warn=False) for x in z])
