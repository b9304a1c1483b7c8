"""C06: Sunpos reports the caller's times, their UTC equivalents and their zone.

Oracle: wall clocks computed with datetime/zoneinfo (no pandas arithmetic) from the unix seconds of the request.
"""
import itertools

import numpy as np
import pandas as pd

from lib import drive, space, zones

LATS, LONS = np.array([10., -20.]), np.array([30., 40.])


def naive64(ix):
    return np.asarray(ix.tz_localize(None), 'M8[ns]')


def same(a, b):
    a, b = np.asarray(a, 'M8[ns]'), np.asarray(b, 'M8[ns]')
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnat(a) & np.isnat(b))))


def check(ctx, uc, label, times, us, off, zone, accessors=None, alg='psa', eng='numpy'):
    """us: unix ns (int) or None for NaT; off(u_s) -> seconds; zone: expected name, or tuple of accepted substrings"""
    n = len(us)
    utc = np.array([np.datetime64('NaT', 'ns') if u is None else np.datetime64(int(u), 'ns') for u in us], 'M8[ns]')
    wall = np.array([np.datetime64('NaT', 'ns') if u is None else np.datetime64(int(u + off(u//10**9)*10**9), 'ns')
                     for u in us], 'M8[ns]')
    la = np.tile(LATS, n)[:n] if uc == 'transect' else LATS
    lo = np.tile(LONS, n)[:n] if uc == 'transect' else LONS
    rep = (drive.PRELUDE + f's = sunwhere.{uc}({drive.src(times)[:2000]}, {drive.src(la)[:500]}, {drive.src(lo)[:500]})\n'
           f'# expected wall clock {[str(x) for x in wall[:6]]} zone {zone}\nprint(s.times, s.times_utc, s.timezone)\n')
    key = f'{uc}/{label}'
    ctx.cover(states=1, transitions=1, traces=n)
    sp = ctx.guarded(key, drive.call, uc, times, la, lo, alg, eng, True, repro=rep)
    if sp is None:
        return
    for attr in ('times', 'local_standard_time'):
        ix = pd.DatetimeIndex(getattr(sp, attr))
        if not same(naive64(ix), wall):
            ctx.fail(f'{key}/{attr}', f'{attr}: {naive64(ix)[:6]} expected wall clock {wall[:6]}', rep)
        if ix.tz is None:
            ctx.fail(f'{key}/{attr}', f'{attr} lost its time zone', rep)
        elif not same(naive64(ix.tz_convert('UTC')), utc):
            ctx.fail(f'{key}/{attr}', f'{attr} denotes {naive64(ix.tz_convert("UTC"))[:6]} UTC, expected {utc[:6]}', rep)
    ix = pd.DatetimeIndex(sp.times_utc)
    ix = ix.tz_localize('UTC') if ix.tz is None else ix
    if not same(naive64(ix), utc) or str(ix.tz) != 'UTC':
        ctx.fail(f'{key}/times_utc', f'times_utc {naive64(ix)[:6]} ({ix.tz}) expected {utc[:6]}', rep)
    name = sp.timezone
    ok = isinstance(name, str) and (name == zone if isinstance(zone, str) else any(z in name for z in zone))
    if not ok:
        ctx.fail(f'{key}/timezone', f'timezone is {name!r}, expected {zone!r}', rep)
    for acc, fn in (accessors or drive.BASIC):
        da = ctx.guarded(f'{key}/{acc}', fn, sp, repro=rep)
        if da is None:
            continue
        if 'time' not in da.dims:
            continue
        if 'time' not in da.coords or not same(da.coords['time'].values, wall):
            ctx.fail(f'{key}/{acc}.time', f'time coordinate of {acc}: '
                     f'{da.coords["time"].values[:6] if "time" in da.coords else None} expected {wall[:6]}', rep)


def run(ctx):
    th = ctx.thorough
    names = zones.NAMES if th else zones.NAMES_Q
    NS = 10**9
    ctx.assume('zone rules from the system zone database through zoneinfo')
    zero = lambda u: 0  # noqa: E731
    nat = None

    def index(us, tz=None):
        a = pd.DatetimeIndex(np.array([np.datetime64('NaT', 'ns') if u is nat else np.datetime64(int(u), 'ns') for u in us], 'M8[ns]'))
        return a if tz is None else a.tz_localize('UTC').tz_convert(tz)

    for uc in drive.USECASES:
        for name in names:
            base = [int(u)*NS for u in zones.around(name)]
            off = lambda u, name=name: zones.offset(name, u)  # noqa: E731
            cases = [('around', base), ('reversed', base[::-1]), ('interleaved', base[::2] + base[1::2]),
                     ('repeated', base[:5]*3), ('single', base[6:7]), ('missing', [nat] + base[:4] + [nat, nat] + base[4:9]),
                     ('sub-second', [u + k for u in base[:12] for k in (1, 123456789)])]
            for kind in zones.PROVIDERS:
                tz = zones.provider(kind, name)
                zn = name if kind != 'dateutil' else (name,)
                if name == 'UTC':
                    zn = 'UTC' if kind != 'dateutil' else ('UTC',)
                for label, us in cases:
                    acc = drive.ALL if (label in ('around', 'missing') and (th or kind == 'pytz')) else drive.BASIC
                    check(ctx, uc, f'{kind}/{label}', index(us, tz), us, off, zn, acc)
                # scalars and lists
                for u in base[::1 if th else 4]:
                    check(ctx, uc, f'{kind}/scalar Timestamp', index([u], tz)[0], [u], off, zn, drive.BASIC[:1])
                    check(ctx, uc, f'{kind}/scalar datetime', zones.epoch(u//NS).astimezone(tz), [u], off, zn, drive.BASIC[:1])
                check(ctx, uc, f'{kind}/list of datetime', [zones.epoch(u//NS).astimezone(tz) for u in base], base, off, zn)
                check(ctx, uc, f'{kind}/list of Timestamp', list(index(base, tz)), base, off, zn)
                check(ctx, uc, f'{kind}/unit s', index(base, tz).as_unit('s'), base, off, zn)
            # local mean times have offsets of any number of seconds
            us = [int(np.datetime64(x, 's').astype('int64'))*NS for x in ('1850-07-01T00:00:00', '1883-11-18T17:00:00', '1890-05-01T12:00:00', '1900-12-31T23:59:59',
                                                                          '1919-01-01T05:06:07', '1936-12-31T23:50:00')]
            for old in (name, 'Europe/Amsterdam', 'Africa/Monrovia'):
                check(ctx, uc, f'local mean time {old}', index(us, zones.provider('zoneinfo', old)), us, lambda u, old=old: zones.offset(old, u), old, drive.ALL)
            # every clock change since 1950
            if th:
                us = [int(u)*NS for u in zones.around(name, 1950, 2038)]
                check(ctx, uc, 'zoneinfo/1950-2038', index(us, zones.provider('zoneinfo', name)), us, off, name)
        edge = [int(x)*NS for x in space.EDGE.astype('int64')]
        for tz in zones.FIXED:
            o = zones.fixed_offset(tz)
            off = lambda u, o=o: o  # noqa: E731
            h = f'{abs(o)//3600:02d}:{abs(o)//60 % 60:02d}'
            zn = ('UTC', 'utc') if o == 0 else (h, str(o//60), str(o))
            for label, us in (('edge', edge), ('reversed', edge[::-1]), ('missing', [nat] + edge[:3] + [nat])):
                check(ctx, uc, f'fixed {tz!r}/{label}', index(us, tz), us, off, zn, drive.ALL if label == 'edge' else None)
        # naive times mean UTC
        for label, us in (('edge', edge), ('reversed', edge[::-1]), ('missing', edge[:3] + [nat] + edge[3:5] + [nat])):
            ix = index(us)
            forms = [('DatetimeIndex', ix), ('array ns', ix.values.astype('M8[ns]')), ('list of Timestamp', list(ix)),
                     ('DatetimeIndex[s]', ix.as_unit('s')), ('array s', ix.values.astype('M8[s]'))]
            if nat not in us:
                forms += [('list of datetime', [x.to_pydatetime() for x in ix]), ('list of str', [x.isoformat() for x in ix]),
                          ('array us', ix.values.astype('M8[us]'))]
            for form, v in forms:
                check(ctx, uc, f'naive {form}/{label}', v, us, zero, 'UTC', drive.ALL if form == 'DatetimeIndex' else None)
        # all orders of four instants across a clock change
        name = 'Europe/Madrid'
        tr = [t for t in zones.transitions(name, 2024, 2025)][1]
        four = [(tr + k)*NS for k in (-1800, 1800, -86400, 86400)]
        off = lambda u: zones.offset('Europe/Madrid', u)  # noqa: E731
        for perm in itertools.permutations(four):
            check(ctx, uc, 'orders', index(perm, zones.provider('zoneinfo', name)), list(perm), off, name)
        for alg, eng in drive.CONFIGS:
            us = edge[:10] + [nat]
            check(ctx, uc, f'{alg}/{eng}', index(us, 'Asia/Tokyo'), us, lambda u: zones.offset('Asia/Tokyo', u), 'Asia/Tokyo',
                  drive.ALL, alg, eng)
        # instants beyond the range of nanoseconds
        for iso in ('-2000-06-01T12:00:00', '0001-01-01T00:00:00', '1500-07-01T03:04:05', '2300-01-01T00:00:00',
                    '3000-06-01T12:00:00', '6000-12-31T23:59:59'):
            far(ctx, uc, iso)
    ctx.pmap('checks.c06', [(list(zones.EVERY[i::16]),) for i in range(16)])
    ctx.sample(dict(zones=list(names), providers=list(zones.PROVIDERS)))


def task(ctx, names):
    """every zone of the database, in both halves of the year, through both providers of zones"""
    us = [int(np.datetime64(x, 's').astype('int64'))*10**9 for x in ('2024-01-15T03:30:00', '2024-07-15T21:05:59', '2010-07-01T12:00:00', '1999-12-31T23:59:59')]
    ix = pd.DatetimeIndex(np.array(us, 'M8[ns]')).tz_localize('UTC')
    for k, name in enumerate(names):
        off = lambda u: zones.offset(name, u)   # noqa: E731
        for i, kind in enumerate(('zoneinfo', 'pytz')):
            tz = zones.provider(kind, name)
            if any(int(tz.utcoffset(x.tz_convert(tz).to_pydatetime().replace(tzinfo=None)).total_seconds()) != off(x.timestamp()) for x in ix):
                continue    # another edition of the database
            uc = drive.USECASES[(k + i) % 3]
            acc = [v for v in drive.ALL if v[0] in ('zenith', 'eot', 'sunrise_local', 'sunset_local', 'true_solar_time', 'incidence_35_-50')] or drive.BASIC
            check(ctx, uc, f'every zone/{kind}/{name}', ix.tz_convert(tz), us, off, name if name != 'UTC' else 'UTC', acc)
            check(ctx, uc, f'every zone/{kind}/{name}/scalar', ix[1].tz_convert(tz), us[1:2], off, name, drive.BASIC[:1])


def far(ctx, uc, iso):
    t = np.array([iso], 'M8[s]')
    ctx.cover(states=1, transitions=1, traces=1)
    key = f'far/{uc}/{iso}'
    rep = (drive.PRELUDE + f's = {drive.call_src(uc, t, [10.], [30.], "nrel")}\nprint(s.times, s.eot.time.values)\n'
           f'assert s.times.tz_localize(None).values.astype("M8[s]")[0] == np.datetime64("{iso}")\n')
    try:
        sp = drive.call(uc, t, LATS[:1], LONS[:1], 'nrel', 'numexpr', True)
        got = np.asarray(sp.times.tz_localize(None).values).astype('M8[s]')
        coord = sp.eot.time.values.astype('M8[s]')
    except Exception as exc:   # refusing such times would be an answer; silently wrong times are not
        ctx.sample(dict(far=iso, refused=repr(exc)[:80]))
        return
    if got[0] != t[0] or coord[0] != t[0]:
        ctx.fail(key, f'times {got[0]}, coordinate {coord[0]} for the request {t[0]}', rep)
