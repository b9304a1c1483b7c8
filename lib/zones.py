"""Time zones of every provider, the instants around their clock changes, and wall clocks computed without pandas."""
import datetime as d
import zoneinfo

import dateutil.tz
import numpy as np
import pytz

UTC = d.timezone.utc
NAMES = ('Europe/Madrid', 'America/New_York', 'Australia/Lord_Howe', 'Asia/Kolkata', 'America/Sao_Paulo',
         'Pacific/Auckland', 'Pacific/Apia', 'Africa/Casablanca', 'UTC')
NAMES_Q = ('Europe/Madrid', 'America/New_York', 'Australia/Lord_Howe', 'Asia/Kolkata', 'UTC')

EVERY = sorted(n for n in zoneinfo.available_timezones() if n not in ('Factory', 'localtime') and n[:6] not in ('posix/', 'right/')
               and n in pytz.all_timezones_set)


def epoch(u):
    return d.datetime(1970, 1, 1, tzinfo=UTC) + d.timedelta(seconds=int(u))


def provider(kind, name):
    if kind == 'pytz':
        return pytz.timezone(name)
    if kind == 'zoneinfo':
        return zoneinfo.ZoneInfo(name)
    if kind == 'dateutil':
        return dateutil.tz.gettz(name)
    raise KeyError(kind)


FIXED = (d.timezone(d.timedelta(hours=2)), d.timezone(d.timedelta(hours=-5, minutes=-30)), pytz.FixedOffset(90),
         dateutil.tz.tzoffset(None, -12600), dateutil.tz.tzutc(), d.timezone.utc, pytz.utc)

PROVIDERS = ('pytz', 'zoneinfo', 'dateutil')


def offset(name, u):
    """utc offset in seconds by the system's zone database"""
    return int(epoch(u).astimezone(zoneinfo.ZoneInfo(name)).utcoffset().total_seconds())


def fixed_offset(tz):
    return int(tz.utcoffset(d.datetime(2024, 1, 1)).total_seconds())


def transitions(name, y0=2023, y1=2025):
    """unix seconds of the clock changes, found by bisection"""
    out = []
    a = int(d.datetime(y0, 1, 1, tzinfo=UTC).timestamp())
    end = int(d.datetime(y1, 1, 1, tzinfo=UTC).timestamp())
    while a < end:
        b = a + 86400
        if offset(name, a) != offset(name, b):
            lo, hi = a, b
            while hi - lo > 1:
                m = (lo + hi)//2
                if offset(name, m) == offset(name, lo):
                    lo = m
                else:
                    hi = m
            out.append(hi)
        a = b
    return out


def around(name, y0=2023, y1=2025):
    """instants before, at and after each clock change (fold hours visited twice, gap edges)"""
    out = []
    for t in transitions(name, y0, y1):
        for k in (-7200, -3601, -3600, -1800, -1, 0, 1, 1799, 3599, 3600, 5400, 7200):
            out.append(t + k)
    for iso in ('2024-01-01T00:00:00', '2024-02-29T23:59:59', '2024-06-20T20:51:00', '2024-12-31T23:59:59',
                '1969-12-31T23:59:59', '2000-02-29T12:00:00', '2023-03-20T06:30:00', '2036-12-01T10:11:12'):
        out.append(int(np.datetime64(iso, 's').astype('int64')))
    return np.array(out, dtype='int64')


def wall(us, off):
    """naive wall clock datetime64[s] for unix seconds and an offset function/list"""
    return np.array([u + off(u) for u in us], dtype='int64').astype('datetime64[s]')
