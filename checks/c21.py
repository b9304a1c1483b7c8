"""C21: Horizons ephemerides are requested, parsed and cached faithfully.

The module runs unmodified against a stand-in for the service (the HTTP layer of urllib3 is replaced, nothing leaves the
process) in a scratch directory. All failure and truncation points of the twelve downloads, all crash points (before every
executed source line of the module, and in the middle of every write) and pairs of them are enumerated, each followed
by a retry.
"""
import builtins
import contextlib
import io
import os
import pickle
import re
import shutil
import sys
import tempfile
import urllib.parse
from pathlib import Path

import numpy as np
import pandas as pd
import urllib3
import urllib3.connectionpool as pool
from loguru import logger

from lib import mc

logger.remove()         # the module logs every request
LIMIT = 90024
MOD = os.path.join(mc.SRC, 'sunwhere', 'utils', 'jpl_horizons.py')


class Crash(BaseException):
    """the process dies here"""


def jpl():
    from sunwhere.utils import jpl_horizons
    return jpl_horizons


HEAD = '''*******************************************************************************
Ephemeris / API_USER Sun (10) 2024-Jan-01
 Date__(UT)__HR:MN:SS     Date_________JDUT     Azi____(a-app)___Elev             delta
*******************************************************************************
$$SOE
'''
TAIL = '''$$EOE
*******************************************************************************
Column meaning: $$SOE and $$EOE delimit the table
'''
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']


def values(u, lon, lat):
    """arbitrary but position- and time-dependent columns"""
    az = np.round((u*0.01 + lon*3 + 777) % 360, 6)
    el = np.round((u*0.003 + lat*7) % 180 - 90, 6)
    r = 0.983 + np.round((u % 9973)/9973*0.034, 14)
    return az, el, r


def row(t, az, el, r, mark='*m'):
    t = pd.Timestamp(t)
    jd = t.to_julian_date()
    return f' {t.year:04d}-{MON[t.month - 1]}-{t.day:02d} {t:%H:%M:%S} {jd:17.9f} {mark:2s} {az:11.6f} {el:11.6f} {r:17.14f}\n'


class Service:
    """stand-in for ssd.jpl.nasa.gov; faults: {request number: fault}"""

    def __init__(self, faults=None, every=1):
        self.faults, self.every = dict(faults or {}), every
        self.requests = []
        self.n = 0

    def urlopen(self, conn, method, url, *a, **kw):
        q = urllib.parse.parse_qs(urllib.parse.urlsplit(url).query, keep_blank_values=True)
        body = kw.get('fields') or {}
        p = {k: v[-1].strip().strip("'") for k, v in {**q, **{k: [v] for k, v in dict(body).items()}}.items()}
        p['_host'] = conn.host
        p['_path'] = urllib.parse.urlsplit(url).path
        p['_scheme'] = conn.scheme
        self.requests.append(p)
        fault = self.faults.get(self.n)
        self.n += 1
        if fault is None:
            return self.reply(self.table(p))
        return fault(self, p)

    def expected(self, p):
        m = re.match(r'^\s*(\d+)\s*(MINUTES|MINUTE|MIN|M|HOURS|HOUR|H|DAYS|DAY|D)\s*$', p['STEP_SIZE'].upper())
        step = int(m.group(1))*dict(M=60, H=3600, D=86400)[m.group(2)[0]]
        t0, t1 = (np.datetime64(pd.Timestamp(p[k]), 's').astype('int64') for k in ('START_TIME', 'STOP_TIME'))
        return np.arange(t0, t1 + 1, step*self.every)

    def table(self, p):
        u = self.expected(p)
        lon, lat = (float(v) for v in p['SITE_COORD'].split(',')[:2])
        az, el, r = values(u, lon, lat)
        return HEAD + ''.join(row(np.datetime64(int(t), 's'), *c) for t, *c in zip(u, az, el, r)) + TAIL

    def reply(self, text, status=200):
        data = text.encode()
        return urllib3.HTTPResponse(body=io.BytesIO(data), status=status, preload_content=True, headers={'content-type': 'text/plain'})


def raising(exc):
    def fault(svc, p):
        raise exc
    return fault


def status(code, text=None):
    return lambda svc, p: svc.reply('error: service unavailable\n' if text is None else svc.table(p), code)


def cut(f, end='line'):
    """the body stops after the fraction f (at a line end or in the middle of a line)"""
    def fault(svc, p):
        t = svc.table(p)
        body = t[:t.index('$$EOE')]
        if f == 'empty':
            return svc.reply('')
        if f == 'head':
            return svc.reply(HEAD.replace('$$SOE\n', ''))
        if f == 'soe':
            return svc.reply(HEAD)
        if f == 'rows':
            return svc.reply(body)
        if f == 'eo':
            return svc.reply(body + '$$EO')
        i = int(len(HEAD) + (len(body) - len(HEAD))*f)
        i = body.rindex('\n', 0, i) + 1 if end == 'line' else i
        return svc.reply(body[:i])
    return fault


FAULTS = dict(
    refused=raising(urllib3.exceptions.MaxRetryError(None, 'horizons.api', 'refused')),
    timeout=raising(urllib3.exceptions.ReadTimeoutError(None, 'horizons.api', 'timeout')),
    reset=raising(urllib3.exceptions.ProtocolError('connection broken')),
    crash=raising(Crash()),
    e500=status(500), e503=status(503), e404=status(404), e500table=status(503, 'table'), message=lambda svc, p: svc.reply('No ephemeris for target "Sun"\n'),
    empty=cut('empty'), head=cut('head'), soe=cut('soe'), row1=cut(0.3), row2=cut(0.7), mid1=cut(0.4, 'mid'), mid2=cut(0.93, 'mid'), rows=cut('rows'), eo=cut('eo'))


class Disk:
    """crashes in the middle of the k-th write, after a part of the data reached the file"""

    def __init__(self, k=None, part=0.5):
        self.k, self.part, self.n = k, part, 0

    def wrap(self, f):
        disk, orig = self, f.write

        class Writer:
            def write(self, data):
                n = disk.n
                disk.n += 1
                if n == disk.k:
                    orig(data[:int(len(data)*disk.part)])
                    f.flush()
                    raise Crash
                return orig(data)

            def __getattr__(self, name):
                return getattr(f, name)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                f.close()

            def __iter__(self):
                return iter(f)
        return Writer()


def to_parquet(df, path, *a, **kw):
    blob = pickle.dumps(df)
    with open(path, 'wb') as f:
        f.write(blob)


def read_parquet(path, *a, **kw):
    with open(path, 'rb') as f:
        return pickle.loads(f.read())


@contextlib.contextmanager
def world(svc, disk=None):
    disk = disk or Disk()
    saved = (pool.HTTPConnectionPool.urlopen, io.open, builtins.open, pd.DataFrame.to_parquet, pd.read_parquet)
    here = os.path.realpath(os.getcwd())
    real = io.open

    def opener(file, mode='r', *a, **kw):
        f = real(file, mode, *a, **kw)
        if any(c in mode for c in 'wax+') and isinstance(file, (str, os.PathLike)) and os.path.realpath(file).startswith(here):
            return disk.wrap(f)
        return f
    pool.HTTPConnectionPool.urlopen = lambda self, method, url, *a, **kw: svc.urlopen(self, method, url, *a, **kw)
    io.open = builtins.open = opener
    pd.DataFrame.to_parquet = to_parquet
    pd.read_parquet = read_parquet
    try:
        yield
    finally:
        pool.HTTPConnectionPool.urlopen, io.open, builtins.open, pd.DataFrame.to_parquet, pd.read_parquet = saved


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='c21-')
    old = os.getcwd()
    os.chdir(d)
    try:
        yield Path(d)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- expectations

def year_times(year, every):
    t = []
    for m in range(1, 13):
        a = np.datetime64(f'{year}-{m:02d}', 'M')
        n = int(((a + 1).astype('M8[s]') - a.astype('M8[s]')).astype(int))
        t.append(a.astype('M8[s]').astype('int64') + np.arange(0, n, 720*every))
    return np.concatenate(t)


def incomplete(df, year, lon, lat, every):
    """None if the table is the year's ephemeris"""
    u = year_times(year, every)
    if df.index.tz is None or str(df.index.tz) not in ('UTC', 'utc', 'datetime.timezone.utc'):
        return f'index in zone {df.index.tz}'
    g = df.index.tz_convert('UTC').tz_localize(None).values.astype('M8[s]').astype('int64')
    if len(g) != len(u) or not np.array_equal(np.sort(g), u):
        miss, dup = len(np.setdiff1d(u, g)), len(g) - len(np.unique(g))
        return f'{len(g)} rows instead of {len(u)} ({miss} instants missing, {dup} repeated, {len(np.setdiff1d(g, u))} unexpected)'
    az, el, r = values(g, round(lon, 6), round(lat, 6))
    return wrong_columns(df, az, el, r)


def wrong_columns(df, az, el, r):
    for c, e in (('azimuth', az - 180), ('zenith', 90 - el), ('ecf', 1/r**2)):
        if c not in df:
            return f'no column {c}'
        if df[c].shape != e.shape:
            return f'column {c} of shape {df[c].shape} instead of {e.shape}'
        d = np.abs(df[c].to_numpy(float) - e)
        if not (d < 1e-8).all():
            k = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
            return f'{c} = {df[c].iloc[k]!r} instead of {e[k]!r} at {df.index[k]}'
    return None


def attempt(svc, disk=None, year=2024, lon=-3.822, lat=36.949, tracer=None):
    """-> ('ok', table) | ('raises', exc)"""
    with world(svc, disk):
        try:
            if tracer:
                sys.settrace(tracer)
            return 'ok', jpl().load_jpl_ephemeris(year, lon, lat)
        except Crash as exc:
            return 'crash', exc
        except Exception as exc:
            return 'raises', exc
        finally:
            sys.settrace(None)


EVERY = 1860     # rows in the fault runs: two or three per month


def history(ctx, key, what, steps, year=2024, lon=-3.822, lat=36.949):
    """failing attempts in one directory, then a retry without faults, then the cache"""
    with scratch():
        for i, (faults, disk, tracer) in enumerate(steps):
            svc = Service(faults, EVERY)
            res, val = attempt(svc, disk, year, lon, lat, tracer)
            ctx.cover(states=1, transitions=svc.n)
            if res == 'ok':
                w = incomplete(val, year, lon, lat, EVERY)
                if w:
                    ctx.fail(f'{key}/silent', f'{what}: attempt {i} returns an incomplete ephemeris: {w}')
        svc = Service(every=EVERY)
        res, val = attempt(svc, None, year, lon, lat)
        ctx.cover(states=1, transitions=svc.n, traces=1)
        if res != 'ok':
            ctx.fail(f'{key}/retry', f'{what}: the retry fails: {val!r}')
            return
        w = incomplete(val, year, lon, lat, EVERY)
        if w:
            ctx.fail(f'{key}/retry', f'{what}: the retry returns a wrong ephemeris: {w}')
            return
        svc = Service({k: FAULTS['refused'] for k in range(20)}, EVERY)
        res, again = attempt(svc, None, year, lon, lat)
        if res != 'ok' or incomplete(again, year, lon, lat, EVERY):
            ctx.fail(f'{key}/cache', f'{what}: reading the cache after the retry: {again if res != "ok" else incomplete(again, year, lon, lat, EVERY)!r}')


class LineCrash:
    """crash before the k-th line the module executes"""

    def __init__(self, k):
        self.k, self.n = k, 0

    def __call__(self, frame, event, arg):
        return self.local if frame.f_code.co_filename == MOD else None

    def local(self, frame, event, arg):
        if event == 'line':
            n = self.n
            self.n += 1
            if n == self.k:
                raise Crash
        return self.local


# ---------------------------------------------------------------- parts

def t_requests(ctx):
    get = jpl().get_jpl_ephemeris
    cases = []
    sites = [(-3.822, 36.949, 0.), (-180., -90., 0.), (179.999999, 90., 2.5), (0., 0., 0.667), (0.1234567, -0.5, -0.05), (151.25, -33.5, 0.),
             (-122.419416, 37.774929, 0.052), (-179.999999, -89.999999, 8.848), (1e-6, -1e-6, 0.001), (10.000001, 9.999999, 12.345), (100.123456, -12.345678, 0.1)]
    starts = ['2024-01-01 00:00', '2023-12-31 23:59', '2024-02-28 22:30', '2000-02-29 12:00', '1950-06-15 06:07', '2099-10-31 00:00']
    for i, s0 in enumerate(starts):
        for step in (1, 2, 7, 12, 60, 1440):
            for n in (1, 2, 3, 25):
                for site in (sites if n == 3 and step in (1, 12, 60) else sites[i:i+1]):
                    cases.append((pd.Timestamp(s0), step, n, site))
    for (t0, step, n, (lon, lat, elev)) in cases:
        t1 = t0 + pd.Timedelta(minutes=step*(n - 1))
        for extra in (0, 1) if step > 1 else (0,):
            one_request(ctx, get, t0, t1 + pd.Timedelta(minutes=extra), lon, lat, elev, step)
    # argument types
    t0, t1 = '2024-03-01 00:00', '2024-03-01 01:00'
    for a, b in ((t0, t1), (pd.Timestamp(t0), pd.Timestamp(t1)), (np.datetime64(t0), np.datetime64(t1)), (pd.Timestamp(t0).to_pydatetime(), pd.Timestamp(t1).to_pydatetime())):
        one_request(ctx, get, a, b, 1., 2., 0., 5)
    # the line limit
    for step in (1, 2, 5, 12, 60):
        for d in (-2, -1, 0, 1, 2, 1000):
            n = LIMIT + d
            t0 = pd.Timestamp('2000-01-01 00:00')
            t1 = t0 + pd.Timedelta(minutes=step*(n - 1))
            for extra in ((0, step - 1) if step > 1 else (0,)):
                svc = Service({0: lambda svc, p: svc.reply(HEAD + TAIL)})
                with scratch(), world(svc):
                    try:
                        get('out.txt', t0, t1 + pd.Timedelta(minutes=extra), 1., 2., step_size=step)
                        ok = True
                    except ValueError:
                        ok = False
                    left = os.path.exists('out.txt')
                ctx.cover(states=1, transitions=1, traces=1)
                if ok != (n <= LIMIT) or (not ok and (svc.n or left)):
                    ctx.fail('limit', f'a request of {n} lines (step {step} minutes, limit {LIMIT}) is {"accepted" if ok else "refused"}, '
                             f'{svc.n} requests were sent, file left: {left}')


def one_request(ctx, get, t0, t1, lon, lat, elev, step):
    svc = Service()
    with scratch(), world(svc):
        out = Path('a/b/out.txt')
        try:
            got = get(out, t0, t1, lon, lat, site_elev=elev, step_size=step)
        except Exception as exc:
            ctx.fail('request/raises', f'get_jpl_ephemeris({t0}, {t1}, {lon}, {lat}, {elev}, step_size={step}) raises {exc!r}')
            return
        ctx.cover(states=1, transitions=1, traces=1)
        text = out.read_text() if out.exists() else None
    if svc.n != 1 or Path(got) != out or text is None:
        ctx.fail('request/file', f'{svc.n} requests, returned {got!r}, file written: {text is not None}')
        return
    p = svc.requests[0]
    what = f'get_jpl_ephemeris({t0}, {t1}, {lon}, {lat}, {elev}, step_size={step}) asks for {p}'
    if text != svc.table(p):
        ctx.fail('request/content', 'the file does not contain the reply of the service')
    exp = {'COMMAND': '10', 'MAKE_EPHEM': 'YES', 'EPHEM_TYPE': 'OBSERVER', 'CENTER': 'coord@399', 'COORD_TYPE': 'GEODETIC', 'QUANTITIES': '4,20',
           'ANG_FORMAT': 'DEG', 'RANGE_UNITS': 'AU', 'APPARENT': 'AIRLESS', 'SKIP_DAYLT': 'NO', 'format': 'text', 'CSV_FORMAT': 'NO',
           'CAL_FORMAT': 'BOTH', 'TIME_DIGITS': 'SECONDS', 'SUPPRESS_RANGE_RATE': 'YES', 'R_T_S_ONLY': 'NO'}
    for k, v in exp.items():
        if p.get(k, '').upper() != v.upper():
            ctx.fail(f'request/{k}', f'{k}={p.get(k)!r} instead of {v!r}: {what}')
    if pd.Timestamp(p['START_TIME']) != pd.Timestamp(t0) or pd.Timestamp(p['STOP_TIME']) != pd.Timestamp(t1):
        ctx.fail('request/interval', what)
    if not re.match(rf'^{step}\s*M', p['STEP_SIZE'].upper()):
        ctx.fail('request/step', what)
    c = [float(v) for v in p['SITE_COORD'].split(',')]
    if len(c) != 3 or abs(c[0] - lon) > 1e-6 or abs(c[1] - lat) > 1e-6 or abs(c[2] - elev) > 1e-3:
        ctx.fail('request/site', what)
    if p['_host'] != 'ssd.jpl.nasa.gov' or p['_path'] != '/api/horizons.api' or p['_scheme'] != 'https':
        ctx.fail('request/server', what)


def t_parse(ctx):
    """all tables with one to three rows over an alphabet of edge rows, and a long one"""
    import itertools
    AZ, EL, R = [0., 0.000001, 179.999999, 180., 180.000001, 359.999999, 253.482139], [-90., -0.000001, 0., 0.000001, 89.999999, 90., -12.345678], \
        [0.98327, 1., 1.01671012345678, 0.98331234567891]
    T = [np.datetime64(f'{y}-{m:02d}-{d:02d}T{c}') for y in (1950, 2000, 2024, 2099) for m in range(1, 13) for d, c in ((1, '00:00:00'), (28, '23:59:59'), (12, '11:12:13'))]
    T += [np.datetime64('2024-02-29T12:00:00'), np.datetime64('2000-02-29T00:00:00'), np.datetime64('2024-12-31T23:59:59')]
    rows = list(itertools.product(AZ, EL, R))
    marks = ['*m', ' m', 'Nm', 'C ', 'A ', '* ', '  ', 'Cm']
    tables = [[(t, *rows[i % len(rows)])] for i, t in enumerate(T)]
    tables += [[(T[i], *r)] for i, r in zip(itertools.cycle(range(len(T))), rows)]
    tables += [[(T[(k + 5*j) % len(T)], *rows[(7*k + 31*j) % len(rows)]) for j in range(n)] for n in (2, 3, 4) for k in range(60)]
    u = np.arange(0, 86400*40, 3600) + 1700000000
    tables.append([(np.datetime64(int(t), 's'), *c) for t, *c in zip(u, *values(u, 1., 2.))])
    read = jpl().read_jpl_ephemeris_file
    for i, tab in enumerate(tables):
        text = HEAD + ''.join(row(*r, mark=marks[(i + j) % len(marks)]) for j, r in enumerate(tab)) + TAIL
        with scratch():
            Path('t.txt').write_text(text)
            try:
                df = read('t.txt' if i % 2 else Path('t.txt'))
            except Exception as exc:
                ctx.fail('parse/raises', f'{exc!r} for\n{text}')
                continue
        ctx.cover(states=len(tab), transitions=len(tab), traces=1)
        if len(df) != len(tab):
            ctx.fail('parse/rows', f'{len(df)} rows read from {len(tab)} lines')
            continue
        if str(df.index.tz) != 'UTC':
            ctx.fail('parse/zone', f'index in zone {df.index.tz}')
            continue
        t = df.index.tz_localize(None).values.astype('M8[ns]')
        if not np.array_equal(t, np.array([r[0] for r in tab], 'M8[ns]')):
            ctx.fail('parse/time', f'{t} instead of {[str(r[0]) for r in tab]}')
            continue
        w = wrong_columns(df, *np.array([r[1:] for r in tab]).T)
        if w:
            ctx.fail('parse/value', f'{w} in\n{text[:1500]}')


def t_year(ctx, year, lon, lat):
    """a whole year at full resolution, then the cache, then another site in the same directory"""
    with scratch():
        svc = Service()
        res, df = attempt(svc, None, year, lon, lat)
        ctx.cover(states=1, transitions=svc.n, traces=1)
        w = repr(df) if res != 'ok' else incomplete(df, year, lon, lat, 1)
        if w:
            ctx.fail(f'year/{year}', f'ephemeris of {year} at {lon}, {lat}: {w}')
            return
        off = Service({k: FAULTS['refused'] for k in range(20)})
        res, df = attempt(off, None, year, lon, lat)
        if res != 'ok' or incomplete(df, year, lon, lat, 1):
            ctx.fail(f'cache/{year}', f'the cached ephemeris of {year}: {df!r}')


def t_sites(ctx):
    """all orders of loading several (year, site) pairs in one directory: each gets its own data"""
    import itertools
    keys = [(2024, -3.822, 36.949), (2023, -3.822, 36.949), (2024, 3.822, 36.949), (2024, -3.822, -36.949), (2024, -3.822, 36.94), (2024, -3.8, 36.949), (2024, -3.822001, 36.949), (2024, -103.822001, 36.949), (2024, -103.822002, 36.949)]
    for seq in itertools.product(range(len(keys)), repeat=3 if ctx.thorough else 2):
        with scratch():
            for i in seq:
                res, df = attempt(Service(every=EVERY), None, *keys[i])
                ctx.cover(states=1, transitions=1)
                w = repr(df) if res != 'ok' else incomplete(df, *keys[i], EVERY)
                if w:
                    ctx.fail('sites', f'after loading {[keys[j] for j in seq]}: ephemeris of {keys[i]}: {w}')
            ctx.cover(traces=1)
    # a failure for one site leaves the others alone
    for k in range(0, 12, 3):
        with scratch():
            attempt(Service(every=EVERY), None, *keys[0])
            attempt(Service({k: FAULTS['rows']}, EVERY), None, *keys[2])
            for key in (keys[0], keys[2]):
                res, df = attempt(Service(every=EVERY), None, *key)
                w = repr(df) if res != 'ok' else incomplete(df, *key, EVERY)
                if w:
                    ctx.fail('sites', f'a failure for one site spoils {key}: {w}')
            ctx.cover(states=1, traces=1)


def t_faults(ctx, kinds, depth):
    import itertools
    for kind in kinds:
        for m in range(12):
            history(ctx, f'fault/{kind}', f'{kind} at request {m}', [({m: FAULTS[kind]}, None, None)])
        if depth > 1:
            for m, m2, k2 in itertools.product(range(0, 12, 1 if ctx.thorough else 4), range(0, 12, 1 if ctx.thorough else 4), ('refused', 'row2', 'rows', 'crash', 'message')):
                history(ctx, f'fault/{kind}+{k2}', f'{kind} at request {m}, then {k2} at request {m2} of the retry',
                        [({m: FAULTS[kind]}, None, None), ({m2: FAULTS[k2]}, None, None)])


def t_writes(ctx):
    with scratch():
        disk = Disk()
        attempt(Service(every=EVERY), disk)
        n = disk.n
    if n < 2:
        raise mc.Broken
    for k in range(n):
        for part in (0., 0.2, 0.5, 0.9, 1.) if ctx.thorough else (0., 0.5, 1.):
            history(ctx, 'write', f'crash in write number {k} of {n} after {part:.0%} of the data', [(None, Disk(k, part), None)])
    for k in range(0, n, 1 if ctx.thorough else 3):
        for k2 in range(0, n, 1 if ctx.thorough else 4):
            history(ctx, 'write+write', f'crash in write {k}, crash in write {k2} of the retry', [(None, Disk(k, 0.5), None), (None, Disk(k2, 0.6), None)])
    ctx.cover(crash_points=n)


def t_lines(ctx, part, parts):
    with scratch():
        tr = LineCrash(None)
        attempt(Service(every=EVERY), tracer=tr)
        n = tr.n
    for k in range(part, n, parts if ctx.thorough else parts*2):
        history(ctx, 'line', f'crash before executed line number {k} of {n}', [(None, None, LineCrash(k))])
    ctx.cover(crash_points=n//(parts if ctx.thorough else parts*2))


def t_get(ctx):
    """a single failing download leaves no file that looks like a result, and raises"""
    get, read = jpl().get_jpl_ephemeris, jpl().read_jpl_ephemeris_file
    for kind, f in FAULTS.items():
        svc = Service({k: f for k in range(10)})
        with scratch():
            with world(svc):
                try:
                    get('out.txt', '2024-01-01 00:00', '2024-01-02 00:00', 1., 2., step_size=60)
                    res = 'ok'
                except Crash:
                    res = 'crash'
                except Exception as exc:
                    res = repr(exc)
            ctx.cover(states=1, transitions=1, traces=1)
            if res == 'ok':
                try:
                    rows = len(read('out.txt'))
                except Exception:
                    rows = -1
                if rows != 25:
                    ctx.fail(f'get/{kind}', f'get_jpl_ephemeris succeeds although the download failed ({kind}); {rows} rows of 25')
            elif os.path.exists('out.txt'):
                ctx.fail(f'get/{kind}/file', f'a failed download ({kind}) leaves its output file')


def task(ctx, what, *args):
    globals()['t_' + what](ctx, *args)


def run(ctx):
    th = ctx.thorough
    ctx.assume('the service is a stand-in that answers the parsed request with a table in the documented fixed-width format; no network is used',
               'parquet files are replaced by pickles (no parquet engine is installed); a crash is an exception that no handler of the library may catch (BaseException)',
               'fault runs use two or three rows per month; whole years are loaded at full resolution')
    kinds = list(FAULTS)
    tasks = [('year', y, lon, lat) for y, lon, lat in ((2024, -3.822, 36.949), (2023, 151.25, -33.5)) + (((2000, 0., 0.), (2100, -180., 90.), (1950, 1., 2.)) if th else ())]
    tasks += [('lines', i, 8) for i in range(8)] + [('faults', [k], 2) for k in kinds] + [('requests',), ('parse',), ('sites',), ('writes',), ('get',)]
    ctx.pmap('checks.c21', tasks)
    ctx.sample(dict(faults=kinds, crash='before every executed line of jpl_horizons.py; in every write'))
