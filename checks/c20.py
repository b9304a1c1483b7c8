"""C20: the command line reports what the library computes.

Every command line of a finite grammar (times x zones x sites x algorithms x refraction) is run in process; every printed
number is compared with the library's value at the instant, which is found from the wall clock with the system's zone database.
"""
import datetime as d
import itertools
import os
import re
import subprocess
import sys
import time
import zoneinfo

import numpy as np
from typer.testing import CliRunner

import sunwhere

RUN = CliRunner()
UTC = d.timezone.utc


def app():
    from sunwhere._cli.main import app as a
    return a


def invoke(args, env=None):
    return RUN.invoke(app(), ['at', *args], env=env)


def parse(out):
    """label -> text of the printed table"""
    rows = {}
    for line in out.splitlines():
        cells = [c.strip() for c in re.split('[║│|]', line) if c.strip()]
        if len(cells) == 2:
            rows[cells[0]] = cells[1]
    return rows


def number(text):
    m = re.match(r'^\s*([-+]?[0-9.]+(?:[eE][-+]?\d+)?|nan)', text)
    if not m:
        raise ValueError(f'no number in {text!r}')
    return float(m.group(1))


def local(zone, u):
    return (d.datetime(1970, 1, 1, tzinfo=UTC) + d.timedelta(microseconds=u//1000)).astimezone(zoneinfo.ZoneInfo(zone))


def clock_ok(text, ns, zone):
    """printed HH:MM:SS against an instant (ns) seen in a zone; the second may be truncated or rounded"""
    if ns is None:
        return not re.search(r'\d', text)
    return text in {local(zone, ns + e).strftime('%H:%M:%S') for e in (0, 5*10**8, -5*10**6, 5*10**6)}


def instant(sp, f, u):
    v = f(u).values.ravel()[0]
    return None if np.isnat(v) else int(v.astype('M8[ns]').astype('int64'))


def find(rows, name):
    for k in rows:
        if k.casefold().startswith(name.casefold()):
            return rows[k]
    return None


def verify(ctx, args, utc, zone, lat, lon, alg, ref, key, slack=0., env=None):
    """utc: seconds"""
    r = invoke(args, env)
    ctx.cover(states=1, transitions=15, traces=1)
    rep = ('import subprocess\nr = subprocess.run(["/opt/venv/bin/python", "-c", "from sunwhere._cli.main import app; app()", "at"] + '
           f'{args!r}, capture_output=True, text=True)\nprint(r.stdout, r.stderr)\nassert r.returncode == 0\n')

    def bad(what, txt):
        ctx.fail(f'{key}/{what}', f'sunwhere at {" ".join(args)}: {what}: {txt}', rep)

    if r.exit_code != 0:
        return bad('fails', f'exit status {r.exit_code}: {r.output.strip()[-200:]} {r.exception!r}')
    rows = parse(r.output)
    s = sunwhere.sites(np.array([utc]).astype('M8[s]'), lat, lon, algorithm=alg, refraction=ref)
    w = local(zone, utc*10**9)
    exp = dict(lat=lat, lon=lon, declination=s.declination.values[0], sun=1/np.sqrt(s.ecf.values[0]), zenith=s.zenith.values[0, 0],
               elevation=s.elevation.values[0, 0], azimuth=s.azimuth.values[0, 0])
    for name, e in exp.items():
        t = find(rows, name)
        if t is None:
            bad(name, f'not printed: {r.output}')
            continue
        try:
            g = number(t)
        except ValueError as exc:
            bad(name, str(exc))
            continue
        diff = abs(g - e) if name != 'azimuth' else abs((g - e + 180) % 360 - 180)
        if diff > 0.51e-4 + slack:
            bad(name, f'printed {t!r}, the library gives {e!r}')
    if slack:
        t = None
    else:
        for name, fmt in (('day of week', '%A'), ('date', '%d %B %Y')):
            t = find({k: v for k, v in rows.items() if k.casefold() == name}, name)
            if t is None or t.casefold() != w.strftime(fmt).casefold():
                bad(name, f'printed {t!r} instead of {w.strftime(fmt)!r}')
        t = find(rows, 'time')
        if t is None or not t.startswith(w.strftime('%H:%M:%S')):
            bad('time', f'printed {t!r} instead of {w.strftime("%H:%M:%S")!r}')
        for ev, f in (('sunrise', s.sunrise), ('sunset', s.sunset)):
            ns = instant(s, f, 'utc')
            for z in ('UTC', zone):
                t = find(rows, f'{ev}({z})')
                if t is None:
                    bad(f'{ev}({z})', 'not printed')
                elif not clock_ok(t, ns, z):
                    bad(f'{ev}({"UTC" if z == "UTC" else "zone"})', f'printed {t!r}, the event is at {None if ns is None else local(z, ns)}')
    t = find(rows, 'equation of time')
    m = re.match(r'^\s*([-+]?)(\d+):([0-9.]+)', t or '')
    if not m:
        bad('equation of time', f'printed {t!r}')
    else:
        sec = float(m.group(3))
        g = (int(m.group(2))*60 + sec)*(-1 if m.group(1) == '-' else 1)
        e = s.eot.values[0]*60
        if abs(g - e) > 0.051 + 60*slack or sec >= 60:
            bad('equation of time', f'printed {t!r}, the library gives {e/60!r} minutes')


def wall_to_utc(text, zone):
    """seconds of the first occurrence of a wall clock, None if it never happens"""
    w = d.datetime.fromisoformat(text)
    z = zoneinfo.ZoneInfo(zone)
    if w.tzinfo is None:
        a = w.replace(tzinfo=z, fold=0)
        back = a.astimezone(UTC).astimezone(z)
        if back.replace(tzinfo=None) != w:
            return None
        return int(a.astimezone(UTC).timestamp())
    return int(w.astimezone(UTC).timestamp())


ZONES = ['UTC', 'Europe/Madrid', 'America/New_York', 'Asia/Kolkata', 'Australia/Lord_Howe', 'Pacific/Auckland']
TIMES = ['2024-03-20 10:00', '2024-06-20 00:00:00', '2024-12-31 23:59:59', '2024-02-29T12:30:15', '2023-07-01', '1970-01-01 00:00:01',
         '2024-03-31 02:30', '2024-03-31 01:59:59', '2024-03-31 03:00', '2024-10-27 02:30', '2024-10-27 03:00', '2024-10-27 01:30',
         '2024-03-10 02:30', '2024-11-03 01:30', '2024-04-07 01:45', '2024-04-07 02:30', '2024-10-06 02:15', '2024-09-29 02:30',
         '2024-03-20 10:00+05:30', '2024-11-03 01:30-04:00', '2024-11-03 01:30-05:00', '2024-01-01T00:30:00+00:00']
# the equation of time changes sign around these dates
SIGN = [f'2024-{m} {h:02d}:{mi:02d}' for m in ('04-14', '04-15', '04-16', '06-12', '06-13', '06-14', '08-31', '09-01', '09-02', '12-24', '12-25', '12-26') for h in (0, 4, 8, 12, 16, 20) for mi in (0, 31)]
SITES = [('36.949N', 36.949, '3.822W', -3.822), ('33.5S', -33.5, '151.25E', 151.25), ('0N', 0., '180W', -180.), ('90s', -90., '0e', 0.),
         ('69.65n', 69.65, '18.96e', 18.96), ('78.25N', 78.25, '15.5E', 15.5), ('10.1S', -10.1, '179.99w', -179.99)]
ALGS = ['nrel', 'psa', 'soltrack', 'iqbal']
INVALID = [
    (['2024-03-20', '91N', '3W'], 'latitude'), (['2024-03-20', '90.0001S', '3W'], 'latitude'), (['2024-03-20', '36X', '3W'], 'hemisphere'),
    (['2024-03-20', '36', '3W'], 'hemisphere missing'), (['2024-03-20', '36E', '3W'], 'hemisphere of longitude'), (['2024-03-20', 'abcN', '3W'], 'number'),
    (['2024-03-20', '36N', '180E'], 'longitude'), (['2024-03-20', '36N', '180.5W'], 'longitude'), (['2024-03-20', '36N', '3N'], 'hemisphere of latitude'),
    (['2024-03-20', '36N', '3'], 'hemisphere missing'), (['2024-03-20', '36N', 'W'], 'number missing'), (['2024-03-20', 'nanN', '3W'], 'nan'),
    (['not-a-time', '36N', '3W'], 'time'), (['2024-02-30', '36N', '3W'], 'day'), (['2024-13-01', '36N', '3W'], 'month'),
    (['2024-03-20', '36N', '3W', '-a', 'xxx'], 'algorithm'), (['2024-03-20', '36N', '3W', '-a', 'PSA'], 'algorithm in capitals'),
    (['2024-03-20', '36N', '3W', '-z', 'Mars/Base'], 'zone'), (['now', '36N', '3W', '-z', 'Mars/Base'], 'zone'),
    (['now', '36N', '3W', '-a', 'xxx'], 'algorithm'), (['2024-03-20', '36N', '3W', 'extra'], 'argument'), (['2024-03-20', '36N', '3W', '--no-such'], 'option'),
    (['2024-03-31 02:30', '36N', '3W', '-z', 'Europe/Madrid'], 'wall clock that never happens'),
    (['2024-03-10 02:30', '36N', '3W', '-z', 'America/New_York'], 'wall clock that never happens')]


def opts(alg, ref, zone):
    o = []
    if alg:
        o += ['-a', alg]
    if ref is not None:
        o += ['--refraction' if ref else '--no-refraction']
    if zone:
        o += ['-z', zone]
    return o


def task(ctx, what, *args):
    th = ctx.thorough
    if what == 'grammar':
        zone, alg = args
        for (i, t), (j, (ys, y, xs, x)), ref in itertools.product(enumerate(TIMES), enumerate(SITES), (True, False)):
            if not th and (i + j + ref + ALGS.index(alg)) % 3:
                continue
            u = wall_to_utc(t, zone)
            a = [t, ys, xs] + opts(alg, ref, zone)
            if u is None:
                r = invoke(a)
                ctx.cover(states=1, traces=1)
                if r.exit_code == 0:
                    ctx.fail('gap', f'sunwhere at {" ".join(a)} succeeds although the clock skips that time')
                continue
            verify(ctx, a, u, zone, y, x, alg, ref, 'at')
        ctx.sample(dict(zone=zone, alg=alg, command=a))
    elif what == 'sign':
        for t in SIGN:
            for zone in ('UTC', 'America/New_York'):
                verify(ctx, [t, '36.949N', '3.822W'] + opts(args[0], True, zone), wall_to_utc(t, zone), zone, 36.949, -3.822, args[0], True, 'sign')
        # polar days and nights begin and end
        for m in range(1, 13):
            for day in range(1, 29, 1 if th else 3):
                t = f'2024-{m:02d}-{day:02d} 12:00'
                for ys, y in (('69.65N', 69.65), ('78.25N', 78.25), ('66.6S', -66.6), ('90N', 90.)):
                    verify(ctx, [t, ys, '18.96E'] + opts(args[0], None, 'Europe/Oslo'), wall_to_utc(t, 'Europe/Oslo'), 'Europe/Oslo', y, 18.96, args[0], True, 'polar')
    elif what == 'defaults':
        t = '2024-05-06 07:08:09'
        u = wall_to_utc(t, 'UTC')
        verify(ctx, [t], u, 'UTC', 36.949, -3.822, 'psa', True, 'defaults')
        verify(ctx, [t, '10S'], u, 'UTC', -10., -3.822, 'psa', True, 'defaults')
        verify(ctx, [t, '10S', '20E'], u, 'UTC', -10., 20., 'psa', True, 'defaults')
        for y in np.concatenate([np.arange(0, 90.5, 2.5), [0.0001, 89.9999]]):
            for hs, sg in (('n', 1), ('N', 1), ('s', -1), ('S', -1)):
                verify(ctx, [t, f'{y:.7g}{hs}', '20.5e'], u, 'UTC', sg*float(f'{y:.7g}'), 20.5, 'psa', True, 'hemisphere')
        for x in np.concatenate([np.arange(0, 180, 7.5), [0.0001, 179.9999]]):
            for hs, sg in (('e', 1), ('E', 1), ('w', -1), ('W', -1)):
                verify(ctx, [t, '12.5s', f'{x:.7g}{hs}'], u, 'UTC', -12.5, sg*float(f'{x:.7g}'), 'psa', True, 'hemisphere')
    elif what == 'invalid':
        for a, why in INVALID:
            r = invoke(a)
            ctx.cover(states=1, transitions=1, traces=1)
            text = (r.output or '') + (str(getattr(r, 'stderr', '') or '')) + repr(r.exception or '')
            if r.exit_code == 0:
                ctx.fail(f'invalid/{why}', f'sunwhere at {" ".join(a)} succeeds: {r.output[-300:]}',
                         f'from typer.testing import CliRunner\nfrom sunwhere._cli.main import app\nassert CliRunner().invoke(app, ["at"] + {a!r}).exit_code != 0\n')
            elif not text.strip():
                ctx.fail(f'invalid/{why}/message', f'sunwhere at {" ".join(a)} fails without a message')
            elif not isinstance(r.exception, SystemExit):
                ctx.fail(f'invalid/{why}/message', f'sunwhere at {" ".join(a)} fails with a traceback: {r.exception!r}')
            if not ((r.output or '') + (getattr(r, 'stderr', '') or '')).strip():
                ctx.fail(f'invalid/{why}/message', f'sunwhere at {" ".join(a)} fails without printing a message')
    elif what == 'now':
        for systz in args[0]:
            saved = os.environ.get('TZ')
            os.environ['TZ'] = systz
            time.tzset()
            try:
                for zone in ZONES + [None]:
                    a = (['now', '36.949N', '3.822W'] if zone else []) + opts('psa', None, zone)
                    z = zone or 'UTC'
                    t0 = int(time.time())
                    r = invoke(a)
                    t1 = int(time.time()) + 1
                    ctx.cover(states=1, transitions=1, traces=1)
                    rows = parse(r.output)
                    date, clk = find({k: v for k, v in rows.items() if k.casefold() == 'date'}, 'date'), find(rows, 'time')
                    if r.exit_code or not date or not clk:
                        ctx.fail('now/fails', f'sunwhere at {" ".join(a)} with TZ={systz}: {r.output} {r.exception!r}')
                        continue
                    ok = {(local(z, u*10**9).strftime('%d %B %Y').casefold(), local(z, u*10**9).strftime('%H:%M:%S')) for u in range(t0, t1 + 1)}
                    if (date.casefold(), clk[:8]) not in ok:
                        ctx.fail('now/clock', f'sunwhere at {" ".join(a)} with TZ={systz} prints {date} {clk}; it is one of {sorted(ok)}')
                    s = sunwhere.sites(np.array([t0, t1]).astype('M8[s]'), 36.949, -3.822)
                    lo, hi = sorted(s.zenith.values[:, 0])
                    if not lo - 0.01 <= number(find(rows, 'zenith')) <= hi + 0.01:
                        ctx.fail('now/position', f'sunwhere at {" ".join(a)} with TZ={systz} prints zenith {find(rows, "zenith")}, the sun is at {lo}')
                # a wall clock never depends on the system's zone
                t = '2024-10-27 02:30'
                verify(ctx, [t, '33.5S', '151.25E'] + opts('psa', True, 'Europe/Madrid'), wall_to_utc(t, 'Europe/Madrid'), 'Europe/Madrid', -33.5, 151.25, 'psa', True, 'systemzone')
            finally:
                os.environ.pop('TZ') if saved is None else os.environ.__setitem__('TZ', saved)
                time.tzset()
    elif what == 'process':
        exe = os.path.join(os.path.dirname(sys.executable), 'sunwhere')
        cmd = [exe] if os.path.exists(exe) else [sys.executable, '-c', 'from sunwhere._cli.main import app; app()']
        optimised = [sys.executable, '-O', '-c', 'from sunwhere._cli.main import app; app()']
        for a in [a for a, _ in INVALID][::1 if ctx.thorough else 4]:
            r = subprocess.run(optimised + ['at'] + a, capture_output=True, text=True, timeout=120)
            ctx.cover(states=1, transitions=1, traces=1)
            if not r.returncode or not (r.stdout + r.stderr).strip():
                ctx.fail('process/optimised', f'under python -O, sunwhere at {a} ends with status {r.returncode}: {r.stdout[-300:]} {r.stderr[-300:]}')
        for a, rc in ((['at', '2024-03-20 10:00', '36N', '3W', '-z', 'Europe/Madrid'], 0), (['at', '2024-03-20', '36N', '3W', '-a', 'xxx'], 1),
                      (['at', '2024-03-20', '95N', '3W'], 1), (['at', '2024-12-21 12:00', '80N', '3W'], 0)):
            r = subprocess.run(cmd + a, capture_output=True, text=True, timeout=120)
            ctx.cover(states=1, transitions=1, traces=1)
            if (r.returncode != 0) != (rc != 0):
                ctx.fail('process/status', f'{a} ends with status {r.returncode}: {r.stdout[-300:]} {r.stderr[-300:]}')
            if rc and not (r.stdout + r.stderr).strip():
                ctx.fail('process/message', f'{a} fails without a message')
            if not rc:
                i = CliRunner().invoke(app(), a)
                if parse(i.output) != parse(r.stdout):
                    ctx.fail('process/output', f'{a} prints {r.stdout}')


def run(ctx):
    ctx.assume('the equation of time may be rounded to a tenth of a second and times to the second, up or down')
    ctx.pmap('checks.c20', [('grammar', z, a) for z in ZONES for a in ALGS] + [('sign', a) for a in (ALGS if ctx.thorough else ALGS[:2])] +
             [('defaults',), ('invalid',), ('process',)] +
             [('now', [z]) for z in ('UTC', 'Europe/Madrid', 'America/New_York', 'Asia/Kolkata', 'Pacific/Auckland')])
