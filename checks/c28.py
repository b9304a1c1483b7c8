"""C28: results can be copied, pickled and sent between processes.

State = one result (configuration, use case, times and zone) after a history of moves: copied, deep-copied, pickled and restored,
its accessors read. All histories up to a length are executed; every generation must report exactly what the request reports. Worker
processes (forked, forkserver, spawned, forked by a forked one), started before and after the library was used, compute and return
results which must be those of the parent.
"""
import copy
import datetime
import itertools
import os
import pickle
import subprocess
import sys
import tempfile

import dateutil.tz
import numpy as np
import pandas as pd
import pytz
from zoneinfo import ZoneInfo

from lib import drive, space
from lib.mc import SRC, VERIF
from checks.c25 import compare, describe, equal, snapshot

LA, LO = np.array([41.3, -66.6, 90., np.nan]), np.array([-3., -180., 179.9, 10.])
WALL = ['2024-03-31 00:30', '2024-06-20 20:51', 'NaT', '2024-10-27 00:30']


def times():
    u = pd.DatetimeIndex(WALL).tz_localize('UTC')
    out = dict(naive=u.tz_localize(None).values.astype('M8[s]'), text=['2024-03-31 00:30', '2024-06-20 20:51', '1969-12-31 23:59', '2024-10-27 00:30'],
               datetimes=[datetime.datetime(2024, 3, 31, 0, 30 + k, tzinfo=ZoneInfo('America/New_York')) for k in range(4)])
    for n, z in dict(utc='UTC', pytz=pytz.timezone('Europe/Madrid'), zoneinfo=ZoneInfo('Europe/Madrid'), dateutil=dateutil.tz.gettz('Australia/Lord_Howe'),
                     fixed=datetime.timezone(datetime.timedelta(hours=5, minutes=30)), named=datetime.timezone(datetime.timedelta(hours=-3), 'X'),
                     pytzfixed=pytz.FixedOffset(90), offset=dateutil.tz.tzoffset('Y', 3600), tzutc=dateutil.tz.tzutc()).items():
        out[n] = u.tz_convert(z)
    # both passes of the hours repeated when the clocks go back
    out['repeated'] = pd.DatetimeIndex(['2024-10-27 00:30', '2024-10-27 01:30', '2024-10-26 23:59:59', '2024-10-27 01:00']).tz_localize('UTC').tz_convert('Europe/Madrid')
    out['repeated list'] = [x.to_pydatetime() for x in out['repeated'].tz_convert(ZoneInfo('Europe/Madrid'))]
    return out


def scalars(s):
    return dict(algorithm=s.algorithm, engine=s.engine, usecase=s.usecase, refraction=bool(s.has_refraction), timezone=s.timezone,
                tz=str(s.times.tz), times=np.asarray(s.times.tz_localize(None)).astype('M8[ns]'),
                times_utc=np.asarray(s.times_utc.tz_localize(None)).astype('M8[ns]'), local=np.asarray(s.local_standard_time.tz_localize(None)).astype('M8[ns]'))


NAMES = ('zenith', 'azimuth', 'declination', 'eot', 'ecf', 'elevation', 'cosz', 'sza', 'true_solar_time', 'sunrise_deg', 'sunrise_local', 'sunset_utc', 'sunset_local',
         'daylight_length', 'incidence_35_-50', 'eth_perez_1990', 'airmass_gueymard_2003')
GET = dict(drive.ALL + [('latitude', lambda s: s.latitude), ('longitude', lambda s: s.longitude)])


def report(s, names=None):
    out = {n: describe(GET[n](s)) for n in (names or GET)}
    out['settings'] = scalars(s)
    return out


def read(s):
    for n in NAMES:
        GET[n](s)
    return s


MOVES = {'copy': copy.copy, 'deepcopy': copy.deepcopy, 'pickle2': lambda s: pickle.loads(pickle.dumps(s, 2)),
         'pickle5': lambda s: pickle.loads(pickle.dumps(s, 5)), 'read': read, 'list': lambda s: copy.deepcopy([s, s])[1],
         'buffers': lambda s: (lambda b: pickle.loads(pickle.dumps(s, 5, buffer_callback=b.append), buffers=b))([])}


def same(ctx, key, got, ref, what):
    ctx.cover(states=1, transitions=len(ref), traces=1)
    for k in ref:
        w = equal(got[k], ref[k])
        if w:
            ctx.fail(key, f'{k} {what}: {w}')
            return False
    return True


def histories(ctx, alg, eng, uc):
    n = 3 if ctx.thorough else 2
    for form, t in times().items():
        if form not in ('pytz', 'naive', 'repeated') and not ctx.thorough and (alg, eng, uc) != ('psa', 'numpy', 'sites'):
            continue
        for ref in (True, False):
            r0 = report(drive.call(uc, t, LA, LO, alg, eng, ref), NAMES + ('latitude', 'longitude'))
            for h in itertools.chain.from_iterable(itertools.product(MOVES, repeat=k) for k in range(1, (n if ref else n - 1) + 1)):
                if h[-1] == 'read':
                    continue
                key = f'{uc}/{alg}/{eng}/{form}/{"-".join(h)}'
                s = drive.call(uc, t, LA, LO, alg, eng, ref)
                gens = [s]
                for m in h:
                    g = ctx.guarded(key, MOVES[m], gens[-1])
                    if g is None:
                        break
                    gens.append(g)
                else:
                    if not same(ctx, key, report(gens[-1], list(r0)[:-1]), r0, f'is another after {" then ".join(h)}'):
                        continue
                    same(ctx, key, report(s, ('zenith', 'sunset_local')), {k: r0[k] for k in ('zenith', 'sunset_local', 'settings')}, f'of the original is another after {" then ".join(h)}')
        full = report(drive.call(uc, t, LA, LO, alg, eng, True))
        same(ctx, f'{uc}/{alg}/{eng}/{form}/full', report(pickle.loads(pickle.dumps(drive.call(uc, t, LA, LO, alg, eng, True)))), full, 'is another after a pickle')
    ctx.sample(dict(config=[alg, eng, uc], moves=list(MOVES), histories_up_to=n))


def independent(ctx, alg, eng, uc):
    """overwriting every array a deep copy or restored result hands out changes nothing in the original, and the other way"""
    t = times()['pytz']
    r0 = report(drive.call(uc, t, LA, LO, alg, eng, True))
    for m, way in itertools.product(('deepcopy', 'pickle5', 'pickle2', 'list'), ('copy', 'original')):
        s = drive.call(uc, t, LA, LO, alg, eng, True)
        c = MOVES[m](s)
        spoilt, kept = (c, s) if way == 'copy' else (s, c)
        for n in GET:
            v = GET[n](spoilt).values
            if v.flags.writeable:
                v[...] = np.datetime64('2000-01-01') if v.dtype.kind == 'M' else -7
        same(ctx, f'{uc}/{alg}/{eng}/independent/{m}/{way}', report(kept), r0, f'changes when the arrays of the {way} are overwritten after {m}')


def sizes(ctx, alg, eng, uc):
    """results of every size class, in times and in places, through each move"""
    n = 70001
    k = np.arange(n)
    t = np.datetime64('2010-03-05T01:02:03', 's') + ((k*7919*137) % (86400*365*30)).astype('m8[s]')
    y, x = ((k*37.7) % 180) - 90, ((k*101.3) % 360) - 180
    counts = [*range(1, 13), 17, 33, 65, 129, 257, 513, 1025, 2049, 4097, 8193, 10001] + ([16385, 32769, 65537, 70001] if ctx.thorough else [])
    for m in counts:
        args = {'transect': [(t[:m], y[:m], x[:m])], 'sites': [(t[:m], y[:2], x[:2]), (t[:2], y[:m], x[:m])],
                'regular_grid': [(t[:m], y[:2], x[:3]), (t[:2], y[:m], x[:2]), (t[:1], y[:3], x[:m])]}[uc]
        for a in args:
            s = drive.call(uc, *a, alg, eng, True)
            names = ('zenith', 'azimuth', 'declination', 'eot', 'ecf', 'latitude', 'longitude', 'cosz', 'true_solar_time', 'sunset_utc')
            names = names if m < 600 else names[:7]
            r0 = report(s, names)
            shape = ' x '.join(str(np.size(v)) for v in a)
            for move in ('copy', 'deepcopy', 'pickle2', 'pickle5', 'buffers'):
                same(ctx, f'{uc}/{alg}/{eng}/size/{move}', report(MOVES[move](s), names), r0, f'of a result of {shape} is another after {move}')


# ------------------------------------------------------------------------------------------------ worker processes
PROGRAM = '''
import sys, os, signal, pickle
sys.path[:0] = {path!r}
import warnings; warnings.filterwarnings('ignore')
import multiprocessing as mp, concurrent.futures as cf
from checks import c28
if __name__ == '__main__':
    signal.alarm(240)
    pickle.dump(c28.parent({method!r}, {state!r}), open({out!r}, 'wb'))
'''


def small(k=0):
    """what a worker computes: every configuration, sizes with one and with several numexpr blocks and threads"""
    out = {}
    t = times()['zoneinfo']
    for a, e in drive.CONFIGS:
        for uc in drive.USECASES:
            s = drive.call(uc, t, LA, LO, a, e, True)
            out[a, e, uc] = report(s, NAMES)
    big = space.daterange('2024-01-01', '2024-12-31', 86400 // 6 + k)
    for a, e in drive.CONFIGS:
        s = drive.call('sites', big, np.linspace(-90, 90, 31), np.linspace(-180, 179, 31), a, e, True)
        out['big', a, e] = dict(values=np.concatenate([s.zenith.values.ravel(), s.azimuth.values.ravel(), s.ecf.values, s.eot.values, s.declination.values]))
    return out


def result(alg, eng, uc, form):
    return drive.call(uc, times()[form], LA, LO, alg, eng, True)


def nested(k):
    """a process forked by the worker"""
    from checks.c13 import forked
    return forked(small)


def parent(method, state):
    import concurrent.futures as cf
    import multiprocessing as mp
    out = {}
    if state == 'used':
        small()
    if state == 'psa':
        drive.call('sites', times()['utc'], LA, LO)
    if state == 'rejected':
        try:
            drive.call('sites', times()['utc'], [91.], [0.])
        except ValueError:
            pass
    if state == 'threads':
        import threading
        ts = [threading.Thread(target=small) for _ in range(3)]
        [x.start() for x in ts]
        [x.join() for x in ts]
    with cf.ProcessPoolExecutor(2, mp_context=mp.get_context(method)) as ex:
        futs = [ex.submit(small) for _ in range(3)]
        results = {(a, e, uc, f): ex.submit(result, a, e, uc, f) for (a, e), uc, f in itertools.product(drive.CONFIGS, drive.USECASES, ('zoneinfo', 'naive', 'fixed'))}
        deep = ex.submit(nested, 0) if method == 'fork' else None
        if state != 'fresh':
            out['meanwhile'] = small()          # the parent works at the same time
        for i, f in enumerate(futs):
            out['worker', i] = f.result()
        for k, f in results.items():
            out[('sent',) + k] = report(f.result())
        if deep:
            out['nested'] = deep.result()
    out['afterwards'] = small()
    return out


def workers(ctx, method, state):
    ref = small()
    key = f'workers/{method}/{state}'
    with tempfile.TemporaryDirectory() as d:
        out = os.path.join(d, 'out.pickle')
        prog = os.path.join(d, 'prog.py')
        with open(prog, 'w') as f:
            f.write(PROGRAM.format(path=[VERIF, SRC], method=method, state=state, out=out))
        e = {k: v for k, v in os.environ.items() if not k.startswith(('NUMEXPR', 'OMP'))}
        e |= dict(NUMEXPR_MAX_THREADS='4', NUMEXPR_NUM_THREADS='3', PYTHONDONTWRITEBYTECODE='1', SUNWHERE_REPO=os.path.dirname(SRC), PYTHONPATH=os.pathsep.join([VERIF, SRC]))
        p = subprocess.Popen([sys.executable, '-B', prog], env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        try:
            text, _ = p.communicate(timeout=300)
        except subprocess.TimeoutExpired:
            text = 'no answer in 300 s'
        finally:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
        if p.returncode or not os.path.exists(out):
            ctx.fail(key, f'requests in {method} processes ({state} library in the parent) fail: {text[-1500:]}')
            return
        with open(out, 'rb') as f:
            got = pickle.load(f)
    for k, v in got.items():
        if k[0] == 'sent':
            _, a, e, uc, form = k
            same(ctx, f'{key}/{"/".join(k)}', v, report(result(a, e, uc, form)), f'of a result sent by a {method} process is another')
        else:
            for n in ref:
                w = equal(v[n], ref[n])
                ctx.cover(states=1, transitions=1, traces=1)
                if w:
                    ctx.fail(f'{key}/{k}', f'{n} computed in {k} ({method} processes, {state} library in the parent) is another: {w}')
                    break


RESTORE = '''
import sys, os, pickle
sys.path[:0] = {path!r}
import warnings; warnings.filterwarnings('ignore')
with open({src!r}, 'rb') as f:
    blobs = pickle.load(f)
got = {{}}
for k, b in blobs.items():
    s = pickle.loads(b)                 # nothing of the library was imported before
    from checks import c28
    got[k] = c28.report(s)
pickle.dump(got, open({out!r}, 'wb'))
'''


def restored(ctx, label, env):
    """files of pickled results are read by another process"""
    refs, blobs = {}, {}
    for (a, e), uc, f in itertools.product(drive.CONFIGS, drive.USECASES, times()):
        if ctx.thorough or f in ('naive', 'pytz', 'dateutil') or (a, e) == ('psa', 'numexpr'):
            s = result(a, e, uc, f)
            blobs[a, e, uc, f] = pickle.dumps(s, 2 + len(blobs) % 4)
            refs[a, e, uc, f] = report(s)
    with tempfile.TemporaryDirectory() as d:
        src, out = os.path.join(d, 'in.pickle'), os.path.join(d, 'out.pickle')
        with open(src, 'wb') as f:
            pickle.dump(blobs, f)
        e = {k: v for k, v in os.environ.items() if not k.startswith(('NUMEXPR', 'OMP', 'TZ'))}
        e |= dict(NUMEXPR_MAX_THREADS='4', PYTHONDONTWRITEBYTECODE='1', SUNWHERE_REPO=os.path.dirname(SRC)) | env
        r = subprocess.run([sys.executable, '-B', '-c', RESTORE.format(path=[VERIF, SRC], src=src, out=out)], env=e, cwd=d, capture_output=True, text=True, timeout=300)
        if r.returncode or not os.path.exists(out):
            ctx.fail(f'restored/{label}', f'pickled results cannot be read by another process ({label}): {r.stderr[-1500:]}')
            return
        with open(out, 'rb') as f:
            got = pickle.load(f)
    for k, v in got.items():
        same(ctx, f'restored/{label}/{"/".join(k)}', v, refs[k], f'is another in a result restored by another process ({label})')


def task(ctx, what, *args):
    dict(histories=histories, sizes=sizes, independent=independent, workers=workers, restored=restored)[what](ctx, *args)


def run(ctx):
    tasks = [('workers', m, s) for m, s in itertools.product(('fork', 'forkserver', 'spawn'), ('fresh', 'psa', 'used', 'rejected', 'threads'))
             if ctx.thorough or s in ('fresh', 'used', 'threads') and m != 'forkserver' or (m, s) in (('forkserver', 'used'), ('fork', 'psa'))]
    tasks += [('histories', a, e, uc) for (a, e), uc in itertools.product(drive.CONFIGS, drive.USECASES)]
    tasks += [('sizes', a, e, uc) for (a, e), uc in itertools.product(drive.CONFIGS, drive.USECASES)]
    tasks += [('independent', a, e, uc) for (a, e), uc in itertools.product(drive.CONFIGS, drive.USECASES)]
    tasks += [('restored', 'another process', {}), ('restored', 'another machine zone', dict(TZ='Asia/Kolkata')), ('restored', 'hash seed 5', dict(PYTHONHASHSEED='5'))]
    ctx.pmap('checks.c28', tasks)
    ctx.assume('pickle protocols 2 to 5 (xarray cannot be pickled with 0 and 1)',
               'processes are forked while no other thread of the parent computes')
