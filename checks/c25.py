"""C25: the library neither depends on nor alters the settings of the process.

State = one combination of process-wide settings (machine time zone, locale, working directory, hash seed, numexpr threads,
xarray and pandas options, interpreter flags, order of imports). In every state a fixed set of requests is evaluated and compared
with the reference state; in the other direction, the settings are photographed around every operation.
"""
import itertools
import json
import os
import subprocess
import sys
import tempfile
import time

import numpy as np
import pandas as pd
import xarray as xr

from lib import drive, space
from lib.mc import SRC, VERIF

TOL = 1e-9
LA, LO = np.array([41.3, 90., -66.6, 0., np.nan]), np.array([-3., 0., -180., 179.9, 10.])
ZONES = ('UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Apia', 'Australia/Lord_Howe', 'XXX-05:30', 'EST5EDT')


def times():
    return pd.DatetimeIndex(['2024-03-31 00:30', '2024-06-20 20:51', 'NaT', '1969-12-31 23:59:59', '2024-10-27 00:30']
                            ).tz_localize('UTC').tz_convert('Europe/Madrid')


def forms():
    """times written in several ways (naive ones mean UTC wherever the machine is)"""
    import datetime as d
    return dict(zoned=times(), naive=np.array(['2024-03-10T02:30:00', '2024-11-03T01:30:00', '2024-06-20T12:00:00', '1970-01-01', '2100-02-28T23:59:59'], 'M8[s]'),
                datetimes=[d.datetime(2024, 3, 10, 2, 30), d.datetime(2024, 11, 3, 1, 30), d.datetime(1970, 1, 1), d.datetime(2038, 1, 19, 3, 14, 8), d.datetime(2024, 7, 1)],
                text=['2024-03-10 02:30', '2024-11-03 01:30', '1970-01-01 00:00', '2024-06-20 12:00', '2024-10-06 02:15'])


def describe(da):
    v = np.asarray(da.values)
    if v.dtype.kind == 'M':
        v = v.astype('M8[ns]')
    return dict(dims=da.dims, name=da.name, attrs=dict(da.attrs), values=v,
                coords={k: np.asarray(c.values) for k, c in da.coords.items()})


def snapshot(configs=None):
    import sunwhere
    from sunwhere.utils.datetime import true_solar_time
    out = {}
    t = times()
    for a, e in configs or drive.CONFIGS:
        for uc in drive.USECASES:
            s = drive.call(uc, t, LA, LO, a, e, True)
            for n, f in drive.ALL + [('latitude', lambda s: s.latitude), ('longitude', lambda s: s.longitude)]:
                out[a, e, uc, n] = describe(f(s))
            out[a, e, uc, 'times'] = dict(values=np.asarray(s.times.tz_localize(None)).astype('M8[ns]'), name=s.timezone)
            out[a, e, uc, 'times_utc'] = dict(values=np.asarray(s.times_utc.tz_localize(None)).astype('M8[ns]'))
    for n, x in forms().items():
        for uc in drive.USECASES:
            s = drive.call(uc, x, LA, LO)
            for k, da in dict(zenith=s.zenith, tst=s.true_solar_time, local=s.sunrise('local'), utc=s.sunset('utc')).items():
                out['form', n, uc, k] = describe(da)
            out['form', n, uc, 'times'] = dict(values=np.asarray(s.times.tz_localize(None)).astype('M8[ns]'), name=s.timezone)
    s = drive.call('sites', t, LA, LO)
    for n, f in dict(sunrise=lambda: s.sunrise('x'), sunset=lambda: s.sunset('x'), eth=lambda: s.eth(am_correction='x'), airmass=lambda: s.airmass('x'),
                     sites=lambda: drive.call('sites', t, LA, LO[:3]), latitude=lambda: drive.call('sites', t, [91.], [0.]),
                     longitude=lambda: drive.call('regular_grid', t, [0.], [180.]), transect=lambda: drive.call('transect', t[:3], LA, LO),
                     dimensions=lambda: drive.call('sites', t, [[0., 1.]], [[0., 1.]]), algorithm=lambda: drive.call('sites', t, 0., 0., 'x'),
                     engine=lambda: drive.call('sites', t, 0., 0., 'nrel', 'numpy')).items():
        try:
            f()
            out['rejected', n] = 'accepted'
        except Exception as exc:
            out['rejected', n] = type(exc).__name__
    naive = forms()['naive']
    out['utc'] = dict(values=sunwhere.universal_time_coordinated(naive, [0., 33.3, -170.]))
    out['tst'] = dict(values=true_solar_time(naive, [0., 33.3, -170.]))
    big = space.daterange('2024-01-01', '2024-12-31', 4001)
    for a, e in configs or drive.CONFIGS:
        s = drive.call('sites', big, np.linspace(-90, 90, 13), np.linspace(-180, 179, 13), a, e, True)
        out['big', a, e] = dict(values=np.concatenate([s.cosz.values.ravel(), s.ecf.values, s.eot.values, s.declination.values]))
    return out


def equal(a, b):
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            return f'{a.dtype}{a.shape} instead of {b.dtype}{b.shape}'
        if a.dtype.kind == 'f':
            w = drive.worst(a, b, TOL)
        else:
            bad = (a != b) & ~(np.isnat(a) & np.isnat(b)) if a.dtype.kind == 'M' else a != b
            w = bad.any() and (None, f'{a[bad][0]} instead of {b[bad][0]}')
        return w[1] if w else None
    if isinstance(a, dict):
        if set(a) != set(b):
            return f'{sorted(a)} instead of {sorted(b)}'
        for k in a:
            w = equal(a[k], b[k])
            if w:
                return f'{k}: {w}'
        return None
    return None if a == b else f'{a!r} instead of {b!r}'


def compare(ctx, key, got, ref):
    ctx.cover(states=1, transitions=len(ref), traces=1)
    for k in ref:
        if k not in got:
            ctx.fail(key, f'{k} is missing with {key}')
            return
        w = equal(got[k], ref[k])
        if w:
            ctx.fail(key, f'{"/".join(map(str, k)) if isinstance(k, tuple) else k} depends on the setting: with {key}, {w}')
            return


# ---------------------------------------------------------------- the library depends on no setting
def inprocess(ctx, part):
    import locale
    import warnings
    th = ctx.thorough
    ref = snapshot()

    def state(key, configs=None):
        try:
            compare(ctx, key, snapshot(), ref)
        except Exception as exc:
            ctx.fail(key, f'with {key}: {type(exc).__name__}: {exc}')
    saved = os.environ.get('TZ')
    if part == 'zones':
        for z in ZONES:
            os.environ['TZ'] = z
            time.tzset()
            state(f'TZ={z}')
        del os.environ['TZ']
        if saved is not None:
            os.environ['TZ'] = saved
        time.tzset()
    if part == 'xarray':
        for ka, aj, di in itertools.product((True, False, 'default'), ('inner', 'outer', 'left', 'right', 'exact'), (True, False) if th else (True,)):
            with xr.set_options(keep_attrs=ka, arithmetic_join=aj, display_expand_data=di):
                state(f'xarray keep_attrs={ka} arithmetic_join={aj}')
    if part == 'pandas':
        opts = [('display.precision', 2), ('display.max_rows', 2), ('future.infer_string', False), ('future.infer_string', True), ('mode.chained_assignment', 'raise'),
                ('compute.use_numexpr', False), ('compute.use_bottleneck', False), ('display.date_dayfirst', True), ('display.date_yearfirst', True)]
        for r in (1, 2) if th else (1,):
            for c in itertools.combinations(opts, r):
                try:
                    with pd.option_context(*[x for o in c for x in o]):
                        state(f'pandas {c}')
                except (pd.errors.OptionError, KeyError):
                    pass
        with np.printoptions(precision=2, threshold=3, suppress=True):
            state('numpy print options')
        with np.errstate(all='ignore'):
            state('numpy error state ignore')
    if part == 'locale':
        import subprocess as sp
        try:
            names = sp.run(['locale', '-a'], capture_output=True, text=True, timeout=20).stdout.split()
        except OSError:
            names = []
        for name in sorted(set(names) | {'C', 'POSIX'}):
            old = locale.setlocale(locale.LC_ALL)
            try:
                locale.setlocale(locale.LC_ALL, name)
            except locale.Error:
                continue
            state(f'locale {name}')
            locale.setlocale(locale.LC_ALL, old)
        cwd = os.getcwd()
        d = tempfile.mkdtemp()
        os.chdir(d)
        os.rmdir(d)
        try:
            state('working directory removed')
        finally:
            os.chdir(cwd)
        for f in ('always', 'ignore', 'once'):
            with warnings.catch_warnings():
                warnings.simplefilter(f)
                state(f'warnings {f}')

CHILD = '''
import sys, pickle
sys.path[:0] = {path!r}
import warnings; warnings.filterwarnings("ignore")
for name in {order!r}:
    __import__(name)
from checks import c25
pickle.dump(c25.snapshot(), open({out!r}, "wb"))
'''


def children(ctx, *specs):
    import pickle
    ref = snapshot()
    for label, env, flags, order in specs:
        with tempfile.TemporaryDirectory() as d:
            out = os.path.join(d, 'out.pickle')
            code = CHILD.format(path=[VERIF, SRC], order=order, out=out)
            e = {k: v for k, v in os.environ.items() if not k.startswith(('LC_', 'LANG', 'TZ', 'PYTHON', 'NUMEXPR', 'OMP'))}
            e |= dict(NUMEXPR_MAX_THREADS='8', PYTHONDONTWRITEBYTECODE='1', SUNWHERE_REPO=os.path.dirname(SRC)) | env
            r = subprocess.run([sys.executable, '-B', *flags, '-c', code], env=e, cwd=d, capture_output=True, text=True, timeout=600)
            if r.returncode or not os.path.exists(out):
                ctx.fail(label, f'with {label}: {r.stderr[-800:]}')
                continue
            if r.stdout:
                ctx.fail(f'{label}/prints', f'the library prints on the standard output: {r.stdout[:300]}')
            left = sorted(set(os.listdir(d)) - {'out.pickle'})
            if left:
                ctx.fail(label, f'the library leaves files in the working directory: {left}')
            with open(out, 'rb') as f:
                compare(ctx, label, pickle.load(f), ref)


# ---------------------------------------------------------------- the library alters no setting
PHOTO = '''
import sys, os, json, locale, time, random, warnings, signal, gc, decimal, threading
import numpy as np, pandas as pd, xarray as xr, numexpr as ne, loguru
import pandas._config.config as pc
def photo():
    def opts():
        flat = {}
        def walk(d, p):
            for k, v in d.items():
                if isinstance(v, dict): walk(v, p + k + ".")
                else: flat[p + k] = repr(v)
        walk(pc._global_config, "")
        return flat
    return dict(
        numpy_errors=repr(np.geterr()), numpy_errcall=repr(np.geterrcall()), numpy_print=repr(np.get_printoptions()),
        numpy_random=repr(np.random.get_state()[2]) + repr(np.random.get_state()[1][:8]), random=repr(hash(random.getstate())),
        warnings=repr(warnings.filters), xarray=repr(dict(xr.core.options.OPTIONS)), pandas=opts(),
        locale=locale.setlocale(locale.LC_ALL), env=dict(os.environ), tz=repr((time.tzname, time.timezone, time.daylight)), cwd=os.getcwd(),
        numexpr_threads=getattr(ne, "get_num_threads", lambda: ne.nthreads)(), switch=sys.getswitchinterval(), recursion=sys.getrecursionlimit(),
        gc=repr((gc.get_threshold(), gc.isenabled())), decimal=repr(decimal.getcontext()), hooks=repr((sys.excepthook, sys.displayhook, threading.excepthook)),
        signals=repr([signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)]), path=list(sys.path), stdout=repr((id(sys.stdout), id(sys.stderr))),
        intmax=sys.get_int_max_str_digits(), bufsize=np.getbufsize(), files=sorted(os.listdir(".")), umask=repr(os.umask(os.umask(0o22) or 0o22)))
def changed(a, b):
    return [f"{k}: {a[k] if not isinstance(a[k], dict) else sorted(set(a[k].items()) ^ set(b[k].items()))} -> {b[k] if not isinstance(b[k], dict) else ''}" for k in a if a[k] != b[k]]
'''


def photos(ctx, tz, bare=False):
    code = PHOTO + f'''
sys.path[:0] = {[VERIF, SRC]!r}
before = photo()
import sunwhere, sunwhere.utils.datetime
found = {{}}
n = 0
def note(label):
    global before, n
    n += 1
    now = photo()
    for c in changed(before, now): found.setdefault(c.split(":")[0], f"{{label}}: {{c[:400]}}")
    before = now
note("import sunwhere")
from lib import drive
from checks import c25
import numpy as np
before = photo()
t = c25.times()
for a, e in drive.CONFIGS:
    for uc in drive.USECASES:
        for ref in (True, False):
            s = drive.call(uc, t, c25.LA, c25.LO, a, e, ref); note(f"{{uc}} {{a}} {{e}} refraction={{ref}}")
        for name, f in drive.ALL:
            f(s); note(f"{{name}} {{uc}} {{a}} {{e}}")
        for bad in ((t, [95.]*5, c25.LO), (t, c25.LA, [200.]*5), (t, [[1.]], [1.]), ("nonsense", 0., 0.)):
            try: drive.call(uc, *bad, a, e)
            except Exception: pass
            note(f"rejected {{uc}} {{a}} {{e}}")
for form, x in c25.forms().items():
    for uc in drive.USECASES:
        drive.call(uc, x, c25.LA, c25.LO); note(f"{{uc}} with {{form}} times")
for name, f in (("sunrise", lambda: s.sunrise("x")), ("eth", lambda: s.eth(am_correction="x")), ("airmass", lambda: s.airmass("x"))):
    try: f()
    except Exception: pass
    note("rejected " + name)
sunwhere.universal_time_coordinated(c25.forms()["naive"], [0., 10.]); note("universal_time_coordinated")
sunwhere.utils.datetime.true_solar_time(c25.forms()["naive"], [0., 10.]); note("true_solar_time")
big = np.arange("2024-01-01", "2024-12-31", np.timedelta64(600, "s"), dtype="M8[s]")
for a, e in drive.CONFIGS:
    drive.call("sites", big, np.zeros(9), np.zeros(9), a, e); note(f"big {{a}} {{e}}")
print("RESULT" + json.dumps([n, found]))
'''
    with tempfile.TemporaryDirectory() as d:
        env = {k: v for k, v in os.environ.items()} | dict(TZ=tz, SUNWHERE_REPO=os.path.dirname(SRC), NUMEXPR_MAX_THREADS='8', NUMEXPR_NUM_THREADS='3')
        if bare:        # none of the variables that thread pools read, and none that steers python
            env = {k: v for k, v in env.items() if not k.startswith(('NUMEXPR', 'OMP', 'MKL', 'OPENBLAS', 'PYTHON')) or k == 'PYTHONPATH'}
        r = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', code], env=env, cwd=d, capture_output=True, text=True, timeout=800)
    res = [line for line in r.stdout.splitlines() if line.startswith('RESULT')]
    if not res:
        if SRC in r.stderr:
            ctx.fail('alters/crash', r.stderr[-1500:])
            return
        raise RuntimeError(r.stderr[-2000:])
    n, found = json.loads(res[0][6:])
    ctx.cover(states=n, transitions=n, traces=n)
    for k, what in found.items():
        ctx.fail(f'alters/{k}', f'a call alters the setting {k}: {what}')


def task(ctx, what, *args):
    dict(inprocess=inprocess, children=children, photos=photos)[what](ctx, *args)


def run(ctx):
    th = ctx.thorough
    specs = [(f'TZ={z} at start', dict(TZ=z), [], ['sunwhere']) for z in ZONES[1::1 if th else 3]]
    specs += [(f'hash seed {h}', dict(PYTHONHASHSEED=str(h)), [], ['sunwhere']) for h in ((0, 1, 2, 3, 4, 5) if th else (0, 7))]
    specs += [(f'LC_ALL={x}', dict(LC_ALL=x), [], ['sunwhere']) for x in ('C', 'POSIX', 'C.UTF-8')[:3 if th else 1]]
    specs += [(f'NUMEXPR_MAX_THREADS={n}', dict(NUMEXPR_MAX_THREADS=str(n)), [], ['sunwhere']) for n in ((1, 2, 4, 16, 64) if th else (1, 5))]
    specs += [(f'numexpr threads {n}', dict(NUMEXPR_NUM_THREADS=str(n)), [], ['sunwhere']) for n in (range(1, 9) if th else (1, 3, 8))]
    specs += [('no home, no user', dict(HOME='/nonexistent', USER=''), [], ['sunwhere']), ('python -O', {}, ['-O'], ['sunwhere']), ('python -OO', {}, ['-OO'], ['sunwhere']),
              ('python -X dev', {}, ['-X', 'dev'], ['sunwhere'])]
    mods = ['sunwhere._base', 'sunwhere._core', 'sunwhere.usecases', 'sunwhere.utils.datetime', 'sunwhere.utils.validate', 'sunwhere.libspa.ne_nrel', 'sunwhere.libspa.py_psa']
    orders = [[m] for m in mods] + ([list(p) for p in itertools.permutations(mods[:4])] if th else [mods[::-1]])
    specs += [(f'imports starting with {o[:4]}', {}, [], o) for o in orders]
    tasks = [('inprocess', p) for p in ('xarray', 'zones', 'pandas', 'locale')]
    tasks += [('photos', z, bare) for z in (('UTC', 'America/New_York') if th else ('UTC',)) for bare in (False, True)]
    tasks += [('children', *specs[i::6]) for i in range(6)]
    ctx.pmap('checks.c25', tasks)
    ctx.sample(dict(zones=ZONES, processes=len(specs)))
