"""C30: the benchmark scores each algorithm by its true differences from the reference.

`sunwhere._cli.benchmark` runs unmodified; the packages it compares with (soltrack, sg2, pysparta are not installed, pvlib needs more for some of its
methods) and the Horizons service are stand-ins that return known, different functions of instant, place and method. Enumerated: the tables of
ephemerides over instants x places x methods x options; all pairs of azimuths of an alphabet with the edges of the circle; all small tables of errors
with missing values; whole runs over places and years. The oracle is plain arithmetic on the library's and the stand-ins' values.
"""
import contextlib
import importlib
import io
import itertools
import os
import re
import shutil
import sys
import tempfile
import types
import warnings

import numpy as np
import pandas as pd

import sunwhere
from checks import c21
from lib import drive, mc

warnings.filterwarnings('ignore')
SW = ['nrel_numexpr', 'soltrack_numexpr', 'soltrack_numpy', 'psa_numexpr', 'psa_numpy', 'iqbal_numexpr', 'iqbal_numpy']
PV = ['nrel_numba', 'nrel_numpy', 'ephemeris', 'pyephem']
VARS = ('zenith', 'azimuth', 'ecf')
SCORES = ('mbe', 'std', 'mae', 'rmse', 'p66', 'p90')


# ---------------------------------------------------------------- stand-ins

def seconds(times):
    t = pd.DatetimeIndex(np.atleast_1d(times) if not isinstance(times, pd.DatetimeIndex) else times)
    if t.tz is not None:
        t = t.tz_convert('UTC').tz_localize(None)
    return t.values.astype('M8[s]').astype('int64')


def truth(kind, t, lat, lon):
    """what the method `kind` yields: zenith, azimuth (0..360 from the north), distance in AU"""
    u = seconds(t).astype(float)
    k = 1 + sum(map(ord, kind)) % 17
    zen = 90 + 60*np.sin(u/9000 + lat/30 + k)*np.cos(lon/40 + k/7)
    az = (u*0.0113*k + lon*3 + lat*k + 41*k + 2**0.5*(k + 10)) % 360
    r = 1 + 0.016*np.cos(u/3e6 + k)
    return zen, az, r


class SolTrack:
    def __init__(self, longitude, latitude, use_degrees=False, use_north_equals_zero=False, with_refraction=False, **kw):
        self.lon, self.lat = longitude, latitude
        self.deg, self.ref, self.north = use_degrees, with_refraction, use_north_equals_zero

    def set_date_time(self, times):
        self.t = times

    def compute_position(self, *a, **kw):
        zen, az, r = truth('soltrack', self.t, self.lat, self.lon)
        f = 1. if self.deg else np.pi/180
        self.altitude = (90 - zen + 0.5*bool(self.ref))*f
        self.azimuth = (az if self.north else (az - 180))*f
        self.distance = r


def sun_position(geopoints, times, outputs):
    g = np.asarray(geopoints, float)
    if g.ndim != 2 or g.shape[1] != 3:
        raise ValueError('geopoints must have the columns longitude, latitude, height')
    if np.asarray(times).dtype.kind != 'M':
        raise ValueError('times must be datetime64')
    out = types.SimpleNamespace(geoc=types.SimpleNamespace(), topoc=types.SimpleNamespace())
    cells = [truth('sg2', times, la, lo) for lo, la, _ in g]
    have = {'geoc.R': np.asarray(cells[0][2]), 'geoc.EOT': np.zeros(len(cells[0][2])), 'topoc.delta': np.array([c[0]*0 for c in cells]),
            'topoc.gamma_S0': np.array([np.radians(90 - c[0]) for c in cells]), 'topoc.alpha_S': np.array([np.radians(c[1]) for c in cells])}
    for o in outputs:
        a, b = o.split('.')
        setattr(getattr(out, a), b, have[o])
    return out


def sparta_model(cosz, ecf):
    c = np.where(np.asarray(cosz) > 0, cosz, 0)
    d = 1361.1*ecf*(0.7 + 0.1*c)*(c > 0)
    return dict(ghi=d*c + 50*c**2, dni=d, dif=50*c**2)


def SPARTA(cosz=None, ecf=None, as_dict=False, **kw):
    out = sparta_model(np.asarray(cosz), np.asarray(ecf))
    idx = getattr(cosz, 'index', None)
    out = {k: (v if idx is None else pd.Series(v, index=idx)) for k, v in out.items()}
    return out if as_dict else pd.DataFrame(out)


def get_solarposition(time, latitude, longitude, altitude=None, pressure=None, method='nrel_numpy', temperature=12, **kw):
    if method not in PV:
        raise ValueError(f'Invalid solar position method {method}')
    zen, az, r = truth('pvlib.' + method, time, latitude, longitude)
    cols = dict(apparent_zenith=zen - 0.3, zenith=zen, apparent_elevation=90.3 - zen, elevation=90 - zen, azimuth=az)
    if method.startswith('nrel'):
        cols['equation_of_time'] = zen*0
    return pd.DataFrame(cols, index=time)


def bench():
    """the module, imported with the stand-ins"""
    if 'sunwhere._cli.benchmark' in sys.modules:
        return sys.modules['sunwhere._cli.benchmark']
    os.environ['MPLBACKEND'] = 'Agg'
    for name, names in (('soltrack', dict(SolTrack=SolTrack)), ('sg2', dict(sun_position=sun_position)), ('pysparta', dict(SPARTA=SPARTA))):
        m = types.ModuleType(name)
        m.__dict__.update(names)
        sys.modules[name] = m
    import pvlib.solarposition
    pvlib.solarposition.get_solarposition = get_solarposition
    pvlib.solarposition.__dict__.setdefault('__standin__', True)
    with contextlib.redirect_stdout(io.StringIO()):
        return importlib.import_module('sunwhere._cli.benchmark')


# ---------------------------------------------------------------- oracle

def wrapped(d):
    """the signed smallest rotation, (-180, 180]"""
    return np.where(d > 180, d - 360, np.where(d <= -180, d + 360, d))


def same_angle_diff(got, exp):
    """equal, the two senses of half a turn being the same"""
    both = np.isnan(got) & np.isnan(exp)
    return both | (np.abs(got - exp) < 1e-9) | ((np.abs(np.abs(exp) - 180) < 1e-9) & (np.abs(np.abs(got) - 180) < 1e-9))


def scores(r):
    r = np.asarray(r, float)
    r = r[~np.isnan(r)]
    if len(r) == 0:
        return dict.fromkeys(SCORES, np.nan)
    a = np.abs(r - r.mean())
    return dict(mbe=r.mean(), std=r.std(ddof=1) if len(r) > 1 else np.nan, mae=np.abs(r).mean(), rmse=np.sqrt((r**2).mean()),
                p66=np.quantile(a, 0.66), p90=np.quantile(a, 0.90))


def close(a, b, tol=1e-9):
    return (np.isnan(a) and np.isnan(b)) or abs(a - b) <= tol*max(1, abs(b))


def frame(times, cols):
    """{(method, variable): values} -> the table the benchmark works with"""
    df = pd.DataFrame(cols, index=pd.DatetimeIndex(times, tz='UTC', name='time_utc'))
    df.columns = pd.MultiIndex.from_tuples(list(cols), names=['method', 'variable'])
    return df


# ---------------------------------------------------------------- tables of ephemerides

STEPS = dict(one=('2024-06-20T12:00', 1, '12min'), two=('2024-02-29T23:59:59', 2, '1s'), three=('1999-12-31T22:00', 3, '90min'),
             day=('2023-12-31T11:00', 121, '12min'), long=('2024-01-01', 1500, '97min'))
PLACES = [(36.949, -3.822), (0., 0.), (-33.9, 151.2), (90., 0.), (-90., -180.), (66.56, 179.99), (0, 100), (41, 2)]


def ephemerides(ctx, step):
    b = bench()
    t0, n, freq = STEPS[step]
    times = pd.date_range(t0, periods=n, freq=freq, tz='UTC')
    for lat, lon in PLACES:
        key = f'{step}/{lat},{lon}'
        cases = [('default', None, {})] + [(m, [m], kw) for m in SW + ['nrel_numexpr'] for kw in ({}, dict(refraction=True), dict(refraction=False))]
        cases += [('+'.join(p), list(p), {}) for p in itertools.permutations(SW[::2], 2)]
        for name, methods, kw in cases:
            want = {}
            for m in methods or SW:
                alg, eng = m.split('_')
                s = sunwhere.sites(times, lat, lon, algorithm=alg, engine=eng, refraction=kw.get('refraction', False))
                want.update({(f'sunwhere.{m}', 'zenith'): s.zenith.values[:, 0], (f'sunwhere.{m}', 'azimuth'): s.azimuth.values[:, 0],
                             (f'sunwhere.{m}', 'ecf'): s.ecf.values})
            df = ctx.guarded(f'sunwhere/{key}/{name}', b.sunwhere_ephemeris, times, lat, lon, *([] if methods is None else [methods]), **kw)
            table(ctx, f'sunwhere/{key}/{name}/{"refraction" if kw.get("refraction") else "plain"}', df, times, want)
        if step == 'long' and (lat, lon) != PLACES[0]:
            continue
        for name, methods in [('default', None)] + [(m, [m]) for m in PV] + [('+'.join(p), list(p)) for p in itertools.permutations(PV, 2)]:
            want = {}
            for m in methods or PV:
                zen, az, r = truth('pvlib.' + m, times, lat, lon)
                want.update({(f'pvlib.{m}', 'zenith'): zen, (f'pvlib.{m}', 'azimuth'): az - 180, (f'pvlib.{m}', 'ecf'): r*np.nan})
            table(ctx, f'pvlib/{key}/{name}', ctx.guarded(f'pvlib/{key}/{name}', b.pvlib_ephemeris, times, lat, lon, methods), times, want)
        zen, az, r = truth('soltrack', times, lat, lon)
        table(ctx, f'soltrack/{key}', ctx.guarded(f'soltrack/{key}', b.soltrack_ephemeris, times, lat, lon), times,
              {('soltrack.SolTrack', 'zenith'): zen, ('soltrack.SolTrack', 'azimuth'): az - 180, ('soltrack.SolTrack', 'ecf'): 1/r**2})
        zen, az, r = truth('sg2', times, lat, lon)
        df = ctx.guarded(f'sg2/{key}', b.sg2_ephemeris, times, lat, lon)
        if df is not None:
            df = b.add_level(df, 'sg2.sg2_c++')
        table(ctx, f'sg2/{key}', df, times, {('sg2.sg2_c++', 'zenith'): zen, ('sg2.sg2_c++', 'azimuth'): az - 180, ('sg2.sg2_c++', 'ecf'): 1/r**2})


def table(ctx, key, df, times, want):
    ctx.cover(states=1, transitions=len(want), traces=1)
    if df is None:
        return
    if set(df.columns) != set(want) or list(df.columns.names) != ['method', 'variable']:
        ctx.fail(f'{key}/columns', f'columns {list(df.columns)} ({df.columns.names}) instead of {list(want)}')
        return
    if df.index.tz is None or not np.array_equal(df.index.as_unit('ns').asi8, times.as_unit('ns').asi8):
        ctx.fail(f'{key}/instants', f'the table is not at the requested instants: {df.index[:3]}')
        return
    for c, e in want.items():
        g = df[c].to_numpy(float)
        bad = ~((np.abs(g - e) < 1e-9) | (np.isnan(g) & np.isnan(e)))
        if bad.any():
            k = int(np.argmax(bad))
            ctx.fail(f'{key}/{c[0]}/{c[1]}', f'{c[1]} of {c[0]} is {g[k]} instead of {e[k]} at {times[k]}')


# ---------------------------------------------------------------- differences

CIRCLE = [-180., -179.999, -179.5, -165., -150., -120., -90.5, -45., -15., -0.25, -1e-6, 0., 1e-6, 0.25, 15., 30., 89.5, 120., 135., 149., 150., 165., 179.5,
          179.999, 180., np.nan]
STEP_DEG = [float(v) for v in range(-180, 181, 3)]


def residues(ctx, which):
    b = bench()
    alphabet = CIRCLE if which == 'edges' else STEP_DEG
    pairs = np.array(list(itertools.product(alphabet, alphabet)))
    n = len(pairs)
    times = pd.date_range('2024-01-01', periods=n, freq='12min')
    zr, zm = np.linspace(0.5, 179.5, n), np.linspace(179, 1, n)
    er, em = np.linspace(0.96, 1.04, n), np.linspace(1.05, 0.95, n)
    em = np.where(np.arange(n) % 7 == 3, np.nan, em)
    exp = dict(zenith=zm - zr, azimuth=wrapped(pairs[:, 1] - pairs[:, 0]), ecf=em - er)
    for ref, names in itertools.product(('jpl', 'a.x'), (('a.x', 'jpl'), ('jpl', 'a.x'), ('b', 'a.x', 'jpl'), ('a.x', 'b', 'jpl', 'zz'))):
        for relative, order in itertools.product((False, True), itertools.permutations(VARS)):
            key = f'residues/{which}/{ref}/{"+".join(names)}/{"relative" if relative else "absolute"}/{order[0]}-{order[1]}'
            vals = {}
            for m in names:
                src = (zr, pairs[:, 0], er) if m == ref else (zm, pairs[:, 1], em)
                vals.update({(m, v): dict(zip(VARS, src))[v] for v in order})
            data = frame(times, vals)
            before = data.copy(deep=True)
            out = ctx.guarded(key, b.calc_residues, data, ref, **(dict(relative=True) if relative else {}))
            ctx.cover(states=n, transitions=n*3*(len(names) - 1), traces=1)
            if out is None:
                continue
            if not data.equals(before):
                ctx.fail(f'{key}/argument', 'the table given is changed')
            rest = [m for m in names if m != ref]
            if set(out.columns) != {(m, v) for m in rest for v in VARS}:
                ctx.fail(f'{key}/columns', f'columns {list(out.columns)}')
                continue
            if not out.index.equals(data.index):
                ctx.fail(f'{key}/instants', 'other instants than those of the table')
                continue
            for m, v in itertools.product(rest, VARS):
                e = exp[v]
                g = out[(m, v)].to_numpy(float)
                o = 1.
                if relative:
                    o = dict(zip(VARS, (zr, pairs[:, 0], er)))[v]
                with np.errstate(all='ignore'):
                    back = g*o
                    bad = ~same_angle_diff(back, e) if v == 'azimuth' else ~((np.abs(back - e) < 1e-9) | (np.isnan(back) & np.isnan(e)))
                    bad &= (o != 0)
                    e = e/o
                if bad.any():
                    k = int(np.argmax(bad))
                    mv, rv = data[(m, v)].iloc[k], data[(ref, v)].iloc[k]
                    rep = (STUBS + 'import numpy as np, pandas as pd\nimport sunwhere._cli.benchmark as b\n'
                           f'd = pd.DataFrame([[{rv!r}, {mv!r}]], index=pd.DatetimeIndex(["2024-01-01"], tz="UTC", name="time_utc"),\n'
                           f'                 columns=pd.MultiIndex.from_tuples([("jpl", {v!r}), ("m", {v!r})], names=["method", "variable"]))\n'
                           f'g = b.calc_residues(d, "jpl", relative={relative}).iloc[0, 0]\nassert abs(g - {float(e[k])!r}) < 1e-9, g\n')
                    ctx.fail(f'residues/{which}/{v}/{"relative" if relative else "absolute"}/{mv:g},{rv:g}',
                             f'{v} {mv} of {m} against {rv} of {ref} (columns {names}, {order}) differs by {g[k]} instead of {e[k]}', rep.replace('nan', 'np.nan'))


STUBS = '''import sys, types, os
os.environ['MPLBACKEND'] = 'Agg'
for m, n in (('soltrack', 'SolTrack'), ('sg2', 'sun_position'), ('pysparta', 'SPARTA')):
    sys.modules[m] = types.ModuleType(m)
    setattr(sys.modules[m], n, None)
'''


# ---------------------------------------------------------------- scores

def bulk(ctx, part):
    """all columns of errors of length <= 4 over an alphabet, three at a time"""
    b = bench()
    th = ctx.thorough
    alpha = (0., 1., -2.5, np.nan)
    cols = [c for n in range(1, 5 if not th else 6) for c in itertools.product(alpha, repeat=n)]
    groups = {}
    for c in cols:
        groups.setdefault(len(c), []).append(c)
    jobs = [g[i:i + 4] for g in groups.values() for i in range(0, len(g), 4)]
    for j, errs in enumerate(jobs[part::8]):
        n = len(errs[0])
        for night in ((), (0,), (n - 1,)) if n > 1 else ((),):
            times = pd.date_range('2024-05-01', periods=n, freq='12min')
            z = np.linspace(20, 80, n)
            z[list(night)] = 100.
            a = np.linspace(-179.5, 179.5, n)
            e = np.linspace(0.97, 1.03, n)
            vals = {('jpl', 'zenith'): z, ('jpl', 'azimuth'): a, ('jpl', 'ecf'): e}
            exp = {}
            for k, err in enumerate(errs):
                m = f'sunwhere.m{k}_x'
                err = np.array(err)
                d = dict(zenith=err, azimuth=-2*err, ecf=err/100)
                vals.update({(m, 'zenith'): z + err, (m, 'azimuth'): (a - 2*err + 180) % 360 - 180, (m, 'ecf'): e + err/100})
                exp.update({(v, m): scores(d[v]) for v in VARS})
            key = f'bulk/{part}/{j}/{night}'
            out = ctx.guarded(key, b.get_bulk_ephemeris_errors, frame(times, vals))
            ctx.cover(states=1, transitions=len(exp)*6, traces=1)
            if out is not None:
                check_scores(ctx, key, out, exp, errs)


def check_scores(ctx, key, out, exp, what):
    have = {i: out.loc[i] for i in out.index}
    for i, sc in exp.items():
        if i not in have:
            if all(np.isnan(v) for v in sc.values()):
                continue        # nothing to score
            ctx.fail(f'{key}/rows', f'no scores of {i} in {list(out.index)} for {what}')
            return
        for name, v in sc.items():
            if name not in out.columns:
                ctx.fail(f'{key}/columns', f'no score {name} in {list(out.columns)}')
                return
            if not close(float(have[i][name]), v):
                ctx.fail(f'{key}/{i[0]}/{name}', f'{name} of {i} is {have[i][name]} instead of {v} for the errors {what}')
                return
    extra = set(have) - set(exp)
    if extra:
        ctx.fail(f'{key}/rows', f'scores of {extra}')


SHORT = {'sunwhere.nrel_numexpr': 'nrel', 'sunwhere.psa_numexpr': 'psa', 'sunwhere.iqbal_numexpr': 'iqbal', 'sunwhere.soltrack_numexpr': 'soltrack',
         'sg2.sg2_c++': 'sg2'}


def clear_expect(df):
    day = df[('jpl', 'zenith')].to_numpy() < 90
    ref = sparta_model(np.cos(np.radians(df[('jpl', 'zenith')].to_numpy()[day])), df[('jpl', 'ecf')].to_numpy()[day])
    exp = {}
    for m, s in SHORT.items():
        if (m, 'zenith') in df.columns:
            g = sparta_model(np.cos(np.radians(df[(m, 'zenith')].to_numpy()[day])), df[(m, 'ecf')].to_numpy()[day])
            exp.update({(v, s): scores(g[v] - ref[v]) for v in ('ghi', 'dni', 'dif')})
    return exp


def clearsky(ctx):
    b = bench()
    for n, names in itertools.product((2, 3, 24), [list(SHORT)] + [[m] for m in SHORT] + [list(p) for p in itertools.permutations(list(SHORT)[:3], 2)] + [list(SHORT)[::-1]]):
        for shift, extra in itertools.product((0., 60., 95.), ((), ('pvlib.ephemeris', 'sunwhere.psa_numpy'))):
            times = pd.date_range('2024-05-01T04:00', periods=n, freq='37min')
            z = 20 + shift + np.linspace(0, 60 if shift < 90 else -20, n)
            vals = {('jpl', 'zenith'): z, ('jpl', 'azimuth'): z - 90, ('jpl', 'ecf'): 1 + z/5000}
            for k, m in enumerate((*names, *extra)):
                vals.update({(m, 'zenith'): z + 0.01*(k + 1)*np.cos(np.arange(n)), (m, 'azimuth'): z - 91, (m, 'ecf'): 1 + z/4900 + 1e-4*k})
            df = frame(times, vals)
            key = f'clearsky/{n}/{"+".join(SHORT[m] for m in names)}/{shift:g}/{len(extra)}'
            if (z < 90).sum() == 0:
                continue
            out = ctx.guarded(key, b.get_bulk_clearsky_errors, df)
            exp = clear_expect(df)
            ctx.cover(states=1, transitions=len(exp)*6, traces=1)
            if out is not None:
                check_scores(ctx, key, out, exp, f'{n} instants from zenith {z[0]}')


# ---------------------------------------------------------------- whole runs

def printed(text):
    """{variable: [(name, {column: value})]} of the printed tables"""
    out, cur, cols = {}, None, None
    for line in text.splitlines():
        cells = [c.strip() for c in re.split('[│|┃║]', line.strip())[1:-1]]
        if len(cells) != 7:
            continue
        if 'mbe' in cells:
            cur, cols = out.setdefault(cells[0], []), cells[1:]
        elif cur is not None:
            cur.append((cells[0], {c: float(v) for c, v in zip(cols, cells[1:])}))
    return out


def pretty(m):
    package, method = m.split('.')
    alg, _, eng = method.partition('_')
    return f"{package}'s {alg.upper()}" + (f' ({eng})' if eng else '')


RUNS = [(2024, 36.949, -3.822), (2023, 0, 0), (2024, 0., 100.), (2023, -33.5, 0.), (2024, -10, 20), (2023, 89.99, -180.)]


def whole(ctx, group, every=1):
    """runs one after another in the same temporary directory, the first ones again at the end (from the file kept)"""
    b = bench()
    d = tempfile.mkdtemp(prefix='c30-')
    saved, old = tempfile.tempdir, os.getcwd()
    tempfile.tempdir = d
    os.chdir(d)
    try:
        done = set()
        for year, lat, lon in group:
            key = f'run/{year}/{lat},{lon}/{"again" if (year, lat, lon) in done else "first"}'
            svc = c21.Service(every=every)
            text = io.StringIO()

            def go():
                with c21.world(svc), contextlib.redirect_stdout(text):
                    b.run_benchmark(year, lat, lon)
                return True
            ok = ctx.guarded(key, go, repro=STUBS + ('import urllib3, io\nimport sunwhere._cli.benchmark as b\n'
                                                     'class Reached(Exception): pass\n'
                                                     'def request(*a, **k): raise Reached\nurllib3.PoolManager.request = request\n'
                                                     f'try:\n    b.run_benchmark({year}, {lat}, {lon})\nexcept Reached:\n    pass\n'))
            ctx.cover(states=1, transitions=svc.n, traces=1)
            if not ok:
                continue
            if (year, lat, lon) in done:
                if svc.n:
                    ctx.fail(f'{key}/download', 'the file of the previous run is downloaded again')
            elif not svc.n:
                ctx.fail(f'{key}/download', 'the ephemeris of another year or place is used')
                continue
            for p in svc.requests:
                lo, la = (float(v) for v in p['SITE_COORD'].split(',')[:2])
                if abs(lo - lon) > 1e-6 or abs(la - lat) > 1e-6:
                    ctx.fail(f'{key}/site', f'the ephemeris is requested for {p["SITE_COORD"]}')
            done.add((year, lat, lon))
            a, z = (np.datetime64(f'{y}-01-01', 's').astype('int64') for y in (year, year + 1))
            u = np.arange(a, z + 1, 720*every)
            if svc.n and not np.array_equal(np.unique(np.concatenate([svc.expected(q) for q in svc.requests])), u):
                ctx.fail(f'{key}/interval', f'the ephemeris is requested from {svc.requests[0]["START_TIME"]} to {svc.requests[0]["STOP_TIME"]}')
            t = pd.DatetimeIndex(u.astype('M8[s]'), tz='UTC')
            az, el, r = c21.values(u, round(float(lon), 6), round(float(lat), 6))
            z0 = 90 - el
            ref = dict(zenith=z0, azimuth=az - 180, ecf=1/r**2)
            tab = {}
            for m in SW:
                s = sunwhere.sites(t, lat, lon, algorithm=m.split('_')[0], engine=m.split('_')[1], refraction=False)
                tab['sunwhere.' + m] = dict(zenith=s.zenith.values[:, 0], azimuth=s.azimuth.values[:, 0], ecf=s.ecf.values)
            for m in PV:
                zen, a, _ = truth('pvlib.' + m, t, lat, lon)
                tab['pvlib.' + m] = dict(zenith=zen, azimuth=a - 180, ecf=zen*np.nan)
            zen, a, rr = truth('sg2', t, lat, lon)
            tab['sg2.sg2_c++'] = dict(zenith=zen, azimuth=a - 180, ecf=1/rr**2)
            keep = z0 < 180
            got = printed(text.getvalue())
            exp = {}
            for v, label, f in (('zenith', 'zenith', 3600), ('azimuth', 'azimuth', 3600), ('ecf', 'ecf (x10\u207b\u00b3)', 1e3)):
                for m, d3 in tab.items():
                    e = (d3[v] - ref[v])[keep]
                    e = wrapped(e) if v == 'azimuth' else e
                    exp.setdefault(label, {})[pretty(m)] = {k: x*f for k, x in scores(e).items()}
            df = pd.DataFrame({(m, v): d3[v] for m, d3 in [('jpl', ref), *tab.items()] for v in VARS}, index=t)
            for (v, m), sc in clear_expect(df).items():
                exp.setdefault(v, {})[m] = sc
            for label, rows in exp.items():
                if label not in got:
                    ctx.fail(f'{key}/{label}', f'no table of {label} is printed; tables {list(got)}')
                    continue
                names = [n for n, _ in got[label]]
                lost = [n for n in rows if n not in names and not np.isnan(rows[n]['rmse'])]
                if lost or len(set(names)) != len(names) or set(names) - set(rows):
                    ctx.fail(f'{key}/{label}/rows', f'the table of {label} has the rows {names} instead of {list(rows)}')
                    continue
                for n, row in got[label]:
                    for c, v in row.items():
                        e = rows[n][{'\u00b1CI66': 'p66', '\u00b1CI90': 'p90'}.get(c, c)]
                        ctx.cover(states=1, transitions=1)
                        if not ((np.isnan(v) and np.isnan(e)) or abs(v - e) <= 6e-4 + 1e-9*abs(e)):
                            ctx.fail(f'{key}/{label}/{n}/{c}', f'{c} of {label} of {n} is printed as {v} instead of {e} in {year} at {lat}, {lon}')
                rm = [row['rmse'] for _, row in got[label] if not np.isnan(row['rmse'])]
                if rm != sorted(rm):
                    ctx.fail(f'{key}/{label}/order', f'{label} is not ordered by rmse: {rm}')
    finally:
        os.chdir(old)
        tempfile.tempdir = saved
        shutil.rmtree(d, ignore_errors=True)


def task(ctx, fn, *a):
    globals()[fn](ctx, *a)


def run(ctx):
    ctx.assume('the packages soltrack, sg2 and pysparta, pvlib.solarposition.get_solarposition and the Horizons service are stand-ins with the same interface',
               'percentiles interpolate linearly, the standard deviation is that of a sample (pandas)')
    near = [(2024, 10., 20.), (2024, -10., 20.), (2024, 10., -20.), (2024, -10., -20.), (2023, 10., 20.), (2024, 10.5, 20.), (2024, 10., 120.), (2024, 10., 20.)]
    runs = [(RUNS[:1],), (near, 60), (RUNS[1:] + RUNS[:3], 60)]
    if ctx.thorough:
        runs += [(near,), (RUNS,)]
        runs += [([(y, 45.5, 9.25) for y in (1999, 2000, 2001, 2100, 1999)],), ([(2024, la, lo) for la in (-90., 0., 90.) for lo in (-180., 0., 179.75)],)]
    tasks = [('whole', *g) for g in runs] + [('ephemerides', s) for s in STEPS] + [('residues', w) for w in ('edges', 'lattice')]
    tasks += [('bulk', p) for p in range(8)] + [('clearsky',)]
    ctx.pmap('checks.c30', tasks)
    ctx.sample(dict(part='residues', pairs=len(CIRCLE)**2 + len(STEP_DEG)**2))
    ctx.sample(dict(part='runs', year_site=RUNS))
