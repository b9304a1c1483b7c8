"""C31: the speed tests time the computations they name and keep every measurement.

`speed_meter` and `load_speed_tests` of sunwhere._cli.benchmark run unmodified, with the libraries they time replaced by recorders that take a known time.
Enumerated: library x algorithm x number of times x places (single, several, grids) x repetitions x the extreme and middle values of the random draws;
whole speed tests in an empty, a missing and a partly filled directory, interrupted at every measurement of an alphabet and resumed.
"""
import collections
import contextlib
import gc
import io
import itertools
import os
import pathlib
import shutil
import tempfile
import time

import numpy as np
import pandas as pd

import sunwhere
from checks import c30
from lib import mc

METHODS = [('sunwhere', m) for m in ('nrel_numexpr', 'soltrack_numexpr', 'soltrack_numpy', 'psa_numexpr', 'psa_numpy', 'iqbal_numexpr', 'iqbal_numpy')]
METHODS += [('pvlib', m) for m in ('nrel_numba', 'nrel_numpy', 'ephemeris', 'pyephem')] + [('sg2', 'sg2_c++')]
TESTED = [m for m in METHODS if m[1] not in ('ephemeris', 'pyephem')]
TIMES = [1, 10, 100, 1000, 10000, 50000, 100000, 500000]
PLACES = [1, 10, 100, '10x10', '50x50', '100x100']


class Interrupt(Exception):
    pass


class Rec:
    """what was computed: how many times (library, algorithm, times, latitudes, longitudes, kind); each call takes `pause` seconds"""

    def __init__(self, pause=0.):
        self.calls, self.total, self.pause, self.bad, self.stop, self.last, self.len = collections.Counter(), 0, pause, [], None, None, 0

    def note(self, lib, alg, times, lat, lon, kind):
        if times is not self.last:
            self.last = times
            t = pd.DatetimeIndex(times)
            self.len = len(t)
            if not t.is_unique:
                self.bad.append(f'{lib} {alg} is asked for repeated times')
        la, lo = np.atleast_1d(np.asarray(lat, float)), np.atleast_1d(np.asarray(lon, float))
        if not (np.abs(la) <= 90).all() or not ((lo >= -180) & (lo < 180)).all():
            self.bad.append(f'{lib} {alg} is asked for latitudes {la.min()}..{la.max()}, longitudes {lo.min()}..{lo.max()}')
        if self.total == self.stop:
            raise Interrupt('stopped')
        self.total += 1
        self.calls[lib, alg, self.len, la.size, lo.size, kind] += 1
        if self.pause:
            time.sleep(self.pause)

    def use(self, kind):
        def fun(times, latitude, longitude, algorithm='psa', refraction=True, engine='numexpr'):
            if refraction:
                self.bad.append('sunwhere is timed with refraction')
            self.note('sunwhere', f'{algorithm}_{engine}', times, latitude, longitude, kind)
        return fun

    def pv(self, time, latitude, longitude, altitude=None, pressure=None, method='nrel_numpy', temperature=12, **kw):  # noqa: A002
        if kw.get('numthreads', 1) > 8 or kw.get('numthreads', 1) > max(1, len(time)):
            self.bad.append(f'pvlib is asked for {kw["numthreads"]} threads for {len(time)} times')
        self.note('pvlib', method, time, latitude, longitude, 'sites')

    def sg2(self, geopoints, times, outputs=()):
        g = np.asarray(geopoints, float)
        if g.ndim != 2 or g.shape[1] != 3:
            self.bad.append(f'sg2 is given points of shape {g.shape}')
            return
        if len(np.unique(g, axis=0)) != len(g):
            self.bad.append('sg2 is given repeated points')
        self.note('sg2', 'sg2_c++', times, g[:, 1], g[:, 0], 'sites')


class Draws:
    """numpy's generator with every draw at a chosen position of its interval"""

    def __init__(self, at):
        self.at = at

    def pick(self, low, high, size, f):
        n = 1 if size is None else int(np.prod(size))
        v = f(low + (high - low)*(self.at + (np.arange(n)/n if n > 1 else 0))/(2 if n > 1 else 1))
        return v[0] if size is None else v.reshape(size)

    def uniform(self, low=0., high=1., size=None):
        return self.pick(low, np.nextafter(high, low), size, lambda v: np.clip(v, low, np.nextafter(high, low)))

    def random(self, size=None):
        return self.uniform(0., 1., size)

    def integers(self, low, high=None, size=None, **kw):
        low, high = (0, low) if high is None else (low, high)
        return self.pick(low, high - 1, size, lambda v: np.rint(v).astype(int))

    def __getattr__(self, name):
        return getattr(np.random.Generator(np.random.PCG64(1)), name)


@contextlib.contextmanager
def world(rec, at=None):
    """the libraries are those of the recorder; parquet files are pickles; np.random.default_rng draws at `at`"""
    b = c30.bench()
    import pvlib.solarposition as pv
    import sg2
    saved = [(o, n, getattr(o, n)) for o, n in ((sunwhere, 'sites'), (sunwhere, 'regular_grid'), (sunwhere, 'transect'), (pv, 'get_solarposition'), (sg2, 'sun_position'),
                                              (np.random, 'default_rng'), (pd.DataFrame, 'to_parquet'), (pd, 'read_parquet'))]
    names = [n for n, v in vars(b).items() if v is c30.sun_position]
    try:
        sunwhere.sites, sunwhere.regular_grid, sunwhere.transect = rec.use('sites'), rec.use('regular_grid'), rec.use('transect')
        pv.get_solarposition, sg2.sun_position = rec.pv, rec.sg2
        for n in names:
            setattr(b, n, rec.sg2)
        if at is not None:
            np.random.default_rng = lambda *a, **k: Draws(at)
        pd.DataFrame.to_parquet = lambda df, path, *a, **k: df.to_pickle(str(path))
        pd.read_parquet = lambda path, *a, **k: pd.read_pickle(str(path))
        yield b
    finally:
        for o, n, v in saved:
            setattr(o, n, v)
        for n in names:
            setattr(b, n, c30.sun_position)


def sizes(places):
    return [int(v) for v in places.split('x')] if isinstance(places, str) else [places]


def cells(lib, alg, n, places):
    """the calls that one execution makes: {(lib, alg, times, latitudes, longitudes, kind): count}"""
    s = sizes(places)
    if lib == 'sunwhere':
        return {(lib, alg, n, s[0], s[-1], 'regular_grid' if len(s) == 2 else 'sites'): 1}
    total = int(np.prod(s))
    return {(lib, alg, n, 1, 1, 'sites'): total} if lib == 'pvlib' else {(lib, alg, n, total, total, 'sites'): 1}


REPRO = c30.STUBS + 'import sunwhere._cli.benchmark as b\n'


def meter(ctx, lib, alg):
    th = ctx.thorough
    for n, p, (rep, num), at in itertools.product((1, 2, 9, 100), (1, 2, 10, '1x1', '2x3', '3x2', '10x10'), ((3, 1), (1, 1), (2, 3)), (0., 0.5, 1.)):
        if (rep, num) == (2, 3) and at != 0.5 and not th:
            continue
        rec = Rec()
        key = f'meter/{lib}/{alg}/{n}/{p}/{rep}/{num}/{at}'
        args = (lib, alg, n, p) if (rep, num) == (3, 1) else (lib, alg, n, p, rep, num)
        with world(rec, at) as b:
            got = ctx.guarded(key, b.speed_meter, *args)
        ctx.cover(states=1, transitions=rec.total, traces=1)
        if got is None:
            continue
        for w in rec.bad[:1]:
            ctx.fail(f'meter/{lib}/{alg}/{p}/request', f'{w} in a test of {n} times and {p} places')
        want = {k: v*rep*num for k, v in cells(lib, alg, n, p).items()}
        have = dict(rec.calls)
        if have != want:
            ctx.fail(f'meter/{lib}/{alg}/{p}/calls', f'a test of {lib} {alg} with {n} times and {p} places, {rep} x {num} runs, computes {have} instead of {want} (times, latitudes, longitudes)')
        if len(got) != 2 or not all(np.isfinite(got)) or min(got) < 0:
            ctx.fail(f'meter/{lib}/{alg}/result', f'the result is {got}')
    # the unit: microseconds per time and place
    for n, p, (rep, num) in itertools.product((1, 50), (1, 4, '2x3'), ((3, 1), (1, 2))):
        calls = sum(cells(lib, alg, n, p).values())
        pause = 0.024/calls
        rec = Rec(pause)
        total = n*int(np.prod(sizes(p)))
        with world(rec, 0.5) as b:
            t0 = time.perf_counter()
            got = ctx.guarded(f'unit/{lib}/{alg}/{n}/{p}', b.speed_meter, lib, alg, n, p, rep, num)
            spent = time.perf_counter() - t0
        ctx.cover(states=1, transitions=1, traces=1)
        if got is None:
            continue
        low, high = pause*calls/total*1e6, spent/(rep*num*total)*1e6
        if not low*0.999 <= got[0] <= high*1.001:
            ctx.fail(f'unit/{lib}/{alg}/{n}/{p}', f'{rep} x {num} runs of {n} times and {p} places take between {low} and {high} us per time and place; the result is {got[0]}')
        if rep == 1 and got[1] != 0:
            ctx.fail(f'unit/{lib}/{alg}/{n}/{p}/std', f'the deviation of one repetition is {got[1]}')
        if not 0 <= got[1] <= high*rep**0.5*1.001:
            ctx.fail(f'unit/{lib}/{alg}/{n}/{p}/std', f'the deviation is {got[1]}, the slowest of {rep} repetitions below {high*rep}')
    with world(Rec()) as b, contextlib.redirect_stdout(io.StringIO()) as text:       # the real generator, and spoken
        got = b.speed_meter(lib, alg, 7, 3, quiet=False)
    if f'{got[0]:.3f}' not in text.getvalue() or alg not in text.getvalue():
        ctx.fail(f'meter/{lib}/{alg}/spoken', f'{text.getvalue()!r} does not state the result {got}')
    ctx.sample(dict(library=lib, algorithm=alg))


def skipped(n, p):
    return n > 1000 and p in ('50x50', '100x100')


def tests(ctx, what):
    """whole speed tests; the place of the measurements is what matters, so the time axis is the real one and the libraries take no time"""
    stops = {'empty': [None], 'missing': [None], 'default': [None], 'interrupted': [0, 300, 9000, *([1, 5000, 30000] if ctx.thorough else [])]}[what]
    old = os.getcwd()
    for stop in stops:
        d = tempfile.mkdtemp(prefix='c31-')
        out = {'missing': os.path.join(d, 'a', 'b'), 'default': None}.get(what, d)
        os.chdir(d)
        try:
            rec = Rec()
            rec.stop = stop
            with world(rec) as b, contextlib.redirect_stderr(io.StringIO()):
                if stop is not None:
                    try:
                        b.load_speed_tests(out)
                    except Interrupt:
                        pass
                    rec.stop = None
                    before = rec.total
                got = ctx.guarded(f'tests/{what}', b.load_speed_tests, out if out is None or what == 'missing' else pathlib.Path(out))
                first, have = rec.total, dict(rec.calls)
                again = ctx.guarded(f'tests/{what}/again', b.load_speed_tests, out)
            ctx.cover(states=1, transitions=rec.total, traces=2)
            if got is None or again is None:
                return
            key = f'tests/{what}' + ('' if stop is None else f'/{stop}')
            if rec.total != first:
                ctx.fail(f'{key}/again', 'what was measured is measured again')
            if not same(got, again):
                ctx.fail(f'{key}/again', 'the second reading gives other results')
            table(ctx, key, got)
            for w in rec.bad[:1]:
                ctx.fail(f'{key}/request', w)
            want = {}
            for (lib, alg), n, p in itertools.product(TESTED, TIMES, PLACES):
                if not skipped(n, p):
                    for k, v in cells(lib, alg, n, p).items():
                        want[k] = want.get(k, 0) + 3*v
            if stop is None and have != want:
                k = next(k for k in {**have, **want} if have.get(k) != want.get(k))
                ctx.fail(f'{key}/calls', f'{k} is computed {have.get(k, 0)} times instead of {want.get(k, 0)}')
            if stop is not None and any(have.get(k, 0) < v for k, v in want.items()):
                ctx.fail(f'{key}/calls', f'after an interruption at computation {before} some measurements are missing')
            left = sorted(f for f in os.listdir(out or d) if not f.endswith('.parquet'))
            if left and what != 'missing':
                ctx.fail(f'{key}/files', f'files left: {left}')
        finally:
            os.chdir(old)
            shutil.rmtree(d, ignore_errors=True)


def same(a, b):
    return a.shape == b.shape and list(a.columns) == list(b.columns) and np.array_equal(a.to_numpy(float), b.to_numpy(float), equal_nan=True)


def table(ctx, key, got):
    cols = [f'{lib}.{alg}' for lib, alg in TESTED]
    names = {str(c[0]) for c in got.columns}
    if names != set(cols) or {str(c[1]) for c in got.columns} != {str(p) for p in PLACES} or sorted(int(i) for i in got.index) != TIMES or got.shape != (len(TIMES), len(cols)*len(PLACES)):
        ctx.fail(f'{key}/table', f'the table has rows {list(got.index)} and columns {list(got.columns)[:8]}')
        return
    for c in got.columns:
        for n in got.index:
            v = float(got.loc[n, c])
            p = next(p for p in PLACES if str(p) == str(c[1]))
            ctx.cover(transitions=1)
            if np.isnan(v) != skipped(int(n), p):
                ctx.fail(f'{key}/measured', f'the time of {c[0]} for {n} times and {c[1]} places is {v}: it was {"not " if skipped(int(n), p) else ""}measured', REPRO + '''
import tempfile, contextlib, os, pandas as pd, io
b.speed_meter = lambda *a, **k: (1., 0.)
pd.DataFrame.to_parquet = lambda df, path, *a, **k: df.to_pickle(str(path))
pd.read_parquet = lambda path, *a, **k: pd.read_pickle(str(path))
with tempfile.TemporaryDirectory() as d, contextlib.redirect_stderr(io.StringIO()):
    t = b.load_speed_tests(d)
assert (t == 1).any().any(), t
''')
                return
            if not np.isnan(v) and not 0 < v < 1e9:
                ctx.fail(f'{key}/measured', f'the time of {c[0]} for {n} times and {c[1]} places is {v}')
                return


def kept(ctx):
    """every measurement stands at its own row and column: the libraries take a time that tells library, times and places apart"""
    d = tempfile.mkdtemp(prefix='c31-')
    try:
        rec = Rec()
        with world(rec) as b, contextlib.redirect_stderr(io.StringIO()):
            orig, log = b.speed_meter, {}

            def told(library, algorithm, n_times, n_locs=1, *a, **k):
                log[f'{library}.{algorithm}', n_times, str(n_locs)] = v = 1. + len(log)
                return v, 0.
            b.speed_meter = told
            try:
                got = ctx.guarded('kept', b.load_speed_tests, d)
            finally:
                b.speed_meter = orig
        if got is None or not log:
            return
        for (lib, n, p), v in log.items():
            ctx.cover(states=1, transitions=1)
            g = [float(got.loc[n, c]) for c in got.columns if str(c[0]) == lib and str(c[1]) == p]
            if g != [v]:
                ctx.fail('kept', f'the time of {lib} for {n} times and {p} places was {v} and is given as {g}')
                return
        if not (got.isna().to_numpy().sum() == got.size - len(log)):
            ctx.fail('kept', 'the table holds times that were not measured')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def task(ctx, what, *args):
    c30.bench()
    gc.freeze()         # every speed test ends with a collection of the whole heap
    dict(meter=meter, tests=tests, kept=kept)[what](ctx, *args)


def run(ctx):
    ctx.assume('the timed libraries are replaced by recorders; no parquet engine is installed, tables are kept as pickles')
    ctx.pmap('checks.c31', [('tests', w) for w in ('interrupted', 'empty', 'missing', 'default')[:4 if ctx.thorough else 3]] + [('kept',)] + [('meter', lib, alg) for lib, alg in METHODS])
