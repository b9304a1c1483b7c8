"""C13: calls and accessors have no side effects and no memory.

Operations (calls of the library with every algorithm, engine and use case, with near-identical arguments, failing calls,
conversions) are concatenated in de Bruijn sequences, which contain every history of a given length. Every operation's outputs, and
those of the previous results still alive, must equal what the operation returns alone in a fresh process. All pairs of
accessors are read on fresh results; arguments are compared before/after and overwritten after the call.
"""
import itertools

import numpy as np
import pandas as pd

from lib import drive, space

T = space.dt('2024-03-20T05:00:00', '2024-06-20T12:30:00', '2024-12-31T23:59:59', '2025-01-01T00:00:00')
T2 = space.dt('2024-03-20T05:00:00', '2024-08-11T07:45:10', '2023-02-28T22:00:00', '2025-01-01T00:00:00')     # same size and ends
T3 = T + np.timedelta64(1, 's')
LA, LO = np.array([-33.9, 36.9, 0.5, 66.6]), np.array([-179.9, -3.8, 100., 18.4])
LA2, LO2 = np.array([-33.9, 12., 51., 66.6]), np.array([-179.9, 50., -70., 18.4])
NAT = T.copy()
NAT[1] = 'NaT'
ARGS = {
    'base': (T, LA, LO),
    'times2': (T2, LA, LO),                      # same places
    'times+1s': (T3, LA, LO),
    'places2': (T, LA2, LO2),                    # same times
    'swapped': (T, LO[[1, 2, 3, 1]]*0.8, LA*2),  # same size, other roles
    'reversed': (T[::-1], LA, LO),
    'short': (T[:2], LA[:2], LO[:2]),
    'one': (T[:1], LA[:1], LO[:1]),
    'f32': (T, LA.astype('f4'), LO.astype('f4')),
    'ints': (T, np.array([10, 20, 30, 40]), np.array([1, 2, 3, 4])),
    'nat': (NAT, LA, LO),
    'nan': (T, np.array([-33.9, np.nan, 0.5, 66.6]), LO),
    'list': ([pd.Timestamp(t).to_pydatetime() for t in T], list(LA), list(LO)),
    'zone': (pd.DatetimeIndex(T2).tz_localize('UTC').tz_convert('Europe/Madrid'), LA2, LO2),
    'zone2': (pd.DatetimeIndex(T2).tz_localize('UTC').tz_convert('America/New_York'), LA2, LO2),
    'ns': (T.astype('M8[ns]'), LA, LO),
    'leap': (T + np.timedelta64(-25*86400, 's'), LA, LO),
}


def calls():
    ops = {}
    for a, e in drive.CONFIGS:
        for uc in drive.USECASES:
            ops[f'{uc}/{a}/{e}/base'] = ('call', uc, 'base', a, e, True)
        ops[f'sites/{a}/{e}/noref'] = ('call', 'sites', 'base', a, e, False)
    for name in ARGS:
        if name != 'base':
            ops[f'sites/psa/numexpr/{name}'] = ('call', 'sites', name, 'psa', 'numexpr', True)
    for name in ('times2', 'places2', 'times+1s', 'short', 'nat'):
        ops[f'sites/nrel/numexpr/{name}'] = ('call', 'sites', name, 'nrel', 'numexpr', True)
        ops[f'regular_grid/nrel/numexpr/{name}'] = ('call', 'regular_grid', name, 'nrel', 'numexpr', True)
        ops[f'transect/iqbal/numpy/{name}'] = ('call', 'transect', name, 'iqbal', 'numpy', True)
    for name in ('times2', 'places2'):
        ops[f'regular_grid/soltrack/numexpr/{name}'] = ('call', 'regular_grid', name, 'soltrack', 'numexpr', False)
        ops[f'sites/soltrack/numpy/{name}'] = ('call', 'sites', name, 'soltrack', 'numpy', True)
        ops[f'transect/psa/numpy/{name}'] = ('call', 'transect', name, 'psa', 'numpy', True)
        ops[f'sites/iqbal/numexpr/{name}'] = ('call', 'sites', name, 'iqbal', 'numexpr', True)
    ops['fails/latitude'] = ('fail', 'sites', (T, LA + 40, LO), 'psa', 'numexpr')
    ops['fails/algorithm'] = ('fail', 'sites', (T, LA, LO), 'xxx', 'numexpr')
    ops['fails/engine'] = ('fail', 'transect', (T, LA, LO), 'nrel', 'numpy')
    ops['fails/shape'] = ('fail', 'transect', (T, LA[:2], LO), 'psa', 'numpy')
    ops['utc'] = ('utc',)
    ops['cli'] = ('cli',)
    return ops


OPS = calls()
CORE = [o for o in OPS if o.endswith('/base') and not o.startswith('transect')] + [
    'sites/psa/numexpr/times2', 'sites/psa/numexpr/places2', 'sites/psa/numexpr/f32', 'sites/psa/numexpr/zone', 'sites/nrel/numexpr/times2',
    'regular_grid/nrel/numexpr/places2', 'regular_grid/nrel/numexpr/times2', 'sites/nrel/numexpr/noref', 'transect/iqbal/numpy/times2', 'fails/engine', 'utc', 'cli']
GET = dict(drive.ALL)
SHORT = ['zenith', 'azimuth', 'declination', 'eot', 'ecf', 'true_solar_time', 'sunrise_local', 'sunset_deg', 'incidence_35_-50', 'eth_perez_1990', 'airmass_gueymard_2003']
TOL = 1e-9


def copy(x):
    return x.copy() if hasattr(x, 'copy') else x


def perform(op, mutate=False):
    """-> (Sunpos or None, {output: values} for the others, arguments, their copies)"""
    import sunwhere
    o = OPS[op]
    if o[0] == 'call':
        args = tuple(copy(x) for x in ARGS[o[2]])
        kept = tuple(copy(x) for x in args)
        return drive.call(o[1], *args, *o[3:]), None, args, kept
    if o[0] == 'fail':
        args = tuple(copy(x) for x in o[2])
        try:
            drive.call(o[1], *args, *o[3:])
        except Exception as exc:     # which error is the business of C09
            return None, {'error': np.array(type(exc).__name__)}, args, o[2]
        return None, {'error': np.array('none')}, args, o[2]
    if o[0] == 'utc':
        v = sunwhere.universal_time_coordinated(T.astype('M8[ns]'), 12.5)
        return None, {'utc': np.asarray(v, dtype='M8[ns]')}, (), ()
    from typer.testing import CliRunner
    from sunwhere._cli.main import app
    r = CliRunner().invoke(app, ['at', '2024-03-20 10:00', '36.9n', '3.8w', '-a', 'nrel', '-z', 'Europe/Madrid'])
    return None, {'cli': np.array(r.stdout), 'rc': np.array(r.exit_code)}, (), ()


def meta(da):
    c = [f'{k}{v.dims}{v.dtype}{v.values.tolist()}' for k, v in sorted(da.coords.items())]
    return np.array(f'{da.name} {da.dims} {sorted(da.attrs.items())} {c}')


def outputs(sp, other, names):
    if sp is None:
        return other
    d = {}
    for n in names:
        da = GET[n](sp)
        d[n], d['label of ' + n] = da.values.copy(), meta(da)
    d['labels'] = np.array([str(sp.timezone), sp.algorithm, sp.engine, sp.usecase, str(sp.times.tz), str(bool(sp.has_refraction))])
    d['times'] = sp.times_utc.tz_localize(None).values.copy()
    d['latitude'], d['longitude'] = sp.latitude.values.copy(), sp.longitude.values.copy()
    return d


def differ(got, ref):
    for n in got:
        a, b = got[n], ref[n]
        if a.dtype.kind in 'US':
            if not np.array_equal(a, b):
                return n, f'{a} instead of {b}'
            continue
        w = drive.worst(a, b, TOL if a.dtype.kind != 'M' else 0)
        if w:
            return n, f'at {w[0]}: {w[1]}'
    return None


def alone(ctx, op):
    sp, other, _, _ = perform(op)
    ctx.extra['ref:' + op] = outputs(sp, other, list(GET))


def de_bruijn(k, n):
    """every word of length n over k letters occurs once in the cyclic sequence"""
    a, seq = [0]*k*n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p+1])
            return
        a[t] = a[t-p]
        db(t+1, p)
        for j in range(a[t-p]+1, k):
            a[t] = j
            db(t+1, t)
    db(1, 1)
    return seq


def histories(ctx, names, seq, refs):
    alive = []       # results of the last operations, still held by the caller
    past = []
    for i in seq:
        op = names[i]
        past.append(op)
        try:
            sp, other, args, kept = perform(op)
            out = outputs(sp, other, SHORT)
        except Exception as exc:
            ctx.fail(f'history/{op}/raises', f'{op} raises {exc!r} after {past[-4:-1]}', repro(past[-6:]))
            continue
        ctx.cover(states=1, transitions=1 + len(alive), traces=1)
        d = differ(out, refs[op])
        if d:
            ctx.fail(f'history/{op}/{d[0]}', f'{d[0]} of {op} after {past[-4:-1]}: {d[1]}', repro(past[-6:]))
        for a, b in zip(args, kept):
            same = a == b if isinstance(a, list) else np.array_equal(np.asarray(a), np.asarray(b), equal_nan=np.asarray(a).dtype.kind in 'fM')
            if not same:
                ctx.fail(f'argument/{op}', f'{op} modified its argument: {a} instead of {b}', repro([op]))
        for op0, sp0 in alive:
            d = differ(outputs(sp0, None, SHORT[:3] + ['true_solar_time', 'incidence_35_-50']), refs[op0])
            if d:
                ctx.fail(f'held/{op0}/{d[0]}', f'{d[0]} of an earlier {op0} changed by {op}: {d[1]}', repro(past[-6:]))
        if sp is not None:
            alive = (alive + [(op, sp)])[-2:]
    ctx.sample(dict(history=past[:6]), limit=3)


def repro(ops):
    return ('import sys\nsys.path.insert(0, "/verif")\nfrom checks import c13\n'
            f'ops = {ops!r}\nc13.replay(ops)\n')


def replay(ops):
    import concurrent.futures as cf
    import multiprocessing as mp
    with cf.ProcessPoolExecutor(1, mp_context=mp.get_context('spawn')) as ex:
        ref = ex.submit(_alone, ops[-1]).result()
    held = [perform(o) for o in ops]
    d = differ(outputs(held[-1][0], held[-1][1], SHORT), ref)
    assert d is None, d


def _alone(op):
    sp, other, _, _ = perform(op)
    return outputs(sp, other, list(GET))


def accessors(ctx, uc, alg, eng, refs):
    """every ordered pair of accessors on a fresh result (each also twice)"""
    key = f'{uc}/{alg}/{eng}/base'
    ref = refs[key]
    reads = list(GET) + ['latitude', 'longitude']
    get = lambda sp, n: getattr(sp, n) if n in ('latitude', 'longitude') else GET[n](sp)    # noqa: E731
    label = {n: meta(get(drive.call(uc, *ARGS['base'], alg, eng, True), n)) for n in reads}
    for a, b in itertools.product(reads, repeat=2):
        sp = drive.call(uc, *ARGS['base'], alg, eng, True)
        try:
            got = [(a, get(sp, a)), (b, get(sp, b)), (a, get(sp, a))]
        except Exception as exc:
            ctx.fail(f'accessors/{uc}/{alg}/{b}', f'reading {a}, {b}, {a} raises {exc!r}')
            continue
        ctx.cover(states=1, transitions=3, traces=1)
        for k, (n, da) in enumerate(got):
            v = da.values
            if meta(da) != label[n]:
                ctx.fail(f'accessors/{uc}/{alg}/{n}', f'read number {k + 1} of {a}, {b}, {a} is labelled {meta(da)} instead of {label[n]}')
            if v.dtype != ref[n].dtype or v.shape != ref[n].shape or differ({n: v}, ref):
                ctx.fail(f'accessors/{uc}/{alg}/{n}', f'read number {k + 1} of {a}, {b}, {a} differs: {differ({n: v}, ref)}',
                         drive.PRELUDE + f's = {drive.call_src(uc, *ARGS["base"], alg, eng, True)}\n')
    # a long random-free walk over one single object
    sp = drive.call(uc, *ARGS['base'], alg, eng, True)
    for i in de_bruijn(len(reads), 2):
        n = reads[i]
        ctx.cover(states=1, transitions=1)
        da = get(sp, n)
        if differ({n: da.values}, ref) or meta(da) != label[n]:
            ctx.fail(f'walk/{uc}/{alg}/{n}', f'{n} changed while reading accessors: {differ({n: da.values}, ref) or meta(da)}')
            break


# argument pairs that a careless memory would confuse: equal sizes, ends, sums, extremes, values under another type or role
U = space.dt('2024-03-20T05:00:00', '2024-06-20T12:30:00', '2024-12-21T11:00:00', '2025-01-01T00:00:00')
V = space.dt('2024-03-20T05:00:00', '2024-06-20T12:29:00', '2024-12-21T11:01:00', '2025-01-01T00:00:00')     # ends, size, sum of U
MA, MO = np.array([-33.9, 36.9, 0.5, 66.6]), np.array([-179.9, -3.8, 100., 18.4])
TWINS = {
    'base': (U, MA, MO),
    'times': (V, MA, MO),
    'times-swapped': (U[[0, 2, 1, 3]], MA, MO),
    'times-us': (U + np.timedelta64(1, 's')*np.array([0, 1, 0, 0]), MA, MO),
    'latitude': (U, MA + np.array([0, 1., -1., 0]), MO),
    'longitude': (U, MA, MO + np.array([0, 1., -1., 0])),
    'places-swapped': (U, MA[[0, 2, 1, 3]], MO[[0, 2, 1, 3]]),
    'latitude-mirrored': (U, -MA, MO),
    'longitude-mirrored': (U, MA, -MO),
    'year-later': (U + np.timedelta64(366*86400, 's'), MA, MO),
    'slightly-north': (U, MA + 1e-4, MO),
    'roles': (U, MA, MA),
    'no-refraction': (U, MA, MO),
    'nan': (U, np.array([-33.9, np.nan, 0.5, 66.6]), MO),
    'nat': (np.where(np.arange(4) == 1, np.datetime64('NaT'), U), MA, MO),
    'two': (U[[0, 3]], MA[[0, 3]], MO[[0, 3]]),
}
# neighbours of base, which a memory keyed by rounded arguments would confuse: one entry or all of them moved by ever smaller amounts
NEAR = {'base': TWINS['base']}
for _n, _d in itertools.product(('latitude', 'longitude'), (0.3, -0.03, 0.004, -4e-4, 4e-5, -4e-6, 4e-7)):
    for _w, _m in (('all', np.ones(4)), ('one', np.arange(4) == 1)):
        NEAR[f'{_n}{_d:+g} {_w}'] = (U, MA + _d*_m*(_n == 'latitude'), MO + _d*_m*(_n == 'longitude'))
for _d in (1, 29, 59, 1800, 3601, 43200, 86399):
    for _w, _m in (('all', np.ones(4, int)), ('one', (np.arange(4) == 1)*1)):
        NEAR[f'times+{_d}s {_w}'] = (U + (_d*_m).astype('m8[s]'), MA, MO)
CALLS = TWINS | NEAR


def forked(fun):
    """fun() in a copy of this process, which keeps nothing of it"""
    import os
    import pickle
    import traceback
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(r)
            try:
                out = fun()
            except Exception:
                out = traceback.format_exc()
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(out))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    out = pickle.loads(data) if data else 'no answer'
    if isinstance(out, str):
        raise drive.ImplError(out)
    return out


def twin(uc, alg, eng, name):
    t, y, x = (v.copy() for v in CALLS[name])
    return drive.call(uc, t, y, x, alg, eng, name != 'no-refraction')


def twins(ctx, uc, alg, eng, ends, _):
    """every word of two (or three) of the confusable calls; the references each in a fresh process state"""
    names = list(NEAR if ends == 'near' else TWINS)
    walk = near_words(names) if ends == 'near' else [names[i] for i in de_bruijn(len(names), ends)]
    reads = ['zenith', 'azimuth', 'declination', 'eot', 'ecf', 'true_solar_time']
    refs = {n: forked(lambda n=n: outputs(twin(uc, alg, eng, n), None, reads)) for n in names}
    past, alive = [], []
    for n in walk:
        past.append(n)
        sp = twin(uc, alg, eng, n)
        alive = (alive + [(n, sp)])[-2:]
        ctx.cover(states=1, transitions=1, traces=1)
        for k, (m, s) in enumerate(alive):
            d = differ(outputs(s, None, reads if s is sp else reads[:2]), refs[m])
            if d:
                what = 'after' if s is sp else 'of an earlier call, changed by'
                ctx.fail(f'twins/{uc}/{alg}/{eng}/{m}/{d[0]}', f'{d[0]} of {uc} {alg}/{eng} with arguments {m} {what} {past[-3:-1]}: {d[1]}',
                         f'import sys\nsys.path.insert(0, "/verif")\nfrom checks import c13\nc13.replay_twins({uc!r}, {alg!r}, {eng!r}, {past[-4:]!r})\n')


def near_words(names):
    """every pair (base, neighbour) both ways round, and neighbours one after another"""
    others = [n for n in names if n != 'base']
    return ['base'] + [x for n in others for x in (n, 'base')] + others + others[::-1]


LONG = 1501


def long_arrays(uc):
    """(times, latitudes, longitudes) of long requests of each role, and variants a careless key of a memory would confuse"""
    k = np.arange(LONG)
    t = np.datetime64('2024-01-01T00:00:00', 's') + (k*5077).astype('m8[s]')
    y, x = np.linspace(-70, 70, LONG), np.linspace(-170, 170, LONG)
    t2, y2, x2 = t[[3, 900]], np.array([40., -33.]), np.array([-3., 100.])
    roles = {'sites': {'times': (t, y2, x2), 'places': (t2, y, x)}, 'transect': {'entries': (t, y, x)},
             'regular_grid': {'times': (t, y2, x2), 'latitudes': (t2, y, x2), 'longitudes': (t2, y2, x)}}[uc]
    for role, (a, b, c) in roles.items():
        base = {'t': a, 'y': b, 'x': c}
        yield role, 'base', base
        for n, v in base.items():
            if len(v) < LONG:
                continue
            for i in (1, LONG//3, LONG//2, LONG - 2):
                w = v.copy()
                w[i] += np.timedelta64(7, 'h') if n == 't' else 5.5
                yield role, f'{n}[{i}]', base | {n: w}
            w = v.copy()
            w[[500, 1000]] = w[[1000, 500]]
            yield role, f'{n} swapped', base | {n: w}
            w = v.copy()
            w[1:-1] = w[1:-1][::-1]
            yield role, f'{n} reversed inside', base | {n: w}


def long_twins(ctx, uc, alg, eng, _):
    reads = ['zenith', 'azimuth', 'declination', 'eot', 'ecf']
    todo = list(long_arrays(uc))
    go = lambda d: outputs(drive.call(uc, d['t'].copy(), d['y'].copy(), d['x'].copy(), alg, eng, True), None, reads)  # noqa: E731
    for role in dict.fromkeys(r for r, _, _ in todo):
        cases = {n: d for r, n, d in todo if r == role}
        refs = {n: forked(lambda d=d: go(d)) for n, d in cases.items()}
        others = [n for n in cases if n != 'base']
        walk = ['base'] + [x for n in others for x in (n, 'base')] + others + others[::-1]
        for prev, n in zip([None] + walk, walk):
            got = go(cases[n])
            ctx.cover(states=1, transitions=1, traces=1)
            d = differ(got, refs[n])
            if d:
                ctx.fail(f'long/{uc}/{alg}/{eng}/{role}/{n}', f'{d[0]} of {uc} {alg}/{eng} with {LONG} {role} ({n}), after those of {prev}: {d[1]}')
                break


def replay_twins(uc, alg, eng, names):
    reads = ['zenith', 'azimuth', 'declination', 'eot', 'ecf', 'true_solar_time']
    ref = forked(lambda: outputs(twin(uc, alg, eng, names[-1]), None, reads))
    held = [twin(uc, alg, eng, n) for n in names]
    d = differ(outputs(held[-1], None, reads), ref)
    assert d is None, d


def variants():
    """kinds of arguments, valid and not, that a call must leave alone: (times, lats, lons) builders"""
    t, y, x = U, MA, MO
    obj = lambda v: np.array([pd.Timestamp(a) for a in v], dtype=object)    # noqa: E731
    yield 'float64', lambda: (t.copy(), y.copy(), x.copy())
    yield 'ns', lambda: (t.astype('M8[ns]'), y.copy(), x.copy())
    yield 'float32', lambda: (t.copy(), y.astype('f4'), x.astype('f4'))
    yield 'ints', lambda: (t.copy(), np.array([10, -20, 30, 40]), np.array([-180, 2, 3, 179]))
    yield 'lists', lambda: ([str(v) for v in t], list(y), list(x))
    yield 'datetimes', lambda: ([pd.Timestamp(v).to_pydatetime() for v in t], tuple(y), tuple(x))
    yield 'objects', lambda: (obj(t), y.astype(object), x.astype(object))
    yield 'zoned', lambda: (pd.DatetimeIndex(t).tz_localize('Europe/Madrid'), y.copy(), x.copy())
    yield 'zoned-list', lambda: ([pd.Timestamp(v, tz='America/New_York') for v in t], y.copy(), x.copy())
    yield 'missing', lambda: (np.where(np.arange(4) == 1, np.datetime64('NaT'), t), np.where(np.arange(4) == 2, np.nan, y), np.where(np.arange(4) == 3, np.nan, x))
    yield 'strided', lambda: (np.repeat(t, 2)[::2], np.repeat(y, 2)[::2], x[::-1])
    yield 'read-only', lambda: tuple(frozen(v.copy()) for v in (t, y, x))
    yield 'edges', lambda: (t.copy(), np.array([-90., 90, 0., -0.]), np.array([-180., 179.9999999, 0., -0.]))
    yield 'integers-out', lambda: (t.copy(), np.array([10, -20, 30, 40]), np.array([-180, 2, 3, 180]))
    yield 'longitude-180', lambda: (t.copy(), y.copy(), np.array([10., 180., 20., 30.]))
    yield 'longitude-359', lambda: (t.copy(), y.copy(), np.array([10., 359., 20., 30.]))
    yield 'longitude-low', lambda: (t.copy(), y.copy(), np.array([10., -181., 20., 30.]))
    yield 'latitude-high', lambda: (t.copy(), np.array([10., 90.5, 20., 30.]), x.copy())
    yield 'latitude-low', lambda: (t.copy(), np.array([10., -90.00001, 20., 30.]), x.copy())
    yield 'infinite', lambda: (t.copy(), np.array([10., np.inf, 20., 30.]), x.copy())
    yield 'both-out', lambda: (t.copy(), np.array([10., 91, 20., 30.]), np.array([10., 500., 20., -500.]))
    yield 'short', lambda: (t.copy(), y[:3].copy(), x.copy())
    yield 'two-dim', lambda: (t.copy(), y.reshape(2, 2).copy(), x.reshape(2, 2).copy())
    yield 'bad-time', lambda: (['2024-01-01', 'x', 'y', 'z'], y.copy(), x.copy())


def frozen(a):
    a.flags.writeable = False
    return a


def fingerprint(a):
    if isinstance(a, (list, tuple)):
        return repr((type(a), list(map(repr, a))))
    if isinstance(a, pd.DatetimeIndex):
        return repr((a.tz, a.asi8.tolist(), a.name, a.dtype))
    if a.dtype == object:
        return repr((a.shape, list(map(repr, a.ravel()))))
    return repr((a.dtype, a.shape, a.strides, a.flags.writeable, a.tobytes()))


def arguments(ctx, alg, eng, _):
    """no call, accepted or rejected, touches its arguments"""
    for uc in drive.USECASES:
        for name, make in variants():
            args = make()
            before = [fingerprint(a) for a in args]
            ctx.cover(states=1, transitions=1, traces=1)
            err = None
            try:
                sp = drive.call(uc, *args, alg, eng, True)
                for n in SHORT:
                    GET[n](sp)
            except Exception as exc:
                err = exc
            for what, a, b in zip(('times', 'latitude', 'longitude'), args, before):
                if fingerprint(a) != b:
                    ctx.fail(f'arguments/{uc}/{alg}/{name}/{what}', f'{uc} {alg}/{eng} changed the {what} it was given ({name}; '
                             f'{"rejected: " + str(err) if err else "accepted"}): {a!r}')


def accessor_arguments(ctx, alg, eng, _):
    """no accessor or conversion, accepted or rejected, touches its arguments; and what it returns is no view of them"""
    import xarray as xr
    import sunwhere
    from sunwhere.utils.datetime import true_solar_time
    slopes, orients = np.array([0., -20., 95., 180.]), np.array([-200., 400., 0., 359.])
    wraps = {'zero-dimensional': lambda v: np.array(v[1]), 'one': lambda v: v[:1].copy(), 'array': lambda v: v.copy(), 'float32': lambda v: v.astype('f4'), 'ints': lambda v: v.astype(int),
             'bytes': lambda v: v.astype('i1'), 'list': list, 'read-only': lambda v: frozen(v.copy()), 'column': lambda v: v[:, None].copy(), 'strided': lambda v: np.repeat(v, 2)[::2],
             'series': pd.Series, 'infinite': lambda v: np.array([np.inf, *v[1:]]), 'missing': lambda v: np.array([np.nan, *v[1:]])}
    for uc in drive.USECASES:
        for d in drive.DIMS[uc]:
            wraps[f'labelled by {d}'] = lambda v, d=d: xr.DataArray(v.copy(), dims=[d], name='given', attrs=dict(units='o'))
        sp = drive.call(uc, U, MA, MO, alg, eng, True)
        ref = outputs(sp, None, SHORT)
        uses = {'incidence (slope)': lambda v: sp.incidence(v, 10.), 'incidence (orientation)': lambda v: sp.incidence(30., v), 'eth (ISC)': lambda v: sp.eth(v),   # noqa: B023
                'universal_time_coordinated': lambda v: sunwhere.universal_time_coordinated(U[:2], v), 'true_solar_time': lambda v: true_solar_time(U[:2], v)}
        for (name, use), (kind, wrap) in itertools.product(uses.items(), wraps.items()):
            given = wrap(slopes if 'slope' in name else orients)
            print_ = lambda v: fingerprint(v) if not isinstance(v, (pd.Series, xr.DataArray)) else repr((v.name, v.attrs, fingerprint(v.to_numpy())))     # noqa: E731
            before = print_(given)
            ctx.cover(states=1, transitions=1, traces=1)
            err = got = None
            try:
                got = use(given)
            except Exception as exc:
                err = exc
            if print_(given) != before:
                ctx.fail(f'accessor arguments/{uc}/{name}', f'{name} of {uc} {alg}/{eng} changed its argument ({kind}; {"rejected: " + str(err) if err else "accepted"}): {given!r}',
                         drive.PRELUDE + f's = {drive.call_src(uc, U, MA, MO, alg, eng, True)}\n'
                         'a, b = np.array([-200., 400., 0., 359.]), np.array([-20., 95., 180., 0.])\nfor f in (lambda v: s.incidence(v, 10.), lambda v: s.incidence(30., v), s.eth):\n'
                         '    for v in (a, b, np.array(-200.)):\n        w = v.copy()\n        try:\n            f(v)\n        except ValueError:\n            pass\n        assert (v == w).all(), (v, w)\n')
            if got is not None and np.asarray(got).size and isinstance(given, np.ndarray) and np.shares_memory(np.asarray(got), given):
                ctx.fail(f'accessor arguments/{uc}/{name}', f'{name} of {uc} {alg}/{eng} returns a view of its argument ({kind})')
        d = differ(outputs(sp, None, SHORT), ref)
        if d:
            ctx.fail(f'accessor arguments/{uc}/{d[0]}', f'{d[0]} of {uc} {alg}/{eng} changed after accessors with arrays as arguments: {d[1]}')


KINDS = ('s', 'ms', 'us', 'ns', 'index', 'index_tz', 'timestamps')


def overwrite(ctx, uc, alg, eng, refs):
    """the caller overwrites or reuses the arrays it passed"""
    ref = refs[f'{uc}/{alg}/{eng}/base']
    for kind in KINDS:
        t = T.astype(f'M8[{kind}]') if kind in ('s', 'ms', 'us', 'ns') else T.astype('M8[ns]')
        arg = t
        if kind.startswith('index'):
            arg = pd.DatetimeIndex(t, copy=False)
            arg = arg.tz_localize('UTC') if kind == 'index_tz' else arg
        if kind == 'timestamps':
            arg = [pd.Timestamp(v) for v in t]
        for first in (None, 'zenith', 'true_solar_time', 'sunrise_utc'):
            y, x = LA.copy(), LO.copy()
            sp = drive.call(uc, arg, y, x, alg, eng, True)
            if first:
                GET[first](sp)
            y[:], x[:] = 1., 2.
            if kind in ('s', 'ms', 'us', 'ns'):
                t0 = t.copy()
                t[:] = t[::-1].copy()
            if kind == 'timestamps':
                arg0 = list(arg)
                arg.reverse()
            d = differ(outputs(sp, None, list(GET)) | {}, ref)
            ctx.cover(states=1, transitions=1, traces=1)
            if d:
                ctx.fail(f'overwrite/{uc}/{alg}/{kind}/{d[0]}', f'{d[0]} changed when the caller overwrote the arrays it passed ({kind}): {d[1]}')
            # the same (overwritten) objects in a new call
            sp2 = drive.call(uc, arg, y, x, alg, eng, True)
            tt = np.asarray([np.datetime64(v.to_datetime64()) for v in arg]) if kind == 'timestamps' else t.copy()
            sp3 = drive.call(uc, tt.astype('M8[s]'), np.array([1.]*4), np.array([2.]*4), alg, eng, True)
            a, b = outputs(sp2, None, SHORT), outputs(sp3, None, SHORT)
            d = differ(a, b)
            if d:
                ctx.fail(f'reuse/{uc}/{alg}/{kind}/{d[0]}', f'{d[0]} of a call with reused argument objects ({kind}): {d[1]}')
            if kind in ('s', 'ms', 'us', 'ns'):
                t[:] = t0
            if kind == 'timestamps':
                arg[:] = arg0


def task(ctx, what, *args):
    import pickle
    if what == 'alone':
        return alone(ctx, *args)
    with open(args[-1], 'rb') as f:
        refs = pickle.load(f)
    dict(histories=histories, accessors=accessors, overwrite=overwrite, twins=twins, long_twins=long_twins, arguments=arguments, accessor_arguments=accessor_arguments)[what](ctx, *args[:-1], refs)


def chunks(seq, n, overlap):
    seq = seq + seq[:overlap]
    m = -(-len(seq)//n)
    return [seq[max(0, i - overlap):i + m] for i in range(0, len(seq), m)]


def run(ctx):
    import os
    import pickle
    import tempfile
    th = ctx.thorough
    # each operation alone, in its own process
    ctx.pmap('checks.c13', [('alone', op) for op in OPS], fresh=True)
    refs = {k[4:]: ctx.extra.pop(k) for k in list(ctx.extra) if k.startswith('ref:')}
    for op in set(OPS) - set(refs):
        ctx.fail(f'alone/{op}', f'{op} fails alone')
    if len(refs) < len(OPS):
        return
    fd, path = tempfile.mkstemp(prefix='c13-')
    try:
        with os.fdopen(fd, 'wb') as f:
            pickle.dump(refs, f)
        names = list(OPS)
        tasks = [('histories', names, c, path) for c in chunks(de_bruijn(len(names), 2), 8, 1)]
        core = names if th else CORE
        if th:
            tasks += [('histories', core, c, path) for c in chunks(de_bruijn(len(core), 3), 64, 2)]
        tasks += [('histories', CORE[:12 if not th else None], c, path) for c in chunks(de_bruijn(12 if not th else len(CORE), 3), 8, 2)]
        for uc in drive.USECASES:
            for a, e in (drive.CONFIGS if th else [('nrel', 'numexpr'), ('psa', 'numpy')]):
                tasks.append(('accessors', uc, a, e, path))
            for a, e in drive.CONFIGS:
                tasks.append(('overwrite', uc, a, e, path))
        for a, e in drive.CONFIGS:
            tasks += [('twins', uc, a, e, 3 if th else 2, path) for uc in drive.USECASES]
            tasks += [('twins', uc, a, e, 'near', path) for uc in drive.USECASES]
            tasks += [('long_twins', uc, a, e, path) for uc in drive.USECASES]
            tasks.append(('arguments', a, e, path))
            tasks.append(('accessor_arguments', a, e, path))
        ctx.pmap('checks.c13', tasks)
    finally:
        os.unlink(path)
    ctx.note(operations=len(OPS), accessors=len(GET))
    ctx.assume('values handed out by accessors are only read by the caller')
