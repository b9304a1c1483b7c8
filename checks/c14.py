"""C14: concurrent calls return what they return alone.

Real code under a controlled scheduler (lib/sched.py): all schedules of two calls with at most one preemption (two for chosen pairs in
the thorough tier) at source-line granularity of the library (byte-code granularity in the thorough tier).
"""
import sys
import threading

import numpy as np

from lib import drive, sched, space

T1 = space.dt('2024-03-20T05:00:00', '2024-12-31T23:59:59', '2025-01-01T00:00:00')
T2 = space.dt('1969-12-31T23:59:59', '2024-08-11T07:45:10', '2038-02-28T22:00:00')
LA1, LO1 = np.array([-33.9, 36.9, 0.5]), np.array([-179.9, -3.8, 100.])
LA2, LO2 = np.array([52., -70., 20.]), np.array([18.4, 120., -99.])
TOL = 1e-9
SHARED = [['zenith', 'true_solar_time', 'sunrise_local', 'incidence_35_-50', 'airmass_gueymard_2003', 'eth_perez_1990'],
          ['sunset_utc', 'eot', 'declination', 'azimuth', 'cosz', 'sunrise_deg', 'daylight_length', 'incidence_90_120']]
GET = dict(drive.ALL)


def caller(uc, alg, eng, which, ref, n=3):
    t, y, x = (T1, LA1, LO1) if which % 2 else (T2, LA2, LO2)
    if which > 2:       # missing entries at different positions
        miss = np.arange(3) != (0 if which == 3 else 2)
        t, y = np.where(miss, t, np.datetime64('NaT')), np.where(miss[::-1], y, np.nan)

    def fun():
        import sunwhere
        return drive.grab(getattr(sunwhere, uc)(t[:n].copy(), y[:n].copy(), x[:n].copy(), algorithm=alg, engine=eng, refraction=ref), uc)
    return fun


def differ(got, ref):
    if got is None:
        return 'nothing'
    for v in ref:
        w = drive.worst(got[v], ref[v], TOL if ref[v].dtype.kind == 'f' else 0)
        if w:
            return f'{v} at {w[0]}: {w[1]}'
    return None


def visitor(ctx, key, names, refs):
    def visit(r, blocked):
        ctx.cover(states=sum(r.steps), transitions=1 + r.k, traces=1, blocked=blocked)
        for i in (0, 1):
            if r.error[i] is not None:
                what = f'raises {r.error[i]!r}'
            else:
                d = differ(r.result[i], refs[i])
                if not d:
                    continue
                what = f'returns {d} instead of its value alone'
            ctx.fail(key, f'thread {i} ({names[i]}) {what}, with thread {1 - i} ({names[1 - i]}); starting thread {r.start}, '
                     f'switching at (thread, step) {r.switches}', '')
    return visit


def pair(ctx, a, b, bound, opcodes, start, stride=1):
    refs = [caller(*a)(), caller(*b)()]
    key = f'{"/".join(map(str, a[:3]))}|{"/".join(map(str, b[:3]))}'
    f = caller(*a), caller(*b)
    sched.Run(f, 0, [], opcodes).run()
    n, tot = sched.explore(lambda: f, bound, opcodes, starts=(start,), visit=visitor(ctx, key, (key.split('|')), refs), stride=stride)
    ctx.cover(schedules=n)
    ctx.sample(dict(pair=key, steps=tot, schedules=n, bound=bound, granularity='opcode' if opcodes else 'line'), limit=4)


def first(ctx, a, b, start, stride=1):
    """the first calls of a freshly imported library, each in a new thread"""
    def make():
        for k in [k for k in sys.modules if k == 'sunwhere' or k.startswith('sunwhere.')]:
            del sys.modules[k]
        import sunwhere  # noqa: F401
        return caller(*a), caller(*b)
    refs = [caller(*a)(), caller(*b)()]
    key = f'first/{"/".join(map(str, a[:3]))}|{"/".join(map(str, b[:3]))}'
    n, tot = sched.explore(make, 1, starts=(start,), visit=visitor(ctx, key, key[6:].split('|'), refs), stride=stride, new_threads=True)
    ctx.cover(schedules=n, first_call_schedules=n)


def readers(ctx, uc, alg, eng, start, stride=1):
    import pandas as pd
    t = pd.DatetimeIndex(T1).tz_localize('UTC').tz_convert('Europe/Madrid')

    def make():
        sp = drive.call(uc, t, LA1, LO1, alg, eng, True)
        return tuple((lambda names=names: {n: GET[n](sp).values.copy() for n in names}) for names in SHARED)
    refs = []
    for names in SHARED:
        refs.append({n: GET[n](drive.call(uc, t, LA1, LO1, alg, eng, True)).values.copy() for n in names})
    key = f'readers/{uc}/{alg}/{eng}'
    n, tot = sched.explore(make, 1, starts=(start,), visit=visitor(ctx, key, SHARED, refs), stride=stride)
    ctx.cover(schedules=n, reader_schedules=n)
    ctx.sample(dict(readers=key, steps=tot, schedules=n), limit=4)


def family(n):
    for f, words in dict(time=('true', 'sunrise', 'sunset', 'daylight'), incidence=('incidence',), irradiance=('eth', 'airmass')).items():
        if n.startswith(words):
            return f
    return 'position'


def duet(ctx, uc, alg, eng, firsts, all_pairs):
    """ordered pairs of accessors (parameters included) of one fresh result, with a preemption at every line of the first"""
    import pandas as pd
    t = pd.DatetimeIndex(T1[:2]).tz_localize('UTC').tz_convert('Europe/Madrid')

    def result():
        return drive.call(uc, t, LA1[:2], LO1[:2], alg, eng, True)
    refs = {n: {n: GET[n](result()).values.copy()} for n in GET}
    total = 0
    for a in firsts:
        for b in GET:
            if not (all_pairs or family(a) == family(b) or b in ('zenith', 'true_solar_time')):
                continue
            def make():
                sp = result()
                return tuple((lambda n=n: {n: GET[n](sp).values.copy()}) for n in (a, b))
            r = sched.Run(make(), 0, [])
            r.run()
            v = visitor(ctx, f'duet/{uc}/{alg}/{a}|{b}', (a, b), (refs[a], refs[b]))
            v(r, False)
            total += 1
            for k in range(r.steps[0] + 1):
                q = sched.Run(make(), 0, [(0, k)])
                v(q, q.run())
                total += 1
    ctx.cover(schedules=total, reader_pair_schedules=total)


def free(ctx, rounds):
    """free-running threads (no claim of exhaustiveness; exercises the native parts with a tiny switch interval)"""
    sys.setswitchinterval(1e-6)
    jobs = [(uc, a, e, w, r) for a, e in drive.CONFIGS for uc in drive.USECASES for w, r in ((1, True), (2, False))]
    funs = [caller(*j) for j in jobs]
    refs = [f() for f in funs]
    errs = []

    def work(k):
        for i in range(rounds):
            j = (k*7 + i*(k + 1)) % len(jobs)
            try:
                d = differ(funs[j](), refs[j])
            except Exception as exc:
                d = f'raises {exc!r}'
            if d:
                errs.append((j, d))
    th = [threading.Thread(target=work, args=(k,)) for k in range(6)]
    [t.start() for t in th]
    [t.join(600) for t in th]
    ctx.cover(free_running_calls=6*rounds)
    for j, d in errs[:3]:
        ctx.fail('free/' + '/'.join(map(str, jobs[j][:3])), f'{jobs[j]} in free-running threads: {d}')


LOST = []       # a deadlock leaves this process unusable


def task(ctx, what, *args):
    if LOST:
        ctx.cover(skipped_after_deadlock=1)
        return
    try:
        explored(ctx, what, *args)
    except sched.Deadlock as exc:
        LOST.append(1)
        ctx.fail(f'deadlock/{what}/{"/".join(map(str, args[0] if isinstance(args[0], tuple) else args[:3]))}', str(exc))


def explored(ctx, what, *args):
    dict(pair=pair, first=first, readers=readers, duet=duet, free=free)[what](ctx, *args)


def run(ctx):
    th = ctx.thorough
    tasks = []
    for a, e in drive.CONFIGS:
        for uc in drive.USECASES:
            A, B = (uc, a, e, 1, True), (uc, a, e, 2, True)
            tasks += [('pair', A, B, 1, False, s) for s in ((0, 1) if th or uc == 'sites' else (0,))]
            if th:
                tasks += [('pair', A, B, 1, True, 0, 1)]
                tasks += [('pair', A, (uc, a, e, 2, False, 2), 1, False, s) for s in (0, 1)]     # other shape, no refraction
            if th or (a, e) in (('psa', 'numexpr'), ('soltrack', 'numpy')):
                tasks += [('pair', (uc, a, e, 3, True), (uc, a, e, 4, True), 1, False, s) for s in (0, 1)]     # missing entries
    cross = [(a, b) for i, a in enumerate(drive.CONFIGS) for b in drive.CONFIGS[i + 1:]]
    if not th:
        cross = [c for c in cross if c[0][0] == c[1][0]] + [(('nrel', 'numexpr'), ('psa', 'numexpr')), (('soltrack', 'numpy'), ('iqbal', 'numpy'))]
    for c in cross:
        tasks += [('pair', ('sites', *c[0], 1, True), ('regular_grid' if th else 'sites', *c[1], 2, False), 1, False, s) for s in ((0, 1) if th else (0,))]
    for uc, a, e in ([(uc, a, e) for uc in drive.USECASES for a, e in drive.CONFIGS] if th else
                     [('sites', 'nrel', 'numexpr'), ('regular_grid', 'psa', 'numpy'), ('transect', 'iqbal', 'numexpr')]):
        tasks += [('readers', uc, a, e, s) for s in (0, 1)]
    names = list(GET)
    for uc, a, e in ([(uc, a, e) for uc in drive.USECASES for a, e in drive.CONFIGS] if th else [('sites', 'psa', 'numpy')]):
        tasks += [('duet', uc, a, e, names[i::16], th) for i in range(16)]
    for a, e in drive.CONFIGS:
        tasks.append(('first', ('sites', a, e, 1, True), ('sites', a, e, 2, True), 0))
    if th:
        # two preemptions, at every second line
        for a, e in drive.CONFIGS:
            tasks.append(('pair', ('sites', a, e, 1, True, 2), ('sites', a, e, 2, True, 2), 2, False, 0, 2))
    tasks.append(('free', 300 if th else 60))
    tasks.sort(key=lambda t: (t[0] != 'pair' or t[3] != 2, t[0] == 'pair'))
    ctx.pmap('checks.c14', tasks)
    ctx.note(preemption_bound=2 if th else 1)
    ctx.assume('numexpr, numpy and pandas calls are atomic steps of a schedule (their own thread safety is not re-verified, only exercised by the free-running threads)')
