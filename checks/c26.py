"""C26: an interrupted call leaves nothing behind.

Fault injection on the real code: an exception is raised at every step (source line of the library; byte code in the thorough
tier) of a call or accessor; afterwards the same request, another one, and the result's accessors must return what they return
in an undisturbed process. First calls of a freshly imported library are interrupted as well.
"""
import signal
import sys
import threading

import numpy as np
import pandas as pd

from lib import drive, space
from lib.mc import SRC
from checks.c25 import describe, equal
from checks.c28 import scalars

TOOL = 3
T1 = space.dt('2024-03-20T05:00:00', 'NaT', '2025-01-01T00:00:00')
T2 = space.dt('1969-12-31T23:59:59', '2024-08-11T07:45:10', 'NaT')
LA1, LO1 = np.array([-33.9, 36.9, 0.5]), np.array([-179.9, -3.8, 100.])
LA2, LO2 = np.array([52., -70., 20.]), np.array([18.4, 120., -99.])
TOL = 1e-9


class Interrupt(Exception):
    """stands for any exception that may surface in the middle of a call (MemoryError, a signal handler's, ...)"""


class Hung(BaseException):
    """a call does not return"""


PATIENCE = 30       # seconds; calls take milliseconds
HANGS = []


def _hung(*_):
    raise Hung(f'does not return in {PATIENCE} s')


class Injector:
    """counts the steps the library makes in this thread and raises at the chosen one"""

    def __init__(self, opcodes):
        m = sys.monitoring
        self.event = m.events.INSTRUCTION if opcodes else m.events.LINE
        self.at, self.count, self.kind, self.where, self.on = None, 0, Interrupt, None, False
        self.ident = threading.get_ident()
        m.use_tool_id(TOOL, 'inject')
        m.register_callback(TOOL, self.event, self.step)
        m.set_events(TOOL, self.event)

    def step(self, code, where):
        if not code.co_filename.startswith(SRC):
            return sys.monitoring.DISABLE
        if not self.on or threading.get_ident() != self.ident:
            return None
        self.count += 1
        if self.count == self.at:
            self.where = f'{code.co_filename[len(SRC) + 1:]}:{code.co_name}:{where}'
            self.on = False
            raise self.kind('injected')
        return None

    def run(self, fn, at, kind):
        """-> whether it was interrupted"""
        self.at, self.count, self.kind, self.on = at, 0, kind, True
        signal.alarm(PATIENCE)
        try:
            fn()
        except Hung:
            raise
        except BaseException as exc:
            if exc.args != ('injected',) and self.on:
                raise
            return True
        finally:
            self.on = False
        return False

    def close(self):
        sys.monitoring.set_events(TOOL, 0)
        sys.monitoring.free_tool_id(TOOL)


def request(uc, alg, eng, which, ref=True):
    t, y, x = (T1, LA1, LO1) if which == 1 else (T2, LA2, LO2)

    def fun():
        import sunwhere
        return drive.grab(getattr(sunwhere, uc)(t.copy(), y.copy(), x.copy(), algorithm=alg, engine=eng, refraction=ref), uc)
    return fun


def differ(got, ref):
    for v in ref:
        w = drive.worst(got[v], ref[v], TOL if ref[v].dtype.kind == 'f' else 0)
        if w:
            return f'{v} at {w[0]}: {w[1]}'
    return None


def after(ctx, key, inj, k, label, fn, ref, compare=None):
    signal.alarm(PATIENCE)
    try:
        d = (compare or differ)(fn(), ref)
    except (Exception, Hung) as exc:
        d = f'raises {type(exc).__name__}: {exc}'
        HANGS.extend([exc] if isinstance(exc, Hung) else [])
    ctx.cover(transitions=1)
    if d:
        ctx.fail(key, f'after an exception at step {k} ({inj.where}), {label} gives a different result: {d}')
    return d


def calls(ctx, inj, uc, alg, eng):
    A, B = request(uc, alg, eng, 1), request(uc, alg, eng, 2)
    ra, rb = A(), B()
    key = f'call/{uc}/{alg}/{eng}'
    for kind in (Interrupt, KeyboardInterrupt, MemoryError, FloatingPointError, StopIteration) if ctx.thorough else (Interrupt, KeyboardInterrupt, MemoryError):
        k = 1
        while inj.run(A, k, kind):
            ctx.cover(states=1, traces=1)
            if k % 2:
                bad = after(ctx, key, inj, k, 'the same request', A, ra) or after(ctx, key, inj, k, 'another request', B, rb)
            else:
                bad = after(ctx, key, inj, k, 'another request', B, rb) or after(ctx, key, inj, k, 'the same request', A, ra)
            if bad:
                return
            k += 1
    # two interruptions in a row: A at i, B at j
    k = 1
    while inj.run(A, k, Interrupt):
        inj.run(B, 1 + k*7 % 60, Interrupt)
        ctx.cover(states=1, traces=1)
        if after(ctx, key, inj, k, 'the same request', A, ra) or after(ctx, key, inj, k, 'another request', B, rb):
            return
        k += 1
    ctx.cover(crash_points=k - 1)


def first(ctx, inj, uc, alg, eng):
    A, B = request(uc, alg, eng, 1), request(uc, alg, eng, 2)
    ra, rb = A(), B()
    key = f'first/{uc}/{alg}/{eng}'

    def fresh():
        for n in [n for n in sys.modules if n == 'sunwhere' or n.startswith('sunwhere.')]:
            del sys.modules[n]
        import sunwhere  # noqa: F401
    fresh()
    k = 1
    while inj.run(A, k, Interrupt):
        ctx.cover(states=1, traces=1)
        if after(ctx, key, inj, k, 'another request', B, rb) or after(ctx, key, inj, k, 'the same request', A, ra):
            return
        fresh()
        k += 1
    ctx.cover(first_call_crash_points=k - 1)


def accessors(ctx, inj, uc, alg, eng, names):
    """one accessor of a result is interrupted at every step; then it and the others are read"""
    import sunwhere
    t = pd.DatetimeIndex(T1).tz_localize('UTC').tz_convert('Europe/Madrid')
    get = dict(drive.ALL)

    def result():
        return getattr(sunwhere, uc)(t, LA1, LO1, algorithm=alg, engine=eng)
    def whole(n):
        return lambda: scalars(s) if n == 'settings' else describe(get[n](s))
    s = result()
    ref = {n: whole(n)() for n in (*get, 'settings')}
    later = ['zenith', 'true_solar_time', 'sunrise_utc', 'eth_perez_1990', 'incidence_35_-50', 'declination']
    for n in names:
        k = 1
        s = result()
        while inj.run(lambda: get[n](s).values, k, Interrupt):      # noqa: B023
            ctx.cover(states=1, traces=1)
            for m in ('settings', n, later[k % 6], later[(k + 1) % 6]):
                if after(ctx, f'accessor/{uc}/{alg}/{eng}/{n}', inj, k, m, whole(m), ref[m], equal):
                    return
            if k % 5 == 0:
                s = result()
            k += 1
        ctx.cover(accessor_crash_points=k - 1)


def task(ctx, what, *args):
    if HANGS:
        return           # the library is stuck in this process; that is reported already
    inj = Injector(ctx.thorough and what == 'calls')
    signal.signal(signal.SIGALRM, _hung)
    signal.alarm(PATIENCE)
    try:
        dict(calls=calls, first=first, accessors=accessors)[what](ctx, inj, *args)
    except Hung as exc:
        HANGS.append(exc)
        ctx.fail(f'hung/{what}/{"/".join(args[:3])}', f'a call made after interrupted calls ({inj.where}) {exc}')
    finally:
        signal.alarm(0)
        inj.close()


def run(ctx):
    th = ctx.thorough
    names = [n for n, _ in drive.ALL]
    tasks = [('calls', uc, a, e) for a, e in drive.CONFIGS for uc in drive.USECASES]
    tasks += [('first', uc, a, e) for a, e in drive.CONFIGS for uc in (drive.USECASES if th else ('sites',))]
    for uc, a, e in [(uc, a, e) for uc in drive.USECASES for a, e in (drive.CONFIGS if th else [('psa', 'numexpr')])]:
        tasks += [('accessors', uc, a, e, names[i::4]) for i in range(4)]
    ctx.pmap('checks.c26', tasks)
    ctx.assume('exceptions surface between source lines (byte codes in the thorough tier) of the library; numpy, numexpr, pandas and xarray calls either complete or not begin')
