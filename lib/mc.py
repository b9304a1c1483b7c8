"""Reporting core shared by every check: counters, violations, known findings, evidence, replay files.

A check module (checks/cNN.py) defines run(ctx).  It explores a finite space exhaustively and calls
  ctx.cover(states=..., transitions=..., traces=...)   for what it visited,
  ctx.fail(key, msg, repro)                            for a violated property,
  ctx.sample(obj)                                      to show actual cases.
`repro` is a piece of plain python that raises AssertionError when (and only when) the violation is
there; it is stored in the replay file and can be executed without the explorer:
  /opt/venv/bin/python -B run.py --replay evidence/replays/C01-0.json
"""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SUNWHERE_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS')
MAX_REPORTED = 10


class Broken(Exception):
    """Raised to abandon a part of the exploration after an unrecoverable violation."""


def load_known(pid):
    """lines `known: property=<id> key=<key> <what fails>`; `fixed:` lines suppress nothing"""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                if line.startswith('known: '):
                    parts = line.strip().split(' ', 3)
                    if parts[1] == f'property={pid}':
                        out[parts[2][len('key='):]] = parts[3]
    return out


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.extra = {}
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.nviol = 0
        self.known = load_known(pid)
        self.known_hit = {}
        self.level = 'model_checking'
        self.seen_keys = set()

    def cover(self, states=0, transitions=0, traces=0, **extra):
        self.states += int(states)
        self.transitions += int(transitions)
        self.traces += int(traces)
        for k, v in extra.items():
            self.extra[k] = self.extra.get(k, 0) + int(v)

    def sample(self, obj, limit=8):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def note(self, **kw):
        self.extra.update(kw)

    def assume(self, *texts):
        self.assumptions.extend(t for t in texts if t not in self.assumptions)

    def fail(self, key, msg, repro='', **case):
        """key identifies the specific failing input / call site / history"""
        if key in self.known:
            self.known_hit[key] = self.known[key]
            return
        self.nviol += 1
        if key in self.seen_keys or len(self.violations) >= MAX_REPORTED:
            return
        self.seen_keys.add(key)
        n = len(self.violations)
        rdir = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{self.pid}-{n}.json')
        case = dict(property=self.pid, key=key, message=msg, repro=repro, case=case)
        with open(path, 'w') as f:
            json.dump(case, f, indent=1, default=str)
        self.violations.append(path)
        print(f'VIOLATION property={self.pid} replay={path}')
        print(f'  {key}: {msg}'[:1500], flush=True)

    def guarded(self, key, fn, *args, repro='', **kw):
        """run fn; an unexpected exception is a violation of the property under check"""
        try:
            return fn(*args, **kw)
        except Broken:
            return None
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as exc:
            tb = traceback.format_exc(limit=-6)
            self.fail(key, f'unexpected {type(exc).__name__}: {exc}\n{tb}', repro)
            return None

    def pmap(self, modname, tasks, fn='task', workers=None, fresh=False):
        """run checks module's fn(ctx, *args) for every args in tasks, in fresh processes; merge what they report"""
        import concurrent.futures as cf
        import multiprocessing as mp
        tasks = list(tasks)
        saved = os.environ.get('NUMEXPR_MAX_THREADS')
        os.environ['NUMEXPR_MAX_THREADS'] = os.environ['NUMEXPR_NUM_THREADS'] = '1'
        os.environ['OMP_NUM_THREADS'] = os.environ['OPENBLAS_NUM_THREADS'] = '1'
        pypath = os.environ.get('PYTHONPATH')
        os.environ['PYTHONPATH'] = os.pathsep.join([VERIF, SRC] + ([pypath] if pypath else []))
        broken = []
        with cf.ProcessPoolExecutor(min(workers or min(8, os.cpu_count() or 1), max(1, len(tasks))),
                                    mp_context=mp.get_context('spawn'),
                                    **(dict(max_tasks_per_child=1) if fresh else {})) as ex:
            futs = [ex.submit(_worker, self.pid, self.tier, self.seed, modname, fn, a) for a in tasks]
            for f in futs:
                r = f.result()
                self.states += r['states']
                self.transitions += r['transitions']
                self.traces += r['traces']
                for k, v in r['extra'].items():
                    if isinstance(v, (int, float)) and isinstance(self.extra.get(k), (int, float)) and not k.startswith('m'):
                        self.extra[k] += v
                    elif k.startswith('max_') and k in self.extra:
                        self.extra[k] = max(v, self.extra[k])
                    else:
                        self.extra[k] = v
                for smp in r['samples']:
                    self.sample(smp)
                self.assume(*r['assumptions'])
                for key, msg, repro, case in r['failures']:
                    self.fail(key, msg, repro, **case)
                self.nviol += r['more']
                if r['broken']:
                    broken.append(r['broken'])
        if saved is not None:
            os.environ['NUMEXPR_MAX_THREADS'] = saved
        if broken:
            raise RuntimeError('worker failed:\n' + broken[0])

    def finish(self):
        for key, what in sorted(self.known_hit.items()):
            print(f'KNOWN-FINDING: property={self.pid} {what} [{key}]')
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples, **self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time()-self.t0, 2), violations=self.nviol)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', f'{self.pid}.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(path + '.tmp', path)
        print(f'{self.pid} [{self.tier}] states={self.states} transitions={self.transitions} '
              f'traces={self.traces} violations={self.nviol} wall={ev["wall_s"]}s')
        return 1 if self.nviol else 0


class WorkerCtx(Ctx):
    """collects instead of printing; known findings are resolved by the parent"""

    def __init__(self, *a):
        super().__init__(*a)
        self.failures = []
        self.more = 0

    def fail(self, key, msg, repro='', **case):
        if key in self.seen_keys or len(self.failures) >= 60:
            self.more += key not in self.known
            return
        self.seen_keys.add(key)
        self.failures.append((key, str(msg), repro, {k: str(v) for k, v in case.items()}))


def _worker(pid, tier, seed, modname, fn, args):
    import importlib
    import warnings
    warnings.filterwarnings('ignore')
    ctx = WorkerCtx(pid, tier, seed)
    broken = ''
    try:
        getattr(importlib.import_module(modname), fn)(ctx, *args)
    except Broken:
        pass
    except MemoryError:
        raise
    except Exception as exc:
        broken = _unexpected(ctx, exc)
    return dict(states=ctx.states, transitions=ctx.transitions, traces=ctx.traces, extra=ctx.extra, samples=ctx.samples,
                assumptions=ctx.assumptions, failures=ctx.failures, more=ctx.more, broken=broken)


def _unexpected(ctx, exc):
    """a check only ends here when the library did something no check expects (a raise in the middle of a call, an output
    of another type or shape). If the library is on the stack, or it produced the offending value, the property cannot be
    said to hold; otherwise the check itself is at fault (no file, no memory, a worker killed). An exception of the kinds
    that a value of another type or shape causes in the check's own comparisons counts as such a value."""
    tb = ''.join(traceback.format_exception(exc))
    files = [fr.filename for fr in traceback.extract_tb(exc.__traceback__)]
    malformed = isinstance(exc, (ValueError, IndexError, KeyError, TypeError, AttributeError, AssertionError, ArithmeticError))
    if any(fn.startswith(SRC) for fn in files) or getattr(exc, 'from_impl', False) or malformed:
        ctx.fail('exception', f'{type(exc).__name__}: {exc}\n{tb}')
        return ''
    return tb


def main(argv):
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    if a.replay:
        with open(a.replay) as f:
            case = json.load(f)
        print(case['message'])
        src = case.get('repro') or ''
        if not src:
            print('(no stand-alone reproduction; rerun the check)')
            return 2
        try:
            exec(compile(src, a.replay, 'exec'), {'__name__': '__replay__'})
        except Exception:
            traceback.print_exc()
            print('REPRODUCED')
            return 1
        print('not reproduced')
        return 0
    ctx = Ctx(a.pid, a.tier, int(os.environ.get('VERIF_SEED', '1')))
    try:
        import sunwhere
        if not os.path.abspath(sunwhere.__file__).startswith(os.path.abspath(SRC) + os.sep):
            print(f'wrong sunwhere: {sunwhere.__file__}')
            return 2
        mod = importlib.import_module(f'checks.{a.pid.lower()}')
        mod.run(ctx)
    except Broken:
        pass
    except MemoryError:
        raise
    except Exception as exc:
        tb = _unexpected(ctx, exc)
        if tb:
            print(tb)
            ctx.finish()
            return 2
    return ctx.finish()
