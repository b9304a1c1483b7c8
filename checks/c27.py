"""C27: what is not installed or cannot be loaded only takes away what needs it.

Fault injection on imports: for every subset of the implementation modules, and of the optional packages, that fail to load, the
library is imported afresh; every remaining algorithm and engine must return its usual results and the missing ones must be refused.
"""
import importlib
import importlib.abc
import itertools
import sys

import numpy as np

from lib import drive, space

MODULES = {(a, e): f'sunwhere.libspa.{"ne" if e == "numexpr" else "py"}_{a}' for a, e in drive.CONFIGS}
OPTIONAL = ('typer', 'tabulate', 'urllib3', 'matplotlib', 'tqdm', 'pvlib', 'scipy', 'click', 'rich', 'pyarrow', 'requests')
T = space.dt('2024-03-20T05:00:00', '2024-12-31T23:59:59', '1969-12-31T23:59:59')
LA, LO = np.array([-33.9, 36.9, 0.5]), np.array([-179.9, -3.8, 100.])
TOL = 1e-9


class Missing(importlib.abc.MetaPathFinder):
    def __init__(self, names, kind):
        self.names, self.kind, self.asked = set(names), kind, []

    def find_spec(self, name, path=None, target=None):
        if name in self.names or name.split('.')[0] in self.names:
            self.asked.append(name)
            raise self.kind(f'No module named {name!r}', name=name) if issubclass(self.kind, ImportError) else self.kind(name)
        return None


def forget(*roots):
    saved = {}
    for n in list(sys.modules):
        if n.split('.')[0] in roots:
            saved[n] = sys.modules.pop(n)
    return saved


def with_missing(ctx, key, names, kind, gone, refs, hide=()):
    """import afresh with `names` failing; configs in `gone` must be refused and the others work"""
    saved = forget('sunwhere', *hide)
    finder = Missing(names, kind)
    sys.meta_path.insert(0, finder)
    try:
        try:
            sw = importlib.import_module('sunwhere')
            importlib.import_module('sunwhere.utils.datetime')
        except Exception as exc:
            ctx.fail(f'{key}/import', f'sunwhere cannot be imported without {sorted(names)}: {type(exc).__name__}: {exc}')
            return
        ctx.cover(states=1, traces=1)
        left = {a for a in drive.ALGS if not all((a, e) in gone for e in drive.ENGINES[a])}
        if set(sw.SPA_ALGORITHMS) not in (set(drive.ALGS), left) or len(sw.SPA_ALGORITHMS) != len(set(sw.SPA_ALGORITHMS)):
            ctx.fail(f'{key}/algorithms', f'SPA_ALGORITHMS is {sw.SPA_ALGORITHMS} without {sorted(names)}')
        for a, e in drive.CONFIGS:
            for uc in drive.USECASES:
                ctx.cover(transitions=1)
                try:
                    s = getattr(sw, uc)(T, LA, LO, algorithm=a, engine=e)
                    got = {n: np.asarray(f(s).values) for n, f in drive.BASIC + drive.DERIVED[:8]}
                except Exception as exc:
                    if (a, e) not in gone:
                        ctx.fail(f'{key}/{a}/{e}', f'{uc} {a}/{e} fails without {sorted(names)}: {type(exc).__name__}: {exc}')
                    continue
                if (a, e) in gone:
                    ctx.fail(f'{key}/{a}/{e}/served', f'{uc} {a}/{e} is served although {sorted(names)} cannot be loaded')
                    continue
                for n, v in refs[uc, a, e].items():
                    w = drive.worst(got[n], v, TOL if v.dtype.kind == 'f' else 0)
                    if w:
                        ctx.fail(f'{key}/{a}/{e}/value', f'{n} of {uc} {a}/{e} changes without {sorted(names)}: {w[1]}')
                        break
    finally:
        sys.meta_path.remove(finder)
        forget('sunwhere')
        sys.modules.update(saved)


def task(ctx, part, of):
    refs = {}
    for a, e in drive.CONFIGS:
        for uc in drive.USECASES:
            s = drive.call(uc, T, LA, LO, a, e)
            refs[uc, a, e] = {n: np.asarray(f(s).values).copy() for n, f in drive.BASIC + drive.DERIVED[:8]}
    cases = []
    confs = list(MODULES)
    for r in range(len(confs) + 1):
        for c in itertools.combinations(confs, r):
            for kind in (ImportError, ModuleNotFoundError):
                cases.append(('modules', [MODULES[x] for x in c], kind, set(c), ()))
    for r in range(1, len(OPTIONAL) + 1):
        for c in itertools.combinations(OPTIONAL, r):
            if ctx.thorough or r in (1, 2, len(OPTIONAL) - 1, len(OPTIONAL)):
                cases.append(('packages', list(c), ModuleNotFoundError, set(), c))
    for key, names, kind, gone, hide in cases[part::of]:
        with_missing(ctx, key, names, kind, gone, refs, hide)
    ctx.sample(dict(cases=len(cases), modules=sorted(MODULES.values()), packages=OPTIONAL), limit=1)


def run(ctx):
    ctx.pmap('checks.c27', [(i, 8) for i in range(8)])
    ctx.assume('a module that fails to load fails with ImportError or ModuleNotFoundError')
