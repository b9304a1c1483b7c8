#!/opt/venv/bin/python
"""tools/sweep.py [ids...]: applies every planted bug to a scratch copy of /repo, runs the quick check of its property there
(SUNWHERE_REPO) and writes DETECTION.md. Not part of any check."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STORE = os.environ.get('SWEEP_STORE', '/tmp/sweep.json')
seen = json.load(open(STORE)) if os.path.exists(STORE) else {}


def one(bug):
    src = os.path.join(ROOT, 'seeded', bug)
    meta = json.load(open(os.path.join(src, 'meta.json')))
    d = tempfile.mkdtemp(prefix='sweep-')
    try:
        subprocess.run(['cp', '-a', '/repo', f'{d}/repo'], check=True)
        r = subprocess.run(['git', '-C', f'{d}/repo', 'apply', f'{src}/patch.diff'], capture_output=True, text=True)
        if r.returncode:
            return bug, meta, 'patch does not apply'
        os.makedirs(f'{d}/verif')
        for x in ('checks', 'lib', 'run.py', 'KNOWN_FINDINGS', 'properties.jsonl'):
            subprocess.run(['cp', '-a', os.path.join(ROOT, x), f'{d}/verif/'], check=True)
        env = dict(os.environ, SUNWHERE_REPO=f'{d}/repo', PYTHONPATH=f'{d}/repo/src', VERIF_SEED='1')
        r = subprocess.run(['timeout', '900', sys.executable, '-B', 'run.py', meta['property'], '--tier', 'quick'], cwd=f'{d}/verif', env=env, capture_output=True, text=True)
        hit = r.returncode == 1 and f'VIOLATION property={meta["property"]}' in r.stdout
        return bug, meta, meta['property'] if hit else f'missed (exit {r.returncode})'
    finally:
        shutil.rmtree(d, ignore_errors=True)


bugs = sorted(os.listdir(os.path.join(ROOT, 'seeded')))
todo = [b for b in bugs if b in sys.argv[1:] or (not sys.argv[1:] and b not in seen)]
with cf.ThreadPoolExecutor(int(os.environ.get('J', '2'))) as ex:
    for bug, meta, res in ex.map(one, todo):
        seen[bug] = res
        print(bug, meta['property'], res, flush=True)
        json.dump(seen, open(STORE, 'w'))
with open(os.path.join(ROOT, 'DETECTION.md'), 'w') as f:
    f.write('# Planted bugs and the checks that catch them\n\nEvery change under `seeded/` compiles and passes the 20 stable tests. Written by `tools/sweep.py`, '
            'which runs the quick check of the property the change breaks.\n\n| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|\n')
    for b in bugs:
        m = json.load(open(os.path.join(ROOT, 'seeded', b, 'meta.json')))
        f.write(f'| {b} | {m["property"]} | {m["needs"]} | {m["what_it_breaks"]} | {seen.get(b, "not run")} |\n')
