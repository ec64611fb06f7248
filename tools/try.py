"""Runs the check of each planted bug against a scratch copy with the bug:  python3 tools/try.py [id ...]"""
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parent.parent
ids = sys.argv[1:] or sorted(p.name for p in (V / 'seeded').iterdir())


def run(k, i):
    d = Path(f'/tmp/try{k}')
    subprocess.run(f'test -d {d} || cp -a /repo {d}; cd {d} && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq && '
                   f'git apply {V}/seeded/{i}/patch.diff', shell=True, check=True)
    prop = json.load(open(V / 'seeded' / i / 'meta.json'))['property']
    p = subprocess.run(['./check', prop, 'quick'], cwd=V, env={**os.environ, 'PELICUN_REPO': str(d)}, capture_output=True, text=True)
    res = {1: 'caught', 0: 'MISSED'}.get(p.returncode, f'rc={p.returncode}')
    print(i, prop, res, p.stdout.strip().splitlines()[-1:] if p.returncode else '', flush=True)


JOBS = 3
queue = list(ids)


def worker(k):
    while queue:
        run(k, queue.pop(0))


with ThreadPoolExecutor(JOBS) as ex:
    list(ex.map(worker, range(JOBS)))
for k in range(JOBS):
    subprocess.run(['rm', '-rf', f'/tmp/try{k}'])
