"""Runs TLC from /verif/spec inside a scratch copy and reads its output."""
from __future__ import annotations

import itertools
import json
import os
import re
import shutil
import subprocess
import sys
from dataclasses import dataclass, field
from pathlib import Path

SPEC = Path(__file__).resolve().parent.parent / 'spec'
JARS = '/opt/veriftools/tla/tla2tools.jar'


def _cp():
    jars = sorted(str(p) for p in Path('/opt/veriftools/tla').glob('*.jar'))
    return ':'.join(jars)


@dataclass
class Run:
    status: str
    out: str
    generated: int = 0
    distinct: int = 0
    depth: int = 0
    coverage: dict | None = None
    prints: list = field(default_factory=list)


_ctr = itertools.count(1)


def run(module, cfg, scratch, workers=8, env=None, timeout=600, extra=(), heap='6g'):
    wd = Path(scratch) / f'tlc{next(_ctr)}'
    shutil.copytree(SPEC, wd)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', f'-Djava.io.tmpdir={scratch}', f'-Xmx{heap}', '-Xss64m', '-XX:+UseParallelGC', f'-DTLA-Library={wd}', '-cp', _cp(), 'tlc2.TLC',
           '-workers', str(workers), '-metadir', str(wd / 'meta'), '-noGenerateSpecTE', '-coverage', '60',
           '-config', cfg if cfg.endswith('.cfg') else cfg + '.cfg', *extra, module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=wd, env=e, capture_output=True, text=True, timeout=timeout)
        out = p.stdout + p.stderr
        rc = p.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b'').decode(errors='replace') + '\nTIMEOUT', -1
    r = Run('ok' if rc == 0 else f'exit {rc}', out)
    m = re.findall(r'(\d+) states generated[^,]*, (\d+) distinct states found', out)
    if m:
        r.generated, r.distinct = int(m[-1][0]), int(m[-1][1])
    m = re.findall(r'depth of the complete state graph search is (\d+)', out)
    if m:
        r.depth = int(m[-1])
    cov = {}
    for name, tot in re.findall(r'^<(\w+) line \d+.*?>: (?:\d+:)?(\d+)', out, re.M):
        cov[name] = max(cov.get(name, 0), int(tot))
    r.coverage = cov or None
    for line in out.splitlines():
        if line.startswith('"J!'):
            r.prints.append(json.loads(json.loads(line)[2:]))
    shutil.rmtree(wd, ignore_errors=True)
    return r


def clean(x):
    """What TLC can read: no null (the key is dropped), no floats (turned to text), no huge integers."""
    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items() if v is not None}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x if v is not None]
    if isinstance(x, bool) or isinstance(x, str):
        return x
    if isinstance(x, int):
        return x if abs(x) < 2 ** 31 else str(x)
    return str(x)


def judge(module, cases, scratch, shards=4):
    """Judge (input, observation) pairs. Returns {id: [clauses]}, states, transitions."""
    from concurrent.futures import ThreadPoolExecutor
    verdicts = {}
    if len(cases) < 40:
        shards = 1
    parts = [cases[i::shards] for i in range(shards)]

    def one(i):
        f = Path(scratch) / f'cases_{module}_{next(_ctr)}.json'
        f.write_text(json.dumps(clean(parts[i])))
        r = run(module, 'Judge.cfg', scratch, workers=max(1, 8 // shards), env={'CASES': str(f)}, timeout=850, heap='4g')
        f.unlink()
        return r

    with ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(one, range(shards)))
    st = tr = 0
    done = 0
    for r in rs:
        if r.status != 'ok':
            print(r.out[max(0, r.out.find("Error:")):][:3000])
            print(f'judge {module}: {r.status}', file=sys.stderr)
            sys.exit(3)
        st += r.distinct
        tr += r.generated
        for rec in r.prints:
            if 'bad' in rec:
                verdicts.setdefault(rec['id'], []).extend(rec['bad'])
            if 'end' in rec:
                done += 1
    if done < len(cases):
        print(f'judge {module}: only {done} of {len(cases)} cases were judged', file=sys.stderr)
        sys.exit(3)
    return verdicts, st, tr
