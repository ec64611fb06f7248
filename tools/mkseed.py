"""Plants the bugs of tools/seeds/*.py one by one in a scratch copy, confirms them and stores them in seeded/.

    python3 tools/mkseed.py [id ...]      (all bugs without a folder when no id is given)

A bug is confirmed when the stable tests pass with it, its demonstration passes on the unchanged tree and fails with it.
The check of its property is run as well; the result is printed, not stored.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
MUT = Path('/tmp/mut')
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/dlml"
: > "$tmp/dlml/model_files.txt"
echo '{"last_version_check": "2999-01-01T00:00:00"}' > "$tmp/dlml/.dlml_cache.json"
export DLML_DATA_DIR="$tmp/dlml" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
cd "$tmp" && /opt/venv/bin/python "$here/demo.py"
'''
PRE = (V / 'tools' / 'seeds' / 'prelude.txt')


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env={**os.environ, **(env or {})}, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def reset():
    if not MUT.exists():
        sh(f'cp -a /repo {MUT}')
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq', MUT)


def stable():
    out = '/tmp/mut_out.xml'
    rc, txt = sh(f'. /opt/vp/env.sh; cd {MUT}; PYTHONPATH={MUT} timeout 780 /opt/venv/bin/python -m pytest -q -n 8 -p no:cacheprovider --tb=short '
                 f'--timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml={out} pelicun/tests')
    sh(f'python3 /opt/vp/results.py /tmp/mut_out.json junit:{out}')
    b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(b - set(json.load(open('/tmp/mut_out.json'))['passed']))


def main():
    want = sys.argv[1:]
    seeds = []
    for f in sorted((V / 'tools' / 'seeds').glob('*.py')):
        spec = importlib.util.spec_from_file_location(f.stem, f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        seeds += m.SEEDS
    for s in seeds:
        if want and s['id'] not in want or not want and (V / 'seeded' / s['id']).exists():
            continue
        reset()
        d = Path('/tmp/seed_demo')
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        (d / 'demo.sh').write_text(DEMO_SH)
        (d / 'demo.py').write_text(PRE.read_text() + s['demo'])
        for f in s.get('files', []):
            shutil.copy(V / f, d)
        rc0, t0 = sh(f'bash {d}/demo.sh', MUT)
        for file, old, new in s['edits']:
            p = MUT / file
            src = p.read_text()
            if src.count(old) != 1:
                print(s['id'], 'EDIT MATCHES', src.count(old), 'TIMES', old[:60])
                break
            p.write_text(src.replace(old, new))
        else:
            rc1, t1 = sh(f'bash {d}/demo.sh', MUT)
            rc2, t2 = (0, '') if os.environ.get('SKIP_CHECK') else sh(f'./check {s["property"]} quick', V, {'PELICUN_REPO': str(MUT)})
            miss = stable()
            ok = rc0 == 0 and rc1 != 0 and not miss
            print(s['id'], s['property'], 'OK' if ok else 'BAD', f'demo {rc0}/{rc1}', f'broken tests {miss[:3]}', 'CAUGHT' if rc2 == 1 else f'MISSED rc={rc2}', flush=True)
            if rc0:
                print(t0[-800:])
            if not rc1:
                print(t1[-300:])
            if rc2 not in (0, 1):
                print(t2[-800:])
            if ok:
                out = V / 'seeded' / s['id']
                shutil.rmtree(out, ignore_errors=True)
                out.mkdir(parents=True)
                (out / 'patch.diff').write_text(sh('git diff', MUT)[1])
                for n in ('demo.sh', 'demo.py', *(Path(f).name for f in s.get('files', []))):
                    (out / n).write_text((d / n).read_text())
                (out / 'meta.json').write_text(json.dumps({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, indent=1) + '\n')
    reset()


main()
