"""Runs scenarios of a check module in a fresh interpreter: sub.py MODULE < scenarios.json > results.json"""
import contextlib
import importlib
import io
import json
import os
import sys
import traceback
import warnings
from pathlib import Path

V = Path(__file__).resolve().parent
sys.path[:0] = [os.environ['VP_REPO'], str(V.parent / 'checks'), str(V)]


def run(module, fn, scenarios, hashseed):
    import subprocess
    p = subprocess.run([sys.executable, __file__, module, fn], input=json.dumps(scenarios), capture_output=True, text=True,
                       env={**os.environ, 'PYTHONHASHSEED': str(hashseed)}, timeout=600)
    if p.returncode:
        raise RuntimeError(p.stderr[-800:])
    return json.loads(p.stdout)


if __name__ == '__main__':
    f = getattr(importlib.import_module(sys.argv[1]), sys.argv[2])
    warnings.filterwarnings('ignore')
    out = []
    for s in json.load(sys.stdin):
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                r = f(s)
            except Exception as e:  # noqa: BLE001
                r = {'exc': f'{type(e).__name__}: {e}'[:300], 'trace': traceback.format_exc()[-800:]}
        out.append(r)
    print(json.dumps(out))
