"""Driver of one check: scratch area, model checking, observation, judging, evidence.

    python lib/main.py C03 quick [--replay FILE]

A check module (checks/c03.py) defines

  TITLE, RULE        strings for the evidence file
  MC                 list of model-checking runs: dicts with module, cfg (+ optional tier, workers, timeout)
  cases(ctx)         yields inputs (JSON-able dicts with a unique 'id'); ctx.rng, ctx.tier
  observe(inp)       runs the real code on one input, returns the observation (JSON-able)
  JUDGE              name of the TLA+ module that judges (input, observation) pairs
and optionally
  from_model(ctx, runs)   yields inputs made from what TLC printed in the MC runs
  nontrivial(case)        True when the case counts as non-trivial
"""
from __future__ import annotations

import importlib
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get('PELICUN_REPO', '/repo'))
sys.path.insert(0, str(VERIF / 'lib'))
sys.path.insert(0, str(VERIF / 'checks'))
sys.path.insert(0, str(REPO))

SCRATCH = Path(tempfile.mkdtemp(prefix='vp_check_'))
LIB = SCRATCH / 'dlml'
LIB.mkdir()
(LIB / 'model_files.txt').write_text('')
(LIB / '.dlml_cache.json').write_text('{"last_version_check": "2999-01-01T00:00:00"}')
os.environ['DLML_DATA_DIR'] = str(LIB)
os.environ['VP_SCRATCH'] = str(SCRATCH)
os.environ['VP_REPO'] = str(REPO)

import tlc  # noqa: E402


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f'{prop}-{seed}')
        self.quick = tier == 'quick'
        self.scratch = SCRATCH

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def over(self):
        return False


def _silence():
    import warnings
    warnings.filterwarnings('ignore')


def observe_one(args):
    modname, inp = args
    mod = importlib.import_module(modname)
    import io
    import contextlib
    import warnings
    wd = tempfile.mkdtemp(dir=os.environ['VP_SCRATCH'])
    old = os.getcwd()
    os.chdir(wd)
    try:
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                obs = mod.observe(inp)
            except Exception as e:  # noqa: BLE001
                obs = {'exc': f'{type(e).__name__}: {e}'[:300],
                       'trace': traceback.format_exc()[-1500:]}
    finally:
        os.chdir(old)
        shutil.rmtree(wd, ignore_errors=True)
    return obs


def observe_all(modname, inputs, jobs=8):
    if not inputs:
        return []
    if len(inputs) < 4 or jobs == 1:
        return [observe_one((modname, i)) for i in inputs]
    import multiprocessing as mp
    # the parent imports the code once; workers are forks of it
    ctx = mp.get_context('fork')
    chunk = max(1, min(50, len(inputs) // (jobs * 4)))
    with ctx.Pool(min(jobs, len(inputs))) as pool:
        return pool.map(observe_one, [(modname, i) for i in inputs], chunksize=chunk)


def known_findings(prop):
    out = {}
    f = VERIF / 'known_findings.jsonl'
    if f.exists():
        for line in f.read_text().splitlines():
            if line.strip() and not line.startswith('fixed:'):
                d = json.loads(line)
                if d['property'] == prop:
                    out[(d['case'], d['clause'])] = d['what']
    return out


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    if '--replay' in args:
        i = args.index('--replay')
        replay = args[i + 1]
        args = args[:i] + args[i + 2:]
    if len(args) > 1:
        tier = args[1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ctx = Ctx(prop, tier, seed)
    t0 = time.time()
    modname = prop.lower()
    mod = importlib.import_module(modname)
    if hasattr(mod, 'prepare'):
        mod.prepare(ctx)

    # 1. model checking of the specification itself
    runs, states, transitions, mc_samples = [], 0, 0, []
    if replay is None:
        for run in mod.MC:
            if run.get('tier') == 'thorough' and ctx.quick:
                continue
            if run.get('tier') == 'quick' and not ctx.quick:
                continue
            r = tlc.run(run['module'], run['cfg'], SCRATCH, workers=run.get('workers', 8),
                        env=run.get('env'), timeout=run.get('timeout', 600), extra=run.get('extra', ()))
            if r.status != 'ok':
                print(r.out[-4000:])
                print(f'specification error: {run["module"]}/{run["cfg"]}: {r.status}', file=sys.stderr)
                sys.exit(3)
            runs.append((run, r))
            states += r.distinct
            transitions += r.generated
            mc_samples.append({'module': run['module'], 'cfg': run['cfg'], 'states': r.distinct,
                               'transitions': r.generated, 'depth': r.depth})
            # vacuity guard: the named actions must all have been taken
            for a in run.get('must_take', ()):
                if r.coverage is not None and r.coverage.get(a, 0) == 0:
                    print(f'vacuous: action {a} of {run["module"]} never taken', file=sys.stderr)
                    sys.exit(3)

    t1 = time.time()
    # 2. inputs
    if replay is not None:
        inputs = [json.loads(Path(replay).read_text())['in']]
    else:
        inputs = list(mod.cases(ctx))
        n_gen = len(inputs)
        if hasattr(mod, 'from_model'):
            inputs += list(mod.from_model(ctx, runs))
    ids = set()
    for inp in inputs:
        if inp['id'] in ids:
            print(f'duplicate case id {inp["id"]}', file=sys.stderr)
            sys.exit(3)
        ids.add(inp['id'])

    # 3. observation of the real code
    obs = observe_all(modname, inputs, getattr(mod, 'JOBS', 8))
    cases = []
    for inp, o in zip(inputs, obs):
        c = {'id': inp['id'], 'in': inp, 'obs': o}
        cases.append(c)

    t2 = time.time()
    # 4. judging by TLC: crashes first (total verdict), then the specification
    bad = {}
    judged = []
    for c in cases:
        if 'exc' in c['obs'] and not getattr(mod, 'EXC_IN_SPEC', False):
            bad[c['id']] = ['unexpected-error']
        else:
            judged.append(c)
    jstates = jtrans = 0
    if judged:
        conv = getattr(mod, 'to_tla', lambda c: c)
        verdicts, jstates, jtrans = tlc.judge(mod.JUDGE, [conv(c) for c in judged], SCRATCH)
        for k, v in verdicts.items():
            bad.setdefault(k, []).extend(v)

    t3 = time.time()
    # 5. report
    kf = known_findings(prop)
    violations = []
    seen_kf = set()
    by_id = {c['id']: c for c in cases}
    for k, clauses in bad.items():
        for cl in sorted(set(clauses)):
            if (k, cl) in kf:
                seen_kf.add((k, cl))
            else:
                violations.append((k, cl))
    for k in sorted(seen_kf):
        print(f'KNOWN-FINDING: property={prop} case={k[0]} clause={k[1]} {kf[k]}')
    rep_dir = VERIF / 'evidence' / 'replay'
    if replay is None:
        for old in rep_dir.glob(f'{prop}-*.json'):
            old.unlink()
    shown = 0
    for k, cl in violations:
        rep_dir.mkdir(parents=True, exist_ok=True)
        path = rep_dir / f'{prop}-{k}.json'.replace('/', '_')
        path.write_text(json.dumps(by_id[k], indent=1, default=str))
        if shown < 20:
            c = by_id[k]
            detail = c['obs'].get('exc', '') if isinstance(c['obs'], dict) else ''
            print(f'  case {k}: clause {cl} {detail}')
            print(f'VIOLATION property={prop} replay={path}')
        shown += 1
    if shown > 20:
        print(f'  ... {shown} violations in total')

    if replay is None:
        nontriv = getattr(mod, 'nontrivial', lambda c: 'exc' not in c['obs'])
        distinct = {json.dumps({a: b for a, b in c['in'].items() if a != 'id'}, sort_keys=True, default=str)
                    for c in cases if nontriv(c)}
        samples = []
        for c in cases[:1] + cases[len(cases) // 2:len(cases) // 2 + 1]:
            s = json.dumps(c, default=str)
            samples.append(json.loads(s) if len(s) < 4000 else s[:4000])
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'model_checking'),
            'coverage': {
                'states': states + jstates, 'transitions': transitions + jtrans,
                'traces_validated_against_impl': len(judged),
                'evaluations': len(cases), 'distinct_nontrivial': len(distinct),
                'rule': mod.RULE, 'model_runs': mc_samples, 'from_model': len(inputs) - n_gen,
                'judge_states': jstates,
                'samples': samples,
            },
            'assumptions': getattr(mod, 'ASSUMPTIONS', []),
            'wall_s': round(time.time() - t0, 2),
            'violations': len(violations),
        }
        (VERIF / 'evidence').mkdir(exist_ok=True)
        (VERIF / 'evidence' / f'{prop}.json').write_text(json.dumps(ev, indent=1))
    print(f'{prop} {tier}: {len(cases)} executions judged, {states} spec states, '
          f'{len(violations)} violations, {len(seen_kf)} known, {time.time() - t0:.1f}s '
          f'(model {t1 - t0:.1f} observe {t2 - t1:.1f} judge {t3 - t2:.1f})')
    return 1 if violations else 0


if __name__ == '__main__':
    rc = 3
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
