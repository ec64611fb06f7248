"""C19: residual drifts."""
import contextlib
import copy
import io
import os
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

import pel

TITLE = 'residual drifts'
RULE = ('peak drifts across the three regimes at any set of locations and directions, yield drifts per direction (numbers or text); the '
        'estimate alone, added to a sample, and as part of the demand calculation run twice with one configuration object; non-trivial when '
        'some drifts exceed yield')
MC = [{'module': 'ResidualMC', 'cfg': 'ResidualMC_q.cfg', 'tier': 'quick', 'must_take': ['Draw', 'Infer']},
      {'module': 'ResidualMC', 'cfg': 'ResidualMC_t.cfg', 'tier': 'thorough', 'must_take': ['Draw', 'Infer'], 'timeout': 1500}]
JUDGE = 'ResidualJudge'
EXC_IN_SPEC = True
ASSUMPTIONS = ['medians are judged on 3000 realizations of one drift within 2.5 %, and by a sign test (five standard deviations) over a sample',
               'no drift is exactly four times the yield drift']


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    return len(c['in']['yields']) > 0


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(90, 1500)):
        kind = rng.choice(['constant', 'adjust', 'assess'])
        locs = rng.sample(['1', '2', '3', '10'], rng.randint(1, 3))
        dirs = rng.sample(['1', '2', '3'], rng.randint(1, 3))
        pids = [f'PID-{loc}-{d}' for loc in locs for d in dirs]
        if len(pids) > 2 and rng.random() < .3:
            pids.remove(rng.choice(pids))
        have = sorted({p.split('-')[2] for p in pids})
        others = rng.sample(['PFA-0-1', 'PFA-1-1', 'PFA-1-2', 'PGA-0-1', 'PFV-2-1', 'SA_1.0-0-1', 'PRD-1-1'], rng.randint(0, 3))
        if kind == 'assess':
            yields = {d: rng.randint(2000, 12000) for d in rng.sample(have, rng.randint(1, len(have)))}
        else:
            y = rng.randint(2000, 12000)
            yields = {d: y for d in have}
        ymax = max(yields.values())
        n = {'constant': 3000, 'adjust': rng.choice([1, 7, 60]), 'assess': rng.choice([20, 50])}[kind]
        raw_n = n if kind != 'assess' else rng.randint(8, 30)
        cols = [*pids, *others]
        rng.shuffle(cols)
        raw = []
        for _ in range(raw_n if kind != 'constant' else 1):
            row = []
            for c in cols:
                if c.startswith('PID'):
                    y = yields.get(c.split('-')[2], ymax)
                    x = {0: rng.randint(1, y), 1: rng.randint(y + 30, 4 * y - 1), 2: rng.randint(4 * y + 1, 12 * y)}[rng.randint(0, 2)]
                    row.append(x + (1 if x == 4 * y else 0))
                else:
                    row.append(rng.randint(100, 900) * 1000)
            raw.append(row)
        yield {'id': f'q{i}', 'kind': kind, 'cols': cols, 'n': n, 'yields': yields, 'raw': raw, 'runs': 2 if kind == 'assess' else 1,
               'text': rng.randint(0, 1), 'seed': rng.randint(1, 10 ** 6), 'method': rng.choice(['FEMA P58', 'FEMA P-58']), 'preserve': rng.randint(0, 1),
               'unit': rng.choice(['rad', 'unitless'])}


UNIT = {'PID': 'unitless', 'PRD': 'rad', 'PFA': 'g', 'PGA': 'mps2', 'PFV': 'cmps', 'SA_1.0': 'g'}


def million(x):
    return [int(round(float(v) * 1e6)) for v in x]


def record(inp, a, before, before_units, caller, table):
    """table: realizations as rows with columns (type, loc, dir), units"""
    sample, units = table
    cols = [tuple(str(x) for x in c) for c in sample.columns]
    rid = []
    for c in cols:
        if c[0] == 'RID':
            d = sample[('PID', c[1], c[2])] if ('PID', c[1], c[2]) in cols else [float('nan')] * len(sample)
            ok = not (np.any(pd.isna(d)) or sample[c].isna().any())
            rid.append({'loc': c[1], 'dir': c[2], 'd': million(d) if ok else [1] * len(sample), 'r': million(sample[c]) if ok else [-9] * len(sample)})
    same = before is None or all(c in cols and np.allclose(before[c].to_numpy(float), sample[c].to_numpy(float), rtol=1e-9) for c in before.columns)
    uok = all(str(units[c]) == before_units[c[0]] for c in cols if c[0] in before_units) and all(str(units[c]) == 'unitless' for c in cols if c[0] == 'RID')
    return {'after': [{'type': c[0], 'loc': c[1], 'dir': c[2]} for c in cols], 'rid': rid, 'same': int(same), 'units': int(uok), 'caller': int(caller), 'n': len(sample)}


def observe(inp):
    a = pel.assessment(Seed=inp['seed'])
    ys = {d: (str(y / 1e6) if inp['text'] else y / 1e6) for d, y in inp['yields'].items()}
    unit = {**UNIT, 'PID': inp['unit']}
    units = [unit[c.split('-')[0]] for c in inp['cols']]
    if inp['kind'] == 'constant':
        pids = [(j, c) for j, c in enumerate(inp['cols']) if c.startswith('PID')]
        df = pd.DataFrame({tuple(c.split('-')[1:]): np.full(inp['n'], inp['raw'][0][j] / 1e6) for j, c in pids})
        df.columns = pd.MultiIndex.from_tuples(df.columns, names=['loc', 'dir'])
        keep = df.copy()
        params = {'yield_drift': next(iter(inp['yields'].values())) / 1e6}
        saved = copy.deepcopy(params)
        rid = a.demand.estimate_RID(df, params, inp['method'])
        out = []
        for c in rid.columns:
            loc, d = str(c[1]), str(c[2])
            v = rid[c].to_numpy(float)
            out.append({'loc': loc, 'dir': d, 'c': int(round(keep[loc, d].iloc[0] * 1e6)), 'med': int(round(np.median(v) * 1e6)) if np.isfinite(v).all() else -9,
                        'lo': int(np.floor(v.min() * 1e6)), 'hi': int(np.floor(v.max() * 1e6))})
        after = [{'type': 'RID', 'loc': str(c[1]), 'dir': str(c[2])} for c in rid.columns] + [
            dict(zip(('type', 'loc', 'dir'), c.split('-'))) for c in inp['cols']]
        return {'runs': [{'after': after, 'rid': out, 'same': int(df.equals(keep)), 'units': 1, 'caller': int(params == saved), 'n': len(rid)}]}
    vals = [[v / 1e6 for v in row] for row in inp['raw']]
    raw = pel.demand_table(inp['cols'], units, vals)
    if inp['kind'] == 'adjust':
        a.demand.load_sample(raw)
        before = a.demand.save_sample()
        params = {'yield_drift': next(iter(inp['yields'].values())) / 1e6}
        saved = copy.deepcopy(params)
        a.demand.estimate_RID_and_adjust_sample(params, inp['method'])
        return {'runs': [record(inp, a, before, unit, params == saved, a.demand.save_sample(save_units=True))]}
    from pelicun.assessment import DLCalculationAssessment
    config = {'method': 'FEMA P-58', **ys}
    saved = copy.deepcopy(config)
    runs = []
    with tempfile.TemporaryDirectory(dir=os.environ['VP_SCRATCH']) as tmp, contextlib.redirect_stdout(io.StringIO()):
        flat = raw.copy()
        flat.columns = ['-'.join(c) for c in raw.columns]
        flat.to_csv(Path(tmp) / 'demands.csv')
        for _ in range(inp['runs']):
            a = DLCalculationAssessment({'Seed': inp['seed'], 'Verbose': False, 'PrintLog': False})
            a.calculate_demand(Path(tmp) / 'demands.csv', None, None, None, inp['n'], None, config, coupled_demands=bool(inp['preserve']))
            s, u = a.demand.save_sample(save_units=True)
            # every demand still comes from the raw table
            ok = all({round(float(v), 9) for v in s[c]} <= {round(row[j], 9) for row in vals} for j, c in
                     ((j, tuple(x.split('-'))) for j, x in enumerate(inp['cols'])) if c in s.columns)
            r = record(inp, a, None, unit, config == saved, (s, u))
            r['same'] = int(ok)
            runs.append(r)
    return {'runs': runs}


def to_tla(c):
    i = c['in']
    return {'id': c['id'], 'in': {'kind': i['kind'], 'cols': [dict(zip(('type', 'loc', 'dir'), x.split('-'))) for x in i['cols']],
                                  'extra': [{'type': 'ONE', 'loc': '0', 'dir': '1'}] if i['kind'] == 'assess' else [],
                                  'yields': i['yields'], 'n': i['n'], 'runs': i['runs']}, 'obs': c['obs']}
