"""Builders for loss calculations and a small independent reference of deviation distributions."""
from __future__ import annotations

import math

import numpy as np
import pandas as pd

import pel

UNITS = {'Cost': 'USD', 'Time': 'sec', 'Carbon': 'kg', 'Energy': 'J'}


def table(recs):
    cols = []
    for r in recs.values():
        for c in r:
            if c not in cols:
                cols.append(c)
    df = pd.DataFrame([[r.get(c, np.nan) for c in cols] for r in recs.values()],
                      columns=pd.MultiIndex.from_tuples(cols), dtype=object)
    df.index = pd.MultiIndex.from_tuples(list(recs))
    return df.infer_objects()


def ds_table(params, all_states=None):
    """params: [{cons, dv, qunit?, unit?, states: [{ds, xs, ys, family, cov}]}]; constant when one point."""
    top = all_states or sorted({s['ds'] for p in params for s in p['states']} | {1})
    recs = {}
    for p in params:
        r = {('Incomplete', ''): p.get('incomplete', 0), ('Quantity', 'Unit'): p.get('qunit', '1 EA'),
             ('DV', 'Unit'): p.get('unit', UNITS.get(p['dv'], 'unitless'))}
        for t in top:
            r[f'DS{t}', 'Family'] = r[f'DS{t}', 'Theta_0'] = r[f'DS{t}', 'Theta_1'] = np.nan
        for s in p['states']:
            r[f'DS{s["ds"]}', 'Family'] = s.get('family') or np.nan
            if len(s['xs']) == 1:
                r[f'DS{s["ds"]}', 'Theta_0'] = float(s['ys'][0])
            else:
                r[f'DS{s["ds"]}', 'Theta_0'] = ','.join(map(str, s['ys'])) + '|' + ','.join(map(str, s['xs']))
            r[f'DS{s["ds"]}', 'Theta_1'] = s.get('cov') if s.get('family') else np.nan
        recs[p['cons'], p['dv']] = r
    return table(recs)


def lf_table(params):
    """params: [{cons, dv, demand: {Type, Unit, Offset, Directional}, xs, ys, family?, cov?}]."""
    recs = {}
    for p in params:
        r = {('Incomplete', ''): p.get('incomplete', 0), ('Quantity', 'Unit'): p.get('qunit', '1 EA'),
             ('DV', 'Unit'): p.get('unit', UNITS.get(p['dv'], 'unitless'))}
        for k, v in p['demand'].items():
            r['Demand', k] = v
        r['LossFunction', 'Family'] = p.get('family') or np.nan
        r['LossFunction', 'Theta_0'] = ','.join(map(str, p['ys'])) + '|' + ','.join(map(str, p['xs']))
        r['LossFunction', 'Theta_1'] = p.get('cov') if p.get('family') else np.nan
        recs[p['cons'], p['dv']] = r
    return table(recs)


def loss_map(pairs):
    return pd.DataFrame({'Repair': [p['cons'] for p in pairs]}, index=[p['cmp'] for p in pairs])


def damage_frame(damage, n):
    """damage: [{cmp, loc, dir, uid, ds, q: [n ints, -1 = missing]}] -> table with units row."""
    cols = pd.MultiIndex.from_tuples([(d['cmp'], str(d['loc']), str(d['dir']), str(d['uid']), str(d['ds']))
                                      for d in damage], names=['cmp', 'loc', 'dir', 'uid', 'ds'])
    vals = np.array([[np.nan if x < 0 else float(x) for x in d['q']] for d in damage]).T.reshape(n, len(damage))
    df = pd.DataFrame(vals, columns=cols, dtype=object)
    df.loc['Units'] = 'ea'
    return df.loc[['Units', *range(n)]]


def sample_cols(sample, scale=1000):
    """[{level: value, ..., v: ints}] of a loss sample (None -> [])."""
    if sample is None:
        return []
    out = []
    names = list(sample.columns.names)
    for c, row in zip(sample.columns, pel.ints(sample, scale=scale) and list(zip(*pel.ints(sample, scale=scale)))):
        d = {n: str(x) for n, x in zip(names, c)}
        for k in ('loc', 'dir', 'uid', 'ds'):
            if k in d:
                d[k] = int(d[k]) if d[k].lstrip('-').isdigit() else -9
        d['v'] = list(row)
        out.append(d)
    return out


def raw_cols(sample):
    """Unrounded values of the columns, in the order of sample_cols."""
    return [] if sample is None else [[float(x) for x in row] for row in sample.to_numpy(dtype=float).T]


def phi(z):
    return 0.5 * math.erfc(-z / math.sqrt(2))


def dev_cdf(family, cov, x):
    """CDF of the deviation (median one, below zero excluded) of a consequence."""
    if family == 'lognormal':
        return 0.0 if x <= 0 else phi(math.log(x) / cov)
    lo = phi(-1.0 / cov)
    return (phi((x - 1.0) / cov) - lo) / (1 - lo)


def stratum(p, n):
    return int(math.floor(min(max(p, 0.0), 1.0) * n - 1e-9)) if p > 0 else 0


def interp(xs, ys, x):
    return float(np.interp(x, xs, ys))
