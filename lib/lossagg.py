"""Shared binding of the aggregation checks (C09, C10, C12)."""
import numpy as np
import pandas as pd

import loss
import pel

UNITS = {'Cost': ['USD'], 'Time': ['day', 'hour', 'sec'], 'Carbon': ['kg'], 'Energy': ['J']}
SEC = {'day': 86400, 'hour': 3600, 'sec': 1}


def gen_cols(rng, dvs, n, replacement=0.0, lf=0.4, zero=.3, maxv=30):
    cols = []
    groups = []
    for c in rng.sample(['A', 'B.1', 'C', 'D'], rng.randint(1, 3)):
        is_lf = rng.random() < lf
        for loc in rng.sample([1, 2, 3, 11], rng.randint(1, 3)):
            for d in rng.sample([0, 1, 2], rng.randint(1, 2)):
                for uid in ([0, 1] if rng.random() < .2 else [0]):
                    groups.append((c, loc, d, uid, is_lf))
    cons = {c: rng.choice(['x', 'y', c]) for c in 'A B.1 C D'.split()}
    for dv in dvs:
        if rng.random() < .12:
            continue
        for c, loc, d, uid, is_lf in groups:
            if rng.random() < .12:
                continue
            for ds in ([-9] if is_lf else rng.sample([1, 2, 3], rng.randint(1, 2))):
                cols.append({'dv': dv, 'loss': cons[c], 'dmg': c, 'ds': ds, 'loc': loc, 'dir': d, 'uid': uid,
                             'v': [0 if rng.random() < zero else rng.randint(1, maxv) for _ in range(n)]})
        if rng.random() < replacement:
            for c in rng.sample(['collapse', 'excessiveRID'], rng.randint(1, 2)):
                cols.append({'dv': dv, 'loss': 'replacement', 'dmg': c, 'ds': 1, 'loc': 0, 'dir': 1, 'uid': 0,
                             'v': [rng.choice([0, 0, rng.randint(1, 90)]) for _ in range(n)]})
    rng.shuffle(cols)
    return cols


def build(inp):
    """assessment whose loss model holds exactly the given detailed losses."""
    n = inp['n']
    a = pel.assessment()
    a.loss.decision_variables = tuple(inp['dvs'])
    unit = inp['unit']
    ds = [c for c in inp['cols'] if c['ds'] != -9]
    lf = [c for c in inp['cols'] if c['ds'] == -9]
    if ds:
        names = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
        df = pd.DataFrame(np.array([c['v'] for c in ds], dtype=float).T.reshape(n, len(ds)), columns=pd.MultiIndex.from_tuples(
            [(c['dv'], c['loss'], c['dmg'], str(c['ds']), str(c['loc']), str(c['dir']), str(c['uid'])) for c in ds], names=names), dtype=object)
        df.loc['Units'] = [unit[c['dv']] for c in ds]
        a.loss.load_sample(df.loc[['Units', *range(n)]])
    if lf:
        names = ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid']
        a.loss.lf_model.sample = pd.DataFrame(
            np.array([[x * SEC.get(unit[c['dv']], 1) for x in c['v']] for c in lf], dtype=float).T.reshape(n, len(lf)),
            columns=pd.MultiIndex.from_tuples([(c['dv'], c['loss'], c['dmg'], str(c['loc']), str(c['dir']), str(c['uid'])) for c in lf],
                                              names=names)).sort_index(axis=1)
    a.loss.dv_units = dict(unit)
    return a


def detailed(a, inp):
    out = []
    for m in (a.loss.ds_model, a.loss.lf_model):
        if m.sample is None:
            continue
        f = m.sample.copy()
        for c in f.columns:
            f[c] = f[c] / SEC.get(inp['unit'][c[0]], 1)
        for o in loss.sample_cols(f):
            o.setdefault('ds', -9)
            out.append({x: o[x] for x in ('dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid', 'v')})
    return out


def agg_cols(df):
    out = []
    for c, v in zip(df.columns, zip(*pel.ints(df, 1000))):
        c = [c] if isinstance(c, str) else [x for x in c if x]
        out.append({'name': '-'.join(c), 'v': list(v)})
    return out


def observe(inp):
    from pelicun import uq
    a = build(inp)
    out = {'scaled': [], 'rep': [], 'flags': []}
    if inp['rules']:
        pd.DataFrame(inp['csv']).to_csv('scale.csv', index=False)
        a.loss.consequence_scaling('scale.csv')
        out['scaled'] = detailed(a, inp)
    out['before'] = detailed(a, inp)
    conf = None
    if inp['usethr']:
        reg = uq.RandomVariableRegistry(a.options.rng)
        for r in inp['reps']:
            if r['family'] == 'deterministic':
                reg.add_RV(uq.DeterministicRandomVariable(name=r['dv'], theta=np.array([float(r['v'] * SEC.get(inp['unit'][r['dv']], 1))])))
            else:
                reg.add_RV(uq.rv_class_map(r['family'])(name=r['dv'], theta=np.array([r['v'] * SEC.get(inp['unit'][r['dv']], 1), .3])))
        conf = (reg, {t['dv']: t['ratio'] / 4 for t in inp['thr']})
    if inp.get('old'):
        agg = a.loss.aggregate_losses(conf)
    else:
        agg, flags = a.loss.aggregate_losses(conf, future=True)
    out['agg'] = agg_cols(agg)
    if inp['usethr']:
        out['rep'] = [{'dv': r['dv'], 'v': [int(round(float(x) / SEC.get(inp['unit'][r['dv']], 1) * 1000)) for x in
                                            np.broadcast_to(reg.RV[r['dv']].sample, (inp['n'],))]} for r in inp['reps']]
        out['flags'] = [{'dv': c, 'v': [int(x) for x in flags[c]]} for c in flags.columns] if not inp.get('old') else []
        out['agg2'] = []
    else:
        agg2 = a.loss.aggregate_losses(None, future=True)
        out['agg2'] = agg_cols(agg2[0] if isinstance(agg2, tuple) else agg2)
    out['after'] = detailed(a, inp)
    return out


def to_tla(c):
    i = c['in']
    return {'id': c['id'], 'obs': c['obs'], 'in': {k: i[k] for k in ('n', 'cols', 'dvs', 'rules', 'thr', 'usethr', 'expect')}}
