"""C29: compact and hierarchical labels."""
import csv

import numpy as np
import pandas as pd

import loss
import pel

TITLE = 'labels'
RULE = ('tables and series with labels of two to six levels (equal and different depth, either axis, in place or not) converted there and back; '
        'result files of whole calculations in which every number identifies its place; non-trivial when there are several labels')
MC = [{'module': 'LabelsMC', 'cfg': 'LabelsMC_q.cfg', 'tier': 'quick', 'must_take': ['Compact', 'Expand']},
      {'module': 'LabelsMC', 'cfg': 'LabelsMC_t.cfg', 'tier': 'thorough', 'must_take': ['Compact', 'Expand']}]
JUDGE = 'LabelsJudge'
ASSUMPTIONS = ['the parts of a label contain no dash, as the SimCenter convention demands']


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    return len(c['in'].get('labels', c['in'].get('compact', c['in'].get('rows')))) > 1


PARTS = ['1', '2', '10', 'A', 'B.10.31', 'PGA', '', 'Cost', 'collapse', '0', 'a b', '1.5', 'SA_0.2', 'x/y', 'all']


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(250, 3000)):
        depth = rng.choice([2, 2, 3, 4, 5, 6])
        n = rng.choice([1, 2, 3, 8])
        labels = [[rng.choice(PARTS) if rng.random() < .5 else f'{j}' for _ in range(depth)] for j in range(n)]
        for x in labels:
            if rng.random() < .3:
                k = rng.randint(1, depth)
                x[k:] = [''] * (depth - k)
        if not any(x[-1] for x in labels) and rng.random() < .5:
            labels[0][-1] = 'z'
        yield {'id': f'r{i}', 'kind': 'round', 'labels': labels, 'data': [rng.randint(1, 9999) for _ in range(n)], 'axis': rng.choice([0, 1]),
               'series': int(rng.random() < .25), 'inplace': int(rng.random() < .4), 'named': int(rng.random() < .5)}
    for i in range(ctx.n(120, 1500)):
        n = rng.choice([1, 2, 3, 8])
        compact = ['-'.join(rng.choice(PARTS) for _ in range(rng.randint(1, 4))) for _ in range(n)]
        if all('-' not in c for c in compact):
            compact[0] += '-1'
        yield {'id': f's{i}', 'kind': 'split', 'compact': compact, 'data': [rng.randint(1, 9999) for _ in range(n)], 'axis': rng.choice([0, 1]),
               'series': int(rng.random() < .25), 'inplace': int(rng.random() < .4)}
    for i in range(ctx.n(50, 800)):
        yield {'id': f'f{i}', 'kind': 'report', **model(rng)}


def model(rng):
    n = rng.randint(1, 4)
    locs = rng.sample([0, 1, 2, 3, 9, 10, 11, 21], rng.randint(1, 4))
    types = rng.sample(['PGA', 'PGV', 'PGD'], rng.randint(1, 2))
    dirs = rng.sample([1, 2, 3, 10], rng.randint(1, 3))
    demand = [{'type': t, 'loc': str(x), 'dir': str(d), 'v': [rng.randint(1, 60) for _ in range(n)]} for t in types for x in locs for d in dirs]
    rng.shuffle(demand)
    names = rng.sample(['A', 'B', 'B.1', 'B.10', 'collapse', 'C.2'], rng.randint(1, 4))
    comps = []
    for c in names:
        caps = sorted(rng.sample(range(1, 60), rng.randint(1, 3)))
        dvs = rng.sample(['Cost', 'Time', 'Carbon', 'Energy'], rng.randint(1, 2))
        comps.append({'cmp': c, 'cons': rng.choice([c, c, f'{c}.x']), 'type': rng.choice(types), 'caps': caps,
                      'cost': {dv: [rng.randint(1, 99) for _ in caps] for dv in dvs}})
    rows = []
    for k in range(rng.randint(1, 9)):
        rows.append({'cmp': rng.choice(names), 'loc': str(rng.choice(locs)), 'dir': str(rng.choice(dirs)), 'q': 101 + 13 * k})
    return {'n': n, 'demand': demand, 'comps': comps, 'rows': rows}


def labels_of(x, axis):
    return x.index if axis == 0 or isinstance(x, pd.Series) else x.columns


def make(data, index, axis, series):
    if series:
        return pd.Series(data, index=index)
    arr = np.array(data)
    other = 10000 * (np.arange(3) + 1)
    if axis == 0:
        return pd.DataFrame(arr[:, None] + other[None, :], index=index, columns=['x', 'y', 'z'])
    return pd.DataFrame(arr[None, :] + other[:, None], columns=index, index=[5, 6, 7])


def read(x, axis):
    if isinstance(x, pd.Series):
        return [int(v) for v in x]
    a = x.to_numpy() if axis == 0 else x.to_numpy().T
    ok = bool(((a - a[:, :1]) == np.array([[0, 10000, 20000]])).all())
    rest = list(x.columns) == ['x', 'y', 'z'] if axis == 0 else list(x.index) == [5, 6, 7]
    return [int(v) - 10000 for v in a[:, 0]] if ok and rest else [-1]


def parts(ix):
    return [[list(str(p)) for p in (t if isinstance(t, tuple) else (t,))] for t in ix]


def observe(inp):
    from pelicun import base
    if inp['kind'] == 'report':
        return report(inp)
    axis, kw = inp['axis'], ({'inplace': True} if inp['inplace'] else {})
    ax = 0 if inp['series'] else axis
    if inp['kind'] == 'split':
        t = make(inp['data'], pd.Index(inp['compact']), axis, inp['series'])
        back = base.convert_to_MultiIndex(t, ax, **kw)
        return {'back': parts(labels_of(back, axis)), 'data2': read(back, axis)}
    ix = pd.MultiIndex.from_tuples([tuple(x) for x in inp['labels']], names=[f'n{j}' for j in range(len(inp['labels'][0]))] if inp['named'] else None)
    t = make(inp['data'], ix, axis, inp['series'])
    c = base.convert_to_SimpleIndex(t, ax, **kw)
    compact, d1 = [list(str(x)) for x in labels_of(c, axis)], read(c, axis)
    kept = labels_of(t, axis).equals(ix) if not inp['inplace'] else [list(str(x)) for x in labels_of(t, axis)] == compact
    kept = kept and read(t, axis) == inp['data']
    back = base.convert_to_MultiIndex(c, ax, **kw)
    if not inp['inplace']:
        kept = kept and [list(str(x)) for x in labels_of(c, axis)] == compact
    return {'compact': compact, 'back': parts(labels_of(back, axis)), 'data1': d1, 'data2': read(back, axis), 'kept': bool(kept)}


def report(inp):
    n = inp['n']
    dem = inp['demand']
    unit = {'PGA': 'mps2', 'PGV': 'mps', 'PGD': 'm'}
    full = {'PGA': 'Peak Ground Acceleration', 'PGV': 'Peak Ground Velocity', 'PGD': 'Permanent Ground Deformation'}
    frag = {}
    for c in inp['comps']:
        frag[c['cmp']] = {'Demand': {'Type': full[c['type']], 'Unit': unit[c['type']], 'Offset': 0, 'Directional': 1},
                          **{f'LS{j + 1}': pel.det(float(x)) for j, x in enumerate(c['caps'])}}
    a = pel.pipeline(([f'{d["type"]}-{d["loc"]}-{d["dir"]}' for d in dem], [unit[d['type']] for d in dem],
                      [[d['v'][r] for d in dem] for r in range(n)]),
                     [{'cmp': r['cmp'], 'Units': 'ea', 'Location': r['loc'], 'Direction': r['dir'], 'Theta_0': r['q']} for r in inp['rows']],
                     frag)
    a.damage.calculate()
    used = {r['cmp'] for r in inp['rows']}
    dvs = ('Cost', 'Time', 'Carbon', 'Energy')
    a.loss.decision_variables = dvs
    a.loss.add_loss_map(loss.loss_map([c for c in inp['comps'] if c['cmp'] in used]), None)
    a.loss.load_model_parameters([loss.ds_table([
        {'cons': c['cons'], 'dv': dv, 'states': [{'ds': j + 1, 'xs': [0], 'ys': [y]} for j, y in enumerate(ys)]}
        for c in inp['comps'] for dv, ys in c['cost'].items()])])
    a.loss.calculate()
    a.demand.save_sample('demand.csv')
    a.asset.save_cmp_sample('asset.csv')
    a.damage.save_sample('damage.csv')
    files = ['demand', 'asset', 'damage']
    if a.loss.sample is not None:
        a.loss.save_sample('loss.csv')
        files.append('loss')
    out = []
    for f in files:
        with open(f + '.csv', newline='') as h:
            rows = list(csv.reader(h))
        assert rows[1][0] == 'Units', rows[1][0]
        for j, lab in enumerate(rows[0][1:], 1):
            vals = [float(r[j]) if r[j] else -9.0 for r in rows[2:]]
            out.append({'what': f, 'label': lab.split('-'), 'v': [round(v) if abs(v - round(v)) < 1e-6 else -7 for v in vals]})
    return {'files': out}


def to_tla(c):
    i = c['in']
    if i['kind'] == 'round':
        inn = {'kind': 'round', 'labels': [[list(p) for p in x] for x in i['labels']], 'data': i['data']}
    elif i['kind'] == 'split':
        inn = {'kind': 'split', 'compact': [list(x) for x in i['compact']], 'data': i['data']}
    else:
        inn = {k: i[k] for k in ('kind', 'demand', 'rows', 'comps')}
    return {'id': c['id'], 'in': inn, 'obs': c['obs']}
