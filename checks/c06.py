"""C06: results do not depend on batches, order or unrelated inputs."""
import random

import pandas as pd

import loss
import pel

TITLE = 'independence of batches, order and unrelated inputs'
RULE = ('one model (several components with fixed capacities, consequences and loss functions) calculated in six ways: other batch '
        'sizes, permuted rows and columns, split parameter tables, sub-models, extra components and demands; non-trivial when '
        'some component is damaged')
MC = [{'module': 'BatchMC', 'cfg': 'BatchMC_q.cfg', 'tier': 'quick', 'must_take': ['Batch']},
      {'module': 'BatchMC', 'cfg': 'BatchMC_t.cfg', 'tier': 'thorough', 'must_take': ['Batch'], 'timeout': 3000}]
JUDGE = 'BatchJudge'
ASSUMPTIONS = ['capacities, consequences and quantities are fixed values (random ones are drawn from a stream shared by the model)',
               'the multiplier of non-directional demands is one']


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    return any('groups' in r and any(d['ds'] > 0 and any(x > 0 for x in d['v']) for g in r['groups'] for d in g['ds'])
               for r in c['obs']['runs'])


# expressions of the demand: factor, addend
EXPR = {(2, 0): 'X1 * 2', (1, 2): 'X1 + 2', (-1, 10): '10 - X1'}
NAMES = ['A', 'B.1', 'C10', 'C9', 'z', 'Wall']


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(64, 1200)):
        n = rng.randint(2, 6)
        comps = []
        for c in rng.sample(NAMES, rng.randint(2, 5)):
            kind = rng.choice(['ds', 'ds', 'ds', 'lf'])
            comps.append({'cmp': c, 'kind': kind, 'free': int(rng.random() < .3),
                          'expr': rng.choice([[1, 0], [1, 0], [2, 0], [1, 2], [-1, 10]]),
                          'lss': [rng.randint(1, 9) for _ in range(rng.randint(1, 3))],
                          'cons': [[rng.randint(0, 9) for _ in range(rng.choice([1, 2]))] for _ in range(3)]})
        if not any(c['kind'] == 'ds' for c in comps):
            comps[0]['kind'] = 'ds'
        groups = []
        for c in comps:
            for loc in rng.sample([1, 2, 3], rng.randint(1, 3)):
                for d in ([0] if c['free'] and rng.random() < .5 else rng.sample([1, 2], rng.randint(1, 2))):
                    groups.append({'cmp': c['cmp'], 'loc': loc, 'dir': d, 'qty': rng.randint(1, 20), 'blocks': rng.choice([1, 1, 2, 5, 7])})
        demand = [{'loc': loc, 'dir': d, 'v': [rng.randint(0, 9) + .5 for _ in range(n)]} for loc in (1, 2, 3) for d in (1, 2)]
        names = [c['cmp'] for c in comps]
        ds_names = [c['cmp'] for c in comps if c['kind'] == 'ds']
        rules = int(rng.random() < .25 and len(ds_names) > 1)
        variants = [{'cmps': names, 'batch': 1000, 'shuffle': 0, 'split': 0, 'extra': 0}]
        total = sum(g['blocks'] for g in groups)
        for j in range(5):
            sub = names
            if not rules and rng.random() < .4:
                sub = rng.sample(names, rng.randint(1, len(names)))
                if not any(c in ds_names for c in sub):
                    sub = [*sub, ds_names[0]]
            variants.append({'cmps': sub, 'batch': rng.choice([1, 2, 3, 4, 5, 7, total, max(1, total - 1), 1000]),
                             'shuffle': rng.randint(0, 10 ** 6) if rng.random() < .8 else 0,
                             'split': int(rng.random() < .3), 'extra': int(rng.random() < .4)})
        yield {'id': f'r{i}', 'n': n, 'comps': comps, 'groups': groups, 'demand': demand, 'variants': variants, 'rules': rules,
               'eco': [rng.choice([True, False]), rng.choice([True, False])], 'ruleset': rng.sample(ds_names, 2) if rules else []}


def one(inp, var):
    r = random.Random(var['shuffle'])

    def sh(x):
        x = list(x)
        if var['shuffle']:
            r.shuffle(x)
        return x

    n = inp['n']
    dem = sh(inp['demand'] + ([{'loc': 7, 'dir': 1, 'v': [99.5] * n}, {'loc': 0, 'dir': 2, 'v': [50.5] * n}] if var['extra'] else []))
    comps = sh(c for c in inp['comps'] if c['cmp'] in var['cmps'])
    rows = sh({'cmp': g['cmp'], 'Units': 'ea', 'Location': str(g['loc']), 'Direction': str(g['dir']), 'Theta_0': float(g['qty']),
               'Blocks': g['blocks']} for g in inp['groups'] if g['cmp'] in var['cmps'])
    a = pel.pipeline(([f'PGV-{d["loc"]}-{d["dir"]}' for d in dem], ['mps'] * len(dem), [[d['v'][i] for d in dem] for i in range(n)]), rows, None,
                     {'NonDirectionalMultipliers': {'ALL': 1.0}, 'DemandOffset': {},
                      'EconomiesOfScale': {'AcrossFloors': inp['eco'][0], 'AcrossDamageStates': inp['eco'][1]}})
    frag = {}
    for c in sh(comps + ([{'cmp': 'unused', 'kind': 'ds', 'free': 0, 'expr': [1, 0], 'lss': [1, 2, 3, 4], 'cons': [[1]] * 3}] if var['extra'] else [])):
        if c['kind'] == 'ds':
            frag[c['cmp']] = {'Demand': {'Type': 'Peak Ground Velocity', 'Unit': 'mps', 'Offset': 0, 'Directional': 1 - c['free'],
                                         **({'Expression': EXPR[tuple(c['expr'])]} if c['expr'] != [1, 0] else {})},
                              **{f'LS{j + 1}': pel.det(float(x)) for j, x in enumerate(c['lss'])}}
    keys = list(frag)
    # every table holds a component with all limit states defined, so that columns agree
    tabs = [pel.fragility_table({k: frag[k] for k in keys[j::2]}) for j in (0, 1)] if var['split'] and len(keys) > 1 else [pel.fragility_table(frag)]
    if var['split']:
        full = sorted({c for t in tabs for c in t.columns}, key=str)
        tabs = [t.reindex(columns=pd.MultiIndex.from_tuples(full)) for t in tabs]
    a.damage.load_model_parameters(tabs, set(a.asset.list_unique_component_ids()))
    proc = None
    if inp['rules']:
        x, y = inp['ruleset']
        proc = {f'1_{x}': {'DS1': f'{y}_DS2', 'DS2': f'{y}_NA'}, f'2_{y}-LOC': {'DS2': f'{x}_DS1'}}
        if 'DS2' and len(next(c for c in inp['comps'] if c['cmp'] == y)['lss']) < 2:
            proc = {f'1_{x}': {'DS1': f'{y}_DS1'}, f'2_{y}-LOC': {'DS1': f'{x}_DS1'}}
    a.damage.calculate(proc, block_batch_size=var['batch'])
    a.loss.decision_variables = tuple(sh(['Cost', 'Time']))
    pairs = sh({'cmp': c['cmp'], 'cons': c['cmp'] + '_c'} for c in comps)
    a.loss.add_loss_map(loss.loss_map(pairs), None)
    dsp, lfp = [], []
    for c in comps:
        for dv in ('Cost', 'Time'):
            if c['kind'] == 'ds':
                dsp.append({'cons': c['cmp'] + '_c', 'dv': dv, 'states': [
                    {'ds': j + 1, 'xs': [0] if len(y) == 1 else [3, 8], 'ys': y} for j, y in enumerate(c['cons'][:len(c['lss'])])]})
            else:
                lfp.append({'cons': c['cmp'] + '_c', 'dv': dv, 'xs': [0, 5, 10], 'ys': [0, c['lss'][0], 20],
                            'demand': {'Type': 'Peak Ground Velocity', 'Unit': 'mps', 'Offset': 0, 'Directional': 1 - c['free']}})
    tabs = []
    if dsp:
        tabs.append(loss.ds_table(sh(dsp)))
    if lfp:
        tabs.append(loss.lf_table(sh(lfp)))
    a.loss.load_model_parameters(sh(tabs))
    a.loss.calculate()
    groups = {}

    def group(c, loc, d):
        return groups.setdefault((c, loc, d), {'cmp': c, 'loc': loc, 'dir': d, 'ds': [], 'loss': []})

    f = a.damage.save_sample()
    for c, v in zip(f.columns, zip(*pel.ints(f, 1000))):
        group(c[0], int(c[1]), int(c[2]))['ds'].append({'uid': c[3], 'ds': int(c[4]), 'v': list(v)})
    for o in loss.sample_cols(a.loss.ds_model.sample) + loss.sample_cols(a.loss.lf_model.sample):
        group(o['dmg'], o['loc'], o['dir'])['loss'].append([o['dv'], o.get('ds', -1), o['loss'], o['uid'], *o['v']])
    out = []
    for k in sorted(groups):
        g = groups[k]
        g['ds'].sort(key=lambda x: (x['uid'], x['ds']))
        # consequence-free states yield no column in some variants: only non-zero losses count
        g['loss'] = [[str(y) for y in x] for x in sorted(g['loss'], key=str) if any(x[4:])]
        # uid lists with more than one entry would mean a repeated group
        if len({x['uid'] for x in g['ds']}) > 1:
            out.append(dict(g, ds=[]))
        out.append(g)
    return {'groups': out}


def observe(inp):
    runs = []
    for var in inp['variants']:
        try:
            runs.append(one(inp, var))
        except Exception as e:  # noqa: BLE001
            import traceback
            runs.append({'exc': f'{type(e).__name__}: {e}'[:200], 'trace': traceback.format_exc()[-600:]})
    return {'runs': runs}


def to_tla(c):
    i = c['in']
    return {'id': c['id'], 'obs': c['obs'], 'in': {
        'n': i['n'], 'rules': i['rules'], 'groups': i['groups'], 'variants': i['variants'],
        'comps': [{**{k: x[k] for k in ('cmp', 'kind', 'free')}, 'expr': [x['expr'][0], 2 * x['expr'][1]], 'lss': [2 * y for y in x['lss']]} for x in i['comps']],
        'demand': [{'loc': d['loc'], 'dir': d['dir'], 'v': [int(2 * y) for y in d['v']]} for d in i['demand']]}}
