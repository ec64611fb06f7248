"""C11: loss combinations."""
import hashlib
import itertools
import json

import numpy as np
import pandas as pd

import hurricane
import loss
import lossagg
import pel
import sub

TITLE = 'loss combinations'
RULE = ('inputs are detailed losses with combination tables of two or three components (asymmetric, several tables per '
        'decision variable, missing partners), each run in interpreters with several hash seeds; digests of whole '
        'calculations with filled loss maps across hash seeds; damage and loss calculations of wind and storm surge that two built-in methods configure; non-trivial when some combination applies')
MC = [{'module': 'LossComboMC', 'cfg': 'LossComboMC_q.cfg', 'tier': 'quick'},
      {'module': 'LossComboMC', 'cfg': 'LossComboMC_t.cfg', 'tier': 'thorough', 'timeout': 3000}]
JUDGE = 'LossComboJudge'
ASSUMPTIONS = ['losses are whole numbers inside the combination tables']


def prepare(ctx):
    import pelicun.assessment  # noqa: F401
    import scipy.interpolate  # noqa: F401


def nontrivial(c):
    return True


def table(rng, m):
    doms = []
    for _ in range(m):
        g = [0]
        while g[-1] < 12:
            g.append(min(12, g[-1] + rng.randint(2, 5)))
        doms.append(g)
    tab = []
    for idx in itertools.product(*[range(len(g)) for g in doms]):
        xs = [doms[j][i] for j, i in enumerate(idx)]
        if sum(1 for x in xs if x) <= 1:
            tab.append(sum(xs))
        else:
            tab.append(rng.randint(max(xs), sum(xs)))
    return doms, tab


def scenario(rng):
    n = rng.randint(1, 4)
    dvs = rng.sample(['Cost', 'Time', 'Carbon', 'Energy'], rng.randint(1, 3))
    comps = rng.sample(['wind', 'Flood.1', 'eq', 'A', 'B'], rng.randint(2, 4))
    lossid = {c: rng.choice(['l1', 'l2', c]) for c in comps}
    is_lf = {c: rng.random() < .7 for c in comps}
    cols = []
    for dv in dvs:
        for c in comps:
            for loc, d in itertools.product([1, 2], [1, 2]):
                if rng.random() < .25:
                    continue
                for uid in ([0, 1] if rng.random() < .15 else [0]):
                    for ds in ([-9] if is_lf[c] else rng.sample([1, 2, 3], rng.randint(1, 2))):
                        cols.append({'dv': dv, 'loss': lossid[c], 'dmg': c, 'ds': ds, 'loc': loc, 'dir': d, 'uid': uid,
                                     'v': [rng.choice([0, rng.randint(0, 6)]) for _ in range(n)]})
    rng.shuffle(cols)
    combos = []
    pool = [dv for dv in dvs if any(c['dv'] == dv for c in cols)]
    for dv in rng.sample(pool, rng.randint(1, len(pool))) if pool else []:
        used = set()
        for _ in range(rng.choice([1, 1, 2])):
            cm = tuple(rng.sample(comps + ['absent'], min(len(comps), rng.choice([2, 2, 2, 3]))))
            if cm in used:
                continue
            used.add(cm)
            doms, tab = table(rng, len(cm))
            combos.append({'dv': dv, 'cmps': list(cm), 'doms': doms, 'tab': tab})
    if combos and len(pool) > 1 and rng.random() < .4:      # same components, another table, another decision variable
        b = combos[0]
        other = [d for d in pool if d != b['dv'] and not any(c['dv'] == d and c['cmps'] == b['cmps'] for c in combos)]
        if other:
            doms, tab = table(rng, len(b['cmps']))
            combos.append({'dv': other[0], 'cmps': b['cmps'], 'doms': doms, 'tab': tab})
    order = []
    for c in combos:
        if c['dv'] not in order:
            order.append(c['dv'])
    combos = [c for dv in order for c in combos if c['dv'] == dv]
    return {'n': n, 'dvs': dvs, 'cols': cols, 'combos': combos, 'unit': {d: rng.choice(lossagg.UNITS[d]) if d != 'Time' else 'sec' for d in lossagg.UNITS}}


def cases(ctx):
    rng = ctx.rng
    seeds = [0, 1, 2, 3, 4, 5] if ctx.quick else list(range(24))
    for b in range(ctx.n(8, 64)):
        yield {'id': f'b{b}', 'kind': 'batch', 'hashseed': seeds[b % len(seeds)],
               'scen': [s for s in (scenario(rng) for _ in range(50)) if s['cols']]}
    for b in range(ctx.n(24, 200)):
        yield {'id': f's{b}', 'kind': 'storm', 'scen': [storm(rng)]}
    for b in range(ctx.n(4, 24)):
        yield {'id': f'h{b}', 'kind': 'hash', 'hashseeds': rng.sample(range(1, 1000), 3),
               'scen': [pipe(rng) for _ in range(6)]}


def storm(rng):
    n = rng.randint(1, 5)
    names = rng.sample(['W.SF.1', 'M.SF.2', 'RES1.FL', 'COM4', 'Z', 'A.b', 'S'], 2)
    dvs = rng.choice([['Cost'], ['Cost', 'Time']])
    g = [0, rng.randint(2, 8), 10]
    tab = [0, *g[1:]]
    for i in (1, 2):
        tab += [g[i], *[rng.randint(max(g[i], g[j]), 10) if g[i] < 10 else rng.randint(5, 10) for j in (1, 2)]]
    s = {'n': n, 'dvs': dvs, 'wind': {'name': names[0], 'v': [rng.randint(0, 10) for _ in range(n)]}, 'surge': {'name': names[1], 'v': [rng.randint(0, 10) for _ in range(n)]},
         'combos': [{'dv': 'Cost', 'cmps': names, 'doms': [g, g], 'tab': tab}]}
    s['cols'] = [{'dv': dv, 'loss': s[h]['name'], 'dmg': s[h]['name'], 'ds': -9, 'loc': 1, 'dir': 1, 'uid': 0, 'v': s[h]['v']} for dv in dvs for h in ('wind', 'surge')]
    return s


def pipe(rng):
    comps = rng.sample(['A.1', 'B', 'wall', 'C.3', 'D', 'excessiveRID', 'x10'], rng.randint(3, 6))
    return {'comps': [{'c': c, 'cap': rng.randint(1, 9), 'locs': rng.choice(['1', '1,2', '2', '1--3']), 'fam': rng.choice(['normal', 'lognormal']),
                       'w': rng.choice([None, '0.4|0.6']), 'blocks': rng.randint(1, 3)} for c in comps],
            'policy': rng.choice(['fill', 'fill_all']), 'mapped': rng.sample(comps, rng.randint(0, 2)),
            'seed': rng.randint(1, 99), 'method': rng.choice(['LHS', 'MonteCarlo'])}


def run_combo(s):
    a = lossagg.build(s)
    combo = {}
    for c in s['combos']:
        combo.setdefault(c['dv'], {})[tuple(c['cmps'])] = np.array(c['tab'], dtype=float).reshape([len(g) for g in c['doms']])
    agg, _ = a.loss.aggregate_losses(None, combo or None, future=True)
    return {'agg': lossagg.agg_cols(agg)}


def run_pipe(s):
    rows = [[1.0 + i + 2 * j for j in range(4)] for i in range(10)]
    cols = [f'PFA-{loc}-1' for loc in (0, 1, 2, 3)]
    n = len(rows)
    a = pel.assessment(Seed=s['seed'], Sampling={'SamplingMethod': s['method'], 'SampleSize': n})
    pel.set_demand(a, cols, ['mps2'] * 4, rows)
    a.asset.load_cmp_model({'marginals': pel.cmp_table([
        {'cmp': c['c'], 'Units': 'ea', 'Location': c['locs'], 'Direction': '1', 'Theta_0': 4.0, 'Theta_1': .3, 'Family': 'lognormal', 'Blocks': c['blocks']}
        for c in s['comps']])})
    a.asset.generate_cmp_sample(n)
    frag = {c['c']: {'Demand': {'Type': pel.PFA, 'Unit': 'mps2', 'Offset': 0, 'Directional': 1},
                     'LS1': {'Family': c['fam'], 'Theta_0': float(c['cap']), 'Theta_1': .4, **({'DamageStateWeights': c['w']} if c['w'] else {})}}
            for c in s['comps']}
    a.damage.load_model_parameters([pel.fragility_table(frag)], set(a.asset.list_unique_component_ids()))
    a.damage.calculate()
    m = pd.DataFrame({'Repair': [s['comps'][0]['c']] * len(s['mapped'])}, index=s['mapped']) if s['mapped'] else None
    a.loss.decision_variables = ('Cost', 'Time')
    a.loss.add_loss_map(m, s['policy'])
    a.loss.load_model_parameters([loss.ds_table([{'cons': c['c'], 'dv': dv, 'states': [
        {'ds': d, 'xs': [0], 'ys': [7 + j + d], 'family': 'lognormal', 'cov': .3} for d in (1, 2)[:2 if c['w'] else 1]]}
        for c in s['comps'] for j, dv in enumerate(('Cost', 'Time'))])])
    a.loss.calculate()
    h = hashlib.sha256()
    for f in (a.asset.cmp_sample, a.damage.ds_model.ds_sample, a.damage.ds_model.sample, a.loss.sample, a.loss.aggregate_losses(future=True)[0]):
        g = f.sort_index(axis=1)
        h.update(repr(list(g.columns)).encode())
        h.update(np.round(np.nan_to_num(g.to_numpy(dtype=float), nan=-1), 9).tobytes())
    return {'digest': h.hexdigest()}


def observe(inp):
    if inp['kind'] == 'storm':
        return {'res': [hurricane.play(inp['scen'][0])]}
    if inp['kind'] == 'batch':
        return {'res': sub.run('c11', 'run_combo', inp['scen'], inp['hashseed'])}
    res = [sub.run('c11', 'run_pipe', inp['scen'], h) for h in inp['hashseeds']]
    return {'digests': [json.dumps([x.get('digest', x.get('exc')) for x in r]) for r in res],
            'errors': sum('exc' in x for r in res for x in r), 'first': [x['exc'] + x['trace'][-300:] for r in res for x in r if 'exc' in x][:1]}


def to_tla(c):
    if c['in']['kind'] == 'hash':
        return {'id': c['id'], 'in': {'kind': 'hash'}, 'obs': c['obs']}
    return {'id': c['id'], 'obs': c['obs'], 'in': {'kind': 'batch', 'scen': [
        {k: s[k] for k in ('n', 'cols', 'combos')} for s in c['in']['scen']]}}
