"""C32: whole assessments through the three calls of Assessment."""
import copy

import numpy as np
import pandas as pd

import loss
import pel
from c14 import one, text

TITLE = 'single-call assessments'
RULE = ('one or two rounds of calculate_damage, calculate_loss and aggregate_loss on one object, with raw demands of any number of rows, residual '
        'drifts, an additional demand, scaled capacities, a damage process, loss maps and policies, decision variables and replacement '
        'thresholds; non-trivial when damage occurs and some optional argument is given')
MC = [{'module': 'OnecallMC', 'cfg': 'OnecallMC_q.cfg', 'tier': 'quick', 'must_take': ['Describe', 'Sampled', 'Inferred', 'Added', 'Evaluated', 'Processed', 'Lost']},
      {'module': 'OnecallMC', 'cfg': 'OnecallMC_t.cfg', 'tier': 'thorough', 'timeout': 3000}]
JUDGE = 'OnecallJudge'
EXC_IN_SPEC = True
ASSUMPTIONS = ['demands are coupled empirical data and capacities, quantities and consequences have no dispersion, so every outcome is exact; '
               'of residual drifts beyond yield only presence and bounds are judged']
KIND = {'PID': 'Peak Interstory Drift Ratio', 'PFA': 'Peak Floor Acceleration', 'PGA': 'Peak Ground Acceleration',
        'RID': 'Residual Interstory Drift Ratio', 'ONE': 'One'}
UNIT = {'PID': 'rad', 'PFA': 'mps2', 'PGA': 'mps2', 'RID': 'rad', 'ONE': 'unitless'}
DVUNIT = {'Cost': 'USD', 'Time': 'sec', 'Carbon': 'kg'}


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    return any(any(any(g['v']) for g in o['ds']) for o in c['obs'].get('calls', [])) and any(
        x['rid'] != 'none' or x['extra'] or x['factors'] or x['rules'] for x in (q['x'] for q in c['in']['calls']))


def place(rng, kind, x):
    """a location expression and a direction expression at which the demand exists"""
    s = x['stories']
    if kind in ('PID', 'RID'):
        loc = rng.choice([{'t': 'all'}, {'t': 'top'}, one(rng.randint(1, s)), {'t': 'range', 'a': 1, 'b': s}])
        d = rng.choice([one(1), one(2), {'t': 'list', 'parts': [one(1), one(2)]}])
    elif kind == 'PFA':
        loc = rng.choice([{'t': 'all'}, {'t': 'roof'}, {'t': 'top'}, one(rng.randint(1, s + 1)), {'t': 'list', 'parts': [one(1), one(s + 1)]}])
        d = rng.choice([one(1), one(2), {'t': 'range', 'a': 1, 'b': 2}])
    elif kind == 'PGA':
        loc, d = one(0), one(1)
    else:
        loc, d = one(x['extra'][0]['loc']), one(x['extra'][0]['dir'])
    return loc, d


def places(e, s):
    t = e['t']
    return ([e['a']] if t == 'one' else list(range(e['a'], e['b'] + 1)) if t == 'range' else [v for p in e['parts'] for v in places(p, s)]
            if t == 'list' else list(range(1, s + 1)) if t == 'all' else [s] if t == 'top' else [s + 1])


def damage_args(rng, comps):
    s = rng.randint(1, 3)
    n = rng.randint(1, 5)
    rows = rng.choice([n, n, rng.randint(1, 7)])

    def col(t, loc, d):
        return {'type': t, 'loc': loc, 'dir': d, 'v': [10 * rng.randint(5, 90) for _ in range(rows)]}
    cols = [col('PID', loc, d) for loc in range(1, s + 1) for d in (1, 2)]
    cols += [col('PFA', loc, d) for loc in range(s + 1) for d in (1, 2)]
    x = {'n': n, 'stories': s, 'rid': rng.choice(['none', 'elastic', 'plastic']), 'extra': []}
    if rng.random() < .6:
        t = rng.choice(['ONE', 'PGA'])
        x['extra'] = [{'type': t, 'loc': rng.choice([0, 0, 1, 2]), 'dir': rng.choice([1, 1, 2, 3]),
                       'v': [10 * rng.randint(5, 90) for _ in range(n)] if rng.random() < .4 else [10 * rng.randint(5, 90)] * n}]
    if not (x['extra'] and x['extra'][0]['type'] == 'PGA'):
        cols.append(col('PGA', 0, 1))
    rng.shuffle(cols)
    x['cols'] = cols
    have = {'PID', 'PFA'} | {e['type'] for e in x['extra']} | {c['type'] for c in cols} | ({'RID'} if x['rid'] != 'none' else set())
    use = [c for c in comps if c['term']['type'] in have] or [comps[0]]
    use = rng.sample(use, rng.randint(1, len(use)))
    x['comps'] = comps
    x['rows'] = []
    for c in use:
        t = c['term']['type']
        if t in ('ONE', 'PGA') and not any(k['type'] == t for k in cols):
            loc, d = place(rng, 'extra', x)
        else:
            loc, d = place(rng, t, x)
        if c['term']['directional'] == 0 and rng.random() < .3:
            d = one(3)
        x['rows'].append({'cmp': c['cmp'], 'loc': loc, 'dir': d, 'q': rng.randint(1, 4)})
    groups = [(r['cmp'], loc, d) for r in x['rows'] for loc in places(r['loc'], s) for d in places(r['dir'], s)]
    x['factors'] = [{'cmp': g[0], 'loc': g[1], 'dir': g[2], 'f': rng.choice([3, 5])} for g in
                    rng.sample(groups, min(len(groups), rng.choice([0, 0, 1, 2]))) if g[0] != 'excessiveRID']
    x['rules'] = []
    names = [r['cmp'] for r in x['rows']]
    if len(names) > 1:
        for num in rng.sample([1, 2, 3, 10], rng.choice([0, 1, 2])):
            src, tgt = rng.sample(names, 2)
            x['rules'].append({'num': num, 'src': src, 'byloc': rng.random() < .4, 'events': [
                {'ds': rng.randint(1, 2), 'targets': [{'cmp': tgt if rng.random() < .7 else 'ALL', 'to': rng.randint(0, 2)}]}]})
    return x


def loss_args(rng, comps, params):
    m = []
    for c in comps:
        if rng.random() < .4:
            m.append({'cmp': c['cmp'], 'cons': rng.choice(['R1', 'R2', 'replacement', c['cmp']])})
    m = rng.choice([m, []])
    return {'dvs': rng.sample(list(DVUNIT), rng.randint(1, 3)), 'map': m, 'policy': rng.choice(['none', 'fill', 'fill', 'fill_all', 'fill_all']), 'params': params}


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(160, 3000)):
        comps = []
        for nm in ['A', 'B.1', 'C.22', 'excessiveRID'][:]:
            t = 'RID' if nm == 'excessiveRID' else rng.choice(['PID', 'PID', 'PFA', 'PGA', 'ONE', 'RID'])
            k = rng.randint(1, 3)
            caps = sorted(rng.sample(range(51, 900, 2), k)) if t != 'RID' else [1, *[3001 + 2 * j for j in range(k - 1)]]
            comps.append({'cmp': nm, 'term': {'type': t, 'sub': '', 'off': 0, 'directional': rng.choice([0, 1, 1])}, 'caps': caps})
        rng.shuffle(comps)
        comps.sort(key=lambda c: c['term']['type'] not in ('PID', 'PFA'))
        if comps[0]['term']['type'] not in ('PID', 'PFA'):
            continue
        params = [{'cons': c, 'dv': d, 'states': [{'ds': s, 'v': rng.randint(1, 40)} for s in (1, 2, 3)]}
                  for c in [*[x['cmp'] for x in comps], 'R1', 'R2', 'replacement'] for d in DVUNIT]
        calls = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            y = loss_args(rng, comps, params)
            z = []
            if rng.random() < .4:
                z = [{'dv': d, 'limit': rng.choice([-1, 1, 2, 3, 4]), 'value': rng.randint(40, 400)} for d in y['dvs']]
            calls.append({'x': damage_args(rng, comps), 'y': y, 'z': z, 'key': rng.choice(['params', 'parameters']), 'method': rng.choice([None, 'FEMA P58']),
                          'place': rng.randint(0, 1), 'batch': rng.choice([1, 2, 1000])})
        yield {'id': f'o{i}', 'calls': calls, 'tx': rng.randint(0, 9)}


def demand_model(x):
    emp = pd.DataFrame({(c['type'], str(c['loc']), str(c['dir'])): [v / 1000 for v in c['v']] for c in x['cols']})
    emp.columns.names = ['type', 'loc', 'dir']
    units = pd.DataFrame([[UNIT[c['type']] for c in x['cols']]], index=['Units'], columns=emp.columns)
    marg = pd.DataFrame({'Units': [UNIT[c['type']] for c in x['cols']], 'Family': ['empirical'] * len(x['cols'])},
                        index=[f'{c["type"]}-{c["loc"]}-{c["dir"]}' for c in x['cols']])
    return {'empirical': pd.concat([units, emp]), 'marginals': marg, 'correlation': None}


def same(a, b):
    if isinstance(a, pd.DataFrame):
        return isinstance(b, pd.DataFrame) and a.equals(b)
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    return a == b


def round_of(a, q, inp):
    import random

    from pelicun import uq
    x, y, z = q['x'], q['y'], q['z']
    trng = random.Random(inp['tx'])
    cmps = pel.cmp_table([{'cmp': r['cmp'], 'Units': 'ea', 'Location': text(trng, r['loc']), 'Direction': text(trng, r['dir']), 'Theta_0': float(r['q'])}
                          for r in x['rows']])
    frag = pel.fragility_table({c['cmp']: {'Demand': {'Type': KIND[c['term']['type']], 'Unit': UNIT[c['term']['type']], 'Offset': c['term']['off'],
                                                      'Directional': c['term']['directional']},
                                           **{f'LS{i + 1}': {'Theta_0': v / 1000} for i, v in enumerate(c['caps'])}} for c in x['comps']})
    rid = None
    if x['rid'] != 'none':
        rid = {q['key']: {'yield_drift': 5.0 if x['rid'] == 'elastic' else 1e-6}}
        if q['method']:
            rid['method'] = q['method']
    extra = None
    if x['extra']:
        e = x['extra'][0]
        val = e['v'][0] / 1000 if len(set(e['v'])) == 1 else np.array(e['v']) / 1000
        extra = {'label': e['type'], 'value': val, 'unit': UNIT[e['type']]}
        if (e['loc'], e['dir']) != (0, 1) or q['place']:
            extra |= {'location': str(e['loc']), 'direction': str(e['dir'])}
    proc = {f"{r['num']}_{r['src']}" + ('-LOC' if r['byloc'] else ''):
            {f"DS{e['ds']}": [f"{t['cmp']}_DS{t['to']}" for t in e['targets']] for e in r['events']} for r in x['rules']} or None
    scal = {f"{f['cmp']}-{f['loc']}-{f['dir']}": {'ALL': f"*{f['f']}"} for f in x['factors']} or None
    table = loss.ds_table([{'cons': p['cons'], 'dv': p['dv'], 'unit': DVUNIT[p['dv']], 'states': [{'ds': s['ds'], 'xs': [0], 'ys': [s['v']]} for s in p['states']]}
                           for p in y['params']])
    lmap = loss.loss_map(y['map']) if y['map'] else None
    handed = {'config': {'SampleSize': x['n'], 'PreserveRawOrder': True}, 'demand': demand_model(x), 'cmps': {'marginals': cmps}, 'frag': [frag],
              'proc': proc, 'scal': scal, 'rid': rid, 'extra': extra, 'table': [table], 'map': lmap}
    kept = copy.deepcopy(handed)
    h = handed
    a.calculate_damage(x['stories'], h['config'], h['demand'], h['cmps'], h['frag'], dmg_process=proc, scaling_specification=scal,
                       residual_drift_configuration=rid, collapse_fragility_configuration=extra, block_batch_size=q['batch'])
    s = a.demand.save_sample()
    out = {'demands': [{'type': str(c[0]), 'loc': int(c[1]), 'dir': int(c[2]), 'v': [int(round(float(v) * 1000)) if c[0] != 'RID' else int(np.ceil(round(float(v) * 1000, 6)))
                                                                             for v in s[c]]} for c in s.columns]}
    out['ds'] = [{'cmp': str(c[0]), 'loc': int(c[1]), 'dir': int(c[2]), 'v': [int(v) for v in a.damage.ds_model.ds_sample[c]]} for c in a.damage.ds_model.ds_sample.columns]
    out |= {'losses': [], 'agg': [], 'flags': [], 'error': ''}
    conf = None
    if z:
        reg = uq.RandomVariableRegistry(a.options.rng)
        for t in z:
            reg.add_RV(uq.DeterministicRandomVariable(name=t['dv'], theta=np.array([float(t['value'])])))
        conf = (reg, {t['dv']: t['limit'] / 4 for t in z if t['limit'] >= 0})
    try:
        a.calculate_loss(tuple(y['dvs']), h['table'], lmap, None if y['policy'] == 'none' else y['policy'])
    except ValueError as e:
        if y['map'] or y['policy'] != 'none':
            raise
        out['error'] = str(e) or 'refused'
    else:
        sums = {}
        for c in loss.sample_cols(a.loss.sample, scale=1):
            key = (c['dv'], c['dmg'], c['loc'], c['dir'])
            sums[key] = [p + v for p, v in zip(sums.get(key, [0] * x['n']), c['v'])]
        out['losses'] = [{'dv': k[0], 'cmp': k[1], 'loc': k[2], 'dir': k[3], 'v': v} for k, v in sums.items()]
        agg, _ = a.aggregate_loss(conf)
        for c, v in zip(agg.columns, zip(*pel.ints(agg, 1))):
            c = [c] if isinstance(c, str) else [t for t in c if t]
            out['agg'].append({'name': '-'.join(c), 'v': list(v)})
    out['same'] = int(same(kept, handed))
    return out


def observe(inp):
    a = pel.assessment(Seed=3)
    return {'calls': [round_of(a, q, inp) for q in inp['calls']]}


def to_tla(c):
    def tla(e):
        return {'t': e['t'], 'a': e.get('a', 0), 'b': e.get('b', 0), 'parts': [tla(p) for p in e.get('parts', [])]}
    calls = []
    for q in c['in']['calls']:
        x = q['x']
        calls.append({'x': {**x, 'rows': [{**r, 'loc': tla(r['loc']), 'dir': tla(r['dir'])} for r in x['rows']]}, 'y': q['y'], 'z': q['z']})
    return {'id': c['id'], 'in': {'calls': calls}, 'obs': c['obs']}
