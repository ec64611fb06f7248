"""C20: parameters from several sources."""
import re
import warnings

import numpy as np
import pandas as pd

import loss
import pel

TITLE = 'sources of parameters'
RULE = ('sequences of calls, each with a sequence of damage or loss parameter tables that define components once, several times, '
        'incompletely, partly or not at all; the definition in force is read off the damage states and losses; non-trivial when a '
        'component is defined more than once or is missing')
MC = [{'module': 'PrecedenceMC', 'cfg': 'PrecedenceMC_q.cfg', 'tier': 'quick', 'must_take': ['Add', 'Call']},
      {'module': 'PrecedenceMC', 'cfg': 'PrecedenceMC_t.cfg', 'tier': 'thorough', 'must_take': ['Add', 'Call'], 'timeout': 3000}]
JUDGE = 'PrecedenceJudge'
EXC_IN_SPEC = True
N = 9
ASSUMPTIONS = ['a component whose definition was withdrawn in one call because it is incomplete counts as undefined in the next call',
               'at least one component stays usable', 'a consequence is defined by damage states or by loss functions, not by both']
COMPS = ['A', 'B.1', 'C.22.3', 'D', 'E10']


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    keys = [str(r['key']) for t in ('calls', 'lcalls') for call in c['in'].get(t, []) for tab in call for r in tab]
    return len(set(keys)) < len(keys) or any(r['def']['incomplete'] for call in c['in']['calls'] for tab in call for r in tab)


def split(rng, tables):
    """tables -> calls"""
    out = [[]]
    for t in tables:
        if out[-1] and rng.random() < .45:
            out.append([])
        out[-1].append(t)
    return [c for c in out if c]


def calm(sources):
    """no random deviation in a definition that may take force: the first of a key, and all of those with an incomplete one"""
    rows = [r for t in sources for r in t]
    wobbly = {str(r['key']) for r in rows if r['def']['incomplete']}
    seen = set()
    for r in rows:
        if str(r['key']) not in seen or str(r['key']) in wobbly:
            r['def']['fam'] = None
        seen.add(str(r['key']))


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(160, 4000)):
        comps = rng.sample(COMPS, rng.randint(1, 4))
        sources = []
        for s in range(rng.randint(1, 4)):
            t = []
            for c in rng.sample([*comps, 'Z'], rng.randint(1, len(comps) + 1)):
                caps = [2 * rng.randint(0, N) + 1]
                for _ in range(rng.randint(0, 2)):
                    caps.append(0 if rng.random() < .3 else 2 * rng.randint(0, N) + 1)
                t.append({'key': c, 'def': {'caps': caps, 'type': rng.choice([1, 1, 2, 3]), 'incomplete': rng.random() < .12,
                                            'fam': 'lognormal' if rng.random() < .3 else None}})
            if rng.random() < .12:
                t.append({'key': t[0]['key'], 'def': {'caps': [2 * rng.randint(0, N) + 1], 'type': 1, 'incomplete': False, 'fam': None}})
            if all(r['def']['caps'][0] == 0 for r in t):
                t[0]['def']['caps'][0] = 1
            sources.append(t)
        # something has to be left
        if not any(r['key'] == comps[0] for t in sources for r in t):
            sources[-1].append({'key': comps[0], 'def': {'caps': [9, 0, 13], 'type': 1, 'incomplete': False, 'fam': None}})
        first = next(r for t in sources for r in t if r['key'] == comps[0])
        first['def']['incomplete'] = False
        case = {'id': f's{i}', 'n': N, 'comps': comps, 'calls': split(rng, sources), 'warn': int(rng.random() < .8), 'loss': int(rng.random() < .6),
                'files': int(rng.random() < .3), 'noinc': int(rng.random() < .2), 'map': [], 'dvs': [], 'lcalls': []}
        if case['noinc']:
            for t in sources:
                for r in t:
                    r['def']['incomplete'] = False
        if case['loss']:
            dvs = rng.sample(['Cost', 'Time', 'Carbon'], rng.randint(1, 3))
            cons = {c: 'R' + rng.choice([c, 'shared']) for c in comps}
            kinds = {}
            mp = []
            for c in comps:
                kinds.setdefault(cons[c], 'lf' if rng.random() < .3 else 'ds')
                mp.append({'cmp': c, 'cons': cons[c], 'kind': kinds[cons[c]], 'q': rng.randint(1, 5)})
            lsrc = []
            for s in range(rng.randint(1, 4)):
                for kind in rng.sample(['ds', 'lf'], 2):
                    names = [c for c in kinds if kinds[c] == kind] + (['RZ'] if rng.random() < .3 else [])
                    pairs = [(c, d) for c in names for d in dvs + (['Energy'] if rng.random() < .2 else [])]
                    pairs = [p for p in pairs if rng.random() < .6]
                    if not pairs or all(p[0] == 'RZ' for p in pairs):
                        continue
                    t = []
                    for p in pairs:
                        t.append({'key': list(p), 'def': {'incomplete': not case['noinc'] and rng.random() < .1,
                                                          'ys': [rng.randint(1, 50) if rng.random() < .85 else 0 for _ in range(rng.randint(1, 3))],
                                                          'slope': rng.randint(1, 50), 'kind': kind, 'fam': rng.choice([None, None, 'normal'])}})
                    lsrc.append(t)
            # something is left here too
            used = {tuple(r['key']) for t in lsrc for r in t}
            want = mp[0]
            if (want['cons'], dvs[0]) not in used:
                lsrc.append([{'key': [want['cons'], dvs[0]], 'def': {'incomplete': False, 'ys': [7, 9], 'slope': 3, 'kind': want['kind'], 'fam': None}}])
            r0 = next(r for t in lsrc for r in t if r['key'] == [want['cons'], dvs[0]])
            r0['def'].update(incomplete=False)
            r0['def']['ys'][0] = r0['def']['ys'][0] or 5
            # a definition with random deviations must not be the one in force
            calm(lsrc)
            case.update(map=mp, dvs=dvs, lcalls=split(rng, lsrc))
        calm(sources)
        yield case


ACC = {'mps2': 1.0, 'inps2': .0254, 'ftps2': .3048, 'g': 9.80665}
VEL = {'mps': 1.0, 'inps': .0254, 'ftps': .3048}
DEMANDS = {1: (pel.PGA, 0), 2: (pel.PGA, 1), 3: ('Peak Ground Velocity', 0)}


def unit_of(d):
    names = sorted(ACC if d['type'] < 3 else VEL)
    return names[(d['caps'][0] + 3 * len(d['caps'])) % len(names)]


def frag_table(t):
    recs = []
    for r in t:
        d = r['def']
        ty, off = DEMANDS[d['type']]
        rec = {('Incomplete', ''): int(d['incomplete']), ('Demand', 'Type'): ty, ('Demand', 'Unit'): unit_of(d),
               ('Demand', 'Offset'): off, ('Demand', 'Directional'): 1}
        for j, c in enumerate(d['caps'], 1):
            if c:
                rec[f'LS{j}', 'Theta_0'] = c / {**ACC, **VEL}[unit_of(d)]
                rec[f'LS{j}', 'Family'] = d['fam']
                rec[f'LS{j}', 'Theta_1'] = .9 if d['fam'] else None
        recs.append(rec)
    cols = [('Incomplete', ''), ('Demand', 'Type'), ('Demand', 'Unit'), ('Demand', 'Offset'), ('Demand', 'Directional')]
    for j in range(1, 4):
        if j == 1 or any((f'LS{j}', 'Theta_0') in r for r in recs):
            cols += [(f'LS{j}', k) for k in ('Family', 'Theta_0', 'Theta_1')]
    df = pd.DataFrame([[r.get(c) for c in cols] for r in recs], columns=pd.MultiIndex.from_tuples(cols), index=[r['key'] for r in t], dtype=object)
    return df.infer_objects()


def cons_table(t):
    if t[0]['def']['kind'] == 'ds':
        return (loss.ds_table([{'cons': r['key'][0], 'dv': r['key'][1], 'incomplete': int(r['def']['incomplete']),
                                   'qunit': f'{r["def"]["ys"][0] % 4 + 1} EA',
                                    'states': [{'ds': j, 'xs': [0], 'ys': [y * (r['def']['ys'][0] % 4 + 1)], 'family': r['def']['fam'], 'cov': .3} for j, y in enumerate(r['def']['ys'], 1) if y]}
                                  for r in t]))
    def d(r):
        return {'Type': pel.PGA, 'Unit': sorted(ACC)[r['def']['slope'] % 4], 'Offset': 0, 'Directional': 1}
    return (loss.lf_table([{'cons': r['key'][0], 'dv': r['key'][1], 'incomplete': int(r['def']['incomplete']), 'demand': d(r),
                               'qunit': f'{r["def"]["slope"] % 3 + 1} EA',
                               'xs': [0, 100 / ACC[d(r)['Unit']]], 'ys': [0, 50 * r['def']['slope'] * (r['def']['slope'] % 3 + 1)], 'family': r['def']['fam'], 'cov': .3} for r in t]))


def hand(a, load, tables, files, tag, k):
    if files:
        import pelicun.file_io as f
        out = []
        for j, t in enumerate(tables):
            p = f'{tag}{k}_{j}.csv'
            s = t.copy()
            s.columns = ['-'.join(x for x in c if x) for c in s.columns]
            s.index = ['-'.join(i) if isinstance(i, tuple) else i for i in s.index]
            s.index.name = 'ID'
            s.to_csv(p)
            out.append(p)
        return load(out)
    return load(tables)


def observe(inp):
    n = inp['n']
    a = pel.assessment()
    dem = lambda t, i: {1: 2 * i, 2: 2 * (n + 1 - i), 3: 2 * n if i % 2 == 0 else i + 1}[t]
    pel.set_demand(a, ['PGA-1-1', 'PGA-2-1', 'PGV-1-1'], ['mps2', 'mps2', 'mps'], [[dem(t, i) for t in (1, 2, 3)] for i in range(1, n + 1)])
    qs = {m['cmp']: m['q'] for m in inp['map']}
    a.asset.load_cmp_model({'marginals': pel.cmp_table([{'cmp': c, 'Units': 'ea', 'Location': 1, 'Direction': 1, 'Theta_0': float(qs.get(c, 1)), 'Family': None,
                                                         'Blocks': 1} for c in inp['comps']])})
    a.asset.generate_cmp_sample(n)
    named, lnamed = [], []
    for k, call in enumerate(inp['calls']):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            hand(a, lambda x: a.damage.load_model_parameters(x, set(inp['comps']), warn_missing=bool(inp['warn'])),
                 [frag_table(t) for t in call], inp['files'], 'f', k)
        text = ' '.join(str(x.message) for x in w)
        named += [c for c in [*COMPS, 'Z'] if f"'{c}'" in text]
    a.damage.calculate()
    states = []
    for key, cols in pel.ds_columns(a).items():
        states.append({'cmp': key[0], 'ds': [int(v) for v in a.damage.ds_model.ds_sample[cols[0]]]})
    out = {'states': states, 'named': named, 'losses': [], 'lnamed': []}
    if inp['loss']:
        a.loss.decision_variables = tuple(inp['dvs'])
        a.loss.add_loss_map(loss.loss_map(inp['map']))
        for k, call in enumerate(inp['lcalls']):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                hand(a, a.loss.load_model_parameters, [cons_table(t) for t in call], inp['files'], 'l', k)
            text = ' '.join(str(x.message) for x in w)
            lnamed += [list(x) for x in re.findall(r"\('([^']+)', '([^']+)'\)", text)]
        a.loss.calculate()
        for m in (a.loss.ds_model, a.loss.lf_model):
            for c in loss.sample_cols(m.sample, scale=1):
                if any(c['v']):
                    out['losses'].append({'dv': c['dv'], 'cons': c['loss'], 'cmp': c['dmg'], 'v': c['v']})
        # the loss functions here are y = slope / 2 * x at demand x = 2 i
        out['lnamed'] = lnamed
    return out
