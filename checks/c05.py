"""C05: capacity adjustments."""
import math

TITLE = 'capacity adjustments'
RULE = ('inputs are models whose groups share components, with adjustment specifications over single operations and '
        'per-realization lists, ALL or single limit states, keys that match nothing, and malformed entries; '
        'non-trivial when an adjustment changes a damage state')
MC = [{'module': 'CapacityMC', 'cfg': 'CapacityMC_q.cfg'}]
JUDGE = 'CapacityJudge'
EXC_IN_SPEC = True
ASSUMPTIONS = ['capacities in base units, numbers in quarters; scattered capacities have a spread of 2 %']
BAD = ['%1.2', '1.2', '*abc', '*', 'x', '^2', '*1.2.3', '', 1.2, None, '**2']


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    return 'exc' not in c['obs'] and c['in']['spec'] != []


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(200, 4000)):
        n = rng.randint(3, 8)
        comps = {}
        ints = rng.random() < .25
        for c in rng.sample(['A', 'B', 'C.1', 'D.10.2'], rng.randint(1, 3)):
            mode = rng.choice(['det', 'det', 'lognormal', 'normal', 'plain']) if not ints else 'plain'
            nums = sorted(rng.sample([1, 2, 3, 4, 10], rng.randint(1, 4)))
            comps[c] = {'mode': mode, 'ls': [{'num': x, 'cap': rng.randint(4, 24) if not ints else 4 * rng.randint(1, 6), 'w': [1]} for x in nums]}
        first = next(iter(comps.values()))['ls'][0]
        first['num'] = 1
        groups = []
        for c in comps:
            for loc in rng.sample([1, 2, 3], rng.randint(1, 3)):
                for d in rng.sample([1, 2], rng.randint(1, 2)):
                    m = comps[c]['mode']
                    groups.append({'cmp': c, 'loc': loc, 'dir': d, 'blocks': rng.choice([1, 2]),
                                   'ls': comps[c]['ls'], 'mode': 'det' if m in ('det', 'plain') else 'near',
                                   'family': m, 'dem': [rng.randint(0, 40) for _ in range(n)]})
        spec = []
        for g in rng.sample(groups, rng.randint(1, len(groups))):
            entries = []
            keys = [0] if rng.random() < .4 else rng.sample([1, 2, 3, 4, 10, 11], rng.randint(1, 3))
            for key in keys:
                ops = []
                for _ in range(n if rng.random() < .45 and n > 1 else 1):
                    op = rng.choice('+-*/')
                    v = rng.choice([1, 2, 3, 4, 5, 6, 8, 12]) if op != '-' else rng.choice([1, 2, 3])
                    ops.append({'op': op, 'n': v, 'txt': rng.choice(['{}', '{:.2f}', '{:.4f}', '{}']).format(v / 4)})
                entries.append({'ls': key, 'ops': ops, 'aslist': int(len(ops) > 1 or rng.random() < .3)})
            spec.append({'cmp': g['cmp'], 'loc': g['loc'], 'dir': g['dir'], 'entries': entries})
        if rng.random() < .3:
            spec.append({'cmp': 'absent', 'loc': 1, 'dir': 1, 'entries': [
                {'ls': 0, 'ops': [{'op': '*', 'n': 8, 'txt': '2.0'}], 'aslist': 0}]})
        expect = 0
        bad = None
        if rng.random() < .2:
            expect = 1
            j = rng.randrange(len(spec))
            bad = {'at': j, 'kind': rng.choice(['value', 'value', 'inlist', 'all', 'key']),
                   'v': rng.choice(BAD), 'k': rng.choice(['ls1', 'DS1', '1', 'All', 'X'])}
        yield {'id': f'r{i}', 'n': n, 'groups': groups, 'spec': spec, 'expect': expect, 'ints': int(ints), 'malformed': bad,
               'seed': rng.randrange(10 ** 5), 'batch': rng.choice([1000, 1, 2, 3])}
    # the spread of an adjusted capacity: exceedance counts of one limit state at a constant demand
    for i in range(ctx.n(24, 300)):
        n = 40
        groups, spec = [], []
        for j in range(5):
            fam = rng.choice(['lognormal', 'normal'])
            cap, beta = rng.randint(8, 16), rng.choice([0.3, 0.5])
            ops = [] if rng.random() < .3 else [{'op': o, 'n': v, 'txt': str(v / 4)} for o, v in [rng.choice(
                [('*', 6), ('/', 5), ('+', 4), ('-', 3), ('*', 3)])]]
            val = cap / 4
            for o in ops:
                x = o['n'] / 4
                val = {'+': val + x, '-': val - x, '*': val * x, '/': val / x}[o['op']]
            dem = rng.randint(6, 24)
            z = (math.log(dem / 4 / val) if fam == 'lognormal' else (dem / 4 - val) / val) / beta
            p = 0.5 * math.erfc(-z / math.sqrt(2))
            as_list = ops and rng.random() < .5
            if ops:
                spec.append({'cmp': f'S.{j}', 'loc': j + 1, 'dir': 1, 'entries': [
                    {'ls': rng.choice([0, 1]), 'ops': ops * n if as_list else ops, 'aslist': int(bool(as_list))}]})
            groups.append({'cmp': f'S.{j}', 'loc': j + 1, 'dir': 1, 'blocks': 1, 'mode': 'count', 'family': fam,
                           'ls': [{'num': 1, 'cap': cap, 'w': [1]}], 'beta': beta, 'dem': [dem] * n,
                           'expect1000': round(p * n * 1000)})
        yield {'id': f's{i}', 'n': n, 'groups': groups, 'spec': spec, 'expect': 0, 'malformed': None,
               'seed': rng.randrange(10 ** 5), 'batch': 1000}


def observe(inp):
    import pel
    n = inp['n']
    cols = [f'PGA-{i + 10}-1' for i in range(len(inp['groups']))]
    frag, cmps = {}, []
    colset, units, vals = [], [], []
    types = {}
    for g in inp['groups']:
        types.setdefault(g['cmp'], ['PGA', 'PGV', 'PGD', 'PIH', 'PWS'][len(types)])
    full = {'PGA': ('Peak Ground Acceleration', 'mps2'), 'PGV': ('Peak Ground Velocity', 'mps'),
            'PGD': ('Permanent Ground Deformation', 'm'), 'PIH': ('Peak Inundation Height', 'm'),
            'PWS': ('Peak Gust Wind Speed', 'mps')}
    for g in inp['groups']:
        t = types[g['cmp']]
        colset.append(f"{t}-{g['loc']}-{g['dir']}")
        units.append(full[t][1])
        vals.append([x / 4 for x in g['dem']])
        cmps.append({'cmp': g['cmp'], 'Units': 'ea', 'Location': str(g['loc']), 'Direction': str(g['dir']),
                     'Theta_0': 1.0, 'Blocks': g['blocks']})
        d = {'Demand': {'Type': full[t][0], 'Unit': full[t][1], 'Offset': 0, 'Directional': 1}}
        for z in g['ls']:
            if inp.get('ints'):
                x = {'Family': None, 'Theta_0': z['cap'] // 4}
            elif g['mode'] == 'det':
                x = {'Family': None if g['family'] == 'plain' else 'deterministic', 'Theta_0': z['cap'] / 4}
            else:
                x = {'Family': g['family'], 'Theta_0': z['cap'] / 4, 'Theta_1': g.get('beta', 0.02)}
            d[f"LS{z['num']}"] = x
        frag[g['cmp']] = d
    rows = [[v[r] for v in vals] for r in range(n)]
    scal = {}
    for s in inp['spec']:
        e = {}
        for x in s['entries']:
            ops = [o['op'] + o['txt'] for o in x['ops']]
            e['ALL' if x['ls'] == 0 else f"LS{x['ls']}"] = ops if x['aslist'] else ops[0]
        scal[f"{s['cmp']}-{s['loc']}-{s['dir']}"] = e
    b = inp['malformed']
    if b:
        s = inp['spec'][b['at']]
        e = scal[f"{s['cmp']}-{s['loc']}-{s['dir']}"]
        key = next(iter(e))
        if b['kind'] == 'value':
            e[key] = b['v']
        elif b['kind'] == 'inlist':
            e[key] = ['*1.5'] * (n - 1) + [b['v']]
        elif b['kind'] == 'all':
            e['ALL'] = '*1.5'
            e['LS1'] = '*1.5'
        else:
            e[b['k']] = '*1.5'
    a = pel.pipeline((colset, units, rows), cmps, frag, {'Seed': inp['seed']})
    a.damage.calculate(scaling_specification=scal, block_batch_size=inp['batch'])
    return {'ds': [pel.ds_of(a, g['cmp'], g['loc'], g['dir']) for g in inp['groups']]}
