"""C01: the state of a block is that of its highest exceeded limit state."""

TITLE = 'highest exceeded limit state'
RULE = ('inputs are models of up to 8 performance groups with random limit-state tables (any subset of 1..14, '
        'capacities in any order, weights, columns shuffled, blocks) and demands around and at the capacities; '
        'non-trivial when at least two different damage states occur')
MC = [{'module': 'DamageStateMC', 'cfg': 'DamageStateMC_q.cfg', 'tier': 'quick'},
      {'module': 'DamageStateMC', 'cfg': 'DamageStateMC_t.cfg', 'tier': 'thorough', 'timeout': 3000}]
JUDGE = 'DamageStateJudge'
ASSUMPTIONS = ['capacities and demands in quarters, so the comparison is exact']


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    return 'exc' not in c['obs'] and len({v for g in c['obs']['ds'] for r in g for v in r}) > 1


WEIGHTS = [([1], None), ([1], None), ([1], None), ([1, 1], '0.5 | 0.5'), ([1, 1, 1], '0.2|0.3|0.5'), ([0, 1], '0|1'),
           ([1, 0, 1], '0.25 | 0.00 | 0.75'), ([1, 1, 1, 1], '0.1 | 0.2 | 0.3 | 0.4'),
           ([1, 0, 0, 0, 0, 1], '0.5|0|0|0|0|0.5')]


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(110, 2500)):
        ng = rng.randint(2, 8)
        top = rng.choice([3, 4, 5, 9, 10, 12, 14])
        groups = []
        nreal = rng.randint(6, 14)
        for g in range(ng):
            nls = rng.randint(1, min(top, 6 if rng.random() < .8 else top))
            nums = sorted(rng.sample(range(1, top + 1), nls))
            if g == 0 and 1 not in nums:
                nums[0] = 1  # the file format is recognised by its LS1 columns
            mode = rng.choice(['det', 'det', 'det', 'scatter', 'multilin'])
            caps = sorted(rng.choice(range(2, 30)) for _ in nums)
            if rng.random() < .4:
                rng.shuffle(caps)
            if rng.random() < .2 and mode != 'multilin':
                caps = [caps[0]] * len(caps)
            ls = []
            for n, c in zip(nums, caps):
                w, txt = rng.choice(WEIGHTS) if rng.random() < .5 else ([1], None)
                ls.append({'num': n, 'cap': c, 'w': w, 'txt': txt})
            dem = [rng.choice(caps + [c + 1 for c in caps] + [c - 1 for c in caps] + [0, 40]) for _ in range(nreal)]
            groups.append({'ls': ls, 'dem': dem, 'blocks': rng.choice([1, 1, 2, 3, 12]),
                           'scatter': int(mode != 'det'), 'mode': mode,
                           'family': rng.choice(['lognormal', 'normal', 'lognormal'])
                           if mode == 'scatter' else mode,
                           'spread': rng.choice([0.1, 0.4, 0.8])})
        if all(x['mode'] == 'det' for x in groups) and rng.random() < .3:
            for x in groups:
                x['plain'] = 1
        yield {'id': f'r{i}', 'groups': groups, 'ncols': sum(g['blocks'] for g in groups),
               'shuffle': rng.randrange(10 ** 6), 'noweights': int(all(
                   z['txt'] is None for x in groups for z in x['ls'])), 'seed': rng.randrange(1000)}


def limit_state(g, z):
    cap = z['cap'] / 4
    if g['mode'] == 'det':
        d = {'Family': None if g.get('plain') else 'deterministic', 'Theta_0': cap}
    elif g['mode'] == 'multilin':
        w = 1.5
        d = {'Family': 'multilinear_CDF', 'Theta_0': f'{cap},{cap + w / 2},{cap + w}|0.0,0.25,1.0'}
    else:
        d = {'Family': g['family'], 'Theta_0': cap, 'Theta_1': g['spread']}
        if g['family'] == 'normal':
            # the coefficient of variation of the file format is a spread relative to the mean
            d['Theta_1'] = g['spread'] / 2
    if z['txt'] is not None:
        d['DamageStateWeights'] = z['txt']
    return d


def observe(inp):
    import random
    import pel
    rng = random.Random(inp['shuffle'])
    n = len(inp['groups'][0]['dem'])
    cols = [f'PGA-{i + 1}-1' for i in range(len(inp['groups']))]
    rows = [[g['dem'][r] / 4 for g in inp['groups']] for r in range(n)]
    cmps, frag = [], {}
    for i, g in enumerate(inp['groups']):
        name = f'C.{i}'
        cmps.append({'cmp': name, 'Units': 'ea', 'Location': str(i + 1), 'Direction': '1', 'Theta_0': 1.0,
                     'Blocks': g['blocks']})
        ls = list(g['ls'])
        rng.shuffle(ls)
        d = {'Demand': {'Type': pel.PGA, 'Unit': 'mps2', 'Offset': 0, 'Directional': 1}}
        for z in ls:
            d[f"LS{z['num']}"] = limit_state(g, z)
        frag[name] = d
    a = pel.pipeline((cols, ['mps2'] * len(cols), rows), cmps, frag, {'Seed': inp['seed']})
    a.damage.calculate()
    return {'ds': [pel.ds_of(a, f'C.{i}', i + 1, 1) for i in range(len(inp['groups']))],
            'ncols': int(a.damage.ds_model.ds_sample.shape[1])}
