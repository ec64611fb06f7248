"""C02: damaged quantities account for each component quantity exactly once."""

TITLE = 'quantity conservation'
RULE = ('inputs are models of several components at several locations with 1..12 blocks, fixed or random quantities, '
        'random damage, optional clearing damage processes, with and without listing all damage states; '
        'non-trivial when a group realizes at least two damage states')
MC = [{'module': 'QuantityMC', 'cfg': 'QuantityMC_q.cfg', 'tier': 'quick'},
      {'module': 'QuantityMC', 'cfg': 'QuantityMC_t.cfg', 'tier': 'thorough', 'timeout': 1800}]
JUDGE = 'QuantityJudge'
ASSUMPTIONS = ['the damage states of the blocks are read from damage.ds_model.ds_sample (judged by C01 and C03)']


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    return 'exc' not in c['obs'] and any(len({v for r in g['rows'] for v in r}) > 1 for g in c['obs']['groups'])


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(120, 2500)):
        n = rng.choice([1, 2, 5, 9, 20])
        names = rng.sample(['A', 'B', 'B.1', 'B.10', 'C.20.31', 'collapse'], rng.randint(1, 4))
        groups = []
        for c in names:
            for loc in rng.sample([1, 2, 3, 11], rng.randint(1, 3)):
                for d in rng.sample([0, 1, 2], rng.randint(1, 2)):
                    for uid in ([None] if rng.random() < .8 else [0, 1]):
                        groups.append({'cmp': c, 'loc': loc, 'dir': d, 'uid': uid,
                                       'blocks': rng.choice([1, 1, 2, 3, 4, 7, 12]),
                                       'qty': rng.choice([0.0, 1.0, 2.5, 7.0, 100.0, 1e-3, 12345.678]),
                                       'fam': rng.choice([None, None, 'lognormal', 'normal', 'uniform'])})
        if rng.random() < .25:
            for g in groups:
                g.pop('blocks')
        nls = {c: rng.randint(1, 4) for c in names}
        wts = {c: rng.random() < .4 for c in names}
        noscatter = rng.random() < .2
        proc = {}
        if rng.random() < .5 and len(names) > 1:
            for t in range(rng.randint(1, 3)):
                src = rng.choice(names)
                proc[f'{t + 1}_{src}' + rng.choice(['', '-LOC'])] = {
                    f'DS{rng.randint(0, 2)}': rng.sample(
                        [x + rng.choice(['_NA', '_NA', '_DS1', '_DS0',
                                         f"_DS{nls[x] + (nls[x] + 1) // 2 * wts[x] if x != 'ALL' else 1}"])
                         for x in [*names, 'ALL'] if x != src], 1)}
        # the format wants uid either everywhere or nowhere
        if any(g['uid'] is not None for g in groups):
            for g in groups:
                g['uid'] = g['uid'] or 0
        yield {'id': f'r{i}', 'n': n, 'groups': groups, 'nls': nls, 'wts': wts, 'proc': proc,
               'noscatter': noscatter, 'listall': int(rng.random() < .5), 'seed': rng.randrange(10 ** 5),
               'med': rng.choice([0.3, 1.0, 3.0])}


def observe(inp):
    import numpy as np
    import pel
    rng = np.random.default_rng(inp['seed'])
    locs = sorted({g['loc'] for g in inp['groups']})
    cols = [f'PGA-{x}-{d}' for x in locs for d in (0, 1, 2)]
    rows = np.exp(rng.normal(0, .7, (inp['n'], len(cols)))).tolist()
    cmps = []
    for g in inp['groups']:
        r = {'cmp': g['cmp'], 'Units': 'ea', 'Location': str(g['loc']), 'Direction': str(g['dir']),
             'Theta_0': g['qty'] if g['fam'] != 'uniform' else 0.0, 'Family': g['fam']}
        if g['fam'] == 'uniform':
            r['Theta_1'] = g['qty'] + 1
        elif g['fam']:
            r['Theta_0'] = max(g['qty'], .001)
            r['Theta_1'] = 0.2
            r['TruncateLower'] = 1e-9
        if 'blocks' in g:
            r['Blocks'] = g['blocks']
        if g['uid'] is not None:
            r['uid'] = str(g['uid'])
        cmps.append(r)
    frag, maxds = {}, {}
    for c in inp['nls']:
        d = {'Demand': {'Type': pel.PGA, 'Unit': 'mps2', 'Offset': 0, 'Directional': 1}}
        maxds[c] = 0
        for ls in range(1, inp['nls'][c] + 1):
            d[f'LS{ls}'] = {'Family': 'lognormal', 'Theta_0': inp['med'] * ls, 'Theta_1': 0.3}
            if inp['noscatter']:
                d[f'LS{ls}'] = {'Family': None, 'Theta_0': inp['med'] * ls, 'Theta_1': None}
            maxds[c] += 1
            if inp['wts'][c] and ls % 2 == 1:
                d[f'LS{ls}']['DamageStateWeights'] = '0.4 | 0.6'
                maxds[c] += 1
        frag[c] = d
    a = pel.pipeline((cols, ['mps2'] * len(cols), rows), cmps, frag,
                     {'Seed': inp['seed'], 'ListAllDamageStates': bool(inp['listall'])})
    a.damage.calculate(dmg_process=inp['proc'] or None)
    smp = a.damage.save_sample()
    dscols = pel.ds_columns(a)
    cq = a.asset.cmp_sample
    out, used = [], 0
    missing = 0
    for key, blocks in dscols.items():
        q = cq[key].to_numpy(dtype=float)
        mine = [c for c in smp.columns if tuple(str(x) for x in c[:4]) == key]
        used += len(mine)
        gc = []
        for c in mine:
            v = []
            for r, x in enumerate(smp[c].to_numpy(dtype=float)):
                if np.isnan(x):
                    v.append(-999999999)
                elif q[r] == 0:
                    v.append(-888888888 if x == 0 else 777777)
                else:
                    v.append(int(round(max(-1e4, min(1e4, x * len(blocks) / q[r])) * 100000)))
            gc.append({'ds': int(c[4]), 'v': v})
        out.append({'key': '|'.join(key), 'rows': [[int(v) for v in row] for row in a.damage.ds_model.ds_sample[blocks].to_numpy()],
                    'cols': gc, 'maxds': maxds[key[0]]})
    want = {(g['cmp'], str(g['loc']), str(g['dir'])) for g in inp['groups']}
    have = {k[:3] for k in dscols}
    nb = sum(g.get('blocks', 1) for g in inp['groups'])
    return {'groups': out, 'extra': int(smp.shape[1] - used),
            'missing': len(want ^ have) + abs(nb - int(a.damage.ds_model.ds_sample.shape[1]))}
