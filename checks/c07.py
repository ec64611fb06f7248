"""C07: losses of damage states."""
import loss
import pel

TITLE = 'damage state losses'
RULE = ('inputs are damage samples (loaded or calculated), loss maps, consequence tables with constants and multilinear '
        'functions, deviations with and without cost-time correlation, all four economies-of-scale options; non-trivial '
        'when some loss is not zero')
MC = [{'module': 'LossMC', 'cfg': 'LossMC_q.cfg', 'tier': 'quick'},
      {'module': 'LossMC', 'cfg': 'LossMC_t.cfg', 'tier': 'thorough', 'timeout': 3000}]
JUDGE = 'LossJudge'
ASSUMPTIONS = ['quantities and consequences are whole numbers, so that losses are exact',
               'deviations are compared by the stratum of the reference distribution they fall in (LHS)']


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    return any(any(o['v']) for o in c['obs'].get('cols', []))


def multilinear(rng):
    m = rng.choice([2, 2, 3])
    xs = [rng.choice([0, 1, 2, 5])]
    ys = [rng.randint(60, 120)]
    for _ in range(m - 1):
        dx = rng.randint(1, 12)
        xs.append(xs[-1] + dx)
        ys.append(max(1, ys[-1] - dx * rng.randint(0, 2)) if rng.random() < .8 else ys[-1] + dx)
        if (ys[-1] - ys[-2]) % dx:
            ys[-1] = ys[-2]
    return xs, ys


def gen_params(rng, conses, dvs, rnd=False, maxds=4):
    out = []
    for c in conses:
        for dv in dvs:
            if rng.random() < .15:
                continue
            states = []
            for ds in range(1, maxds + 1):
                if rng.random() < .2:
                    continue
                if rng.random() < .45:
                    xs, ys = multilinear(rng)
                else:
                    xs, ys = [0], [rng.randint(1, 150)]
                s = {'ds': ds, 'xs': xs, 'ys': ys, 'rnd': 0}
                if rnd and rng.random() < .7:
                    s.update(family=rng.choice(['lognormal', 'normal']), cov=rng.choice([.2, .3, .45]), rnd=1)
                states.append(s)
            if states:
                out.append({'cons': c, 'dv': dv, 'states': states})
    return out


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(260, 5000)):
        rnd = rng.random() < .25
        n = rng.choice([9, 12]) if rnd else rng.randint(1, 6)
        cmps = rng.sample(['A', 'B.1', 'Cost.x', 'D', 'Time.Cost', 'excessiveRID'], rng.randint(1, 3))
        policy = rng.choice(['map', 'map', 'fill', 'fill_all', 'partial'])
        pairs = []
        conses = ['c1', 'c.2', 'c3']
        for c in cmps:
            # filling up leaves out excessiveRID, unless everything is to be filled up
            if policy == 'fill_all' or policy == 'fill' and c != 'excessiveRID':
                pairs.append({'cmp': c, 'cons': c})
            elif policy == 'partial' and c != 'excessiveRID' and rng.random() < .5:
                pairs.append({'cmp': c, 'cons': c, 'filled': 1})
            elif policy == 'fill':
                continue
            else:
                pairs.append({'cmp': c, 'cons': rng.choice(conses)})
        if policy == 'map' and rng.random() < .3 and len(pairs) > 1:
            pairs.pop()
        if rng.random() < .2:
            pairs.append({'cmp': 'absent', 'cons': 'c1'})
        dvs = rng.sample(['Cost', 'Time', 'Carbon', 'Energy'], rng.randint(1, 3))
        if rnd and rng.random() < .8:
            dvs = ['Cost', 'Time']
        params = gen_params(rng, sorted({p['cons'] for p in pairs} | {'unused'}), dvs, rnd)
        if not pairs or not any(p['cons'] != 'unused' for p in params):
            continue
        for p in params:
            if rng.random() < .07:
                p['incomplete'] = 1
        if all(p.get('incomplete') or p['cons'] == 'unused' for p in params):
            continue
        calc = rng.random() < .3 and not rnd
        damage = []
        groups = []
        for c in cmps:
            for loc in rng.sample([1, 2, 3, 11], rng.randint(1, 3)):
                for d in rng.sample([0, 1, 2], rng.randint(1, 2)):
                    for uid in ([0, 1] if rng.random() < .2 else [0]):
                        groups.append({'cmp': c, 'loc': loc, 'dir': d, 'uid': uid})
        for g in groups:
            for ds in ([0] if rng.random() < .7 else []) + sorted(rng.sample([1, 2, 3, 4], rng.randint(0, 3))):
                if rnd:
                    q = [rng.randint(1, 6)] * n
                else:
                    q = [0 if rng.random() < .3 else rng.randint(1, 9) for _ in range(n)]
                damage.append({**g, 'ds': ds, 'q': q})
        if not rnd:
            for g in groups:
                if rng.random() < .1:
                    r = rng.randrange(n)
                    for col in damage:
                        if {k: col[k] for k in g} == g:
                            col['q'][r] = -1
        rng.shuffle(damage)
        if not damage:
            continue
        if not calc and rng.random() < .35:
            # any number can name a damage state
            name = dict(zip((1, 2, 3, 4), rng.choice([(1, 2, 10, 12), (2, 10, 1, 20), (9, 10, 11, 21), (1, 11, 111, 3)])))
            for x in [d for d in damage if d['ds']] + [s for p in params for s in p['states']]:
                x['ds'] = name[x['ds']]
        eco = {'floors': rng.choice([0, 1]), 'states': rng.choice([0, 1])}
        rho = rng.choice([0, 0, 1, -1, .5]) if rnd else 0
        yield {'id': f'r{i}', 'n': n, 'damage': damage, 'groups': groups, 'map': pairs, 'params': params, 'eco': eco,
               'dvs': dvs, 'policy': policy, 'rho': 0 if rho == .5 else rho, 'half': int(rho == .5), 'calc': int(calc),
               'split': rng.choice([0, 0, 1]), 'legacy': int(rng.random() < .15),
               'dem': [[rng.randint(0, 5) for _ in range(n)] for _ in groups], 'qty': [rng.choice([2, 4, 6]) for _ in groups],
               'blocks': [rng.choice([1, 2]) for _ in groups]}


def build(inp):
    opts = {'EconomiesOfScale': {'AcrossFloors': bool(inp['eco']['floors']),
                                 'AcrossDamageStates': bool(inp['eco']['states'])},
            'RepairCostAndTimeCorrelation': .5 if inp['half'] else float(inp['rho'])}
    n = inp['n']
    groups = inp['groups']
    if inp['calc']:
        seen = {(g['cmp'], g['loc'], g['dir'], g['uid']): j for j, g in enumerate(groups)}
        keys = sorted({(g['loc'], g['dir']) for g in groups})
        demand = {(l, d): inp['dem'][j % len(inp['dem'])] for j, (l, d) in enumerate(keys)}
        cols = [f'PFA-{l}-{d}' for l, d in keys]
        rows = [[demand[k][r] for k in keys] for r in range(n)]
        cmps = [{'cmp': g['cmp'], 'Units': 'ea', 'Location': str(g['loc']), 'Direction': str(g['dir']),
                 'Theta_0': inp['qty'][seen[g['cmp'], g['loc'], g['dir'], g['uid']]],
                 'Blocks': inp['blocks'][seen[g['cmp'], g['loc'], g['dir'], g['uid']]]} for g in groups]
        frag = {c: {'Demand': {'Type': pel.PFA, 'Unit': 'mps2', 'Directional': 1, 'Offset': 1},
                    **{f'LS{s}': pel.det(s - .5) for s in (1, 2, 3, 4)}} for c in {g['cmp'] for g in groups}}
        a = pel.pipeline((cols, ['mps2'] * len(cols), rows), cmps, frag, {**opts, 'NonDirectionalMultipliers': {'ALL': 1.0}})
        a.damage.calculate()
    else:
        cmps = [{'cmp': g['cmp'], 'Units': 'ea', 'Location': str(g['loc']), 'Direction': str(g['dir']), 'Theta_0': 1.0,
                 'Blocks': 1} for g in groups]
        a = pel.pipeline((['PGA-0-1'], ['mps2'], [[0.0]] * n), cmps, None, opts)
        a.damage.load_sample(loss.damage_frame(inp['damage'], n))
    a.loss.decision_variables = tuple(inp['dvs'])
    given = [p for p in inp['map'] if not p.get('filled')]
    table = loss.loss_map(given) if given else None
    if inp['legacy'] and given:
        table.index = [f'DMG-{x}' for x in table.index]
    if inp['policy'] in {'fill', 'fill_all'}:
        a.loss.add_loss_map(None, inp['policy'])
    elif inp['policy'] == 'partial':
        a.loss.add_loss_map(table, 'fill')
    else:
        a.loss.add_loss_map(table, None)
    par = inp['params']
    if inp['split'] and len(par) > 1:
        tabs = [loss.ds_table(par[:1]), loss.ds_table(par[1:])]
    else:
        tabs = [loss.ds_table(par)]
    a.loss.load_model_parameters(tabs)
    return a


def observe(inp):
    a = build(inp)
    n = inp['n']
    dm = a.damage.ds_model.sample
    damage = []
    for c, v in zip(dm.columns, zip(*pel.ints(dm))):
        damage.append({'cmp': c[0], 'loc': int(c[1]), 'dir': int(c[2]), 'uid': int(c[3]), 'ds': int(c[4]),
                       'q': [-1 if x == -999999 else x for x in v]})
    a.loss.calculate()
    cols = loss.sample_cols(a.loss.ds_model.sample)
    states = {(p['cons'], p['dv'], s['ds']): s for p in inp['params'] if not p.get('incomplete') for s in p['states']}
    cmap = {p['cmp']: p['cons'] for p in inp['map']}
    for o, raw in zip(cols, loss.raw_cols(a.loss.ds_model.sample)):
        s = states.get((cmap.get(o['dmg']), o['dv'], o['ds']))
        if s and s['rnd']:
            mine = [d for d in damage if d['ds'] and d['cmp'] == o['dmg']
                    and (inp['eco']['states'] or d['ds'] == o['ds']) and (inp['eco']['floors'] or d['loc'] == o['loc'])]
            q = [d['q'] for d in damage if all(d[x] == o[x] for x in ('loc', 'dir', 'uid', 'ds')) and d['cmp'] == o['dmg']][0]
            o['rank'] = []
            for r in range(n):
                unit = loss.interp(s['xs'], s['ys'], sum(max(0, d['q'][r]) for d in mine)) * q[r]
                o['rank'].append(loss.stratum(loss.dev_cdf(s['family'], s['cov'], raw[r] / unit), n) if unit else -1)
    return {'damage': damage, 'cols': cols}


def to_tla(c):
    i = c['in']
    return {'id': c['id'], 'obs': c['obs'],
            'in': {'n': i['n'], 'map': [{'cmp': p['cmp'], 'cons': p['cons']} for p in i['map']],
                   'params': [{'cons': p['cons'], 'dv': p['dv'],
                               'states': [{k: s[k] for k in ('ds', 'xs', 'ys', 'rnd')} for s in p['states']]}
                              for p in i['params'] if not p.get('incomplete')],
                   'eco': i['eco'], 'dvs': i['dvs'], 'rho': i['rho'], 'half': i['half']}}
