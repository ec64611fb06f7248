"""C08: losses read from loss functions."""
import loss
import pel
from c04 import TYPES

TITLE = 'loss functions'
RULE = ('inputs are loss function tables (several decision variables, offsets, directional or not, deviations), loss maps '
        'with other names and shared functions, block counts, quantities and demands, alone or next to damage state '
        'consequences; some demands outside the domain; non-trivial when a loss was read')
MC = [{'module': 'LossFnMC', 'cfg': 'LossFnMC_q.cfg', 'tier': 'quick'},
      {'module': 'LossFnMC', 'cfg': 'LossFnMC_t.cfg', 'tier': 'thorough', 'timeout': 3000}]
JUDGE = 'LossFnJudge'
EXC_IN_SPEC = True
ASSUMPTIONS = ['quantities, demands and slopes are whole numbers', 'a demand outside the domain of a function has to stop the calculation']


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    return bool(c['obs'].get('cols'))


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(260, 5000)):
        rnd = rng.random() < .25
        n = rng.choice([9, 12]) if rnd else rng.randint(1, 6)
        types = rng.sample(['PFA', 'PID', 'PIH', 'SA', 'PWS'], rng.randint(1, 3))
        sub = {t: ('1.0' if t == 'SA' else '') for t in types}
        top = 8
        sample = [{'type': t + ('_' + sub[t] if sub[t] else ''), 'loc': loc, 'dir': d,
                   'v': [rng.randint(0, top)] * n if rnd else [rng.randint(0, top) for _ in range(n)]}
                  for t in types for loc in range(0, 5) for d in (1, 2)]
        rng.shuffle(sample)
        offset = {'PFA': -1, 'PFV': -1}
        given, gmult, mult = {}, {}, {'ALL': 12}
        if rng.random() < .4:
            given = {t: rng.choice([-1, 0, 1]) for t in types}
            offset.update(given)
        if rng.random() < .6:
            gmult = {'ALL': rng.choice([10, 15, 20])}
            mult.update(gmult)
        dvs = rng.sample(['Cost', 'Time', 'Carbon', 'Energy'], rng.randint(1, 3))
        cmps = rng.sample(['A', 'B.1', 'Cost.x', 'D'], rng.randint(1, 3))
        pairs = [{'cmp': c, 'cons': rng.choice(['f1', 'f.2', c, c])} for c in cmps]
        params = []
        small = rng.random() < .08
        for cons in sorted({p['cons'] for p in pairs} | {'unused'}):
            t = rng.choice(types)
            term = {'type': t, 'sub': sub[t], 'off': rng.choice([0, 0, 1, -1]) - offset.get(t, 0), 'directional': rng.choice([0, 1, 1])}
            for dv in dvs:
                if rng.random() < .12:
                    continue
                if rng.random() < .2:
                    term = {**term, 'directional': 1 - term['directional']}
                xs, ys = [0], [rng.randint(0, 20)]
                end = 4 if small else 16
                while xs[-1] < end:
                    dx = rng.randint(1, 8)
                    xs.append(min(end, xs[-1] + dx))
                    ys.append(ys[-1] + (xs[-1] - xs[-2]) * rng.choice([0, 1, 2, 5, 3 if rnd else -1]))
                p = {'cons': cons, 'dv': dv, 'term': dict(term), 'xs': xs, 'ys': [max(0, y) + 1 for y in ys] if rnd else ys, 'rnd': 0}
                if rnd and rng.random() < .8:
                    p.update(rnd=1, family=rng.choice(['lognormal', 'normal']), cov=rng.choice([.2, .3, .4]))
                params.append(p)
        if not any(p['cons'] != 'unused' for p in params):
            continue
        groups = []
        for c in cmps:
            for loc in rng.sample([1, 2, 3], rng.randint(1, 3)):
                for d in rng.sample([0, 1, 2], rng.randint(1, 2)):
                    for uid in ([0, 1] if rng.random() < .2 else [0]):
                        groups.append({'cmp': c, 'loc': loc, 'dir': d, 'uid': uid, 'qty': rng.randint(1, 9),
                                       'blocks': rng.choice([1, 1, 2, 3])})
        noblocks = rng.random() < .2
        if noblocks:
            for g in groups:
                g['blocks'] = 1
        mixed = 0 if rng.random() < .5 else rng.choice([1, 2, 3])
        yield {'id': f'r{i}', 'n': n, 'sample': sample, 'groups': groups, 'map': pairs, 'params': params, 'dvs': dvs,
               'opts': {'offset': [{'type': t, 'v': v} for t, v in offset.items()],
                        'mult': [{'type': t, 'v': v} for t, v in mult.items()]},
               'given': given, 'gmult': gmult, 'mixed': mixed, 'noblocks': int(noblocks), 'rho': rng.choice([0, 1]) if rnd else 0}


def observe(inp):
    n = inp['n']
    opts = {'RepairCostAndTimeCorrelation': float(inp['rho'])}
    if inp['given']:
        opts['DemandOffset'] = inp['given']
    if inp['gmult']:
        opts['NonDirectionalMultipliers'] = {k: v / 10 for k, v in inp['gmult'].items()}
    cols = [f"{s['type']}-{s['loc']}-{s['dir']}" for s in inp['sample']]
    units = [TYPES[s['type'].split('_')[0]][1] for s in inp['sample']]
    rows = [[s['v'][r] for s in inp['sample']] for r in range(n)]
    cmps = [{'cmp': g['cmp'], 'Units': 'ea', 'Location': str(g['loc']), 'Direction': str(g['dir']),
             'Theta_0': float(g['qty']), 'Blocks': g['blocks']} for g in inp['groups']]
    if inp['noblocks']:
        for c in cmps:
            del c['Blocks']
    if inp['mixed']:
        z = {'cmp': 'Z', 'Units': 'ea', 'Location': '1', 'Direction': '1', 'Theta_0': 3.0}
        cmps.insert(len(cmps) // 2, z if inp['noblocks'] else {**z, 'Blocks': 1})
    a = pel.pipeline((cols, units, rows), cmps, None, opts)
    pairs = list(inp['map'])
    if inp['mixed']:
        # a damaged component with (or, mixed = 3, without) consequences of its own
        a.damage.load_sample(loss.damage_frame([{'cmp': 'Z', 'loc': 1, 'dir': 1, 'uid': 0, 'ds': s, 'q': [s + 1] * n} for s in (0, 2)], n))
        pairs.append({'cmp': 'Z', 'cons': 'zz'})
    a.loss.decision_variables = tuple(inp['dvs'])
    a.loss.add_loss_map(loss.loss_map(pairs), None)
    tabs = []
    if inp['params']:
        tabs.append(loss.lf_table([{**p, 'demand': {
            'Type': TYPES[p['term']['type']][0] + ('|' + p['term']['sub'] if p['term']['sub'] else ''),
            'Unit': TYPES[p['term']['type']][1], 'Offset': p['term']['off'], 'Directional': p['term']['directional']}}
            for p in inp['params']]))
    if inp['mixed'] in (1, 2):
        tabs.insert(inp['mixed'] - 1, loss.ds_table([{'cons': 'zz', 'dv': dv, 'states': [
            {'ds': 2, 'xs': [0], 'ys': [5 + j]}]} for j, dv in enumerate(inp['dvs'])]))
    a.loss.load_model_parameters(tabs)
    a.loss.calculate()
    # quantity and blocks of every group as placed by the asset model (property C14)
    qty = {tuple(map(str, c)): int(round(v.iloc[0])) for c, v in a.asset.cmp_sample.items()}
    groups = []
    for c, m in a.asset.cmp_marginal_params.iterrows():
        if c[0] != 'Z':
            groups.append({'cmp': c[0], 'loc': int(c[1]), 'dir': int(c[2]), 'uid': int(c[3]),
                           'qty': qty[tuple(map(str, c))], 'blocks': int(m.get('Blocks', 1))})
    inp = {**inp, 'groups': groups}
    out = loss.sample_cols(a.loss.lf_model.sample)
    par = {(p['cons'], p['dv']): p for p in inp['params']}
    cmap = {p['cmp']: p['cons'] for p in inp['map']}
    for o, raw in zip(out, loss.raw_cols(a.loss.lf_model.sample)):
        p = par.get((cmap.get(o['dmg']), o['dv']))
        if p and p['rnd']:
            g = next(g for g in inp['groups'] if all(g[x] == o[y] for x, y in (('cmp', 'dmg'), ('loc', 'loc'), ('dir', 'dir'), ('uid', 'uid'))))
            d = drive(inp, p['term'], g)
            o['rank'] = [loss.stratum(loss.dev_cdf(p['family'], p['cov'], raw[r] / (
                loss.interp(p['xs'], p['ys'], d[r]) * g['qty'])), n) for r in range(n)]
    ds = sorted([o['dv'], o['dmg'], o['ds'], o['v']] for o in loss.sample_cols(a.loss.ds_model.sample, 1))
    return {'cols': out, 'groups': groups, 'ds': [[x[0], x[1], x[2], *x[3]] for x in ds]}


def drive(inp, term, g):
    t = term['type'] + ('_' + term['sub'] if term['sub'] else '')
    off = {o['type']: o['v'] for o in inp['opts']['offset']}.get(term['type'], 0)
    m = {o['type']: o['v'] for o in inp['opts']['mult']}
    free = not term['directional'] or g['dir'] == 0
    cs = [s for s in inp['sample'] if s['type'] == t and s['loc'] == g['loc'] + term['off'] + off and (free or s['dir'] == g['dir'])]
    f = m.get(t, m['ALL']) / 10 if free else 1
    return [max(c['v'][r] for c in cs) * f for r in range(inp['n'])]


def to_tla(c):
    i = c['in']
    exp = []
    if i['mixed'] in (1, 2):
        exp = sorted([dv, 'Z', 2, [3 * (5 + j)] * i['n']] for j, dv in enumerate(i['dvs']))
    return {'id': c['id'], 'obs': c['obs'],
            'in': {'n': i['n'], 'sample': i['sample'], 'groups': c['obs'].get('groups', i['groups']), 'map': i['map'], 'dvs': i['dvs'],
                   'params': [{k: p[k] for k in ('cons', 'dv', 'term', 'xs', 'ys', 'rnd')} for p in i['params']],
                   'opts': i['opts'], 'dsexpect': [[x[0], x[1], x[2], *x[3]] for x in exp]}}
