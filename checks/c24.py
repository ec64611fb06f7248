"""C24: regional simulations."""
import regional

TITLE = 'regional simulations'
RULE = ('simulations of up to fourteen buildings with made-up model libraries for three hazards, with grids, filters, orders of intensity measures, '
        'chunk sizes, numbers of processes, orders of the listed result files and sample sizes drawn at random, one above the built-in chunk size, the '
        'initial states of the specification, and direct interpolations; non-trivial when there is more than one chunk or intensity measure')
MC = [{'module': 'RegionalMC', 'cfg': 'RegionalMC_q.cfg', 'tier': 'quick', 'must_take': ['Sort', 'Begin', 'Finish', 'Merge']},
      {'module': 'RegionalMC', 'cfg': 'RegionalMC_t.cfg', 'tier': 'thorough', 'must_take': ['Sort', 'Begin', 'Finish', 'Merge'], 'timeout': 1500}]
JUDGE = 'RegionalJudge'
EXC_IN_SPEC = True
ASSUMPTIONS = ['limit states have fixed capacities, consequences are fixed numbers, one component per building',
               'chunks are made small by running the simulation with another chunk size in place of 1000; one simulation has more than 1000 buildings',
               'the order in which result files are listed is shuffled through os.listdir']


def prepare(ctx):
    import pelicun.tools.regional_sim  # noqa: F401


def nontrivial(c):
    i = c['in']
    return i['kind'] == 'nnr' or len(i['ims']) > 1 or (i['size'] or 1000) < len(i['buildings'])


IMS = {'eq': ['PGA', 'SA_0.3', 'PGV'], 'wind': ['PWS', 'PIH'], 'flood': ['PIH', 'PWS']}
OCCS = ['RES1', 'COM1', 'IND2', 'EDU1', 'GOV1']


def text(rng, parts):
    out = []
    for p in parts:
        sp = lambda: ' ' * rng.choice([0, 0, 1, 2])
        if p['kind'] == 'id':
            out.append(f'{sp()}{p["a"]}{sp()}')
        elif p['kind'] == 'range':
            out.append(f'{sp()}{p["a"]}{sp()}-{sp()}{p["b"]}{sp()}')
        elif p['kind'] == 'blank':
            out.append(sp())
        else:
            out.append(p['text'])
    return ','.join(out)


def make(rng, method, nb, dense=0):
    ims = list(IMS[method])
    rng.shuffle(ims)
    ims = ims[:rng.randint(1, len(ims))]
    top = rng.choice([30, 400])
    ox, oy = rng.choice([(0, 0), (-11830, 3790)])
    rows = rng.randint(1, 5)
    grid = []
    spots = [(x, y) for x in range(6) for y in range(6)]
    rng.shuffle(spots)
    quiet = rng.random() < .15
    for x, y in spots[:rng.randint(1, 8)]:
        order = [*ims, *([] if rng.random() < .5 else ['XX'])]
        rng.shuffle(order)
        hi = 0 if quiet else top if rng.random() < .75 else 1
        grid.append({'x': ox + x, 'y': oy + y, 'order': order, 'values': {m: [rng.randint(0, hi) for _ in range(rows)] for m in order}})
    archs = {}
    for a in rng.sample(['W1', 'C2.L', 'S1.M.PC', 'URM'], rng.randint(1, 3)):
        n = rng.randint(1, 4)
        lim = sorted(rng.sample(range(100, 1000 * top), n))
        archs[a] = {'im': rng.choice(ims), 'limits': lim}
    occs = rng.sample(OCCS, rng.randint(1, 4))
    dvs = {'Cost': 1, 'Time': rng.randint(0, 1)}
    n = 4
    cons = {}
    for o in (occs if method == 'eq' else archs):
        cons[o] = {dv: sorted(rng.sample(range(1, 900), n)) for dv in (('Cost', 'Time') if method == 'eq' else [d for d in dvs if dvs[d]])}
    ids = rng.sample(range(30), nb) if nb < 25 else list(range(nb))
    if nb >= 25:
        rng.shuffle(ids)
    buildings = []
    for b in ids:
        if rng.random() < .35:
            p = rng.choice(grid)
            x, y = p['x'], p['y']
        else:
            x, y = ox + rng.randint(-1, 6), oy + rng.randint(-1, 6)
        buildings.append({'id': b, 'occ': rng.choice(occs), 'arch': rng.choice(list(archs)), 'x': x, 'y': y})
    cols = ['Longitude', 'Latitude', 'OccupancyClass', 'StructureType', 'YearBuilt']
    rng.shuffle(cols)
    samples = rng.choice([rows, rows, 1, rows + 2, 2 * rows, max(1, rows - 1)])
    return {'kind': 'run', 'method': method, 'dvs': dvs, 'ims': ims, 'grid': grid, 'rows': min(rows, samples), 'samples': samples, 'neighbors': rng.randint(1, min(4, len(grid))),
            'realizations': rng.choice([samples, samples, 2 * samples + 1, max(1, samples - 1), 7]), 'archetypes': archs, 'consequences': cons,
            'buildings': buildings, 'columns': cols, 'parts': [], 'filter': None, 'missing': 0, 'size': 0, 'cores': 1, 'apart': 0, 'shuffle': rng.randint(0, 999)}


def filtered(rng, inp, bad):
    ids = sorted(b['id'] for b in inp['buildings'])
    parts = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < .5:
            parts.append({'kind': 'id', 'a': rng.choice(ids)})
        elif r < .8:
            lo = rng.choice(ids)
            hi = lo
            while hi + 1 in ids and rng.random() < .8:
                hi += 1
            parts.append({'kind': 'range', 'a': lo, 'b': hi})
        else:
            parts.append({'kind': 'blank'})
    if bad:
        q = rng.choice(['bad', 'bad', 'reverse', 'unknown', 'hole'])
        new = ({'kind': 'bad', 'text': rng.choice(['x', '-3', '3-', '1-2-3', '1.5', '2 3', '1;2', '1-x'])} if q == 'bad' else
               {'kind': 'range', 'a': ids[-1] + 2, 'b': ids[-1] + 1} if q == 'reverse' else
               {'kind': 'id', 'a': ids[-1] + 1} if q == 'unknown' else {'kind': 'range', 'a': ids[0], 'b': ids[-1] + 1})
        parts.insert(rng.randint(0, len(parts)), new)
    inp['parts'], inp['filter'] = parts, text(rng, parts)


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(130, 3000)):
        inp = make(rng, rng.choice(['eq', 'eq', 'wind', 'flood']), rng.randint(1, 14))
        inp['size'] = rng.choice([0, 1, 2, 3, 5])
        r = rng.random()
        if r < .45:
            filtered(rng, inp, bad=r < .12)
        elif r < .5:
            inp['parts'], inp['filter'] = [{'kind': 'blank'}], rng.choice(['', ' ', ', ,'])
        elif r < .54:
            inp['missing'] = 1
            m = rng.choice(inp['ims'])
            for p in inp['grid']:
                p['order'] = [x for x in p['order'] if x != m] or ['XX']
                p['values'].setdefault('XX', [1] * len(next(iter(p['values'].values()))))
        inp['cores'] = rng.choice([1, 1, 2])
        yield {'id': f'r{i}', **inp}
    for i in range(ctx.n(5, 40)):
        inp = make(rng, rng.choice(['eq', 'wind']), rng.randint(6, 14))
        yield {'id': f'apart{i}', **inp, 'size': rng.choice([1, 2, 3]), 'cores': rng.randint(2, 4), 'apart': 1}
    for i, m in enumerate(['eq', 'wind'][:ctx.n(1, 2)]):
        inp = make(rng, m, 1010)
        yield {'id': f'large{i}', **inp, 'realizations': 2, 'samples': 2, 'rows': min(2, len(next(iter(inp['grid'][0]['values'].values())))), 'cores': 1}
    for i in range(ctx.n(150, 3000)):
        yield {'id': f'n{i}', **interpolation(rng)}


def interpolation(rng):
    weight = rng.choice(['distance2', 'distance2', 'distance1', 'uniform'])
    k = rng.randint(1, 4)
    flat = weight == 'distance1' or rng.random() < .4
    spots = [(x,) for x in range(9)] if flat else [(x, y) for x in range(6) for y in range(6)]
    ns = rng.randint(k, 9)
    source = rng.sample(spots, min(ns, len(spots)))
    target = [rng.choice(source) if rng.random() < .3 else tuple(rng.randint(-2, 8) if flat else rng.randint(-1, 6) for _ in source[0]) for _ in range(rng.randint(1, 4))]
    nf, nr = rng.randint(1, 3), rng.randint(1, 4)
    dims = rng.choice([1, 2, 3, 3])
    n = rng.choice([-1, -1, 400])
    if dims == 1 and n != -1:
        dims = 2
    pick = rng.sample(range(400), len(source) * nr)
    # (every source has its own values; features are told apart as well)
    values = [[[pick[p * nr + r] if f == 0 else (pick[p * nr + r] * 7 + 50 * f) % 397 for r in range(nr if dims == 3 else 1)] for f in range(nf if dims > 1 else 1)]
              for p in range(len(source))]
    return {'kind': 'nnr', 'weight': weight, 'k': k, 'source': source, 'target': target, 'values': values, 'dims': dims, 'n': n, 'seed': rng.choice([-1, rng.randint(0, 9999)]) if n == -1 else rng.randint(0, 9999)}


def from_model(ctx, runs):
    """the initial states of the specification"""
    inits = sorted({str(p): p for _, r in runs for p in r.prints if 'kept' in p}.items())
    rng = ctx.rng
    for j, (_, p) in enumerate(rng.sample(inits, min(len(inits), ctx.n(90, 1500)))):
        n = len(p['occ'])
        method = rng.choice(['eq', 'eq', 'wind'])
        a, b = {'eq': ('PGA', 'SA_0.3'), 'wind': ('PIH', 'PWS')}[method]
        name = {'A': a, 'B': b}
        ids = sorted(rng.sample(range(1, 60), n))
        order = [a, b]
        rng.shuffle(order)
        lim = {o: rng.randint(10, 90) for o in order}
        grid = [{'x': 0, 'y': 0, 'order': order, 'values': {o: [lim[o] - rng.randint(2, 9)] for o in order}},
                {'x': 9, 'y': 0, 'order': order, 'values': {o: [lim[o] + rng.randint(2, 9)] for o in order}}]
        archs = {f'T{o}': {'im': rng.choice(order), 'limits': []} for o in set(p['occ'])}
        for x in archs.values():
            x['limits'] = [1000 * lim[x['im']]]
        occ = {o: f'COM{o}' for o in set(p['occ'])}
        cons = {(occ[o] if method == 'eq' else f'T{o}'): {'Cost': [10 * o], 'Time': [20 * o]} for o in occ}
        blds = [{'id': ids[i], 'occ': occ[p['occ'][i]], 'arch': f'T{p["occ"][i]}', 'x': (8 if i + 1 in p['damaged'] else 1), 'y': rng.choice([0, 1])} for i in range(n)]
        parts = [{'kind': 'id', 'a': ids[i - 1]} for i in p['kept']] if len(p['kept']) < n else []
        rng.shuffle(parts)
        yield {'id': f'model{j}', 'kind': 'run', 'method': method, 'dvs': {'Cost': 1, 'Time': 1}, 'ims': [name[x] for x in p['config']], 'grid': grid, 'rows': 1, 'samples': 1,
               'neighbors': 1, 'realizations': 2, 'archetypes': archs, 'consequences': cons, 'buildings': blds, 'columns': None, 'parts': parts,
               'filter': text(rng, parts) if parts else None, 'missing': 0, 'size': p['size'], 'cores': 1, 'apart': 0, 'shuffle': rng.randint(0, 99)}


def observe(inp):
    if inp['kind'] == 'nnr':
        x = dict(inp)
        if inp['dims'] == 1:
            x['values'] = [v[0][0] for v in inp['values']]
        elif inp['dims'] == 2:
            x['values'] = [[f[0] for f in v] for v in inp['values']]
        if len(inp['source'][0]) == 1:
            x['source'], x['target'] = [s[0] for s in inp['source']], [s[0] for s in inp['target']]
        x['seed'] = None if inp['seed'] == -1 else inp['seed']
        return regional.nnr(x)
    return regional.play(inp)


def to_tla(c):
    i, o = c['in'], c['obs']
    if i['kind'] == 'nnr':
        t, f = len(i['target']), len(i['values'][0])
        shape = [1, t] if i['dims'] == 1 and i['n'] == -1 else [3, t, f, i['n']] if i['n'] > 0 else [3, t, f, len(i['values'][0][0])] if i['dims'] == 3 else [2, t, f]
        return {'id': c['id'], 'in': {**{x: i[x] for x in ('kind', 'weight', 'k', 'source', 'target', 'values', 'n', 'seed')}, 'shape': shape, 'slack': 5 * int(max(i['n'], 1) ** .5) // 2 + 4}, 'obs': o}
    new = {x: i[x] for x in ('kind', 'method', 'ims', 'neighbors', 'rows', 'samples', 'realizations', 'missing')}
    new['grid'] = [{'x': p['x'], 'y': p['y'], 'values': p['values']} for p in i['grid']]
    new['units'] = {m: regional.UNITS[m] for m in i['ims']}
    new['archetypes'] = i['archetypes']
    new['consequences'] = {n: {dv: [1000 * x for x in v] for dv, v in t.items()} for n, t in i['consequences'].items()}
    new['requested'] = {dv: 1 if i['method'] == 'eq' else i['dvs'][dv] for dv in ('Cost', 'Time')}
    new['buildings'] = i['buildings']
    new['parts'] = [{'kind': p['kind'], 'a': p.get('a', 0), 'b': p.get('b', 0)} for p in i['parts']]
    if 'error' in o:
        o = {**o, 'error': o['error'].split(':')[0].split('.')[-1]}
        if 'demand' in o:
            d = o['demand']

            def split(col):
                im, loc, one = col.rsplit('-', 2)
                return [im, int(loc) if loc.lstrip('-').isdigit() and one == '1' else -1]
            ok = all(len(x.rsplit('-', 2)) == 3 for x in d['columns'])
            rows = [int(r) if r.isdigit() else -1 if r == 'Units' else -2 for r in d['rows']]
            o['demand'] = {'columns': [split(x) for x in d['columns']] if ok else [], 'rows': rows + ([-1] if 'Units' not in d['rows'] and any(d['units']) else []), 'units': d['units'], 'values': d['values']}
        for f in ('damage', 'Cost', 'Time'):
            if f in o:
                o[f] = {**o[f], 'columns': [int(x) if x.isdigit() else -1 for x in o[f]['columns']]}
    return {'id': c['id'], 'in': new, 'obs': o}
