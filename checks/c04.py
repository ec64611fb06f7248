"""C04: the demand that drives a component."""

TITLE = 'demand matching'
RULE = ('inputs are demand tables over several types, locations and directions (shuffled, with gaps), options for '
        'offsets and multipliers, and ladder components whose damage state equals the demand they saw, directional '
        'or not, with offsets or expressions; non-trivial when the calculation ran')
MC = [{'module': 'DemandMC', 'cfg': 'DemandMC_q.cfg', 'tier': 'quick'},
      {'module': 'DemandMC', 'cfg': 'DemandMC_t.cfg', 'tier': 'thorough', 'timeout': 3000}]
JUDGE = 'DemandJudge'
EXC_IN_SPEC = True
ASSUMPTIONS = ['capacities are fixed (ladder at 0.5, 1.5, ...)', 'multipliers are even tenths so no comparison ties']

TYPES = {'PFA': ('Peak Floor Acceleration', 'mps2'), 'PFV': ('Peak Floor Velocity', 'mps'),
         'PID': ('Peak Interstory Drift Ratio', 'unitless'), 'PGA': ('Peak Ground Acceleration', 'mps2'),
         'SA': ('Spectral Acceleration', 'mps2'), 'PIH': ('Peak Inundation Height', 'm'),
         'PWS': ('Peak Gust Wind Speed', 'mps'), 'RID': ('Residual Interstory Drift Ratio', 'unitless')}
OPS = [('X1', 1), ('X1 + X2', 2), ('X1 - X2', 2), ('X2 - X1', 2), ('X1 * X2', 2), ('2*X1 + X2', 2), ('X1^2', 1),
       ('X1**2 + X2', 2), ('X1 + X2 - X3', 3), ('(X1 - X2) * X3', 3)]


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(200, 4000)):
        n = rng.randint(3, 8)
        types = rng.sample(sorted(TYPES), rng.randint(2, 4))
        maxloc = rng.choice([3, 4, 11])
        locs = sorted(rng.sample(range(0, maxloc + 1), min(maxloc + 1, rng.choice([3, 4, 6]))))
        gaps = rng.random() < .35
        sample = []
        for t in types:
            for sub in (rng.sample(['0.3', '1.0', '1.00'], rng.randint(1, 2)) if t == 'SA' else ['']):
                for loc in locs:
                    for d in rng.sample([1, 2, 3], rng.choice([1, 2, 2, 3])) if gaps else [1, 2]:
                        if gaps and rng.random() < .05:
                            continue
                        sample.append({'type': t + ('_' + sub if sub else ''), 'loc': loc, 'dir': d,
                                       'v': [rng.randint(0, 6) for _ in range(n)]})
        rng.shuffle(sample)
        offset = {'PFA': -1, 'PFV': -1}
        given = {}
        if rng.random() < .5:
            given = {t: rng.choice([-1, 0, 1, 2]) for t in rng.sample(types, rng.randint(1, len(types)))}
            offset.update(given)
        mult, gmult = {'ALL': 12}, {}
        if rng.random() < .6:
            edps = sorted({s['type'] for s in sample})
            gmult = {t: rng.choice([8, 10, 14, 20]) for t in rng.sample([*edps, 'ALL'], rng.randint(1, len(edps)))}
            mult.update(gmult)
        groups = []
        subs = {t: sorted({s['type'][len(t) + 1:] for s in sample if s['type'].split('_')[0] == t}) for t in types}
        for j in range(rng.randint(2, 6)):
            op, nt = rng.choice(OPS) if rng.random() < .35 else ('X1', 1)
            terms = []
            for _ in range(nt):
                if terms and rng.random() < .15:
                    # one demand can appear twice in an expression
                    term = {**rng.choice(terms), 'directional': rng.choice([0, 1, 1])}
                else:
                    t = rng.choice([x for x in types if subs[x]] or types)
                    term = {'type': t, 'sub': rng.choice(subs[t] or ['']), 'off': rng.choice([0, 0, 0, 1, -1, 2]),
                            'directional': rng.choice([0, 1, 1])}
                terms.append(term)
            good = [x for x in range(0, maxloc + 1)
                    if all(x + t['off'] + offset.get(t['type'], 0) in locs for t in terms)]
            loc = rng.choice(good) if good and rng.random() < .95 else rng.choice(locs)
            if not good and rng.random() < .9:
                continue
            d = rng.choice([0, 1, 2]) if not gaps else rng.choice([1, 1, 2, 3])
            groups.append({'op': op, 'terms': terms, 'loc': loc, 'dir': d,
                           'expr': int(op != 'X1' or rng.random() < .2)})
        if not groups:
            continue
        exprs = {g['expr'] for g in groups}
        yield {'id': f'r{i}', 'n': n, 'sample': sample, 'groups': groups, 'ladder': 13 if all(g['op'] == 'X1' for g in groups) else 26,
               'opts': {'offset': [{'type': t, 'v': v} for t, v in offset.items()],
                        'mult': [{'type': t, 'v': v} for t, v in mult.items()]},
               'given': given, 'gmult': gmult, 'order': rng.randrange(10 ** 6), 'mixed': int(len(exprs) == 2)}


def nontrivial(c):
    return 'exc' not in c['obs']


def observe(inp):
    import random
    import pel
    cols = [f"{s['type']}-{s['loc']}-{s['dir']}" for s in inp['sample']]
    units = [TYPES[s['type'].split('_')[0]][1] for s in inp['sample']]
    rows = [[s['v'][r] for s in inp['sample']] for r in range(inp['n'])]
    cmps, frag = [], {}
    for j, g in enumerate(inp['groups']):
        name = f'L.{j}'
        cmps.append({'cmp': name, 'Units': 'ea', 'Location': str(g['loc']), 'Direction': str(g['dir']),
                     'Theta_0': 1.0, 'Blocks': 1})
        d = {}
        for i, t in enumerate(g['terms']):
            full, unit = TYPES[t['type']]
            d['Demand' + (str(i + 1) if i else '')] = {
                'Type': full + ('|' + t['sub'] if t['sub'] else ''), 'Unit': unit, 'Offset': t['off'],
                'Directional': t['directional']}
        if g['expr']:
            d['Demand']['Expression'] = g['op']
        for s in range(inp['ladder']):
            d[f'LS{s + 1}'] = {'Family': None, 'Theta_0': s + 0.5, 'Theta_1': None}
        frag[name] = d
    order = list(range(len(cmps)))
    random.Random(inp['order']).shuffle(order)
    opts = {}
    if inp['given']:
        opts['DemandOffset'] = inp['given']
    if inp['gmult']:
        opts['NonDirectionalMultipliers'] = {k: v / 10 for k, v in inp['gmult'].items()}
    a = pel.pipeline((cols, units, rows), [cmps[i] for i in order], frag, opts)
    a.damage.calculate()
    return {'ds': [pel.ds_of(a, f'L.{j}', g['loc'], g['dir']) for j, g in enumerate(inp['groups'])]}
