"""C03: damage process rules."""
import itertools

TITLE = 'damage process rules'
RULE = ('inputs are (components x locations x blocks, start damage states, rule program); programs are all '
        'one- and two-rule programs TLC enumerates (sampled in quick) plus random longer ones; non-trivial when '
        'the program changes at least one damage state')
MC = [{'module': 'DamageProcessMC', 'cfg': 'DamageProcess_q.cfg', 'workers': 8}]
JUDGE = 'DamageProcessJudge'
ASSUMPTIONS = ['the start sample is taken from a run without process and the same seed',
               'component names contain neither "_" nor "-" nor a -LOC suffix']


def prepare(ctx):
    import pelicun.assessment  # noqa: F401  (loaded once, before the workers fork)


def nontrivial(c):
    return 'exc' not in c['obs'] and c['obs']['ds0'] != c['obs']['ds1']


MAXDS = 3


def layout_cols(groups):
    """groups: list of (cmp, loc, dir, blocks) -> columns in the order of the damage sample."""
    cols = []
    for cmp, loc, d, blocks in sorted(groups, key=lambda g: (g[0], str(g[1]), str(g[2]))):
        for b in range(blocks):
            cols.append({'cmp': cmp, 'loc': loc, 'dir': d, 'block': b + 1})
    return cols


def mk(id, groups, rules, demands, extra=None):
    cols = layout_cols(groups)
    known = {g[0] for g in groups}
    warn = 0
    for r in rules:
        if r['src'] not in known:
            warn += 1
            continue
        for e in r['events']:
            for t in e['targets']:
                if t['cmp'] != 'ALL' and t['cmp'] not in known:
                    warn += 1
    return {'id': id, 'groups': groups, 'cols': cols, 'rules': rules, 'demands': demands,
            'expect_warn': 1 if warn else 0, **(extra or {})}


def cases(ctx):
    rng = ctx.rng
    n = ctx.n(160, 1500)
    for i in range(n):
        names = rng.sample(['A', 'B', 'C', 'collapse', 'B.10.1', 'excessiveRID', 'lf'], rng.randint(2, 4))
        groups = []
        for c in names:
            for loc in rng.sample([1, 2, 3, 10], rng.randint(1, 3)):
                for d in rng.sample([1, 2], rng.randint(1, 2)):
                    groups.append((c, loc, d, rng.choice([1, 1, 2, 3])))
        nreal = rng.randint(4, 10)
        demands = [[rng.choice([0.5, 1.5, 2.5, 3.5]) for _ in groups] for _ in range(nreal)]
        nrules = rng.choice([1, 2, 3, 4, 5, 12])
        nums = rng.sample(range(1, 40), nrules)
        rules = []
        for num in nums:
            evs = []
            for dsv in rng.sample(range(0, MAXDS + 1), rng.randint(1, 3)):
                tg = []
                for _ in range(rng.randint(1, 3)):
                    tg.append({'cmp': rng.choice(names + ['ALL', 'ALL', 'missing']),
                               'to': rng.choice([-1, -1, 0, 1, 2, 3])})
                evs.append({'ds': dsv, 'targets': tg})
            rules.append({'num': num, 'src': rng.choice(names + ['absent'] if rng.random() < .2 else names),
                          'byloc': rng.random() < .4, 'events': evs})
        yield mk(f'rand{i}', groups, rules, demands)


def from_model(ctx, runs):
    """every program of the bounded model, over all of its start vectors at once."""
    progs = [p['prog'] for _, r in runs for p in r.prints if 'prog' in p]
    uniq = {}
    for p in progs:
        uniq[str(p)] = p
    progs = [uniq[x] for x in sorted(uniq)]
    if ctx.quick:
        progs = [p for p in progs if len(p) == 1] + ctx.rng.sample([p for p in progs if len(p) == 2], 150)
    groups = [('A', 1, 1, 1), ('A', 2, 1, 1), ('B', 1, 1, 1), ('C', 2, 1, 1)]
    demands = [[a + .5, b + .5, c + .5, d + .5] for a, b, c, d in
               itertools.product(range(3), range(3), range(2), range(2))]
    for i, p in enumerate(progs):
        rules = [{'num': 9 + j if i % 2 else j + 1, 'src': e['src'], 'byloc': e['byloc'],
                  'events': [{'ds': e['ds'], 'targets': [{'cmp': e['tgt'], 'to': e['to']}]}]}
                 for j, e in enumerate(p)]
        yield mk(f'mc{i}', groups, rules, demands)


def process_dict(rules):
    out = {}
    for r in rules:
        key = f"{r['num']}_{r['src']}" + ('-LOC' if r['byloc'] else '')
        evs = {}
        for e in r['events']:
            t = [f"{t['cmp']}_{'NA' if t['to'] == -1 else 'DS%d' % t['to']}" for t in e['targets']]
            evs[f"DS{e['ds']}"] = t[0] if len(t) == 1 else t
        out[key] = evs
    return out


def build(inp):
    import pel
    a = pel.assessment(Seed=7)
    groups = inp['groups']
    # every group sees a demand of its own: type/location/direction are shared only by different components
    types = {}
    for g in groups:
        types.setdefault(g[0], None)
    edp = ['PGA', 'PGV', 'PGD', 'SA_1.0']
    names = {'PGA': 'Peak Ground Acceleration', 'PGV': 'Peak Ground Velocity', 'PGD': 'Permanent Ground Deformation',
             'SA_1.0': 'Spectral Acceleration|1.0'}
    units = {'PGA': 'mps2', 'PGV': 'mps', 'PGD': 'm', 'SA_1.0': 'mps2'}
    for i, c in enumerate(types):
        types[c] = edp[i]
    cols = [f'{types[g[0]]}-{g[1]}-{g[2]}' for g in groups]
    pel.set_demand(a, cols, [units[types[g[0]]] for g in groups], inp['demands'])
    a.asset.load_cmp_model({'marginals': pel.cmp_table([
        {'cmp': g[0], 'Units': 'ea', 'Location': str(g[1]), 'Direction': str(g[2]), 'Theta_0': 1.0, 'Blocks': g[3]}
        for g in groups])})
    a.asset.generate_cmp_sample(len(inp['demands']))
    multi = {g[0] for g in groups if g[3] > 1}
    frag = {}
    for c in types:
        d = {'Demand': {'Type': names[types[c]], 'Unit': units[types[c]], 'Offset': 0, 'Directional': 1}}
        for ls in range(1, MAXDS + 1):
            # components with several blocks get scattered capacities so that their blocks differ
            d[f'LS{ls}'] = ({'Family': 'lognormal', 'Theta_0': float(ls), 'Theta_1': 0.4} if c in multi
                            else {'Family': None, 'Theta_0': float(ls), 'Theta_1': None})
        frag[c] = d
    a.damage.load_model_parameters([pel.fragility_table(frag)], set(a.asset.list_unique_component_ids()))
    return a


def sample(a, inp):
    df = a.damage.ds_model.ds_sample
    order = [(c['cmp'], str(c['loc']), str(c['dir']), '0', str(c['block'])) for c in inp['cols']]
    if sorted(order) != sorted(tuple(x) for x in df.columns):
        return []
    return [[int(v) for v in row] for row in df[order].to_numpy()]


def observe(inp):
    import warnings
    a = build(inp)
    a.damage.calculate()
    ds0 = sample(a, inp)
    b = build(inp)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        b.damage.calculate(dmg_process=process_dict(inp['rules']))
    warned = int(any('damage process' in ' '.join(str(x.message).split()) for x in w))
    return {'ds0': ds0, 'ds1': sample(b, inp), 'warned': warned}
