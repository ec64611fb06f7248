"""C30: damage and loss calculations from a configuration."""
import math

import dlcalc

TITLE = 'damage and loss calculations do what their configuration says'
RULE = ('calculations with made-up demands, inventories, limits, damage processes, collapse and irreparable damage rules, loss tables and maps, drawn at random, with made-up '
        'model libraries, the behaviours of the specification, and configurations that cannot be carried out; non-trivial when there is damage in some realization')
MC = [{'module': 'DLCalcMC', 'cfg': 'DLCalcMC_q.cfg', 'tier': 'quick', 'must_take': ['Assess', 'Rule1', 'Value']},
      {'module': 'DLCalcMC', 'cfg': 'DLCalcMC_t.cfg', 'tier': 'thorough', 'must_take': ['Assess', 'Rule1', 'Value'], 'timeout': 900},
      {'module': 'UncertainMC', 'cfg': 'UncertainMC_q.cfg', 'tier': 'quick', 'must_take': ['Draw', 'Compare']}]
JUDGE = 'DLCalcJudge'
EXC_IN_SPEC = True
ASSUMPTIONS = ['limit states have fixed capacities, consequences are fixed numbers and demands are coupled, so that nothing is random',
               'every requested decision variable has consequences for some component', 'Hazus calculations give or can look up a replacement time']


def prepare(ctx):
    import pelicun.tools.DL_calculation  # noqa: F401


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(150, 5000)):
        run = dlcalc.make(rng)
        run['outputs'] = {**dlcalc.EVERYTHING, 'Settings': {'CondenseDS': rng.choice([0, 1]), 'AggregateColocatedComponentResults': rng.choice([0, 1])}}
        yield {'id': f'r{i}', 'runs': [run]}
    for i in range(ctx.n(12, 240)):
        yield {'id': f'u{i}', 'spread': dlcalc.uncertain(rng)}
    for j in range(ctx.n(1, 12)):
        for s in dlcalc.SPOILS:
            run = dlcalc.make(rng)
            while run.get('sampled'):
                run = dlcalc.make(rng)
            yield {'id': f'{s}{j}', 'runs': [{**run, 'outputs': dict(dlcalc.EVERYTHING), 'spoil': s, 'valid': 0}]}


def from_model(ctx, runs):
    """the behaviours of the specification: one calculation for all demands with the same configuration"""
    rng = ctx.rng
    groups = {}
    for _, r in runs:
        for p in r.prints:
            if 'row' in p:
                groups.setdefault((p['process'], p['collapse']['edp'], p['irreparable']), []).append(p)
    for (process, edp, irr), ps in sorted(groups.items()):
        rows = sorted(p['row'] for p in ps)
        rng.shuffle(rows)
        comp = lambda id, locs, lim: {'id': id, 'locs': locs, 'dirs': [1], 'qty': 2, 'edp': 'PID', 'offset': 0, 'directional': 1, 'limits': lim}
        hazus = process == dlcalc.HAZUS
        yield {'id': f'model-{process}-{edp}-{irr}'.replace(' ', ''), 'runs': [{
            'kind': 'dl', 'length': 'm', 'samples': len(rows), 'demand': {'cols': ['PID-1-1', 'PID-2-1', 'RID-1-1', 'SA_1.0-0-1'], 'rows': rows, 'units': 1, 'event': 0},
            'comps': [comp('STR.A', [1, 2], [5, 15, 25, 35, 45]), comp('B', [1], [15])], 'process': process, 'options': {}, 'occupancy': None,
            'collapse': {'edp': edp, 'median': ps[0]['collapse']['median']} if edp else None, 'irreparable': irr or None, 'damage': 1,
            'losses': {'dvs': ['Cost'], 'table': {'B': {'Cost': [7]}, 'STR' if hazus else 'STR.A': {'Cost': [1, 2, 3, 4, 5]}}, 'replacement': {'Cost': 1000, 'Time': 1}, 'map': None},
            'outputs': {**dlcalc.EVERYTHING, 'Settings': {'CondenseDS': 0, 'AggregateColocatedComponentResults': 1}}}]}


def observe(inp):
    if 'spread' in inp:
        return dlcalc.play_uncertain(inp['spread'])
    return dlcalc.play(inp)


def nontrivial(c):
    if 'spread' in c['in']:
        return True
    for s in c['obs'].get('steps', []):
        t = s['files'].get('DMG_sample.zip', {'columns': [], 'values': []})
        if any(not n.endswith('-0') and any(x > 0 for x in v) for n, v in zip(t['columns'], t['values'])):
            return True
    return False


def to_tla(c):
    if 'spread' in c['in']:
        u = c['in']['spread']
        return {'id': c['id'], 'in': {'spread': {**{k: u[k] for k in ('what', 'family', 'value', 'theta1', 'samples')}, 'ln': round(1e6 * math.log(u['value'] / 1000))}},
                'obs': dlcalc.outcome(u, c['obs'])}
    return {'id': c['id'], 'in': {'runs': [dlcalc.spec(r) for r in c['in']['runs']]}, 'obs': c['obs']}
