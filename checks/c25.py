"""C25: result files of damage and loss calculations."""
import copy

import dlcalc

TITLE = 'result files hold the results of the last calculation, in every form that was asked for'
RULE = ('sequences of one to four calculations in one process with one output folder: requested outputs, formats, settings, automatic configurations, selections and overrides '
        'drawn at random, among them calculations that are refused or skipped, and all histories of the specification (a sample of them in the quick tier); '
        'non-trivial when there is more than one calculation')
MC = [{'module': 'DLFolderMC', 'cfg': 'DLFolderMC_q.cfg', 'must_take': ['Start', 'Clean', 'Save', 'Copy', 'Drop']}]
JUDGE = 'DLCalcJudge'
EXC_IN_SPEC = True
ASSUMPTIONS = ['limit states have fixed capacities, consequences are fixed numbers and demands are coupled, so that nothing is random',
               'nothing is said about the folder after a calculation that was refused or skipped']


def prepare(ctx):
    import pelicun.tools.DL_calculation  # noqa: F401


def small(rng, kind):
    run = dlcalc.make(rng, kind)
    run.pop('limits', None)
    run['samples'] = rng.randint(1, 4)
    return run


def wanted(rng, run):
    """what is asked for"""
    if run['kind'] == 'auto':
        run['detailed'] = rng.choice([0, 1])
        if rng.random() < .4:
            run['selected'] = {k: rng.random() < .5 for k in ('IM', 'EDP', 'DM', 'DV')}
        if rng.random() < .2:
            run['losses'] = None
    elif rng.random() < .75:
        out = {}
        for k, v in dlcalc.KINDS.items():
            if rng.random() < .6:
                out[k] = {o: rng.choice([0, 1]) for o in v if rng.random() < .7}
        for k in ('Demand', 'Asset', 'Damage', 'Loss'):
            if not out.get(k):
                out.pop(k, None)
        if rng.random() < .7:
            out['Format'] = {f: rng.choice([0, 1]) for f in ('CSV', 'JSON') if rng.random() < .7} or {'JSON': 1}
        if rng.random() < .6:
            out['Settings'] = {s: rng.choice([0, 1]) for s in dlcalc.SETTINGS if rng.random() < .7} or {'CondenseDS': 1}
        if rng.random() < .15 and 'Loss' not in out:
            run['losses'] = None
            if rng.random() < .4 and 'Damage' not in out:
                run['damage'] = 0
        run['outputs'] = out or None
        if run['outputs'] is None and (not run['losses'] or not run['damage']):
            run['valid'] = 0
    if rng.random() < .35:
        run['format'] = rng.choice([[], ['csv'], ['json'], ['csv', 'json']])
    return run


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(100, 3000)):
        runs = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            r = rng.random()
            run = wanted(rng, small(rng, 'auto' if r < .35 else 'dl'))
            if r > .92:
                run.update(kind='na')
            elif r > .85 and run['kind'] == 'dl':
                run.update(spoil=rng.choice(['no-samples', 'limits', 'no-asset']), valid=0)
            runs.append(run)
        yield {'id': f'h{i}', 'runs': runs}


def configs(base):
    one = lambda **o: {k: (dict.fromkeys(v, 1) if isinstance(v, list) else v) for k, v in o.items()}
    c = [{'outputs': None}, {'outputs': one(Demand=['Sample'])}, {'outputs': one(Damage=['GroupedSample'], Format={'JSON': 1})},
         {'outputs': one(Loss=['AggregateSample', 'AggregateStatistics'], Format={'CSV': 1, 'JSON': 1})}, {'outputs': None, 'format': ['csv']}, {'outputs': None, 'format': ['json']},
         {'outputs': one(Asset=['Sample', 'Statistics'], Format={'JSON': 1}), 'format': []}, {'kind': 'auto', 'detailed': 1}, {'kind': 'auto', 'detailed': 0},
         {'kind': 'auto', 'detailed': 0, 'losses': None}, {'kind': 'auto', 'detailed': 1, 'selected': {'IM': False, 'EDP': False, 'DM': False, 'DV': True}},
         {'kind': 'auto', 'detailed': 0, 'selected': {'IM': True, 'EDP': False, 'DM': True, 'DV': False}, 'format': ['csv']}]
    return [{**copy.deepcopy(base), **x} for x in c]


def from_model(ctx, runs):
    """histories of the folder in the specification"""
    rng = ctx.rng
    all = sorted(p['history'] for _, r in runs for p in r.prints if 'history' in p)
    whole = [h for h in all if len(h) == max(map(len, all))]
    for h in rng.sample(whole, min(len(whole), ctx.n(40, len(whole)))):
        base = small(rng, 'dl')
        while base.get('sampled'):
            base = small(rng, 'dl')
        many = configs(base)
        yield {'id': 'model-' + '-'.join(map(str, h)), 'runs': [many[c - 1] for c in h]}


def observe(inp):
    return dlcalc.play(inp)


def nontrivial(c):
    return len(c['in']['runs']) > 1


def to_tla(c):
    return {'id': c['id'], 'in': {'runs': [dlcalc.spec(r) for r in c['in']['runs']]}, 'obs': c['obs']}
