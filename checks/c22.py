"""C22: user settings, defaults, isolation of assessments."""
import contextlib
import copy
import io
import math

import numpy as np

import pel

TITLE = 'settings'
RULE = ('random nested settings merged with random and with the real defaults; sequences of path lookups, updates and tests on random trees; '
        'sequences of changes to the settings the caller keeps, creations of assessments from them, changes inside an assessment, runs, reseeding and '
        'random draws; non-trivial when a user setting meets a nested default, a path has several levels, or two assessments exist')
MC = [{'module': 'OptionsMC', 'cfg': 'OptionsMC_q.cfg', 'tier': 'quick', 'must_take': ['Change', 'Create', 'Set', 'Draw', 'Reseed']},
      {'module': 'OptionsMC', 'cfg': 'OptionsMC_t.cfg', 'tier': 'thorough', 'must_take': ['Change', 'Create', 'Set', 'Draw', 'Reseed'], 'timeout': 1800}]
JUDGE = 'OptionsJudge'
EXC_IN_SPEC = True
ASSUMPTIONS = ['keys contain no slash and are not empty', 'the settings of an assessment are read from the attributes of its options']


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    i = c['in']
    return (i['kind'] == 'merge' and any(isinstance(v, dict) for v in i['user'].values())) or (
        i['kind'] == 'paths' and any(len(o['path']) > 1 for o in i['ops'])) or (
        i['kind'] == 'assess' and sum(s['act'] == 'create' for s in i['steps']) > 1)


VALUES = {'none': None, 'nan': float('nan'), 'emptylist': [], 'emptygroup': {}, 'true': True, 'false': False, 'list1': ['a'], 'list2': ['a', 'b'],
          'listnone': [None], 'listlist': [['a', 1], []], 'nums': [1.5, float('nan')], 's:': '', 's:x': 'x', 's:a/b': 'a/b', 'n:0': 0, 'n:1': 1, 'n:2': 2,
          'n:3': 3, 'n:-1': -1, 'n:1.5': 1.5, 'n:0.25': .25, 's:LHS': 'LHS', 's:LHS_midpoint': 'LHS_midpoint', 's:MonteCarlo': 'MonteCarlo'}


def code(v):
    if v is None:
        return 'none'
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, (int, float, np.number)):
        return 'nan' if math.isnan(v) else f'n:{v:g}'
    if isinstance(v, str):
        return f's:{v}'
    if isinstance(v, list):
        for k in ('emptylist', 'list1', 'list2', 'listnone', 'listlist', 'nums'):
            if repr(VALUES[k]) == repr(v):
                return k
    return f'?{v!r}'


def real(t):
    """The tree with codes for values as a dictionary"""
    return {k: real(v) if isinstance(v, dict) else copy.deepcopy(VALUES[v]) for k, v in t.items()}


def paths(d, pre=()):
    leaves, groups = [], []
    for k, v in d.items():
        p = [*pre, str(k)]
        if isinstance(v, dict):
            groups.append(p)
            sub = paths(v, p)
            leaves += sub['leaves']
            groups += sub['groups']
        else:
            leaves.append({'path': p, 'val': code(v)})
    return {'leaves': leaves, 'groups': groups}


LEAF = ['none', 'true', 'false', 'list2', 's:x', 'n:0', 'n:1', 'n:1.5', 'emptylist', 'nan', 'list1', 's:', 'listnone', 'listlist', 'nums', 's:a/b']


def tree(rng, depth=3, width=3):
    out = {}
    for k in rng.sample('abcd', rng.randint(0, width)):
        out[k] = tree(rng, depth - 1, width) if depth > 1 and rng.random() < .5 else rng.choice(LEAF)
    return out


def mutate(rng, t):
    """A tree that shares much of t"""
    out = {}
    for k, v in t.items():
        r = rng.random()
        if r < .3:
            continue
        if isinstance(v, dict):
            out[k] = mutate(rng, v) if r < .93 else rng.choice(LEAF)
        else:
            out[k] = rng.choice(LEAF) if r < .95 else tree(rng, 1)
    if rng.random() < .5:
        out[rng.choice('abcdxyz')] = rng.choice(LEAF)
    return out


SETTINGS = [(['Verbose'], ['true', 'false']), (['Seed'], ['n:1', 'n:2', 'n:3']), (['LogShowMS'], ['true', 'false']), (['DemandOffset', 'PFA'], ['n:0', 'n:-1', 'n:1']),
            (['DemandOffset', 'PFV'], ['n:0', 'n:-1']), (['DemandOffset', 'PGA'], ['n:0', 'n:1']), (['ListAllDamageStates'], ['true', 'false']),
            (['NonDirectionalMultipliers', 'ALL'], ['n:1', 'n:1.5']), (['NonDirectionalMultipliers', 'PFA'], ['n:1', 'n:2']),
            (['EconomiesOfScale', 'AcrossFloors'], ['true', 'false']), (['EconomiesOfScale', 'AcrossDamageStates'], ['true', 'false']),
            (['Sampling', 'SamplingMethod'], ['s:LHS', 's:LHS_midpoint', 's:MonteCarlo']), (['Sampling', 'SampleSize'], ['n:1', 'n:2']),
            (['RepairCostAndTimeCorrelation'], ['n:0.25', 'n:0']), (['ErrorSetup', 'Loss', 'ReplacementThreshold', 'RaiseOnUnknownKeys'], ['true', 'false']),
            (['Unknown', 'Thing'], ['s:x', 'list2']), (['DemandOffset'], ['emptygroup']), (['Sampling'], ['emptygroup']), (['NonDirectionalMultipliers'], ['emptygroup'])]
WRONG = [(['DemandOffset'], ['n:1', 'none']), (['Seed', 'Value'], ['n:1']), (['Sampling', 'SamplingMethod', 'Name'], ['s:LHS']), (['EconomiesOfScale'], ['true']),
         (['ErrorSetup', 'Loss'], ['false']), (['RepairCostAndTimeCorrelation'], ['emptygroup'])]
SEEN = ['Verbose', 'Seed', 'LogShowMS', 'DemandOffset', 'ListAllDamageStates', 'NonDirectionalMultipliers', 'EconomiesOfScale', 'Sampling',
        'RepairCostAndTimeCorrelation', 'ErrorSetup', 'UnitsFile', 'Factors']
SETTABLE = [s for s in SETTINGS if s[0][0] in ('DemandOffset', 'NonDirectionalMultipliers', 'EconomiesOfScale', 'ErrorSetup') and s[1] != ['emptygroup']] + [
    (['ListAllDamageStates'], ['true', 'false']), (['RepairCostAndTimeCorrelation'], ['n:0.25']), (['Factors', 'stone'], ['n:2', 'n:3'])]


def put(d, path, v):
    for k in path[:-1]:
        if not isinstance(d.get(k), dict):
            d[k] = {}
        d = d[k]
    d[path[-1]] = copy.deepcopy(v)


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(120, 3000)):
        t = tree(rng)
        yield {'id': f'm{i}', 'kind': 'merge', 'user': mutate(rng, t) if rng.random() < .7 else tree(rng), 'defaults': t}
    for i in range(ctx.n(60, 1500)):
        user = {}
        for p, vs in rng.sample(SETTINGS, rng.randint(0, 6)) + (rng.sample(WRONG, 1) if rng.random() < .3 else []):
            v = rng.choice(vs)
            put(user, p, {} if v == 'emptygroup' else v)
        yield {'id': f'd{i}', 'kind': 'merge', 'user': user, 'defaults': None, 'empty': rng.randint(0, 1)}
    for i in range(ctx.n(120, 3000)):
        t = tree(rng)
        flat = paths(t)
        known = [x['path'] for x in flat['leaves']] + flat['groups']
        ops = []
        for _ in range(rng.randint(1, 8)):
            p = rng.choice(known) if known and rng.random() < .6 else [rng.choice('abcd') for _ in range(rng.randint(1, 4))]
            if rng.random() < .2:
                p = [*p, rng.choice('ab')]
            ops.append({'act': rng.choice(['get', 'unspecified', 'put', 'putif', 'putif']), 'path': p, 'val': rng.choice([*LEAF, 'emptygroup']),
                        'slash': rng.randint(0, 3)})
        yield {'id': f'p{i}', 'kind': 'paths', 'tree': t, 'ops': ops}
    for i in range(ctx.n(40, 700)):
        steps, user, n = [], {}, 0
        user['Seed'] = rng.choice(['n:1', 'n:2', 'n:3'])
        start = copy.deepcopy(user)
        for _ in range(rng.randint(3, ctx.n(12, 25))):
            act = rng.choice(['change', 'create', 'set', 'draw', 'draw', 'reseed', 'run'] if n else ['change', 'create', 'create'])
            if act == 'create' and n == 3:
                continue
            if act == 'change':
                p, vs = rng.choice(WRONG) if rng.random() < .08 else rng.choice(SETTINGS)
                steps.append({'act': act, 'path': p, 'val': rng.choice(vs)})
            elif act == 'create':
                steps.append({'act': act, 'direct': rng.randint(0, 3)})
                n += 1
            elif act == 'set':
                p, vs = rng.choice(SETTABLE)
                steps.append({'act': act, 'who': rng.randint(1, n), 'path': p, 'val': rng.choice(vs)})
            elif act in ('reseed', 'run'):
                steps.append({'act': act, 'who': rng.randint(1, n), 'val': rng.choice(['n:1', 'n:2', 'n:3'])})
            else:
                steps.append({'act': act, 'who': rng.randint(1, n)})
        yield {'id': f'a{i}', 'kind': 'assess', 'user': start, 'steps': steps}


def defaults():
    from pelicun import base
    return base.load_default_options()


def plain(x):
    """a tree that can hold unexpected things"""
    return x if isinstance(x, dict) else {'not a dictionary': repr(x)}


def observe(inp):
    from pelicun import base
    if inp['kind'] == 'merge':
        user = real(inp['user'])
        if inp['defaults'] is None:
            d = defaults()
            out = {'defaults': paths(d)}
            try:
                if not user and inp.get('empty'):
                    user = None
                m = base.merge_default_config(user)
            except ValueError:
                return {**out, 'error': 1, 'merged': paths({}), 'kept': int(paths(defaults()) == paths(d))}
            return {**out, 'error': 0, 'merged': paths(m), 'kept': int(paths(defaults()) == paths(d))}
        d = real(inp['defaults'])
        before = paths(d)
        out = {'defaults': before}
        try:
            base.update_vals(user, d, 'user', 'defaults')
        except ValueError:
            return {**out, 'error': 1, 'merged': paths({}), 'kept': int(paths(d) == before)}
        return {**out, 'error': 0, 'merged': paths(user), 'kept': int(paths(d) == before)}
    if inp['kind'] == 'paths':
        d = real(inp['tree'])
        out = []
        for op in inp['ops']:
            p = '/'.join(op['path'])
            p = ('/' if op['slash'] & 1 else '') + p + ('/' if op['slash'] & 2 else '')
            v = copy.deepcopy(VALUES[op['val']])
            o = {}
            if op['act'] == 'get':
                mark = object()
                g = base.get(d, p, default=mark)
                o['got'] = {'kind': 'default' if g is mark else 'group' if isinstance(g, dict) else 'leaf', 'val': '' if g is mark or isinstance(g, dict) else code(g),
                            'sub': paths(g, op['path']) if isinstance(g, dict) else paths({})}
            elif op['act'] == 'unspecified':
                u, s = base.is_unspecified(d, p), base.is_specified(d, p)
                o['answer'] = int(bool(u)) if bool(u) != bool(s) else 9
            elif op['act'] == 'put':
                base.update(d, p, v)
            else:
                base.update(d, p, v, only_if_empty_or_none=True)
            o['tree'] = paths(d)
            out.append(o)
        return {'ops': out}
    return assessments(inp)


def options_of(a):
    o = a.options
    t = {'Verbose': o.log.verbose, 'LogShowMS': o.log.log_show_ms, 'Seed': o.seed, 'DemandOffset': o.demand_offset, 'ListAllDamageStates': o.list_all_ds,
         'NonDirectionalMultipliers': o.nondir_multi_dict, 'EconomiesOfScale': o.eco_scale, 'Sampling': {'SamplingMethod': o.sampling_method},
         'RepairCostAndTimeCorrelation': o.rho_cost_time, 'ErrorSetup': o.error_setup, 'UnitsFile': o.units_file}
    if 'stone' in a.unit_conversion_factors:
        t['Factors'] = {'stone': a.unit_conversion_factors['stone']}
    return t


def change(a, path, v):
    o = a.options
    if path[0] == 'Factors':
        a.unit_conversion_factors['stone'] = v
        return
    attr = {'ListAllDamageStates': 'list_all_ds', 'RepairCostAndTimeCorrelation': 'rho_cost_time', 'DemandOffset': 'demand_offset',
            'NonDirectionalMultipliers': 'nondir_multi_dict', 'EconomiesOfScale': 'eco_scale', 'ErrorSetup': 'error_setup'}[path[0]]
    if len(path) == 1:
        setattr(o, attr, v)
    else:
        put(getattr(o, attr), path[1:], v)


def work(a):
    """A small assessment"""
    pel.set_demand(a, ['PFA-1-1', 'PFA-2-1', 'PFA-0-1'], ['mps2'] * 3, [[2.0, 3.0, 1.0], [1.0, 1.0, 1.0]])
    a.asset.load_cmp_model({'marginals': pel.cmp_table([{'cmp': 'A', 'Units': 'ea', 'Location': '1', 'Direction': '1', 'Theta_0': 2.0, 'Family': None, 'Theta_1': None}])})
    a.asset.generate_cmp_sample(2)
    t = pel.fragility_table({'A': {'Demand': {'Type': pel.PFA, 'Unit': 'mps2', 'Offset': 0, 'Directional': 0},
                                   'LS1': {'Family': 'lognormal', 'Theta_0': 1.5, 'Theta_1': .4}}})
    a.damage.load_model_parameters([t], {'A'})
    a.damage.calculate()


def assessments(inp):
    from pelicun import assessment
    user, live, out = real(inp['user']), [], []
    for s in inp['steps']:
        o = {'error': 0, 'drawn': -1}
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                if s['act'] == 'change':
                    put(user, s['path'], VALUES[s['val']])
                elif s['act'] == 'create':
                    live.append((assessment.DLCalculationAssessment if s['direct'] == 1 else assessment.Assessment)(user))
                elif s['who'] > len(live):
                    # (a creation failed: the step is not in the trace)
                    continue
                elif s['act'] == 'set':
                    change(live[s['who'] - 1], s['path'], copy.deepcopy(VALUES[s['val']]))
                elif s['act'] == 'draw':
                    o['drawn'] = int(live[s['who'] - 1].options.rng.random() * 1e9)
                else:
                    if s['act'] == 'run':
                        work(live[s['who'] - 1])
                    live[s['who'] - 1].options.seed = VALUES[s['val']]
            except ValueError:
                o['error'] = 1
        o['step'] = s
        o['user'] = paths(user)
        o['effs'] = [paths(options_of(a)) for a in live]
        out.append(o)
    return {'steps': out, 'defaults': paths(defaults())}


STREAMS = {f'n:{s}': [int(x * 1e9) for x in np.random.default_rng(s).random(40)] for s in (1, 2, 3)}


def to_tla(c):
    i, o = dict(c['in']), dict(c['obs'])
    if 'exc' in o:
        return {'id': c['id'], 'in': {'kind': i['kind']}, 'obs': o}
    if i['kind'] == 'merge':
        return {'id': c['id'], 'in': {'kind': 'merge', 'user': paths(real(i['user'])), 'defaults': o.pop('defaults')}, 'obs': o}
    if i['kind'] == 'paths':
        return {'id': c['id'], 'in': {'kind': 'paths', 'tree': paths(real(i['tree'])), 'ops': i['ops']}, 'obs': o}
    steps = [s.pop('step') for s in (dict(x) for x in o['steps'])]
    return {'id': c['id'], 'in': {'kind': 'assess', 'user': paths(real(i['user'])), 'defaults': o['defaults'], 'steps': steps, 'seen': SEEN, 'streams': STREAMS},
            'obs': {'steps': o['steps']}}
