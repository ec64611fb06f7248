"""C15: joint samples: seeds, ranks, anchors and coupling."""
import numpy as np
import pandas as pd

import c16
import pel
import sampling
import sub

TITLE = 'joint samples'
RULE = ('registries of random variables in any order of registration with chains of anchors, groups of perfectly (anti-)correlated variables '
        'and coupled empirical ones; correlated sets and demand models with general correlation matrices; whole calculations repeated in this and '
        'in other interpreters; non-trivial when some variables depend on others or a calculation is repeated')
MC = c16.MC
JUDGE = 'SamplingJudge'
EXC_IN_SPEC = True
PROP = 'C15'
ASSUMPTIONS = ['a correlation coefficient other than 0, +1 and -1 is judged on 4000 realizations within 0.09',
               'repeated calculations are compared by digests of values rounded to seven digits']


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    i = c['in']
    return i['kind'] != 'reg' or any(v['anchor'] or v['group'] or v['kind'] == 'raw' for v in i['vars'])


def matrix(rng, k):
    """a positive definite matrix with different entries"""
    r = np.random.default_rng(rng.randint(0, 10 ** 6))
    while True:
        f = r.normal(size=(k, 2))
        m = f @ f.T + np.diag(r.uniform(.05, .6, k))
        d = np.sqrt(np.diag(m))
        m = np.round(m / np.outer(d, d), 2)
        if np.linalg.eigvalsh(m).min() > .02:
            return m.tolist()


def cases(ctx):
    rng = ctx.rng
    yield from c16.registries(ctx, PROP, ctx.n(260, 6000))
    for i in range(ctx.n(24, 300)):
        k = rng.randint(2, 5)
        where = rng.choice(['registry', 'demand', 'demand'])
        names = rng.sample([f'{t}-{l}-{d}' for t in ('PFA', 'PGA', 'SA_1.0') for l in (1, 2, 10) for d in (1, 2)], k)
        vs = []
        for nm in names:
            v = sampling.random_cont(rng, rng.choice(['normal_std', 'normal', 'lognormal', 'uniform']))
            v['name'] = nm
            vs.append(v)
        yield {'id': f'p{i}', 'prop': PROP, 'kind': 'pairs', 'where': where, 'n': 4000, 'size': k, 'vars': vs, 'rho': matrix(rng, k),
               'method': rng.choice(['LHS', 'MonteCarlo']), 'seed': rng.randint(1, 10 ** 6), 'shuffle': rng.sample(range(k), k),
               'columns': rng.sample(range(k), k)}
    for i in range(ctx.n(3, 20)):
        yield {'id': f'w{i}', 'prop': PROP, 'kind': 'repeat', 'where': 'workflow', 'n': 12, 'seed': rng.randint(1, 1000), 'method': rng.choice(['LHS', 'MonteCarlo']),
               'cal': rng.randint(1, 3), 'vars': []}


def observe_pairs(inp):
    n, k = inp['n'], inp['size']
    rho = np.array(inp['rho'])
    if inp['where'] == 'registry':
        from pelicun import uq
        reg = uq.RandomVariableRegistry(np.random.default_rng(inp['seed']))
        objs = [sampling.make(v, v['name']) for v in inp['vars']]
        for j in inp['shuffle']:
            reg.add_RV(objs[j])
        reg.add_RV_set(uq.RandomVariableSet('s', objs, rho))
        reg.generate_sample(n, inp['method'])
        vals = [list(reg.RV[v['name']].sample) for v in inp['vars']]
    else:
        a = pel.assessment(Seed=inp['seed'], Sampling={'SamplingMethod': inp['method']})
        idx = pd.MultiIndex.from_tuples([tuple(v['name'].split('-')) for v in inp['vars']], names=['type', 'loc', 'dir'])
        m = pd.DataFrame([{'Units': 'mps2', 'Family': v['fam'], 'Theta_0': float(v['theta'][0]), 'Theta_1': float(v['theta'][1]),
                           'TruncateLower': np.nan if v['trunc'][0] is None else v['trunc'][0],
                           'TruncateUpper': np.nan if v['trunc'][1] is None else v['trunc'][1]} for v in inp['vars']], index=idx)
        c = pd.DataFrame(rho, index=idx, columns=idx)
        c = c.iloc[:, inp['columns']].iloc[inp['shuffle'], :]
        a.demand.load_model({'marginals': m.iloc[inp['shuffle']], 'correlation': c})
        a.demand.generate_sample({'SampleSize': n})
        vals = [list(a.demand.sample[t]) for t in idx]
    from statistics import NormalDist
    z = []
    for v, x in zip(inp['vars'], vals):
        u = np.clip(sampling.us(v, x), 1e-12, 1 - 1e-12)
        z.append([NormalDist().inv_cdf(p) for p in u])
    got = np.corrcoef(z)
    return {'pairs': [{'want': int(round(100 * rho[i, j])), 'got': int(round(100 * got[i, j]))} for i in range(k) for j in range(i)]}


def whole(inp):
    """a complete calculation; the digest of every sample on the way"""
    import workflow
    p = workflow.Player()
    p.a.options.sampling_method = inp['method']
    real = p.do
    out = []

    def do(a, v=1, w=1):
        real({'a': a, 'v': v, 'w': w})
    seeds = inp['seed']
    import pelicun.assessment
    a = p.a
    a.options.seed = seeds
    a.demand.load_sample(workflow._demand(1))
    a.demand.calibrate_model(workflow.CAL[inp['cal']])
    a.demand.generate_sample({'SampleSize': inp['n'], 'PreserveRawOrder': False, 'DemandCloning': {'PFA-1-1': ['PFA-1-1', 'PFA-9-1']}})
    out.append(workflow.digest(a.demand.sample))
    a.demand.estimate_RID_and_adjust_sample({'yield_drift': 0.01})
    out.append(workflow.digest(a.demand.sample))
    a.asset.load_cmp_model(workflow._assets(2))
    a.asset.generate_cmp_sample(inp['n'])
    out.append(workflow.digest(a.asset.cmp_sample))
    a.damage.load_model_parameters([workflow._frag(1)], set(a.asset.list_unique_component_ids()), warn_missing=False)
    a.damage.calculate(None)
    out.append(workflow.digest(a.damage.save_sample()))
    a.loss.decision_variables = ('Cost', 'Time')
    a.loss.add_loss_map(workflow._map(1, 2))
    a.loss.load_model_parameters(workflow._cons(1))
    a.loss.calculate()
    out.append(workflow.digest(a.loss.ds_model.sample))
    out.append(workflow.digest(a.loss.lf_model.sample))
    out.append(workflow.digest(a.loss.aggregate_losses()))
    return out


def observe_repeat(inp):
    runs = [whole(inp), whole(inp)]
    for h in (1, 2, 77):
        r = sub.run('c15', 'whole', [inp], h)[0]
        runs.append(r if isinstance(r, list) else [r['exc']])
    return {'digests': runs}


def observe(inp):
    if inp['kind'] == 'reg':
        return sampling.observe_registry(inp)
    return observe_pairs(inp) if inp['kind'] == 'pairs' else observe_repeat(inp)
