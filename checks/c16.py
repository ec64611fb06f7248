"""C16: samples follow their marginal distribution."""
import sampling

TITLE = 'marginal distributions of samples'
RULE = ('registries of up to seven random variables of all families with parameters that are constant or given per realization, truncation '
        'limits, maps, anchors and correlated sets, and component quantities and demands sampled through their models; non-trivial when some '
        'variable is truncated, mapped, discrete or anchored')
MC = [{'module': 'SamplingMC', 'cfg': 'SamplingMC_q.cfg', 'tier': 'quick', 'must_take': ['Register', 'Draw', 'Transform']},
      {'module': 'SamplingMC', 'cfg': 'SamplingMC_t.cfg', 'tier': 'thorough', 'must_take': ['Register', 'Draw', 'Transform'], 'timeout': 3000}]
JUDGE = 'SamplingJudge'
EXC_IN_SPEC = True
PROP = 'C16'
ASSUMPTIONS = ['strata are read off with reference distribution functions built from math.erfc, exp and linear interpolation',
               'in a set with correlation coefficients other than +1 and -1 the strata of latin hypercube sampling are mixed, so only the limits are judged there',
               'truncation limits leave at least three percent of the probability']


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    return any(v['kind'] != 'cont' or v['fmap'] or v['anchor'] or v['trunc'] != [None, None] for v in c['in']['vars'])


def registries(ctx, prop, count):
    rng = ctx.rng
    for i in range(count):
        n = rng.choice([1, 2, 3, 5, 8, 12, 13, 20, 31, 40])
        vs, groups = sampling.random_vars(rng, n, prop)
        order = list(range(len(vs)))
        rng.shuffle(order)
        yield {'id': f'r{i}', 'prop': prop, 'kind': 'reg', 'where': 'registry', 'n': n, 'vars': vs, 'groups': groups, 'order': order,
               'method': rng.choice(['LHS', 'LHS', 'LHS_midpoint', 'MonteCarlo']), 'seed': rng.randint(1, 10 ** 6)}


UNITS = {'asset': [('ea', 1.0), ('m2', 1.0), ('ft2', .3048 ** 2), ('ft', .3048), ('kg', 1.0), ('ton', 1000.0)],
         'demand': [('mps2', 1.0), ('g', 9.80665), ('inps2', .0254), ('ftps2', .3048)]}


def models(ctx, prop, count):
    rng = ctx.rng
    for i in range(count):
        where = rng.choice(['asset', 'demand'])
        n = rng.choice([3, 5, 8, 12, 20])
        vs = []
        names = [f'{t}-{l}-{d}' for t in ('PFA', 'PGA', 'SA_1.0') for l in (1, 2, 10) for d in (1, 2)] if where == 'demand' else ['B', 'A.1', 'C22', 'D', 'a', 'Z.1.2.3', 'E']
        for name in rng.sample(names, rng.randint(1, 5)):
            if rng.random() < .15:
                v = {'kind': 'const', 'fam': 'deterministic', 'theta': [rng.randint(1, 9)], 'trunc': [None, None]}
            else:
                v = sampling.random_cont(rng, rng.choice(['normal', 'normal_cov', 'normal_std', 'lognormal', 'lognormal', 'uniform']))
                v['kind'] = 'cont'
            v.update(name=name, anchor=0, group=0, sign=1, fmap=None, w=[], D=1, unit=rng.choice(UNITS[where]))
            vs.append(v)
        yield {'id': f'm{i}', 'prop': prop, 'kind': 'reg', 'where': where, 'n': n, 'vars': vs, 'groups': 0, 'order': [],
               'method': rng.choice(['LHS', 'LHS', 'LHS_midpoint', 'MonteCarlo']), 'seed': rng.randint(1, 10 ** 6)}


def cases(ctx):
    yield from registries(ctx, PROP, ctx.n(260, 6000))
    yield from models(ctx, PROP, ctx.n(120, 2500))


def observe(inp):
    return sampling.observe_registry(inp) if inp['where'] == 'registry' else sampling.observe_model(inp)
