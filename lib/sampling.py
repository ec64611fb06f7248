"""Random variables of registries and models, and reference distributions to read strata off their samples."""
from __future__ import annotations

import math

import numpy as np

CONT = ['normal_std', 'normal', 'normal_cov', 'lognormal', 'uniform', 'weibull', 'multilinear_CDF']


def phi(z):
    return 0.5 * math.erfc(-z / math.sqrt(2))


def raw_cdf(fam, th, x):
    if fam == 'normal_std':
        return phi((x - th[0]) / th[1])
    if fam in ('normal', 'normal_cov'):
        return phi((x - th[0]) / (abs(th[0]) * th[1]))
    if fam == 'lognormal':
        return 0.0 if x <= 0 else phi(math.log(x / th[0]) / th[1])
    if fam == 'uniform':
        return min(max((x - th[0]) / (th[1] - th[0]), 0.0), 1.0)
    if fam == 'weibull':
        return 0.0 if x <= 0 else -math.expm1(-(x / th[0]) ** th[1])
    if fam == 'multilinear_CDF':
        return float(np.interp(x, [p[0] for p in th], [p[1] for p in th]))
    raise ValueError(fam)


def cdf(fam, th, trunc, x):
    lo, hi = trunc
    pa = 0.0 if lo is None else raw_cdf(fam, th, lo)
    pb = 1.0 if hi is None else raw_cdf(fam, th, hi)
    return (raw_cdf(fam, th, x) - pa) / (pb - pa)


def support(fam, th, trunc):
    if fam == 'multilinear_CDF':
        return th[0][0], th[-1][0]
    lo, hi = {'lognormal': (0.0, math.inf), 'weibull': (0.0, math.inf), 'uniform': (th[0], th[-1])}.get(fam, (-math.inf, math.inf))
    if trunc[0] is not None:
        lo = max(lo, trunc[0])
    if trunc[1] is not None:
        hi = min(hi, trunc[1])
    return lo, hi


def theta_of(v, r):
    return v['theta'][r] if v.get('rows') else v['theta']


def us(v, values):
    """probability level of every value (nan when not a number)"""
    out = []
    for r, x in enumerate(values):
        out.append(math.nan if not math.isfinite(x) else cdf(v['fam'], theta_of(v, r), v['trunc'], x))
    return out


def strata(u, n):
    """(stratum, place in it in thousandths) per realization; -1: not in (0, 1)"""
    s, mid = [], []
    for p in u:
        if not (-1e-9 <= p <= 1 + 1e-9):
            s.append(-1)
            mid.append(-1)
            continue
        k = min(max(int(math.floor(p * n)), 0), n - 1)
        s.append(k)
        mid.append(int(round(1000 * (p * n - k))))
    return s, mid


def ranks(u):
    return [int(x) for x in np.argsort(np.argsort(np.array(u), kind='stable'), kind='stable')]


def outside(v, values):
    out = 0
    for r, x in enumerate(values):
        lo, hi = support(v['fam'], theta_of(v, r), v['trunc'])
        tol = 1e-9 * max([1.0] + [abs(b) for b in (lo, hi) if math.isfinite(b)])
        out += not (math.isfinite(x) and lo - tol <= x <= hi + tol)
    return int(out)


def random_cont(rng, fam=None, n=None, rows=False, trunc=True):
    """a continuous variable with a random distribution and truncation limits that leave it some probability"""
    fam = fam or rng.choice(CONT)

    def theta():
        if fam == 'normal_std':
            return [rng.choice([-1, 1, 0]) * rng.randint(1, 40) / 4, rng.randint(1, 20) / 5]
        if fam in ('normal', 'normal_cov'):
            return [rng.choice([-1, 1, 1]) * rng.randint(1, 40) / 4, rng.randint(1, 12) / 10]
        if fam == 'lognormal':
            return [rng.randint(1, 60) / 8, rng.randint(1, 16) / 10]
        if fam == 'uniform':
            a = rng.randint(-20, 20) / 4
            return [a, a + rng.randint(1, 40) / 4]
        if fam == 'weibull':
            return [rng.randint(1, 30) / 4, rng.randint(2, 30) / 5]
        k = rng.randint(1, 4)
        xs = sorted(rng.sample(range(-20, 40), k + 1))
        ys = [0, *sorted(rng.sample(range(1, 20), k - 1)), 20]
        return [[x / 2, y / 20] for x, y in zip(xs, ys)]

    th = theta()
    v = {'fam': fam, 'theta': th, 'trunc': [None, None], 'rows': 0}
    if rows and fam in ('normal_std', 'normal', 'normal_cov', 'lognormal'):
        v['rows'] = 1
        v['theta'] = [theta() for _ in range(n)]
    if trunc and fam != 'multilinear_CDF' and not v['rows'] and rng.random() < .6:
        med = {'uniform': (th[0] + th[-1]) / 2}.get(fam, th[0])
        sd = {'normal_std': th[1], 'normal': abs(th[0]) * th[1], 'normal_cov': abs(th[0]) * th[1], 'uniform': (th[-1] - th[0]) / 2}.get(fam, abs(th[0]))
        side = rng.choice(['lo', 'hi', 'both', 'both'])
        if side != 'hi':
            v['trunc'][0] = med + sd * rng.choice([-3, -1.5, -.9, -.25, .25, .5])
        if side != 'lo':
            v['trunc'][1] = (v['trunc'][0] if v['trunc'][0] is not None else med) + sd * rng.choice([.5, 1, 2, 4])
        lo, hi = (support(fam, th, [None, None])[i] if b is None else b for i, b in enumerate(v['trunc']))
        pa, pb = (0.0 if v['trunc'][0] is None else raw_cdf(fam, th, lo)), (1.0 if v['trunc'][1] is None else raw_cdf(fam, th, hi))
        if pb - pa < .03 or pa > .97:
            v['trunc'] = [None, None]
    return v


def make(v, name, anchor=None, fmap=None):
    from pelicun import uq
    kw = {'name': name}
    if anchor is not None:
        kw['anchor'] = anchor
    if fmap:
        a, b = fmap
        kw['f_map'] = lambda x: a * x + b
    if any(t is not None for t in v['trunc']):
        kw['truncation_limits'] = np.array([math.nan if t is None else t for t in v['trunc']], dtype=float)
    return uq.rv_class_map(v['fam'])(theta=np.array(v['theta'], dtype=float), **kw)


# ---------------------------------------------------------------- registries
def random_vars(rng, n, prop):
    """variables of a registry and the groups of a correlated set"""
    out = []
    k = rng.randint(2, 7)
    for i in range(k):
        p = rng.random()
        if p < .62:
            v = random_cont(rng, n=n, rows=rng.random() < .15)
            v['kind'] = 'cont'
        elif p < .74:
            d = rng.choice([10, 20, 7, 100])
            m = rng.randint(1, 4)
            cuts = sorted(rng.randint(0, d) for _ in range(m))
            w = [b - a for a, b in zip([0, *cuts], cuts)]
            if rng.random() < .6:
                w.append(d - sum(w))
            v = {'kind': 'cats', 'fam': 'multinomial', 'w': w, 'D': d, 'theta': [x / d for x in w], 'trunc': [None, None]}
        elif p < .84:
            m = rng.randint(1, 9)
            v = {'kind': 'index', 'fam': 'empirical', 'w': [1] * m, 'D': m, 'theta': [100 * i + 7 * x for x in rng.sample(range(1, 14), m)], 'trunc': [None, None]}
        elif p < .93:
            m = rng.randint(1, 9)
            v = {'kind': 'raw', 'fam': 'coupled_empirical', 'D': m, 'theta': [100 * i + 7 * x for x in rng.sample(range(1, 14), m)], 'trunc': [None, None]}
        else:
            v = {'kind': 'const', 'fam': 'deterministic', 'theta': [rng.randint(-9, 9)], 'trunc': [None, None]}
        v.update(name=f'{rng.choice(["b", "a", "C", "Z", "EDP-1-"])}{rng.randint(0, 99)}-{i}', anchor=0, group=0, sign=1,
                 fmap=[rng.choice([2, -3, .5]), rng.randint(-4, 4)] if rng.random() < .25 else None)
        v.setdefault('w', [])
        v.setdefault('D', 1)
        out.append(v)
    # anchors point to earlier variables of any kind with a uniform sample
    for i, v in enumerate(out):
        cand = [j for j in range(i) if out[j]['kind'] in ('cont', 'cats', 'index')]
        if v['kind'] in ('cont', 'cats', 'index') and cand and rng.random() < (.5 if prop == 'C15' else .25):
            v['anchor'] = rng.choice(cand) + 1
    free = [v for v in out if v['kind'] in ('cont', 'cats', 'index') and not v['anchor']]
    groups = 0
    if len(free) > 1 and rng.random() < (.7 if prop == 'C15' else .4):
        members = rng.sample(free, rng.randint(2, len(free)))
        groups = rng.choice([1, 1, 2, len(members)])
        for i, v in enumerate(members):
            v['group'] = i + 1 if i < groups else rng.randint(1, groups)
            v['sign'] = rng.choice([1, -1])
        if groups == len(members):
            groups = 1      # uncorrelated: nothing is mixed
            for i, v in enumerate(members):
                v['group'] = 0
                v['lone'] = i + 1
    return out, groups


def build(inp, order, seed):
    from pelicun import uq
    reg = uq.RandomVariableRegistry(np.random.default_rng(seed))
    objs = {}

    def get(i):
        if i not in objs:
            v = inp['vars'][i]
            objs[i] = make(v, v['name'], get(v['anchor'] - 1) if v['anchor'] else None, v['fmap'])
        return objs[i]
    for i in order:
        reg.add_RV(get(i))
    members = [i for i in order if inp['vars'][i]['group'] or inp['vars'][i].get('lone')]
    if len(members) > 1:
        import random
        random.Random(len(order) * 31 + inp['n']).shuffle(members)
        vs = [inp['vars'][i] for i in members]
        key = lambda v: v['group'] or 100 + v.get('lone', 0)
        rho = np.array([[float(a['sign'] * b['sign']) if key(a) == key(b) else 0.0 for b in vs] for a in vs])
        for i in range(len(vs)):
            rho[i, i] = 1.0
        reg.add_RV_set(uq.RandomVariableSet('set', [objs[i] for i in members], rho))
    if inp['n'] % 3:
        # an earlier sample leaves nothing behind
        reg.generate_sample(inp['n'], 'LHS')
        for rv in reg.RV.values():
            rv.sample, rv.sample_DF  # noqa: B018
    reg.generate_sample(inp['n'], inp['method'])
    return reg


def plain(v, x):
    a, b = v['fmap'] or (1, 0)
    return [(float(y) - b) / a for y in x]


def see(inp, reg, order=None):
    n = inp['n']
    out = []
    table = reg.RV_sample
    for v in inp['vars']:
        rv = reg.RV[v['name']]
        first = [float(x) for x in rv.sample]
        ways = [rv.sample, table[v['name']], rv.sample_DF.to_numpy(), reg.RVs([v['name']])[v['name']].sample]
        if rv.RV_set is not None:
            ways.append(rv.RV_set.sample[v['name']])
        same = all(len(x) == n and np.allclose(np.array(x, dtype=float), first, rtol=1e-12, equal_nan=True) for x in ways)
        val = plain(v, first)
        o = {'s': [], 'mid': [], 'out': 0, 'rank': [], 'c': [], 'same': int(same), 'again': 1, 'cdf': 1}
        if v['kind'] == 'cont':
            u = us(v, val)
            o['s'], o['mid'] = strata(u, n)
            o['rank'] = ranks(u)
            o['out'] = outside(v, val)
            # the distribution function of the variable, at its values, outside its support and between
            c = rv.cdf(np.array(val))
            o['cdf'] = int(all(abs(x - y) < 1e-7 for x, y in zip(c, u)))
            if not v.get('rows'):
                lo, hi = support(v['fam'], v['theta'], v['trunc'])
                pts = [x for x in (lo - 1.0, hi + 1.0) if math.isfinite(x)]
                c = rv.cdf(np.array(pts)) if pts else []
                o['cdf'] = int(o['cdf'] and all(abs(float(y) - (0.0 if x < lo else 1.0)) < 1e-7 for x, y in zip(pts, c)))
        elif v['kind'] == 'cats':
            o['c'] = [int(round(x)) + 1 if abs(x - round(x)) < 1e-9 else -1 for x in val]
        elif v['kind'] in ('index', 'raw'):
            pos = {float(t): j + 1 for j, t in enumerate(v['theta'])}
            o['c'] = [next((j for t, j in pos.items() if abs(t - x) < 1e-6), -1) for x in val]
        else:
            o['c'] = [int(abs(x - v['theta'][0]) < 1e-9) for x in val]
        out.append(o)
    return out


def observe_registry(inp):
    k = len(inp['vars'])
    order = inp['order']
    out = see(inp, build(inp, order, inp['seed']))
    again = build(inp, order, inp['seed'])
    one = build(inp, order, inp['seed'])
    for v, o in zip(inp['vars'], out):
        x, y = (np.array(r.RV[v['name']].sample, dtype=float) for r in (one, again))
        o['again'] = int(np.array_equal(x, y, equal_nan=True))
    return {'v': out, 'k': k}


def observe_model(inp):
    """one variable per component quantity or demand: the marginals pass through the model and its units"""
    import pandas as pd
    import pel
    n = inp['n']
    a = pel.assessment(Seed=inp['seed'], Sampling={'SamplingMethod': inp['method']})
    rows = []
    for v in inp['vars']:
        th = v['theta']
        f = v['unit'][1]
        # positions scale with the unit, relative dispersions do not
        r = {'Units': v['unit'][0], 'Family': v['fam'] if v['fam'] != 'deterministic' else None, 'Theta_0': th[0] / f,
             'Theta_1': None if len(th) < 2 else th[1] / f if v['fam'] in ('normal_std', 'uniform') else th[1],
             'TruncateLower': None if v['trunc'][0] is None else v['trunc'][0] / f,
             'TruncateUpper': None if v['trunc'][1] is None else v['trunc'][1] / f}
        rows.append(r)
    df = pd.DataFrame(rows)
    for c in ('Theta_1', 'TruncateLower', 'TruncateUpper'):
        df[c] = df[c].astype(float)
        if df[c].isna().all() and inp['seed'] % 2:
            df = df.drop(columns=c)
    if inp['where'] == 'asset':
        df.index = [v['name'] for v in inp['vars']]
        df['Location'] = 1
        df['Direction'] = 1
        df['Blocks'] = 1
        a.asset.load_cmp_model({'marginals': df})
        a.asset.generate_cmp_sample(n)
        s = a.asset.save_cmp_sample()
        col = lambda v: next(c for c in s.columns if c[0] == v['name'])
        units = a.asset.cmp_units
        vals = [[float(x) for x in a.asset.cmp_sample[next(c for c in a.asset.cmp_sample.columns if c[0] == v['name'])]] for v in inp['vars']]
    else:
        df.index = pd.MultiIndex.from_tuples([tuple(v['name'].split('-')) for v in inp['vars']], names=['type', 'loc', 'dir'])
        a.demand.load_model({'marginals': df})
        a.demand.generate_sample({'SampleSize': n})
        s = a.demand.sample
        vals = [[float(x) for x in s[tuple(v['name'].split('-'))]] for v in inp['vars']]
    out = []
    for v, val in zip(inp['vars'], vals):
        o = {'s': [], 'mid': [], 'out': 0, 'rank': [], 'c': [], 'same': int(len(val) == n), 'again': 1, 'cdf': 1}
        if v['kind'] == 'cont':
            u = us(v, val)
            o['s'], o['mid'] = strata(u, n)
            o['rank'] = ranks(u)
            o['out'] = outside(v, val)
        else:
            o['c'] = [int(abs(x - v['theta'][0]) < 1e-9 * max(1, abs(v['theta'][0]))) for x in val]
        out.append(o)
    return {'v': out, 'k': len(out)}
