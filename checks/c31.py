"""C31: a calibrated demand model is the fit of the greatest likelihood, whatever the units and the order of the data."""
import contextlib
import io
import math

import numpy as np
import pandas as pd

import pel

TITLE = 'maximum likelihood'
RULE = ('realizations of one to three lognormal and normal demands with or without truncation and censoring limits, rendered several times: '
        'with other magnitudes and units, realizations and demands in other orders, every realization twice; '
        'non-trivial when there are limits or more than one demand')
MC = [{'module': 'FitMC', 'cfg': 'FitMC_q.cfg', 'tier': 'quick', 'must_take': ['Observe', 'Guess', 'Climb', 'Move', 'Mirror', 'Repeat', 'Look', 'Reorder']},
      {'module': 'FitMC', 'cfg': 'FitMC_t.cfg', 'tier': 'thorough', 'must_take': ['Observe', 'Guess', 'Climb', 'Move', 'Mirror', 'Repeat', 'Look', 'Reorder'],
       'timeout': 1500}]
JUDGE = 'FitJudge'
EXC_IN_SPEC = True
ASSUMPTIONS = ['data whose likelihood has its maximum at reasonable parameters (within three standard deviations of the data)',
               'no value lies exactly at a limit',
               'when some of several demands are censored, only the agreement of the renderings is judged, not the joint likelihood']
NONE = -1000000
UNITS = {'mm': .001, 'cm': .01, 'm': 1., 'in': .0254, 'ft': .3048}
BASES = [.003, .02, .4, 1., 7., 60., 400.]
TYPES = ['SD', 'PFD', 'PGD']
LIMITS = {'cl': 'CensorLower', 'cu': 'CensorUpper', 'tl': 'TruncateLower', 'tu': 'TruncateUpper'}


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    return len(c['in']['lim']) > 1 or any(v != NONE for v in c['in']['lim'][0].values())


def beyond(x, lo, hi):
    return (lo != NONE and x <= lo) or (hi != NONE and x >= hi)


def well_posed(y, lost, lim):
    """Whether the likelihood has its maximum near the data."""
    from scipy.optimize import minimize
    from scipy.stats import norm
    y = np.array(y, float)
    m0, s0 = y.mean(), y.std()

    def nll(p):
        m, s = m0 + p[0] * s0, s0 * math.exp(p[1])

        def mass(lo, hi):
            return (norm.cdf((hi - m) / s) if hi != NONE else 1) - (norm.cdf((lo - m) / s) if lo != NONE else 0)
        t = mass(lim['tl'], lim['tu'])
        cl = lim['cl'] if lim['tl'] == NONE else max(lim['cl'], lim['tl'])
        cu = min([v for v in (lim['cu'], lim['tu']) if v != NONE], default=NONE)
        out = t - mass(cl, cu)
        if t < 1e-9 or (lost and out < 1e-9):
            return 1e9
        v = (((y - m) / s) ** 2).sum() / 2 + len(y) * math.log(s) + (len(y) + lost) * math.log(t)
        return v - (lost * math.log(out) if lost else 0)
    o = minimize(nll, [0, 0], method='Nelder-Mead', options={'maxiter': 400})
    t = abs(o.x[0]) < 1.5 and abs(o.x[1]) < .9
    return bool(o.success and t)


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(150, 2500)):
        ncol = rng.choice([1, 1, 1, 2, 2, 3])
        for _try in range(200):
            fams = [rng.choice(['lognormal', 'normal', 'normal_std', 'normal_cov']) for _ in range(ncol)]
            n = rng.choice([2, 5, 12, 25, 40]) if rng.random() < .25 else rng.randint(20, 40)
            r = np.random.default_rng(rng.randint(0, 10 ** 6))
            common = r.normal(size=(n, 1))
            z = r.normal(size=(n, 1)) if ncol == 1 else rng.choice([.5, .7, -.6]) * common * np.where(np.arange(ncol) == 1, -1, 1) + .75 * r.normal(size=(n, ncol))
            raw = [[int(round((0 if f == 'lognormal' else 2000) + 400 * v)) for f, v in zip(fams, row)] for row in z]
            limited = n >= 12 and rng.random() < .8
            censor = limited and ncol < 3 and rng.random() < .6
            lim = []
            for c in range(ncol):
                q = sorted(row[c] for row in raw)
                e = {'tl': NONE, 'tu': NONE, 'cl': NONE, 'cu': NONE}
                if limited:
                    whole = censor and ncol > 1
                    if not whole and rng.random() < .4:
                        e['tl'] = rng.choice([q[0] - rng.randint(20, 150), q[1] - 20])
                    if not whole and rng.random() < .4:
                        e['tu'] = rng.choice([q[-1] + rng.randint(20, 150), q[-2] + 20])
                    if censor and rng.random() < .5:
                        e['cl'] = q[rng.randint(1, max(1, n // 7))] - 1
                    if censor and rng.random() < .6:
                        e['cu'] = rng.choice([q[-1 - rng.randint(1, max(1, n // 6))] + 1, q[-1] + 10])
                lim.append(e)
            if any(beyond(v, e['tl'], e['tu']) for e in lim for v in (e['cl'], e['cu']) if v != NONE):
                continue
            if any(v in e.values() or any(t != NONE and abs(v - t) < 20 for t in (e['tl'], e['tu'])) for row in raw for v, e in zip(row, lim)):
                continue
            lost = [row for row in raw if any(beyond(v, e['cl'], e['cu']) for v, e in zip(row, lim))]
            kept = [row for row in raw if row not in lost and not any(beyond(v, e['tl'], e['tu']) for v, e in zip(row, lim))]
            if len(kept) < max(2, n // 2) or min(len({row[c] for row in kept}) for c in range(ncol)) < 2:
                continue
            if limited and not all(well_posed([row[c] for row in kept], len(lost) if ncol == 1 else 0, e) for c, e in enumerate(lim)):
                continue
            break
        else:
            continue
        ways = []
        for w in range(rng.choice([2, 3, 3, 4])):
            order, cols = list(range(n)), list(range(ncol))
            if w:
                rng.shuffle(order)
                rng.shuffle(cols)
            ways.append({'base': [rng.choice(BASES) for _ in range(ncol)], 'unit': [rng.choice(list(UNITS)) for _ in range(ncol)],
                         'limunit': [rng.choice(list(UNITS)) for _ in range(ncol)], 'order': order * (2 if w and rng.random() < .3 else 1), 'cols': cols,
                         'fams': [f if f == 'lognormal' or not w else rng.choice(['normal', 'normal_std', 'normal_cov']) for f in fams]})
        yield {'id': f'm{i}', 'raw': raw, 'lim': lim, 'ways': ways}


def value(y, fam, base):
    return base * (math.exp(y / 1000) if fam == 'lognormal' else y / 1000)


def fit(inp, way):
    cols = way['cols']
    names = [f'{TYPES[c]}-1-1' for c in cols]
    table = [[value(inp['raw'][r][c], way['fams'][c], way['base'][c]) / UNITS[way['unit'][c]] for c in cols] for r in way['order']]
    a = pel.assessment()
    a.demand.load_sample(pel.demand_table(names, [way['unit'][c] for c in cols], np.array(table)))
    config = {'ALL': {'DistributionFamily': 'lognormal'}}
    for c in cols:
        config[TYPES[c]] = {'DistributionFamily': way['fams'][c], 'Unit': way['limunit'][c],
                            **{LIMITS[k]: value(v, way['fams'][c], way['base'][c]) / UNITS[way['limunit'][c]]
                               for k, v in inp['lim'][c].items() if v != NONE}}
    with contextlib.redirect_stdout(io.StringIO()):
        a.demand.calibrate_model(config)
    p, rho = a.demand.marginal_params, a.demand.correlation
    out = {'err': 0, 'fit': [], 'rho': []}
    keys = [(TYPES[c], '1', '1') for c in range(len(cols))]
    for c, key in enumerate(keys):
        row = p.loc[[key]].iloc[0]
        fam, base = way['fams'][c], way['base'][c]
        t0, t1 = float(row['Theta_0']), float(row['Theta_1'])
        if fam == 'lognormal':
            m, s = (math.log(t0 / base) if t0 > 0 else -9), t1
        else:
            m, s = t0 / base, t1 * (1 if fam == 'normal_std' else abs(t0)) / base
        out['fit'].append({'m': pel_int(m * 1e4, -100000, 100000), 's': pel_int(s * 1e4, 10, 100000)})
    out['rho'] = [[pel_int(float(rho.loc[k1, k2]) * 1000, -9999, 9999) for k2 in keys] for k1 in keys]
    return out


def pel_int(v, lo, hi):
    return lo if pd.isna(v) else int(round(min(max(v, lo), hi)))


def observe(inp):
    fits = []
    for way in inp['ways']:
        try:
            fits.append(fit(inp, way))
        except Exception:  # noqa: BLE001
            fits.append({'err': 1, 'fit': [], 'rho': []})
    return {'fits': fits}


def to_tla(c):
    return {'id': c['id'], 'in': {'raw': c['in']['raw'], 'lim': c['in']['lim']}, 'obs': c['obs']}
