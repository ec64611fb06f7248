"""C17: settings of a demand calibration."""
import contextlib
import io

import numpy as np
import pandas as pd

import pel

TITLE = 'calibration settings'
RULE = ('demand tables of several types (some of a common base type), configurations with general, base-type and full-type sections in any '
        'order that give or leave out the family, limits and extra dispersion in units of their own; sequences of calibrations on one '
        'object; non-trivial when a section refines another one or a calibration is repeated')
MC = [{'module': 'CalibrationMC', 'cfg': 'CalibrationMC_q.cfg', 'tier': 'quick', 'must_take': ['Parse', 'Censor', 'Truncate', 'Fit', 'Again']},
      {'module': 'CalibrationMC', 'cfg': 'CalibrationMC_t.cfg', 'tier': 'thorough', 'must_take': ['Parse', 'Censor', 'Truncate', 'Fit', 'Again'], 'timeout': 1500}]
JUDGE = 'CalibrationJudge'
EXC_IN_SPEC = True
ASSUMPTIONS = ['no demand lies exactly at a limit (whether a limit itself is inside is not part of the property)',
               'the extra dispersion of normal demands is a standard deviation in the unit of the demand, that of lognormal ones has no unit',
               'fitted parameters are compared to those of a new object that is given the resulting settings explicitly']
UNITS = {'mm': 1, 'cm': 10, 'm': 1000, '': 1000}
TYPES = ['SD_0.5', 'SD_1.0', 'SDI', 'PFD', 'PGD']
NORMALS = ('normal', 'normal_cov', 'normal_std')
LIMITS = {'cl': 'CensorLower', 'cu': 'CensorUpper', 'tl': 'TruncateLower', 'tu': 'TruncateUpper'}


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    return len(c['in']['steps']) > 1 or len(c['in']['steps'][0]) > 1


def base(t):
    return t.split('_')[0]


def section(rng, key, rich, group):
    """group: whether families with or without a unit are used"""
    s = {'key': key, 'fam': '', 'cl': 0, 'cu': 0, 'tl': 0, 'tu': 0, 'add': -1, 'shape': rng.randint(0, 3)}
    s['u'] = rng.choice(['mm', 'cm', 'cm', 'm', ''])
    s['unit'] = UNITS[s['u']]
    if key == 'ALL' or rng.random() < .55:
        s['fam'] = rng.choice([*group, *group, 'empirical'])
    lims = {'cl': (900, 1800), 'cu': (5000, 9000), 'tl': (500, 1500), 'tu': (6000, 15000)}
    for name, (lo, hi) in lims.items():
        if rng.random() < rich:
            v = rng.randint(lo, hi) // s['unit']
            s[name] = v if s['unit'] < 1000 else max(1, v)
    if rng.random() < rich:
        # hundredths
        s['add'] = rng.choice([0, 10, 20, 40]) if group[0] == 'lognormal' else rng.choice([0, 500, 1000, 2000]) // s['unit']
    return s


def resolve(cfg, t):
    out = {'fam': '', 'cl': 0, 'cu': 0, 'tl': 0, 'tu': 0, 'add': 0}
    for key in ('ALL', base(t), t):
        for s in cfg:
            if s['key'] == key:
                out['fam'] = s['fam'] or out['fam']
                for n in LIMITS:
                    out[n] = s[n] * s['unit'] or out[n]
    for key in ('ALL', base(t), t):
        for s in cfg:
            if s['key'] == key and s['add'] != -1:
                out['add'] = s['add'] * (s['unit'] if out['fam'] in NORMALS else 1)
    return out


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(130, 2500)):
        types = rng.sample(TYPES, rng.randint(1, 4))
        if rng.random() < .5:
            types = list(dict.fromkeys(['SD_0.5', 'SD_1.0', *types]))
        cols, n = [], rng.randint(24, 45)
        for t in types:
            cols += [f'{t}-{loc}-1' for loc in range(1, rng.randint(1, 2) + 1)]
        if len(cols) > 5:
            cols = cols[:5]
            types = list(dict.fromkeys(c.split('-')[0] for c in cols))
        r = np.random.default_rng(rng.randint(0, 10 ** 6))
        common = r.normal(size=(n, 1))
        z = .6 * common + .8 * r.normal(size=(n, len(cols)))
        raw = (np.exp(np.log(3000) + .33 * z) / 4).astype(int) * 4 + 1        # never at a limit
        raw = [[int(v) + (1 if v % 10 == 0 else 0) for v in row] for row in raw]
        steps = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            for _try in range(60):
                group = rng.choice([['lognormal'], ['lognormal'], ['normal'], ['normal_std'], ['normal_cov', 'normal_std', 'normal']])
                rich = rng.choice([.15, .3])
                cfg = [section(rng, 'ALL', rich, group)]
                keys = sorted({base(t) for t in types} | set(types) | {'PFV'})
                for key in rng.sample(keys, min(len(keys), rng.randint(0, 3))):
                    cfg.append(section(rng, key, rich, group))
                eff = [resolve(cfg, c.split('-')[0]) for c in cols]
                inside = [r_ for r_, row in enumerate(raw) if all(
                    (not e['cl'] or v > e['cl']) and (not e['cu'] or v < e['cu']) and (not e['tl'] or v > e['tl'])
                    and (not e['tu'] or v < e['tu']) for v, e in zip(row, eff))]
                ties = any(v in (e['cl'], e['cu'], e['tl'], e['tu']) for row in raw for v, e in zip(row, eff))
                crossed = any((e['cu'] and e['cl'] >= e['cu']) or (e['tu'] and e['tl'] >= e['tu']) for e in eff)
                outside = any((e['tl'] and e['cl'] and e['tl'] > e['cl']) or (e['tu'] and e['cu'] and e['tu'] < e['cu']) for e in eff)
                if len(inside) >= 14 and not ties and not crossed and not outside:
                    break
            else:
                cfg = [{'key': 'ALL', 'fam': 'lognormal', 'cl': 0, 'cu': 0, 'tl': 0, 'tu': 0, 'add': -1, 'shape': 0, 'u': 'mm', 'unit': 1}]
            rng.shuffle(cfg)
            steps.append(cfg)
        yield {'id': f'k{i}', 'cols': cols, 'units': [rng.choice(['mm', 'cm', 'm']) for _ in cols], 'raw': raw, 'steps': steps}


def settings(s):
    out = {}
    if s['fam']:
        out['DistributionFamily'] = s['fam']

    def form(v):
        v /= 100
        return [str(v), v, f'{v:g}', v][s['shape']]
    for n, name in LIMITS.items():
        if s[n]:
            out[name] = form(s[n])
        elif s['shape'] == 2:
            out[name] = 'N/A'
    if s['add'] != -1:
        out['AddUncertainty'] = form(s['add'])
    if s['u']:
        out['Unit'] = s['u']
    return out


def calibrate(asmt, config):
    with contextlib.redirect_stdout(io.StringIO()):
        asmt.demand.calibrate_model(config)


def observe(inp):
    vals = np.array(inp['raw'], float) / 100
    shown = np.array([[v / UNITS[u] for v, u in zip(row, inp['units'])] for row in vals])

    def load():
        a = pel.assessment()
        a.demand.load_sample(pel.demand_table(inp['cols'], inp['units'], shown))
        return a
    a = load()
    raw0 = a.demand.save_sample().copy()
    steps = []
    for cfg in inp['steps']:
        config = {s['key']: settings(s) for s in cfg}
        o = {'err': 0, 'referr': 0, 'fam': [], 'tl': [], 'tu': [], 't0': [], 't1': [], 'r0': [], 'r1': [], 'kept': [-1], 'rho': 0, 'cols': 1, 'raw': 1}
        eff = {c.split('-')[0]: resolve(cfg, c.split('-')[0]) for c in inp['cols']}
        ref = load()
        explicit = {'ALL': {'DistributionFamily': next(iter(eff.values()))['fam']}}
        for t, e in eff.items():
            explicit[t] = {'DistributionFamily': e['fam'], 'Unit': 'm', **{LIMITS[n]: e[n] / 1e5 for n in LIMITS if e[n]}}
        try:
            calibrate(ref, explicit)
        except Exception:  # noqa: BLE001
            o['referr'] = 1
        try:
            calibrate(a, config)
        except Exception:  # noqa: BLE001
            o['err'] = 1
            steps.append(o)
            continue

        def tab(x):
            p = x.demand.marginal_params
            return p.loc[[tuple(c.split('-')) for c in inp['cols']]]
        p = tab(a)
        q = None if o['referr'] else tab(ref)
        for c in range(len(p)):
            row = p.iloc[c]
            fam = str(row['Family'])
            o['fam'].append(fam)
            o['tl'].append(0 if pd.isna(row['TruncateLower']) else round(row['TruncateLower'] * 1e5))
            o['tu'].append(0 if pd.isna(row['TruncateUpper']) else round(row['TruncateUpper'] * 1e5))
            for key, src in (('t', row), ('r', None if q is None else q.iloc[c])):
                if src is None or pd.isna(src['Theta_0']):
                    o[key + '0'].append(0)
                    o[key + '1'].append(0)
                    continue
                o[key + '0'].append(int(np.clip(round(src['Theta_0'] * 1e5), -10 ** 6, 10 ** 6)))
                d = src['Theta_1'] * (abs(src['Theta_0']) if fam in ('normal', 'normal_cov') else 1)
                o[key + '1'].append(int(np.clip(round(d * (1e5 if fam in NORMALS else 1e3)), 0, 40000)))
        emp = a.demand.empirical_data
        names = [tuple(c.split('-')) for c in inp['cols']]
        isemp = [c for c, f in zip(names, o['fam']) if f == 'empirical']
        rest = [c for c, f in zip(names, o['fam']) if f != 'empirical']
        corr = a.demand.correlation
        ok = sorted(map(tuple, corr.index)) == sorted(rest) and sorted(map(tuple, corr.columns)) == sorted(rest)
        ok = ok and ((emp is None or len(emp.columns) == 0) if not isemp else emp is not None and sorted(map(tuple, emp.columns)) == sorted(isemp))
        ok = ok and len(a.demand.marginal_params) == len(names)
        o['cols'] = int(ok)
        if isemp and emp is not None:
            at = [inp['cols'].index('-'.join(c)) for c in isemp]
            rows = {tuple(row[j] for j in at): r + 1 for r, row in enumerate(inp['raw'])}
            if len(rows) == len(raw0):
                o['kept'] = [rows.get(tuple(round(float(x) * 1e5) for x in v), -5) for v in emp[isemp].to_numpy()]
        if q is not None and rest and ok:
            d = (corr.loc[rest, rest].to_numpy(float) - ref.demand.correlation.loc[rest, rest].to_numpy(float))
            d = np.nanmax(np.abs(d)) if np.isfinite(d).any() else 0
            o['rho'] = int(min(round(float(d) * 1000), 10 ** 6))
        o['raw'] = int(a.demand.save_sample().equals(raw0))
        steps.append(o)
    return {'steps': steps}


def to_tla(c):
    inp, obs = c['in'], c['obs']
    cols = inp['cols']
    i = {'demands': [{'type': x.split('-')[0], 'base': base(x.split('-')[0])} for x in cols], 'raw': inp['raw'],
         'steps': [{'cfg': [{k: s[k] for k in ('key', 'fam', 'cl', 'cu', 'tl', 'tu', 'unit', 'add')} for s in cfg],
                    'eff': [resolve(cfg, x.split('-')[0]) for x in cols]} for cfg in inp['steps']]}
    return {'id': c['id'], 'in': i, 'obs': obs}
