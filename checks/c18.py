"""C18: generated and cloned demands."""
import contextlib
import io
import warnings

import numpy as np
import pandas as pd

import pel

TITLE = 'demand generation and cloning'
RULE = ('raw demand tables (with rows flagged as errors) and demand models of all families; any sequence of calibrating, generating with or '
        'without the raw order, cloning (several targets, dropped and kept sources, swaps, duplicates, unknown sources), adding columns and '
        'running a damage calculation on the result; non-trivial when demands are cloned or the raw order is preserved')
MC = [{'module': 'DemandSampleMC', 'cfg': 'DemandSampleMC_q.cfg', 'tier': 'quick', 'must_take': ['Begin', 'Copy', 'Finish', 'Regenerate']},
      {'module': 'DemandSampleMC', 'cfg': 'DemandSampleMC_t.cfg', 'tier': 'thorough', 'must_take': ['Begin', 'Copy', 'Finish', 'Regenerate'], 'timeout': 1500}]
JUDGE = 'DemandSampleJudge'
EXC_IN_SPEC = True
ASSUMPTIONS = ['values of demands are integers that say which demand and realization they come from']
FULL = {'PGA': 'Peak Ground Acceleration', 'PGV': 'Peak Ground Velocity', 'PGD': 'Permanent Ground Deformation', 'SA_1.0': 'Spectral Acceleration|1.0'}
UNITS = {'PGA': {'mps2': 1}, 'SA_1.0': {'mps2': 1}, 'PGV': {'mps': 1, 'cmps': .01}, 'PGD': {'m': 1, 'cm': .01, 'km': 1000}}
BASE = {'PGA': 'mps2', 'SA_1.0': 'mps2', 'PGV': 'mps', 'PGD': 'm'}


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    return any(a.get('clone') or a.get('preserve') for a in c['in']['acts'])


def rand_clone(rng, names):
    """sources from the names present, targets of the same type"""
    cfg = []
    for src in rng.sample(names, rng.randint(1, min(3, len(names)))):
        t = src.split('-')[0]
        pool = [f'{t}-{loc}-{d}' for loc in (0, 1, 2, 3, 10) for d in (1, 2)]
        to = rng.sample(pool, rng.randint(0, 3))
        if rng.random() < .5 and src not in to:
            to.append(src)
        cfg.append({'src': src, 'to': to})
    p = rng.random()
    if p < .12:
        src = rng.choice(['PGA-7-1', 'PGD-1-7', 'PFV-1-1'])
        cfg.append({'src': src, 'to': [src.split('-')[0] + '-9-1']})
    elif p < .2 and cfg[0]['to']:
        cfg[-1]['to'].append(cfg[0]['to'][0])
    elif p < .3 and len(names) > 1:
        a, b = rng.sample(names, 2)
        if a.split('-')[0] == b.split('-')[0]:
            cfg = [{'src': a, 'to': [b]}, {'src': b, 'to': [a]}]
    rng.shuffle(cfg)
    return cfg


def present(names, cfg):
    """names after cloning, as far as the generator has to know (rejections leave them)"""
    flat = [x for c in cfg for x in c['to']]
    kept = [n for n in names if n not in [c['src'] for c in cfg]]
    new = [x for c in cfg if c['src'] in names for x in c['to']]
    if len(set(flat)) != len(flat) or set(kept) & set(new):
        return names
    return kept + new


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(220, 6000)):
        names = rng.sample([f'{t}-{loc}-{d}' for t in FULL for loc in (0, 1, 2, 10) for d in (1, 2)], rng.randint(1, 4))
        if rng.random() < .4:
            t = names[0].split('-')[0]
            names = list(dict.fromkeys([*names, f'{t}-1-1', f'{t}-2-1']))
        rows = rng.randint(2, 7)
        raw = [[100 * (c + 1) + r + 1 for c in range(len(names))] for r in range(rows)]
        for c in range(len(names)):
            col = [row[c] for row in raw]
            rng.shuffle(col)
            for r in range(rows):
                raw[r][c] = col[r]
        units = [rng.choice(list(UNITS[n.split('-')[0]])) for n in names]
        kind = rng.choice(['raw', 'raw', 'model'])
        drop = sorted(rng.sample(range(1, rows + 1), rng.randint(1, rows - 1))) if kind == 'raw' and rng.random() < .25 else []
        marg, cur, acts = {}, list(names), []
        if kind == 'model':
            fams = [rng.choice(['uniform', 'lognormal', 'normal_std', 'deterministic', 'raw']) for _ in names]
            for c, (n, f) in enumerate(zip(names, fams)):
                lo = 100 * (c + 1)
                marg[n] = {'kind': f, 'lo': lo, 'hi': lo if f == 'deterministic' else lo + 40}
            acts.append({'op': 'model'})
        else:
            marg = {n: {'kind': 'raw', 'lo': 0, 'hi': 0} for n in names}
            if rng.random() < .3:
                acts.append({'op': 'clone', 'clone': rand_clone(rng, cur)})
                cur = present(cur, acts[-1]['clone'])
            if not cur:
                continue
            if rng.random() < .2:
                acts.append({'op': 'expand', 'name': 'PGD-5-1', 'unit': 'm'})
                cur = [*cur, 'PGD-5-1']
            if rng.random() < .15:
                acts.append({'op': 'damage'})
            if rng.random() < .85:
                acts.append({'op': 'calibrate'})
        model = list(cur)
        can = any(a['op'] in ('model', 'calibrate') for a in acts)
        loaded = kind == 'raw'
        for _ in range(rng.randint(1, 3)):
            p = rng.random()
            if can and (p < .5 or not loaded):
                a = {'op': 'generate', 'size': rng.randint(1, 16), 'preserve': int(rng.random() < .5), 'clone': []}
                cur, loaded = list(model), True
                if rng.random() < .45:
                    a['clone'] = rand_clone(rng, cur)
                    cur = present(cur, a['clone'])
                acts.append(a)
            elif p < .75:
                acts.append({'op': 'clone', 'clone': rand_clone(rng, cur)})
                cur = present(cur, acts[-1]['clone'])
            elif p < .85 and 'PGV-6-2' not in cur:
                acts.append({'op': 'expand', 'name': 'PGV-6-2', 'unit': 'mps'})
                cur = [*cur, 'PGV-6-2']
            else:
                acts.append({'op': 'damage'})
            if not cur:
                break
        if cur and loaded:
            acts.append({'op': 'damage'})
        yield {'id': f'd{i}', 'names': names, 'units': units, 'raw': raw, 'drop': drop, 'marg': marg, 'acts': acts,
               'thr': 100 * rng.randint(1, len(names)) + rng.randint(1, rows), 'event': rng.randint(0, 1), 'space': rng.randint(0, 1),
               'method': rng.choice(['LHS', 'MonteCarlo', 'LHS_midpoint']), 'seed': rng.randint(1, 10 ** 6)}


def factor(name, unit):
    return UNITS[name.split('-')[0]][unit]


def raw_table(inp):
    vals = [[v / factor(n, u) for v, n, u in zip(row, inp['names'], inp['units'])] for row in inp['raw']]
    df = pel.demand_table(inp['names'], inp['units'], vals)
    cols = [tuple((f' {x}' if inp['space'] else x) for x in c) for c in df.columns]
    if inp['drop']:
        df['ERROR', '', ''] = ['', *[int(r + 1 in inp['drop']) for r in range(len(inp['raw']))]]
        df.loc['Units', ('ERROR', '', '')] = 'unitless'
        cols = [*cols, ('ERROR', '0', '0')]
    names = ['type', 'loc', 'dir']
    if inp['event']:
        cols, names = [('1', *c) for c in cols], ['event', *names]
    df.columns = pd.MultiIndex.from_tuples(cols, names=names)
    return df


def model_tables(inp):
    recs, emp = {}, {}
    for c, (n, u) in enumerate(zip(inp['names'], inp['units'])):
        m, f = inp['marg'][n], factor(n, u)
        lo, hi, mid = m['lo'] / f, m['hi'] / f, (m['lo'] + m['hi']) / 2 / f
        key = tuple(n.split('-'))
        r = {'Units': u, 'Family': None, 'Theta_0': None, 'Theta_1': None, 'TruncateLower': None, 'TruncateUpper': None}
        if m['kind'] == 'uniform':
            r.update(Family='uniform', Theta_0=lo, Theta_1=hi)
        elif m['kind'] == 'deterministic':
            r.update(Family='deterministic', Theta_0=lo)
        elif m['kind'] == 'raw':
            r.update(Family='empirical')
            emp[key] = [row[c] / f for row in inp['raw']]
        else:
            r.update(Family=m['kind'], Theta_0=mid, Theta_1=.4 if m['kind'] == 'lognormal' else 20 / f, TruncateLower=lo, TruncateUpper=hi)
        recs[key] = r
    marg = pd.DataFrame(recs).T
    marg.index = pd.MultiIndex.from_tuples(marg.index, names=['type', 'loc', 'dir'])
    for c in ('Theta_0', 'Theta_1', 'TruncateLower', 'TruncateUpper'):
        marg[c] = marg[c].astype(float)
    out = {'marginals': marg}
    if emp:
        e = pd.DataFrame(emp).astype(object)
        e.columns = pd.MultiIndex.from_tuples(e.columns, names=['type', 'loc', 'dir'])
        units = {tuple(n.split('-')): u for n, u in zip(inp['names'], inp['units'])}
        e.loc['Units'] = [units[c] for c in e.columns]
        out['empirical'] = e.loc[['Units', *range(len(inp['raw']))]]
    return out


def table(a):
    if a.demand.sample is None:
        return 0, []
    s, u = a.demand.save_sample(save_units=True)
    base = a.demand.sample
    out = []
    for c in range(len(s.columns)):
        name = '-'.join(str(x) for x in s.columns[c])
        unit = str(u.iloc[c])
        f = a.scale_factor(unit)
        vals = [float(v) for v in s.iloc[:, c]]
        inner = [float(v) for v in base[s.columns[c]]]
        ok = np.allclose(np.array(vals) * f, inner, rtol=1e-9)
        out.append({'name': name, 'unit': unit, 'vals': [int(round(v)) if ok else -1 for v in inner]})
    return len(base), out


def damage(a, inp, call):
    cols = ['-'.join(c) for c in a.demand.sample.columns]
    cmps, frag = [], {}
    for j, c in enumerate(cols):
        t, loc, d = c.split('-')
        cmps.append({'cmp': f'c{call}.{j}', 'Units': 'ea', 'Location': loc, 'Direction': d, 'Theta_0': 1, 'Family': np.nan})
        frag[f'c{call}.{j}'] = {'Demand': {'Type': FULL[t], 'Unit': BASE[t], 'Offset': 0, 'Directional': 1}, 'LS1': {'Theta_0': inp['thr'] + .5}}
    a.asset.load_cmp_model({'marginals': pel.cmp_table(cmps)})
    a.asset.generate_cmp_sample(len(a.demand.sample))
    a.damage.load_model_parameters([pel.fragility_table(frag)], {x['cmp'] for x in cmps})
    a.damage.calculate()
    s = a.damage.ds_model.sample
    out = []
    for j, c in enumerate(cols):
        t, loc, d = c.split('-')
        sub = s.loc[:, [x for x in s.columns if x[0] == f'c{call}.{j}' and str(x[-1]) == '1']]
        got = sub.sum(axis=1).to_numpy() if sub.shape[1] else np.zeros(len(s))
        out.append({'name': c, 'ds': [int(v) for v in got]})
    return out


def observe(inp):
    from pelicun.pelicun_warnings import PelicunWarning  # noqa: F401
    a = pel.assessment(Seed=inp['seed'], Sampling={'SamplingMethod': inp['method']}, SamplingMethod=inp['method'])
    if inp['acts'][0]['op'] != 'model':
        a.demand.load_sample(raw_table(inp))
    warned, steps = [], []
    for act in inp['acts']:
        o = {'err': 0, 'ignore': 0}
        with warnings.catch_warnings(record=True) as ws, contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('always')
            cfg = {c['src']: list(c['to']) for c in act.get('clone', [])}
            try:
                if act['op'] == 'model':
                    a.demand.load_model(model_tables(inp))
                elif act['op'] == 'calibrate':
                    a.demand.calibrate_model({'ALL': {'DistributionFamily': 'empirical'}})
                elif act['op'] == 'generate':
                    a.demand.generate_sample({'SampleSize': act['size'], 'PreserveRawOrder': bool(act['preserve']), **({'DemandCloning': cfg} if cfg else {})})
                elif act['op'] == 'clone':
                    a.demand.clone_demands(cfg)
                elif act['op'] == 'expand':
                    t, loc, d = act['name'].split('-')
                    a.demand.expand_sample(t, 7.0, act['unit'], loc, d)
                elif act['op'] == 'damage':
                    o['ds'] = damage(a, inp, len(steps))
            except ValueError:
                if act['op'] not in ('generate', 'clone'):
                    raise
                o['err'] = 1
            a.log.emit_warnings() if hasattr(a.log, 'emit_warnings') else None
        text = ' '.join(str(w.message) for w in ws)
        warned += [c['src'] for c in act.get('clone', []) if f"'{c['src']}'" in text or c['src'] in text]
        o['n'], o['cols'] = table(a)
        o['ignore'] = int(a.demand.sample is None)
        o['warned'] = sorted(set(warned))
        steps.append(o)
    return {'steps': steps}


def to_tla(c):
    i = c['in']
    acts = [{'op': a['op'], 'clone': a.get('clone', []), 'size': a.get('size', 0), 'preserve': a.get('preserve', 0), 'name': a.get('name', ''),
             'unit': a.get('unit', '')} for a in i['acts']]
    return {'id': c['id'], 'in': {k: i[k] for k in ('names', 'units', 'raw', 'drop', 'marg', 'thr')} | {'acts': acts}, 'obs': c['obs']}
