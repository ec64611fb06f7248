"""C14: placement of components."""
import numpy as np
import pandas as pd

import pel

TITLE = 'asset assignment'
RULE = ('assignment tables with rows of all location and direction forms, repeated places, several units, families and block counts, as '
        'table or file; non-trivial when a row expands to several groups or several rows meet at one place or a location is malformed')
MC = [{'module': 'AssetMC', 'cfg': 'AssetMC_q.cfg', 'tier': 'quick', 'must_take': ['Place', 'Reject']},
      {'module': 'AssetMC', 'cfg': 'AssetMC_t.cfg', 'tier': 'thorough', 'must_take': ['Place', 'Reject'], 'timeout': 3000}]
JUDGE = 'AssetJudge'
EXC_IN_SPEC = True
UNITS = {'ea': 1, 'm': 1, 'km': 1000, 'm2': 1, 'km2': 1000000, 'minute': 60, 'unitless': 1, 'sec': 1}
BAD = ['x', '', '3--1', '2--', '--3', '1--2--3', 'bottom', '1;2', '1-2-3', 'ALLL', 'a,b', '1,,2', 'roofs', 'top--1', 'one', '1..3', '1--2,x', '3--1,2', '2,4--3']


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    rows = c['in']['rows']
    return len(rows) > 1 or rows[0]['loc']['t'] != 'one'


def one(n):
    return {'t': 'one', 'a': n}


def expr(rng, stories, direction=False):
    r = rng.random()
    hi = max(stories, 3)
    if r < .3:
        return one(rng.randint(0 if not direction else 1, hi))
    if r < .5:
        a = rng.randint(0, hi)
        return {'t': 'range', 'a': a, 'b': rng.randint(a, hi + (9 if rng.random() < .1 else 0))}
    if r < .75:
        parts = [one(rng.randint(0, hi)) for _ in range(rng.randint(2, 4))]
        if rng.random() < .3:
            parts[rng.randrange(len(parts))] = {'t': 'range', 'a': (a := rng.randint(0, hi)), 'b': rng.randint(a, hi + 1)}
        return {'t': 'list', 'parts': parts}
    if direction:
        return one(rng.randint(1, 4))
    return {'t': rng.choice(['all', 'top', 'roof'])}


def text(rng, e):
    if e['t'] == 'one':
        return rng.choice([str(e['a']), str(e['a']), f'{e["a"]}.0'])
    if e['t'] == 'range':
        return f'{e["a"]}--{e["b"]}'
    if e['t'] == 'list':
        return rng.choice([',', ', ']).join(str(p['a']) if p['t'] == 'one' else f'{p["a"]}--{p["b"]}' for p in e['parts'])
    return e.get('text', e['t'])


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(250, 6000)):
        stories = rng.choice([0, 1, 2, 3, 5, 12])
        n = rng.choice([1, 1, 2, 3, 5, 20 if rng.random() < .2 else 4])
        comps = rng.sample(['A', 'B.1', 'C.22.3', 'D', 'excessiveRID'], rng.randint(1, 3))
        forms = [expr(rng, stories) for _ in range(2)]
        same_units = rng.random() < .6
        cu = {c: rng.choice(list(UNITS)) for c in comps}
        rows = []
        for k in range(n):
            c = rng.choice(comps)
            loc = rng.choice(forms) if rng.random() < .5 else expr(rng, stories)
            if loc['t'] in ('all', 'top', 'roof') and stories == 0 and rng.random() < .8:
                loc = one(1)
            fam = rng.choice([None, None, 'normal', 'lognormal', 'uniform'])
            q = 1000 * (k + 1)
            unit = cu[c] if same_units else rng.choice(list(UNITS))
            rows.append({'cmp': c, 'loc': loc, 'ltext': text(rng, loc), 'unit': unit, 'q': q, 'fam': fam,
                         'th1': {'normal': .001, 'lognormal': .001, 'uniform': q + 5}.get(fam),
                         'lo': q - 1 if fam in ('normal', 'lognormal') and rng.random() < .5 else None,
                         'hi': q + 1 if fam in ('normal', 'lognormal') and rng.random() < .5 else None,
                         'blocks': rng.choice([None, 1, 2, 3, 7])})
            d = expr(rng, 3, True)
            rows[-1].update(dir=d, dtext=text(rng, d))
        if i % 6 == 0:
            t = rng.choice(BAD)
            r = rng.choice(rows)
            if rng.random() < .7:
                r.update(loc={'t': 'bad', 'text': t}, ltext=t)
            else:
                r.update(dir={'t': 'bad', 'text': t}, dtext=t)
        yield {'id': f'a{i}', 'stories': stories, 'rows': rows, 'n': rng.choice([1, 2, 9]), 'damage': int(rng.random() < .4),
               'form': rng.choice(['table', 'table', 'file', 'ints']), 'cols': rng.choice(['all', 'used'])}


def whole(x):
    return str(round(float(x))) if abs(float(x) - round(float(x))) < 1e-6 * max(1, abs(float(x))) else repr(round(float(x), 9))


def sig(r):
    f = UNITS[r['unit']]
    fam = r['fam'] or 'det'
    th1 = '' if r['fam'] is None else (whole(r['th1'] * f) if fam == 'uniform' else str(r['th1']))
    return '/'.join([fam, whole(r['q'] * f), th1, '' if r['lo'] is None else whole(r['lo'] * f), '' if r['hi'] is None else whole(r['hi'] * f),
                     str(r['blocks'] or 1)])


def opt(x, name):
    v = getattr(x, name, None)
    return None if v is None or pd.isna(v) else v


def observe(inp):
    rows = inp['rows']
    a = pel.assessment()
    if inp['stories']:
        a.stories = inp['stories']
    recs = []
    for r in rows:
        rec = {'cmp': r['cmp'], 'Units': r['unit'], 'Location': r['ltext'], 'Direction': r['dtext'], 'Theta_0': r['q'], 'Theta_1': r['th1'],
               'Family': r['fam'], 'TruncateLower': r['lo'], 'TruncateUpper': r['hi'], 'Blocks': r['blocks'], 'Comment': 'x y'}
        if inp['cols'] == 'used':
            rec = {k: v for k, v in rec.items() if k in ('cmp', 'Location', 'Direction', 'Theta_0', 'Units')
                   or any(x[m] is not None for x in rows for m in [{'Theta_1': 'th1', 'Family': 'fam', 'TruncateLower': 'lo', 'TruncateUpper': 'hi',
                                                                    'Blocks': 'blocks'}.get(k, 'fam')])}
        recs.append(rec)
    t = pel.cmp_table(recs)
    if inp['form'] == 'file':
        t.to_csv('c_marginals.csv')
        src = 'c'
    else:
        if inp['form'] == 'ints' and all(x['ltext'].isdigit() for x in rows):
            t['Location'] = t['Location'].astype(int)
        src = {'marginals': t}
    a.asset.load_cmp_model(src)
    a.asset.generate_cmp_sample(inp['n'])
    groups = []
    byq = {r['q'] * UNITS[r['unit']]: j for j, r in enumerate(rows)}
    for x in a.asset.cmp_marginal_params.itertuples():
        fam = opt(x, 'Family') or 'det'
        th1, lo, hi = opt(x, 'Theta_1'), opt(x, 'TruncateLower'), opt(x, 'TruncateUpper')
        groups.append({**place(x.Index), 'row': match(rows, [x.Theta_0], x.Index[0]),
                       'sig': '/'.join([fam, whole(x.Theta_0), '' if th1 is None else (whole(th1) if fam == 'uniform' else str(round(th1, 9))),
                                        '' if lo is None else whole(lo), '' if hi is None else whole(hi), str(int(x.Blocks))])})
    sample = []
    s = a.asset.save_cmp_sample()
    base, units = a.asset.save_cmp_sample(save_units=True)
    s = a.asset.cmp_sample
    for c in s.columns:
        j = match(rows, list(s[c]), c[0])
        sample.append({**place(c), 'row': j, 'sig': sig(rows[j]) if j >= 0 else repr(list(s[c]))[:60]})
    saved = []
    for j, c in enumerate(base.columns):
        m = match(rows, list(base.iloc[:, j].astype(float) * UNITS[units[c]]), c[0])
        saved.append({**place(c), 'row': m, 'sig': sig(rows[m]) if m >= 0 else 'none'})
    blocks = []
    if inp['damage']:
        cs = sorted({r['cmp'] for r in rows})
        pel.set_demand(a, ['PGA-0-1'], ['mps2'], [[1.0]] * inp['n'])
        a.damage.load_model_parameters([pel.fragility_table({c: {'Demand': {'Type': pel.PGA, 'Unit': 'mps2', 'Offset': 0, 'Directional': 0},
                                                                 'LS1': pel.det(2.0)} for c in cs})], set(cs))
        # every demand a component may ask for
        locs = sorted({g['loc'] for g in groups})
        pel.set_demand(a, [f'PGA-{x}-1' for x in locs], ['mps2'] * len(locs), [[1.0] * len(locs)] * inp['n'])
        a.damage.calculate()
        got = pel.ds_columns(a)
        for g in groups:
            b = int(g['sig'].split('/')[-1])
            blocks.append({'got': len(got.get((g['cmp'], str(g['loc']), str(g['dir']), str(g['uid'])), [])), 'blocks': b})
    return {'groups': groups, 'sample': sample, 'saved': saved, 'n': len(s), 'blocks': blocks}


def place(i):
    return {'cmp': str(i[0]), 'loc': int(i[1]), 'dir': int(i[2]), 'uid': int(i[3])}


def match(rows, vals, cmp):
    """the row whose quantity the values can come from: tags are a thousand apart"""
    out = []
    for j, r in enumerate(rows):
        f = UNITS[r['unit']]
        lo = r['q'] * (.995 if r['fam'] else 1) * f if r['lo'] is None else r['lo'] * f
        hi = r['q'] * (1.005 if r['fam'] else 1) * f if r['hi'] is None else r['hi'] * f
        if r['fam'] == 'uniform':
            lo, hi = r['q'] * f, r['th1'] * f
        if r['cmp'] == str(cmp) and all(lo * (1 - 1e-9) <= float(v) <= hi * (1 + 1e-9) for v in vals):
            out.append(j)
    return out[0] if len(out) == 1 else -1 - len(out)


def to_tla(c):
    i = c['in']
    return {'id': c['id'], 'in': {'stories': i['stories'], 'n': i['n'],
                                  'rows': [{'cmp': r['cmp'], 'loc': r['loc'], 'dir': r['dir'], 'sig': sig(r)} for r in i['rows']]},
            'obs': c['obs']}
