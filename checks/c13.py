"""C13: units."""
import itertools
import math

import numpy as np
import pandas as pd

import loss
import pel

TITLE = 'unit invariance'
RULE = ('whole calculations (random quantities, capacities of all families, consequences, loss functions) stated in several '
        'unit systems and compared number by number; direct conversions between all units of a category; unknown and '
        'incompatible units; non-trivial when the units of the variants differ')
MC = [{'module': 'UnitsMC', 'cfg': 'UnitsMC_q.cfg', 'tier': 'quick', 'must_take': ['Convert']},
      {'module': 'UnitsMC', 'cfg': 'UnitsMC_t.cfg', 'tier': 'thorough', 'must_take': ['Convert'], 'timeout': 3000}]
JUDGE = 'UnitsJudge'
EXC_IN_SPEC = True
ASSUMPTIONS = ['numbers are compared to nine digits when reported in one unit and to about three digits across units',
               'deviations of consequences use relative families (the deviation of an absolute one has no unit)']
# by definition (SI), not read from the code
FT, IN, LB, G = .3048, .0254, .45359237, 9.80665
CAT = {
    'time': {'sec': 1, 'minute': 60, 'hour': 3600, 'day': 86400},
    'length': {'m': 1, 'mm': 1e-3, 'cm': 1e-2, 'km': 1e3, 'in': IN, 'inch': IN, 'ft': FT, 'mile': 1609.344},
    'area': {'m2': 1, 'mm2': 1e-6, 'cm2': 1e-4, 'km2': 1e6, 'in2': IN ** 2, 'inch2': IN ** 2, 'ft2': FT ** 2, 'SF': FT ** 2, 'mile2': 1609.344 ** 2},
    'volume': {'m3': 1, 'in3': IN ** 3, 'inch3': IN ** 3, 'ft3': FT ** 3},
    'velocity': {'mps': 1, 'cmps': 1e-2, 'mph': .44704, 'inps': IN, 'inchps': IN, 'ftps': FT},
    'acceleration': {'mps2': 1, 'inps2': IN, 'inchps2': IN, 'ftps2': FT, 'g': G},
    'mass': {'kg': 1, 'ton': 1e3, 'lb': LB},
    'force': {'N': 1, 'kN': 1e3, 'lbf': LB * G, 'kip': 1e3 * LB * G, 'kips': 1e3 * LB * G},
    'pressure': {'Pa': 1, 'kPa': 1e3, 'MPa': 1e6, 'GPa': 1e9, 'psi': LB * G / IN ** 2, 'ksi': 1e3 * LB * G / IN ** 2, 'Mpsi': 1e6 * LB * G / IN ** 2},
    'count': {'ea': 1, 'EA': 1, 'unitless': 1},
    'angle': {'rad': 1, 'unitless': 1},
    'money': {'USD': 1, 'USD_2011': 1},
    'energy': {'J': 1, 'MJ': 1e6},
    'length2': {'m': 1, 'ft': FT, 'LF': FT},
}
DEFAULT_CATS = ['time', 'length', 'volume', 'velocity', 'acceleration', 'mass', 'force', 'pressure']
FACTOR = {u: f for c in CAT.values() for u, f in c.items()}
FACTOR.update({'fathom': 1.8288, 'stone': 6.35029318})
CUSTOM = {'all': {**FACTOR}}


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    return c['in']['kind'] == 'model' or 'vals' in c['obs']


def fac(u):
    """factor of 'ft2' or '100 ft2'"""
    w = u.split()
    return FACTOR[w[-1]] * (float(w[0]) if len(w) == 2 else 1)


def num(x):
    x = float(x)
    if math.isnan(x):
        return {'s': 2, 'm9': 0, 'm4': 0, 'e': 0}
    if abs(x) < 1e-12:
        return {'s': 0, 'm9': 0, 'm4': 0, 'e': 0}
    m, e = f'{abs(x):.8e}'.split('e')
    return {'s': 1 if x > 0 else -1, 'm9': int(m.replace('.', '')), 'm4': round(float(m) * 1000), 'e': int(e)}


def factors():
    out = []
    for u, f in FACTOR.items():
        m, e = f'{f:.4e}'.split('e')
        out.append({'name': u, 'f': int(m.replace('.', '')), 'p': int(e) - 4})
    return out


DEMANDS = {'PGV': ('Peak Ground Velocity', 'velocity'), 'PGA': ('Peak Ground Acceleration', 'acceleration'),
           'PGD': ('Permanent Ground Deformation', 'length'), 'PID': ('Peak Interstory Drift Ratio', 'angle')}
FRAG_UNITS = {'velocity', 'acceleration', 'length', 'angle'}


def cases(ctx):
    rng = ctx.rng
    k = 0
    for cat in DEFAULT_CATS:
        us = list(CAT[cat])
        for a, b in itertools.product(us, us):
            if a != b and (not ctx.quick or rng.random() < .5):
                k += 1
                yield {'id': f'u{k}', 'kind': 'convert', 'from': a, 'to': b, 'cat': rng.choice(['', cat]), 'form': rng.choice(['array', 'list', 'float']),
                       'x': [round(rng.uniform(-9, 99), 4) for _ in range(3)]}
    for i in range(ctx.n(14, 100)):
        yield {'id': f'x{i}', 'kind': 'reject', 'what': ['convert-unknown', 'convert-category', 'demand', 'component', 'capacity', 'consequence',
                                                         'lossfunction'][i % 7],
               'unit': rng.choice(['fathoms', 'mps3', 'FT', 'Kg', 'ft^2', 'usd']), 'pair': rng.choice([['m', 'sec'], ['kg', 'N'], ['m', 'Pa'], ['g', 'mps']])}
    for i in range(ctx.n(40, 800)):
        yield {'id': f'm{i}', 'kind': 'model', **model(rng)}


def model(rng):
    n = rng.randint(4, 12)
    dem = [{'type': t, 'loc': loc, 'dir': d, 'v': [rng.uniform(.5, 9) for _ in range(n)]}
           for t in rng.sample(list(DEMANDS), rng.randint(1, 3)) for loc in (1, 2) for d in (1,)]
    types = sorted({d['type'] for d in dem})
    comps = []
    for c in ['A', 'B.2', 'C', 'D'][:rng.randint(2, 4)]:
        kind = rng.choice(['ds', 'ds', 'lf'])
        t = rng.choice(types)
        ls = []
        for _ in range(rng.randint(1, 2)):
            fam = rng.choice(['lognormal', 'normal', 'normal_std', 'uniform', 'det', 'normal_cov', 'multilinear_CDF'])
            med = rng.uniform(1, 9)
            th1 = {'lognormal': .4, 'normal': .3, 'normal_cov': .2, 'normal_std': med * .3, 'uniform': med + rng.uniform(.5, 4)}.get(fam)
            ls.append({'fam': fam, 'th0': med, 'th1': th1,
                       'lo': rng.choice([None, med * .7]) if fam in ('lognormal', 'normal', 'normal_std') else None,
                       'hi': rng.choice([None, med * 1.4]) if fam in ('lognormal', 'normal') else None,
                       'cdf': [med * .5, med, med * 1.7]})
        fams = {x['fam'] for x in ls}
        if 'det' in fams or len(fams & {'multilinear_CDF'}) or kind == 'lf':
            ls = ls[:1]
        qf = rng.choice([None, 'normal', 'lognormal', 'uniform', 'normal_std'])
        q = rng.uniform(2, 30)
        comps.append({'c': c, 'kind': kind, 'type': t, 'ls': ls, 'qcat': rng.choice(['count', 'area', 'length2', 'volume']),
                      'q': q, 'qfam': qf, 'q1': {'normal': .3, 'lognormal': .4, 'uniform': q + 5, 'normal_std': 1.5}.get(qf),
                      'qlo': rng.choice([None, q * .6]) if qf in ('normal', 'lognormal') else None,
                      'locs': rng.choice(['1', '1,2']), 'blocks': rng.choice([1, 2]),
                      'cons': [{'dv': dv, 'fam': rng.choice([None, 'lognormal', 'normal']),
                                'pts': [[rng.uniform(1, 9) * 1234.567891, 0]] if rng.random() < .5 else [[9876.54321, q / 2], [rng.uniform(1000, 5000), q * 2]]}
                               for dv in rng.sample(['Cost', 'Time', 'Carbon', 'Energy'], rng.randint(1, 3))]})
    if all(c['kind'] == 'lf' for c in comps):
        comps[0]['kind'] = 'ds'
    if all(ls['fam'] == 'det' for c in comps for ls in c['ls']):
        comps[0]['ls'][0].update(fam='lognormal', th1=.4)
    dvcat = {'Cost': 'money', 'Time': 'time', 'Carbon': 'mass', 'Energy': 'energy'}

    def units(si):
        def pick(cat, extra=()):
            us = [*CAT[cat], *extra]
            return us[0] if si else rng.choice(us)

        own = int(rng.random() < .5)
        custom = {'length': ['fathom'], 'mass': ['stone']} if own else {}
        return {'si': int(si), 'custom': own,
                'demand': {t: pick(DEMANDS[t][1], custom.get(DEMANDS[t][1], ())) for t in types},
                'frag': {c['c']: pick(DEMANDS[c['type']][1]) for c in comps},
                'qty': {c['c']: pick(c['qcat']) for c in comps},
                'ref': {c['c']: ('1 EA' if c['qcat'] == 'count' else pick(c['qcat']) if si else
                                 rng.choice(['', '', '10 ', '1 ', '2.5 ']) + pick(c['qcat'])) for c in comps},
                'dv': {kind: {dv: pick(cat, custom.get(cat, ())) for dv, cat in dvcat.items()} for kind in ('ds', 'lf')}}

    vs = [units(True)] + [units(False) for _ in range(3)]
    # one variant with the output units of the first, so that results are compared to nine digits
    vs[1] = {**vs[1], 'demand': vs[0]['demand'], 'qty': vs[0]['qty'], 'dv': vs[0]['dv']}
    return {'n': n, 'demand': dem, 'comps': comps, 'variants': vs, 'seed': rng.randint(1, 10 ** 6),
            'eco': [rng.choice([True, False]), rng.choice([True, False])]}


def multi(ys, xs):
    return ','.join(repr(float(y)) for y in ys) + '|' + ','.join(repr(float(x)) for x in xs)


def one(inp, u):
    import json
    n = inp['n']
    opts = {'Seed': inp['seed'], 'DemandOffset': {}, 'NonDirectionalMultipliers': {'ALL': 1.0},
            'EconomiesOfScale': {'AcrossFloors': inp['eco'][0], 'AcrossDamageStates': inp['eco'][1]}}
    if u['custom']:
        with open('units.json', 'w') as f:
            json.dump(CUSTOM, f)
        opts['UnitsFile'] = 'units.json'
    dem = inp['demand']
    du = [u['demand'][d['type']] for d in dem]
    rows = []
    for c in inp['comps']:
        qu = u['qty'][c['c']]
        f = fac(qu)
        rows.append({'cmp': c['c'], 'Units': qu, 'Location': c['locs'], 'Direction': '1', 'Theta_0': c['q'] / f,
                     'Theta_1': (c['q1'] / f if c['qfam'] in ('uniform', 'normal_std') else c['q1']), 'Family': c['qfam'],
                     'TruncateLower': None if c['qlo'] is None else c['qlo'] / f, 'Blocks': c['blocks']})
    a = pel.pipeline(([f'{d["type"]}-{d["loc"]}-{d["dir"]}' for d in dem], du,
                      [[d['v'][i] / fac(du[j]) for j, d in enumerate(dem)] for i in range(n)]), rows, None, opts)
    frag = {}
    for c in inp['comps']:
        if c['kind'] != 'ds':
            continue
        fu = u['frag'][c['c']]
        f = fac(fu)
        rec = {'Demand': {'Type': DEMANDS[c['type']][0], 'Unit': fu, 'Offset': 0, 'Directional': 1}}
        for j, x in enumerate(c['ls']):
            if x['fam'] == 'multilinear_CDF':
                rec[f'LS{j + 1}'] = {'Family': 'multilinear_CDF', 'Theta_0': multi([y / f for y in x['cdf']], [0, .6, 1])}
            else:
                rec[f'LS{j + 1}'] = {'Family': None if x['fam'] == 'det' else x['fam'], 'Theta_0': x['th0'] / f,
                                     'Theta_1': x['th1'] / f if x['fam'] in ('uniform', 'normal_std') else x['th1'],
                                     'TruncateLower': None if x['lo'] is None else x['lo'] / f,
                                     'TruncateUpper': None if x['hi'] is None else x['hi'] / f}
        frag[c['c']] = rec
    a.damage.load_model_parameters([pel.fragility_table(frag)], set(a.asset.list_unique_component_ids()), warn_missing=False)
    a.damage.calculate()
    a.loss.decision_variables = ('Cost', 'Time', 'Carbon', 'Energy')
    a.loss.add_loss_map(loss.loss_map([{'cmp': c['c'], 'cons': c['c']} for c in inp['comps']]), None)
    dsr, lfr = {}, {}
    for c in inp['comps']:
        ref = u['ref'][c['c']]
        rf = 1 if ref == '1 EA' else fac(ref)
        for x in c['cons']:
            dvu = u['dv'][c['kind']][x['dv']]
            df = fac(dvu)
            ys = [p[0] * rf / df for p in x['pts']]
            if c['kind'] == 'ds':
                r = {('Incomplete', ''): 0, ('Quantity', 'Unit'): ref, ('DV', 'Unit'): dvu}
                for j in range(len(c['ls'])):
                    r[f'DS{j + 1}', 'Family'] = x['fam'] or np.nan
                    r[f'DS{j + 1}', 'Theta_0'] = ys[0] if len(ys) == 1 else multi(ys, [p[1] / rf for p in x['pts']])
                    r[f'DS{j + 1}', 'Theta_1'] = .3 if x['fam'] else np.nan
                dsr[c['c'], x['dv']] = r
            else:
                fu = u['frag'][c['c']]
                lfr[c['c'], x['dv']] = {
                    ('Incomplete', ''): 0, ('Quantity', 'Unit'): ref, ('DV', 'Unit'): dvu, ('Demand', 'Type'): DEMANDS[c['type']][0],
                    ('Demand', 'Unit'): fu, ('Demand', 'Offset'): 0, ('Demand', 'Directional'): 1,
                    ('LossFunction', 'Family'): x['fam'] or np.nan, ('LossFunction', 'Theta_1'): .3 if x['fam'] else np.nan,
                    ('LossFunction', 'Theta_0'): multi([0, ys[0], 3 * ys[0]], [0, 3 / fac(fu), 12 / fac(fu)])}
    a.loss.load_model_parameters([loss.table(r) for r in (dsr, lfr) if r])
    a.loss.calculate()
    out = []

    def add(what, f, units=None):
        for j, col in enumerate(f.columns):
            for r, v in enumerate(f.iloc[:, j]):
                out.append({'what': what, 'key': f'{what}:{pel.col_key(col if isinstance(col, tuple) else (col,))}:{r}',
                            'unit': '' if units is None else str(units[col]), 'v': num(v)})

    f, un = a.demand.save_sample(save_units=True)
    add('demand', f, un)
    f, un = a.asset.save_cmp_sample(save_units=True)
    add('quantity', f, un)
    add('damage-state', a.damage.ds_model.ds_sample.sort_index(axis=1))
    f, un = a.damage.save_sample(save_units=True)
    add('damage', f, un)
    f, un = a.loss.save_sample(save_units=True)
    add('loss', f, un)
    agg = a.loss.aggregate_losses(future=True)[0]
    # aggregate losses come in the unit of the first consequence of their decision variable
    dvof = {'repair_cost': 'Cost', 'repair_carbon': 'Carbon', 'repair_energy': 'Energy', 'repair_time': 'Time'}
    units = {col: a.loss.dv_units[dvof[col if isinstance(col, str) else col[0]]] for col in agg.columns}
    add('aggregate', agg, units)
    return {'out': out}


def observe(inp):
    from pelicun import base
    if inp['kind'] == 'convert':
        x = np.array(inp['x'])
        if inp['form'] == 'list':
            x = inp['x']
        kw = {'category': inp['cat']} if inp['cat'] else {}
        if inp['form'] == 'float':
            y = [base.convert_units(z, inp['from'], inp['to'], **kw) for z in inp['x']]
            back = [base.convert_units(z, inp['to'], inp['from'], **kw) for z in y]
        else:
            y = base.convert_units(x, inp['from'], inp['to'], **kw)
            back = base.convert_units(y, inp['to'], inp['from'], **kw)
        return {'vals': [num(z) for z in y], 'back': [num(z) for z in back]}
    if inp['kind'] == 'reject':
        w, bad = inp['what'], inp['unit']
        if w == 'convert-unknown':
            return {'r': str(base.convert_units(1.0, bad, 'm'))}
        if w == 'convert-category':
            return {'r': str(base.convert_units(1.0, *inp['pair']))}
        a = pel.pipeline((['PGV-1-1'], [bad if w == 'demand' else 'mps'], [[1.0], [2.0]]),
                         [{'cmp': 'A', 'Units': bad if w == 'component' else 'ea', 'Location': '1', 'Direction': '1', 'Theta_0': 1.0}],
                         {'A': {'Demand': {'Type': 'Peak Ground Velocity', 'Unit': bad if w == 'capacity' else 'mps', 'Offset': 0, 'Directional': 1},
                                'LS1': pel.det(1.5)}})
        a.damage.calculate()
        a.loss.add_loss_map(loss.loss_map([{'cmp': 'A', 'cons': 'A'}]), None)
        a.loss.decision_variables = ('Carbon',)
        if w == 'lossfunction':
            a.loss.load_model_parameters([loss.lf_table([{'cons': 'A', 'dv': 'Carbon', 'unit': bad, 'xs': [0, 9], 'ys': [0, 9], 'demand': {
                'Type': 'Peak Ground Velocity', 'Unit': 'mps', 'Offset': 0, 'Directional': 1}}])])
        else:
            a.loss.load_model_parameters([loss.ds_table([{'cons': 'A', 'dv': 'Carbon', 'unit': bad if w == 'consequence' else 'kg',
                                                          'states': [{'ds': 1, 'xs': [0], 'ys': [3]}]}])])
        a.loss.calculate()
        return {'r': 'accepted'}
    runs = []
    for u in inp['variants']:
        try:
            runs.append(one(inp, u))
        except Exception as e:  # noqa: BLE001
            import traceback
            runs.append({'exc': f'{type(e).__name__}: {e}'[:200], 'trace': traceback.format_exc()[-700:]})
    return {'runs': runs}


def to_tla(c):
    i = c['in']
    out = {'kind': i['kind'], 'units': factors()}
    if i['kind'] == 'convert':
        out.update({'from': i['from'], 'to': i['to'], 'vals': [num(x) for x in i['x']]})
    return {'id': c['id'], 'in': out, 'obs': c['obs']}
