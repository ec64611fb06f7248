"""C28: saving and loading."""
import contextlib
import csv
import json
import os
from pathlib import Path

import numpy as np
import pandas as pd

import loss
import pel

TITLE = 'save and load'
RULE = ('histories of save, load, failed save and restart over demand, asset, damage and loss samples in several units and over '
        'calibrated demand models, and calculations continued from files at every stage; files are read with the csv module; '
        'non-trivial when something was reloaded')
MC = [{'module': 'RoundtripMC', 'cfg': 'RoundtripMC_q.cfg', 'tier': 'quick', 'must_take': ['Write', 'Load', 'Fail', 'Restart']},
      {'module': 'RoundtripMC', 'cfg': 'RoundtripMC_t.cfg', 'tier': 'thorough', 'must_take': ['Write', 'Load', 'Fail', 'Restart'], 'timeout': 3000}]
JUDGE = 'RoundtripJudge'
ASSUMPTIONS = ['values are whole numbers of the unit they are reported in, so that a rounding error of 1e-9 is told from a wrong value',
               'labels contain no dashes (they separate the parts of a compact label)']
NA = -999999
ODD = -888888     # not a whole number
FT, IN = .3048, .0254
# unit -> (size in base units, whole-number size used in the specification)
UNITS = {'m': (1, 1), 'km': (1000, 1000), 'ft': (FT, 1), 'm2': (1, 1), 'km2': (1e6, 1000000), 'ft2': (FT ** 2, 1), 'SF': (FT ** 2, 1), 'ea': (1, 1),
         'unitless': (1, 1), 'rad': (1, 1), 'mps2': (1, 1), 'g': (9.80665, 1), 'inchps2': (IN, 1), 'sec': (1, 1), 'minute': (60, 60), 'hour': (3600, 3600),
         'day': (86400, 86400), 'kg': (1, 1), 'ton': (1000, 1000), 'USD_2011': (1, 1), 'USD': (1, 1), 'J': (1, 1), 'MJ': (1e6, 1000000)}
CUSTOM = {'length': {'m': 1, 'furlong': 200}, 'acceleration': {'mps2': 1, 'shove': 7}, 'count': {'ea': 1, 'EA': 1, 'gross': 144, 'unitless': 1},
          'angle': {'rad': 1}, 'money': {'USD': 1, 'purse': 12}, 'time': {'sec': 1, 'watch': 14400}}


def sizes(inp):
    u = dict(UNITS)
    if inp.get('custom'):
        u.update({n: (f, f) for d in CUSTOM.values() for n, f in d.items()})
    return u


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    return any(e['ev'] in ('loaded', 'same') for e in c['obs'].get('log', []))


def pick(rng, custom, kind):
    if custom:
        return rng.choice({'acc': ['mps2', 'shove'], 'drift': ['rad', 'unitless'], 'qty': ['ea', 'gross', 'm', 'furlong'],
                           'Cost': ['USD', 'purse'], 'Time': ['sec', 'watch']}[kind])
    return rng.choice({'acc': ['mps2', 'g', 'inchps2'], 'drift': ['rad', 'unitless'], 'qty': ['ea', 'm', 'km', 'ft', 'ft2', 'km2', 'SF'],
                       'Cost': ['USD', 'USD_2011'], 'Time': ['sec', 'minute', 'hour', 'day'], 'Carbon': ['kg', 'ton'], 'Energy': ['J', 'MJ']}[kind])


FAILS = ['suffix', 'nodir', 'full']


def script(rng):
    """a history: s save, r restart, l load, f failed save, g get the sample as a table, x save over an older, larger file"""
    h = 'g' if rng.random() < .5 else ''
    for _ in range(rng.randint(1, 3)):
        h += rng.choice(['s', 's', 'x']) + rng.choice(['r', 'r', '']) + 'l' + rng.choice(['', 'g', 'f'])
    return h


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(60, 1500)):
        custom = rng.random() < .25
        n = rng.choice([1, 2, 5, 11])
        base = {'custom': int(custom), 'n': n, 'hist': script(rng), 'fail': rng.choice(FAILS)}
        # demand samples
        cols = rng.sample([('PFA', x, y) for x in range(0, 12) for y in (1, 2)] + [('PID', x, y) for x in (1, 2, 10) for y in (0, 1)]
                          + [('SA_1.13', 0, 1), ('PGV', 0, 2), ('PIH_0.5', 3, 1)], rng.randint(1, 6))
        yield {**base, 'id': f'dem{i}', 'kind': 'demand', 'event': int(rng.random() < .2),
               'cols': [{'lab': list(map(str, c)), 'unit': pick(rng, custom, 'drift' if c[0] in ('PID', 'PIH_0.5') else 'acc'),
                         'v': [rng.randint(0, 900) for _ in range(n)]} for c in cols]}
        # quantities, damage and losses
        comps = rng.sample(['A', 'B.10.31', 'C20', 'F', 'excessiveRID', 'A.1'], rng.randint(1, 3))
        cu = {c: pick(rng, custom, 'qty') for c in comps}
        places = {(c, rng.choice(['0', '1', '2', '11']), rng.choice(['0', '1', '2']), rng.choice(['0', '0', '1', '10'])) for c in comps for _ in range(3)}
        places = sorted(places)
        yield {**base, 'id': f'ass{i}', 'kind': 'asset',
               'cols': [{'lab': list(p), 'unit': cu[p[0]], 'v': [rng.randint(0, 900) for _ in range(n)]} for p in places]}
        cols = []
        for p in places:
            top = rng.randint(1, 3)
            gone = [rng.random() < .2 for _ in range(n)]
            for ds in range(top + 1):
                cols.append({'lab': [*p, str(ds)], 'unit': cu[p[0]], 'v': [NA if g else rng.randint(0, 500) for g in gone]})
        yield {**base, 'id': f'dmg{i}', 'kind': 'damage', 'cols': cols}
        dvs = ['Cost', 'Time'] if custom else rng.sample(['Cost', 'Time', 'Carbon', 'Energy'], rng.randint(1, 3))
        du = {d: pick(rng, custom, d) for d in dvs}
        yield {**base, 'id': f'los{i}', 'kind': 'loss', 'whole': int(rng.random() < .5),
               'cols': [{'lab': [d, 'R' + p[0], p[0], str(ds), *p[1:]], 'unit': du[d], 'v': [rng.randint(0, 900) for _ in range(n)]}
                        for d in dvs for p in places for ds in range(1, 3)]}
        cols = rng.sample([(c, x) for c in ('A', 'B.10.31', 'Q') for x in ('0', '1', '2', '11')], rng.randint(1, 5))
        yield {**base, 'id': f'row{i}', 'kind': 'rows', 'whole': int(rng.random() < .5), 'text': rng.randint(0, 20),
               'cols': [{'lab': list(p), 'unit': pick(rng, custom, rng.choice(['acc', 'qty', 'Cost'])), 'v': [rng.randint(0, 900) for _ in range(n)]} for p in cols]}
    for i in range(ctx.n(60, 1200)):
        custom = rng.random() < .2
        yield {'id': f'cut{i}', 'kind': 'cut', 'custom': int(custom), 'n': rng.choice([2, 3, 6]), 'seed': rng.randrange(10 ** 6),
               'units': {'acc': pick(rng, custom, 'acc'), 'A': pick(rng, custom, 'qty'), 'B': pick(rng, custom, 'qty'),
                         'Cost': pick(rng, custom, 'Cost'), 'Time': pick(rng, custom, 'Time')},
               'blocks': rng.choice([1, 1, 2, 5]), 'cut': rng.choice(['demand', 'asset', 'damage', 'loss', 'all']),
               'lf': int(rng.random() < .5), 'proc': int(rng.random() < .4), 'reload_model': 1}
    for i in range(ctx.n(50, 800)):
        yield {'id': f'mod{i}', 'kind': 'model', 'custom': 0, 'n': rng.choice([8, 12, 20]), 'seed': rng.randrange(10 ** 6),
               'unit': rng.choice(['mps2', 'g', 'inchps2']), 'punit': rng.choice(['rad', 'unitless']),
               'fams': [rng.choice(['lognormal', 'normal', 'empirical', 'lognormal']) for _ in range(2)], 'trunc': rng.choice([None, 'lo', 'hi', 'both']),
               'single': int(rng.random() < .2), 'before': rng.choice(['', '', 'model', 'sample']), 'form': rng.choice(['file', 'file', 'dict'])}


def code(v, unit, u):
    """value in base units -> whole number the specification computes with"""
    v = float(v)
    if np.isnan(v):
        return NA
    f, k = u[unit] if unit in u else (1, 1)
    x = v / f
    r = round(x)
    return int(r * k) if abs(x - r) < 1e-9 * max(1, abs(x)) and abs(r * k) < 2e9 else ODD


def mem_table(df, units, u):
    out = []
    for j, c in enumerate(df.columns):
        un = units.get(c) if isinstance(units, dict) else units
        out.append({'head': '-'.join(map(str, c)), 'unit': str(un), 'v': [code(v, un, u) for v in df.iloc[:, j]]})
    return out


def cells_table(df, units):
    """a returned table: values in the units of `units`"""
    out = []
    for j, c in enumerate(df.columns):
        vals = []
        for v in df.iloc[:, j]:
            v = float(v)
            vals.append(NA if np.isnan(v) else int(round(v)) if abs(v - round(v)) < 1e-9 * max(1, abs(v)) else ODD)
        out.append({'head': '-'.join(map(str, c)), 'unit': str(units[c]), 'cells': vals})
    return out


def read_file(path, raw=False, by='columns'):
    with open(path, newline='') as f:
        rows = list(csv.reader(f))
    if by == 'rows':
        rows = [list(c) for c in zip(*rows)]
        assert all(r[1:] == ['text'] * (len(r) - 1) for r in rows if r[0] == 'note')
        rows = [[r[0].removeprefix('c'), *r[1:]] for r in rows if r[0] != 'note']
        rows = [rows[0], *sorted(rows[1:], key=lambda r: int(r[0]) if r[0].isdigit() else -1)]
    head = rows[0][1:]
    units = next((r[1:] for r in rows[1:] if r[0] == 'Units'), [''] * len(head))
    body = [r for r in rows[1:] if r[0] != 'Units']
    out = []
    for j, h in enumerate(head):
        vals = []
        for r in body:
            t = r[j + 1] if j + 1 < len(r) else 'short'
            try:
                v = NA if t == '' else float(t)
                if raw:
                    vals.append(f'{v:.6g}')
                    continue
                vals.append(int(round(v)) if abs(v - round(v)) < 1e-9 * max(1, abs(v)) else ODD)
            except ValueError:
                vals.append(ODD)
        out.append({'head': h, 'unit': units[j], 'cells': vals})
    return {'ev': 'file', 't': out, 'rows': [int(r[0]) if r[0].isdigit() else -1 for r in body], 'n': len(body)}


def table_of(inp, u, names):
    """the table as it is handed over: with a row of units"""
    cols = pd.MultiIndex.from_tuples([tuple(c['lab']) for c in inp['cols']], names=names)
    df = pd.DataFrame(np.array([[np.nan if v == NA else float(v) for v in c['v']] for c in inp['cols']]).T.reshape(inp['n'], len(cols)), columns=cols, dtype=object)
    df.loc['Units'] = [c['unit'] for c in inp['cols']]
    return df.loc[['Units', *range(inp['n'])]]


class Rows:
    """a table with one item per row and a column of text, through the general functions"""

    def __init__(self, inp):
        self.inp, self.u = inp, sizes(inp)
        opts = {}
        if inp.get('custom'):
            Path('units.json').write_text(json.dumps(CUSTOM))
            opts['UnitsFile'] = 'units.json'
        self.f = pel.assessment(**opts).unit_conversion_factors
        self.data = self.units = None

    def load(self, src):
        from pelicun import file_io
        if not isinstance(src, str):
            src = src.T
            src.index = ['-'.join(c) for c in src.index]
            src.columns = ['Units', *[f'c{j}' for j in range(self.inp['n'])]]
            src.insert(self.inp['text'] % (self.inp['n'] + 2), 'note', 'text')
            if self.inp.get('whole'):
                src = src.infer_objects()
        self.data, self.units = file_io.load_data(src, self.f, orientation=1, reindex=False, return_units=True)

    def save(self, path=None, save_units=True):  # noqa: FBT002
        from pelicun import file_io
        if path is not None:
            return file_io.save_to_csv(self.data, Path(path), units=self.units, unit_conversion_factors=self.f, orientation=1, use_simpleindex=True)
        df = file_io.save_to_csv(self.data, None, units=self.units, unit_conversion_factors=self.f, orientation=1, use_simpleindex=False)
        assert save_units and list(df['note']) == ['text'] * len(df)
        units = df['Units']
        return df.drop(columns=['Units', 'note'])[[f'c{j}' for j in range(self.inp['n'])]].T, units.to_dict()

    def mem(self):
        t = self.data
        assert list(t['note']) == ['text'] * len(t)
        return mem_table(t[[f'c{j}' for j in range(self.inp['n'])]].T, {tuple(map(str, c)): x for c, x in self.units.items()}, self.u)


class Session:
    """one assessment holding a sample of the kind"""

    def __init__(self, inp):
        self.inp = inp
        self.u = sizes(inp)
        opts = {}
        if inp.get('custom'):
            Path('units.json').write_text(json.dumps(CUSTOM))
            opts['UnitsFile'] = 'units.json'
        self.a = pel.assessment(**opts)
        self.kind = inp['kind']
        if self.kind == 'damage':
            # the units of damaged quantities are those of the components
            comp = {c['lab'][0]: c['unit'] for c in inp['cols']}
            self.a.asset.load_cmp_model({'marginals': pel.cmp_table([{'cmp': c, 'Units': x, 'Location': '1', 'Direction': '1', 'Theta_0': 1., 'Family': None,
                                                                       'Blocks': 1} for c, x in comp.items()])})

    def load(self, src):
        a, k = self.a, self.kind
        if k == 'demand':
            a.demand.load_sample(src)
        elif k == 'asset':
            a.asset.load_cmp_sample(src)
        elif k == 'damage':
            a.damage.load_sample(src)
        elif self.inp['whole']:
            a.loss.load_sample(src)
        else:
            a.loss.ds_model.load_sample(src)

    def save(self, path=None, **kw):
        a, k = self.a, self.kind
        f = {'demand': a.demand.save_sample, 'asset': a.asset.save_cmp_sample, 'damage': a.damage.save_sample,
             'loss': a.loss.save_sample if self.inp.get('whole') else a.loss.ds_model.save_sample}[k]
        return f(path, **kw)

    def mem(self):
        a, k = self.a, self.kind
        df = {'demand': lambda: a.demand.sample, 'asset': lambda: a.asset.cmp_sample, 'damage': lambda: a.damage.ds_model.sample,
              'loss': lambda: a.loss.ds_model.sample}[k]()
        _, units = self.save(save_units=True)
        return mem_table(df, {tuple(map(str, c)): x for c, x in units.items()}, self.u)


def observe(inp):
    return {'cut': observe_cut, 'model': observe_model}.get(inp['kind'], observe_sample)(inp)


def observe_sample(inp):
    names = {'demand': ['type', 'loc', 'dir'], 'asset': ['cmp', 'loc', 'dir', 'uid'], 'damage': ['cmp', 'loc', 'dir', 'uid', 'ds'],
             'loss': ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid'], 'rows': ['cmp', 'loc']}[inp['kind']]
    make = Rows if inp['kind'] == 'rows' else Session
    s = make(inp)
    u = s.u
    df = table_of(inp, u, names)
    if inp.get('event'):
        df.columns = pd.MultiIndex.from_tuples([('1', *c) for c in df.columns])
    s.load(df)
    trace = [{'ev': 'mem', 't': [{'head': '-'.join(c['lab']), 'unit': c['unit'], 'v': [NA if v == NA else v * u[c['unit']][1] for v in c['v']]} for c in inp['cols']]}]
    # the first load is already one: a table with units is what a file holds
    trace.append({'ev': 'same', 'what': 'first', 'a': sorted(x['head'] for x in s.mem()), 'b': sorted(x['head'] for x in trace[0]['t'])})
    path = 'out.csv'
    for h in inp['hist']:
        if h == 'g':
            t, units = s.save(save_units=True)
            trace.append({'ev': 'returned', 't': cells_table(t, units)})
        elif h in 'sx':
            if h == 'x':
                Path(path).write_text('older,content\n' * 5000)
            s.save(path)
            trace.append(read_file(path, by='rows' if make is Rows else 'columns'))
        elif h == 'r':
            s = make(inp)
            trace.append({'ev': 'restart'})
        elif h == 'l':
            s.load(path)
            trace.append({'ev': 'loaded', 't': s.mem()})
        elif h == 'f':
            bad = {'suffix': 'out.txt', 'nodir': 'nowhere/out.csv', 'full': 'full.csv'}[inp['fail']]
            if inp['fail'] == 'full' and not os.path.islink(bad):
                os.symlink('/dev/full', bad)
            err = ''
            try:
                s.save(bad)
            except Exception as e:  # noqa: BLE001
                err = type(e).__name__
            trace.append({'ev': 'failed', 'error': err, 't': s.mem()})
    return {'log': trace}


def close(a, b):
    a, b = float(a), float(b)
    return (np.isnan(a) and np.isnan(b)) or abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-12)


def tags(df, ref):
    """cells of df against those of ref: positions where they agree, 'x' where not"""
    out = []
    for c in sorted(map(tuple, [tuple(map(str, x)) for x in df.columns])):
        col = next(df.iloc[:, j] for j, x in enumerate(df.columns) if tuple(map(str, x)) == c)
        rcol = [ref.iloc[:, j] for j, x in enumerate(ref.columns) if tuple(map(str, x)) == c]
        if len(rcol) != 1 or len(col) != len(rcol[0]):
            out.append(['-'.join(c), 'shape'])
            continue
        out.append(['-'.join(c), *[str(i) if close(x, y) else f'x {x!r} {y!r}' for i, (x, y) in enumerate(zip(col, rcol[0]))]])
    return out


def same(what, df, ref):
    df, ref = [None if x is None or x.empty else x for x in (df, ref)]
    if df is None or ref is None:
        return {'ev': 'same', 'what': what, 'a': 'none' if df is None else 'some', 'b': 'none' if ref is None else 'some'}
    return {'ev': 'same', 'what': what, 'a': tags(df, ref), 'b': tags(ref, ref)}


# ---- calculations continued from files

def pipe(inp, stop=None, start=None, files=None):
    """runs the pipeline; stages before `start` are loaded from files"""
    r = np.random.default_rng(inp['seed'])
    n, un = inp['n'], inp['units']
    u = sizes(inp)
    opts = {}
    if inp['custom']:
        Path('units.json').write_text(json.dumps(CUSTOM))
        opts['UnitsFile'] = 'units.json'
    a = pel.assessment(**opts)
    stages = ['demand', 'asset', 'damage', 'loss', 'end']
    k = stages.index(start) if start else 0
    acc = un['acc']
    vals = r.integers(1, 9, (n, 4))
    rows = [dict(cmp='A', Units=un['A'], Location='1,2', Direction='1', Theta_0=20., Blocks=inp['blocks'], Family=None),
            dict(cmp='A', Units=un['A'], Location='2', Direction='1', Theta_0=40., Blocks=inp['blocks'], Family=None),
            dict(cmp='B.1', Units=un['B'], Location='1', Direction='1,2', Theta_0=60., Blocks=1, Family=None)]
    if inp['lf']:
        rows.append(dict(cmp='F', Units='ea', Location='2', Direction='2', Theta_0=10., Blocks=1, Family=None))
    # demands
    if k > 0:
        a.demand.load_sample(files['demand'])
    else:
        a.demand.load_sample(pel.demand_table(['PFA-1-1', 'PFA-1-2', 'PFA-2-1', 'PFA-2-2'], [acc] * 4, vals))
    # quantities; blocks are no part of a saved sample
    if k < 2 or inp['reload_model']:
        a.asset.load_cmp_model({'marginals': pel.cmp_table(rows)})
    if k > 1:
        a.asset.load_cmp_sample(files['asset'])
    else:
        a.asset.generate_cmp_sample(n)
    # damage
    f = {c: {'Demand': {'Type': pel.PFA, 'Unit': acc, 'Offset': 1, 'Directional': 1}, 'LS1': pel.det(2.5), 'LS2': pel.det(5.5)} for c in ('A', 'B.1')}
    f['A']['LS3'] = pel.det(7.5)
    dmg_proc = {'1_A': {'DS3': 'B.1_NA'}} if inp['proc'] else None
    if k > 2:
        a.damage.load_sample(files['damage'])
    else:
        a.damage.load_model_parameters([pel.fragility_table(f)], {'A', 'B.1'})
        a.damage.calculate(dmg_process=dmg_proc)
    # losses
    if k > 3:
        a.loss.load_sample(files['loss'])
    else:
        a.loss.decision_variables = ('Cost', 'Time')
        ps = []
        for c, q in (('A', un['A']), ('B.1', un['B'])):
            for dv in ('Cost', 'Time'):
                ps.append({'cons': 'R' + c, 'dv': dv, 'qunit': f'1 {q}', 'unit': un[dv], 'states': [
                    {'ds': d, 'xs': [0], 'ys': [int(x)]} for d, x in enumerate(r.integers(1, 9, 3), 1)]})
        tabs = [loss.ds_table(ps)]
        pairs = [{'cmp': 'A', 'cons': 'RA'}, {'cmp': 'B.1', 'cons': 'RB.1'}]
        if inp['lf']:
            d = {'Type': pel.PFA, 'Unit': acc, 'Offset': 1, 'Directional': 1}
            tabs.append(loss.lf_table([{'cons': 'RF', 'dv': dv, 'unit': un[dv], 'demand': d, 'xs': [0, 10], 'ys': [0, 10 * (3 + j)]}
                                       for j, dv in enumerate(('Cost', 'Time'))]))
            pairs.append({'cmp': 'F', 'cons': 'RF'})
        a.loss.add_loss_map(loss.loss_map(pairs))
        a.loss.load_model_parameters(tabs)
        a.loss.calculate()
    agg = a.loss.aggregate_losses()
    return a, agg


def observe_cut(inp):
    a, agg = pipe(inp)
    files = {x: f'{x}.csv' for x in ('demand', 'asset', 'damage', 'loss')}
    a.demand.save_sample(files['demand'])
    a.asset.save_cmp_sample(files['asset'])
    a.damage.save_sample(files['damage'])
    a.loss.save_sample(files['loss'])
    stages = ['asset', 'damage', 'loss', 'end']
    cuts = stages if inp['cut'] == 'all' else [dict(demand='asset', asset='damage', damage='loss', loss='end')[inp['cut']]]
    trace = []
    for start in cuts:
        b, bagg = pipe(inp, start=start, files=files)
        trace.append(same(f'demand-from-{start}', b.demand.sample, a.demand.sample))
        trace.append(same(f'asset-from-{start}', b.asset.cmp_sample, a.asset.cmp_sample))
        trace.append(same(f'damage-from-{start}', b.damage.save_sample(), a.damage.save_sample()))
        trace.append(same(f'loss-from-{start}', b.loss.save_sample(), a.loss.save_sample()))
        trace.append(same(f'aggregate-from-{start}', frame(bagg), frame(agg)))
        b.loss.save_sample('again.csv')
        trace.append({'ev': 'same', 'what': f'file-from-{start}', 'a': rounded(read_file('again.csv', True)), 'b': rounded(read_file(files['loss'], True))})
    return {'log': trace}


def rounded(f):
    return sorted([x['head'], x['unit'], *map(str, x['cells'])] for x in f['t'])


def frame(df):
    df = df.copy()
    df.columns = pd.MultiIndex.from_tuples([(c if isinstance(c, tuple) else (c,)) for c in df.columns])
    return df.astype(float)


# ---- models of demands

def observe_model(inp):
    r = np.random.default_rng(inp['seed'])
    n = inp['n']
    cols = ['PFA-1-1'] if inp['single'] else ['PFA-1-1', 'PFA-2-1', 'PFA-10-1', 'PID-1-1', 'PID-1-2']
    units = [inp['unit'] if c.startswith('PFA') else inp['punit'] for c in cols]
    med = [5. if c.startswith('PFA') else .02 for c in cols]
    vals = np.exp(r.normal(0, .3, (n, len(cols)))) * med
    a = pel.assessment()
    a.demand.load_sample(pel.demand_table(cols, units, vals))
    cfg = {'ALL': {'DistributionFamily': inp['fams'][0]}}
    if inp['fams'][0] != 'empirical' and inp['trunc']:
        if inp['trunc'] in ('lo', 'both'):
            cfg['ALL']['TruncateLower'] = '1e-4'
        if inp['trunc'] in ('hi', 'both'):
            cfg['ALL']['TruncateUpper'] = '400'
    if not inp['single']:
        cfg['PID'] = {'DistributionFamily': inp['fams'][1]}
    try:
        a.demand.calibrate_model(cfg)
    except ValueError:
        return {'log': []}      # no distribution of the family fits the data
    d = a.demand
    if inp['form'] == 'file':
        d.save_model('m')
        src = 'm'
    else:
        marg, units_ = d.marginal_params.copy(), d.model_units if hasattr(d, 'model_units') else d.user_units
        d.save_model('m')
        src = {'marginals': pd.read_csv('m_marginals.csv', index_col=0)}
        if os.path.exists('m_empirical.csv'):
            src['empirical'] = pd.read_csv('m_empirical.csv', index_col=0)
        if os.path.exists('m_correlation.csv'):
            src['correlation'] = pd.read_csv('m_correlation.csv', index_col=0)
    b = pel.assessment()
    if inp['before'] == 'model':
        b.demand.load_sample(pel.demand_table(['PGA-0-1', 'PFA-1-1'], ['g', 'g'], np.exp(r.normal(0, .3, (9, 2)))))
        b.demand.calibrate_model({'ALL': {'DistributionFamily': 'empirical'}})
    elif inp['before'] == 'sample':
        b.demand.load_sample(pel.demand_table(['PGA-0-1', 'PFA-1-1'], ['g', 'inchps2'], np.exp(r.normal(0, .3, (9, 2)))))
    b.demand.load_model(src)
    e = b.demand
    trace = [same('parameters', num(e.marginal_params.T), num(d.marginal_params.T)),
             same('correlation', e.correlation, d.correlation), same('empirical', e.empirical_data, d.empirical_data),
             {'ev': 'same', 'what': 'families', 'a': fams(e.marginal_params), 'b': fams(d.marginal_params)}]
    # both models generate the same sample, reported in the same units
    for po in (False, True):
        for m, x in ((d, a), (e, b)):
            with contextlib.suppress(Exception):
                x.options.seed = 4
            m.generate_sample({'SampleSize': 9, 'PreserveRawOrder': po})
        trace.append(same(f'sample-{po}', e.sample, d.sample))
        sa, ua = d.save_sample(save_units=True)
        sb, ub = e.save_sample(save_units=True)
        trace.append(same(f'reported-{po}', sb, sa))
        trace.append({'ev': 'same', 'what': 'units', 'a': sorted('-'.join(i) + x for i, x in ub.items()), 'b': sorted('-'.join(i) + x for i, x in ua.items())})
    # and are saved alike
    e.save_model('m2')
    for part in ('marginals', 'empirical', 'correlation'):
        p, q = Path(f'm_{part}.csv'), Path(f'm2_{part}.csv')
        trace.append({'ev': 'same', 'what': f'file-{part}', 'a': text(q), 'b': text(p)})
    return {'log': trace}


def text(p):
    if not p.exists():
        return 'none'
    with open(p, newline='') as f:
        rows = list(csv.reader(f))
    out = []
    for r in rows:
        o = []
        for t in r:
            try:
                o.append(f'{float(t):.7g}')
            except ValueError:
                o.append(t)
        out.append(o)
    return out


def num(df):
    return df.loc[[i for i in df.index if i not in ('Family', 'Units')]].astype(float)


def fams(df):
    return sorted('-'.join(map(str, i)) + ':' + str(r.Family) for i, r in df.iterrows())


def to_tla(c):
    u = sizes(c['in'])
    return {'id': c['id'], 'in': {'units': [{'u': n, 'f': k} for n, (_, k) in u.items()]}, 'obs': c['obs']}
