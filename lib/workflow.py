"""Interpreter of Workflow histories on the real code, and references from fresh assessments."""
from __future__ import annotations

import contextlib
import copy
import hashlib
import io
import json
import os
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

import loss
import pel

N = 12
OPTIONS = {'NonDirectionalMultipliers': {'ALL': 1.1}, 'RepairCostAndTimeCorrelation': 0.5,
           'EconomiesOfScale': {'AcrossFloors': True, 'AcrossDamageStates': False}}


def _demand(v):
    r = np.random.default_rng(40 + v)
    if v == 1:
        cols = ['PFA-1-1', 'PFA-1-2', 'PFA-2-1', 'PFA-2-2', 'PID-1-1', 'PID-1-2', 'PGA-0-1']
        units = ['g'] * 4 + ['unitless'] * 2 + ['g']
        scale = [.6, .5, .8, .7, .02, .015, .5]
    else:
        cols = ['PID-1-1', 'PID-1-2', 'PFA-2-1', 'PFA-2-2', 'PFA-1-1', 'PFA-1-2', 'PFA-3-1', 'PGA-0-1']
        units = ['rad'] * 2 + ['inchps2'] * 5 + ['g']
        scale = [.018, .02, 300, 280, 250, 220, 200, .6]
    vals = np.round(np.exp(r.normal(0, .5, (N, len(cols)))) * scale, 4)
    return pel.demand_table(cols, units, vals)


def _assets(v):
    if v == 1:
        rows = [dict(cmp='A', Units='ea', Location='1--2', Direction='1', Theta_0=4, Blocks=2, Family=np.nan, Theta_1=np.nan),
                dict(cmp='B', Units='ft2', Location='1', Direction='1,2', Theta_0=120., Blocks=3, Family='lognormal', Theta_1=.3),
                dict(cmp='F', Units='ea', Location='1', Direction='1', Theta_0=2, Blocks=1, Family=np.nan, Theta_1=np.nan)]
    else:
        rows = [dict(cmp='A', Units='ea', Location='1', Direction='2', Theta_0=6, Blocks=3, Family='normal', Theta_1=.2),
                dict(cmp='C', Units='m', Location='1', Direction='0', Theta_0=10, Blocks=1, Family=np.nan, Theta_1=np.nan),
                dict(cmp='F', Units='ea', Location='2', Direction='1', Theta_0=3, Blocks=2, Family=np.nan, Theta_1=np.nan),
                dict(cmp='A', Units='ea', Location='1', Direction='2', Theta_0=2, Blocks=1, Family=np.nan, Theta_1=np.nan)]
    return {'marginals': pel.cmp_table(rows)}


def _ln(m, b, w=None):
    d = {'Family': 'lognormal', 'Theta_0': m, 'Theta_1': b}
    if w:
        d['DamageStateWeights'] = w
    return d


def _frag(f):
    k = 1 if f == 1 else 2
    acc = {'Type': pel.PFA, 'Unit': 'g', 'Directional': 1, 'Offset': 1}
    drift = {'Type': pel.PID, 'Unit': 'unitless', 'Directional': 1, 'Offset': 0}
    t = {'A': {'Demand': acc, 'LS1': _ln(.4 / k, .3), 'LS2': _ln(.7, .3, '0.4 | 0.6')},
         'B': {'Demand': drift, 'LS1': _ln(.01 / k, .4), 'LS2': _ln(.02, .4) if k == 1 else {}},
         'C': {'Demand': {**acc, 'Directional': 0, 'Unit': 'mps2'}, 'LS1': _ln(3. * k, .2), 'LS2': _ln(8., .2)}}
    return pel.fragility_table(t)


COMPS = ['A', 'B', 'C']
CONSES = ['CA', 'CB', 'CC', 'L1', 'L2']
QUNIT = {'CA': '1 EA', 'CB': '10 FT2', 'CC': '1 EA'}


def _map(m, v):
    comps = {1: ['A', 'B', 'F'], 2: ['A', 'C', 'F']}[v]
    named = {1: {'A': 'CA', 'B': 'CB', 'C': 'CC', 'F': 'L1'}, 2: {'A': 'CB', 'B': 'CA', 'C': 'CC', 'F': 'L2'}}[m]
    return loss.loss_map([{'cmp': c, 'cons': named[c]} for c in comps])


def _cons(c):
    k = 1 if c == 1 else 3
    ps = []
    for name, base in (('CA', 100), ('CB', 40), ('CC', 700)):
        ps.append({'cons': name, 'dv': 'Cost', 'states': [
            {'ds': 1, 'xs': [1, 5], 'ys': [base * k, base * k // 2], 'family': 'lognormal', 'cov': .3},
            {'ds': 2, 'xs': [0], 'ys': [base * 3 * k]}] + ([{'ds': 3, 'xs': [0], 'ys': [base * 5]}] if k == 1 else [])})
        ps.append({'cons': name, 'dv': 'Time', 'unit': 'day', 'states': [
            {'ds': 1, 'xs': [0], 'ys': [k], 'family': 'normal', 'cov': .2}] + (
            [{'ds': 2, 'xs': [0], 'ys': [k + 2]}] if k == 1 or name != 'CC' else [])})
    d = {'Type': pel.PFA, 'Unit': 'g', 'Offset': 1, 'Directional': 1}
    ls = []
    for name, base in (('L1', 50), ('L2', 90)):
        ls.append({'cons': name, 'dv': 'Cost', 'demand': d, 'xs': [0, 1, 40], 'ys': [0, base * k, base * k + 39 * 10],
                   'family': 'lognormal', 'cov': .2})
        ls.append({'cons': name, 'dv': 'Time', 'unit': 'day', 'demand': d, 'xs': [0, 40], 'ys': [0, 40 * k]})
    return [loss.ds_table(ps), loss.lf_table(ls)]


CAL = {1: {'ALL': {'DistributionFamily': 'empirical'}},
       2: {'ALL': {'DistributionFamily': 'lognormal', 'AddUncertainty': '0.2'}},
       3: {'ALL': {'DistributionFamily': 'lognormal', 'TruncateUpper': '30', 'Unit': 'g'},
           'PID': {'DistributionFamily': 'empirical'}}}
PROC = {0: None, 1: {'1_A': {'DS1': 'F_DS1'}, '2_A-LOC': {'DS2': ['B_NA', 'C_DS2']}, '3_B': {'DS1': 'A_DS3'}}, 2: None}
SCALING = {0: None, 1: None, 2: {'A-1-2': {'LS1': '*2.0'}, 'A-1-1': {'ALL': '/1.5'}}}
AGG = {0: {}, 1: {'loss_combination': 'combo'}, 2: {'replacement_configuration': 'thresholds'}}


def combo():
    return np.array([[0., 500., 1e7], [500., 800., 1.0e7], [1e7, 1.0e7, 1.5e7]])


def others():
    return {1: {'Seed': 3, 'EconomiesOfScale': {'AcrossFloors': False, 'AcrossDamageStates': True},
                'NonDirectionalMultipliers': {'ALL': 1.5, 'PFA': 1.3}, 'DemandOffset': {'PFA': 0}},
            2: {'Seed': 5, 'ListAllDamageStates': True, 'RepairCostAndTimeCorrelation': 1.0,
                'SamplingMethod': 'MonteCarlo', 'Sampling': {'SamplingMethod': 'MonteCarlo'}}}


def num(x):
    x = float(x)
    if x != x:
        return 'nan'
    return '0' if abs(x) < 1e-12 else f'{x:.6e}'


def digest(df):
    """Labels and values (7 digits) of a table, whatever the order of its columns."""
    if df is None:
        return 'none'
    if isinstance(df, pd.Series):
        df = df.to_frame().T
    rows = []
    for c, col in zip(df.columns, df.to_numpy(dtype=object).T):
        lab = '-'.join(str(x) for x in c) if isinstance(c, tuple) else str(c)
        vals = ','.join(num(v) if not isinstance(v, str) else v for v in col)
        if set(vals.split(',')) <= {'0'} and len(df.columns.names) == 7:
            continue     # a loss column of zeros says nothing
        rows.append(lab + ':' + vals)
    idx = ','.join(str(i) for i in df.index)
    return hashlib.sha1(('|'.join(sorted(rows)) + '#' + idx).encode()).hexdigest()[:16]


def dumps(obj):
    """Comparable image of an input object."""
    if isinstance(obj, pd.DataFrame):
        return [[str(x) for x in obj.columns], [str(x) for x in obj.columns.names], [str(x) for x in obj.index],
                [str(x) for x in obj.index.names], [[f'{type(v).__name__[:3]}:{v}' for v in row] for row in obj.to_numpy(dtype=object).tolist()]]
    if isinstance(obj, dict):
        return {str(k): dumps(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple, set)):
        return [dumps(v) for v in (sorted(obj) if isinstance(obj, set) else obj)]
    return str(obj)


def spoil(obj):
    """Changes an object in place as much as possible."""
    if isinstance(obj, pd.DataFrame):
        if len(obj.columns) and len(obj):
            for j in range(obj.shape[1]):
                with contextlib.suppress(Exception):
                    obj.isetitem(j, obj.iloc[:, j].copy())
                try:
                    v = obj.iloc[0, j]
                    obj.iloc[:, j] = 'spoilt' if isinstance(v, str) else 77
                except Exception:  # noqa: BLE001
                    pass
            with contextlib.suppress(Exception):
                obj.values[...] = 77
            with contextlib.suppress(Exception):
                obj.index.names = ['x'] * obj.index.nlevels
    elif isinstance(obj, pd.Series):
        with contextlib.suppress(Exception):
            obj.iloc[:] = 'spoilt' if isinstance(obj.iloc[0], str) else 77
    elif isinstance(obj, np.ndarray):
        obj[...] = 77
    elif isinstance(obj, dict):
        for v in list(obj.values()):
            spoil(v)
        obj.clear()
        obj['spoilt'] = 'spoilt'
    elif isinstance(obj, list):
        for v in obj:
            spoil(v)
        obj.clear()
    elif isinstance(obj, set):
        obj.clear()
    elif isinstance(obj, tuple):
        for v in obj:
            spoil(v)


class Player:
    """Plays the actions of a history; `reuse`: hand over the same objects again and again."""

    def __init__(self, reuse=False, watch=False):
        self.reuse, self.watch = reuse, watch
        self.store = {}          # name -> (object handed over, image of it before the first call)
        self.given = []
        self.returned = []
        self.changed = []
        self.dir = Path(tempfile.mkdtemp(dir=os.environ.get('VP_SCRATCH')))
        self.cmp = 0
        self.start()

    # inputs -----------------------------------------------------------------------------------
    def give(self, name, make):
        if self.reuse and name in self.store:
            return self.store[name][0]
        obj = make()
        if obj is not None:
            self.store[name] = (obj, json.dumps(dumps(obj)))
            self.given.append(obj)
        return obj

    def check_inputs(self):
        if not self.watch:
            return
        for name, (obj, before) in self.store.items():
            if json.dumps(dumps(obj)) != before:
                self.changed.append(name)

    def start(self):
        from pelicun.assessment import Assessment
        opts = self.give('options', lambda: copy.deepcopy({'Seed': 1, 'Verbose': False, 'PrintLog': False, **OPTIONS}))
        self.a = Assessment(opts)

    # actions ----------------------------------------------------------------------------------
    def do(self, x):
        n, v, w = x['a'], x['v'], x['w']
        a = self.a
        a.options.seed = 11
        ret = None
        if n == 'LoadDemand':
            a.demand.load_sample(self.give(f'demand{v}', lambda: _demand(v)))
        elif n == 'Calibrate':
            a.demand.calibrate_model(self.give(f'cal{v}', lambda: copy.deepcopy(CAL[v])))
        elif n == 'GenDemand':
            a.demand.generate_sample(self.give(f'gen{v}', lambda: {
                'SampleSize': N, 'PreserveRawOrder': True,
                **({'DemandCloning': {'PFA-1-1': ['PFA-1-1', 'PFA-9-1'], 'PID-1-2': ['PID-1-2', 'PID-9-2', 'PID-3-1']}} if v else {})}))
        elif n == 'Rid':
            a.demand.estimate_RID_and_adjust_sample(self.give('rid', lambda: {'yield_drift': 0.01}))
        elif n == 'Assets':
            self.load_assets(v)
            a.asset.generate_cmp_sample()
        elif n == 'Frag':
            a.damage.load_model_parameters(self.give(f'frag{v}', lambda: [_frag(v)]),
                                           self.give(f'cmpset{self.cmp}', lambda: set(a.asset.list_unique_component_ids())),
                                           warn_missing=False)
        elif n == 'FragMix':
            a.damage.load_model_parameters([w], set(a.asset.list_unique_component_ids()), warn_missing=False)
        elif n == 'Damage':
            a.damage.calculate(self.give(f'proc{v}', lambda: copy.deepcopy(PROC[v])),
                               scaling_specification=self.give(f'scaling{v}{self.cmp}', lambda: self.scaling(v)))
        elif n == 'Map':
            a.loss.add_loss_map(self.give(f'map{v}{self.cmp}', lambda: _map(v, self.cmp)))
        elif n == 'Cons':
            a.loss.load_model_parameters(self.give(f'cons{v}', lambda: _cons(v)))
        elif n == 'ConsMix':
            a.loss.load_model_parameters(w)
        elif n == 'Loss':
            a.loss.calculate()
        elif n == 'Scale':
            f = self.dir / f'scale{v}.csv'
            f.write_text('Decision Variable,Component,Scale Factor\nCost,,2.0\n' if v == 1 else
                         'Decision Variable,Location,Scale Factor\nTime,1,3.0\nCost,2,1.5\n')
            a.loss.consequence_scaling(str(f))
        elif n == 'Agg':
            kw = {}
            if v == 1:
                kw['loss_combination'] = self.give('combo', lambda: {'Cost': {('A', 'F'): combo()}})
            if v == 2:
                kw['replacement_configuration'] = self.give('repl', lambda: self.replacement())
            r = a.loss.aggregate_losses(**kw)
            self.returned.append(r)
            ret = r if isinstance(r, pd.DataFrame) else r[0]
        elif n == 'SaveLoad':
            self.save_load(a, a, v, w)
        elif n == 'Restart':
            old = self.a
            self.start()
            self.a.options.seed = 11
            self.save_load(old, self.a, 1, w)
            self.save_load(old, self.a, 2, w)
            if old.demand.marginal_params is not None:
                self.save_load(old, self.a, 4, w)
            s = old.damage.ds_model.sample
            if s is not None and self.dmg_ok:
                self.save_load(old, self.a, 3, w)
            self.dmg_ok = self.dmg_ok and s is not None
        elif n == 'Other':
            ret = self.other(v)
        elif n == 'TamperIn':
            self.check_inputs()
            for o in self.given:
                spoil(o)
            self.given = []
            self.store = {}
        elif n == 'TamperOut':
            for r in self.results():
                spoil(r)
            for r in self.returned:
                spoil(r)
            self.returned = []
        else:
            raise AssertionError(n)
        if n == 'Damage':
            self.dmg_ok, self.dmg_cmp = True, self.cmp
        if n == 'Assets':
            self.dmg_ok = getattr(self, 'dmg_cmp', None) == self.cmp and a.damage.ds_model.sample is not None
        return ret

    dmg_ok = False

    def scaling(self, v):
        s = SCALING[v]
        if s is None:
            return None
        cols = {'-'.join(str(y) for y in c[:3]) for c in self.a.asset.cmp_sample.columns}
        return {k: dict(x) for k, x in s.items() if k in cols}

    def replacement(self):
        from pelicun import uq
        reg = uq.RandomVariableRegistry(np.random.default_rng(3))
        for dv, val in (('Cost', 5000.), ('Time', 400000.)):
            reg.add_RV(uq.rv_class_map('deterministic')(name=dv, theta=np.array([val])))
        return reg, {'Cost': 0.25}

    def load_assets(self, v):
        self.cmp = v
        self.a.asset.load_cmp_model(self.give(f'assets{v}', lambda: _assets(v)))

    def save_load(self, src, dst, kind, through_file):
        f = str(self.dir / f'f{kind}')
        if kind == 1:
            if through_file:
                src.demand.save_sample(f + '.csv')
                dst.demand.load_sample(f + '.csv')
            else:
                s, u = src.demand.save_sample(save_units=True)
                s = s.astype(object)
                s.loc['Units'] = u
                dst.demand.load_sample(s.loc[['Units', *s.index[:-1]]])
        elif kind == 2:
            src.asset.save_cmp_sample(f + '.csv')
            if src is not dst:
                dst.asset.load_cmp_model(self.give(f'assets{self.cmp}', lambda: _assets(self.cmp)))
            dst.asset.load_cmp_sample(f + '.csv')
        elif kind == 3:
            src.damage.save_sample(f + '.csv')
            dst.damage.load_sample(f + '.csv')
        elif kind == 4:
            src.demand.save_model(f)
            dst.demand.load_model(f)

    def other(self, v):
        p = Player()
        from pelicun.assessment import Assessment
        p.a = Assessment({'Verbose': False, 'PrintLog': False, **others()[v]})
        for x in PREFIX:
            x = dict(x)
            if x['a'] in ('LoadDemand', 'Frag', 'Cons', 'Damage'):
                x['v'] = 3 - v if x['a'] != 'Damage' else 1
            p.do(x)
        r = p.do({'a': 'Agg', 'v': 0, 'w': 0})
        return pd.concat([r.reset_index(drop=True), p.a.damage.ds_model.sample.reset_index(drop=True)], axis=1)

    # observation ------------------------------------------------------------------------------
    def results(self):
        a = self.a
        out = []
        if a.demand.sample is not None:
            out += [*a.demand.save_sample(save_units=True)]
        if a.asset.cmp_sample is not None:
            out += [*a.asset.save_cmp_sample(save_units=True)]
        if a.damage.ds_model.sample is not None and self.dmg_ok:
            out += [*a.damage.save_sample(save_units=True)]
        return out

    def look(self):
        a = self.a
        d = a.demand
        o = {'dem': 'none', 'mdl': 'none', 'cmp': 'none', 'dmg': 'none', 'lss': 'none'}
        if d.sample is not None:
            s, u = d.save_sample(save_units=True)
            u = pd.concat([u, pd.Series(dtype=object)])
            o['dem'] = digest(d.sample) + '-' + hashlib.sha1(
                json.dumps(sorted(['-'.join(map(str, k)), str(x)] for k, x in u.items())).encode()).hexdigest()[:8]
        if d.marginal_params is not None:
            m = d.marginal_params
            keep = [c for c in ('Family', 'Theta_0', 'Theta_1', 'TruncateLower', 'TruncateUpper') if c in m.columns]
            o['mdl'] = digest(m[keep].T) + '-' + (digest(d.correlation) if d.correlation is not None and d.correlation.size else 'none')
        if a.asset.cmp_sample is not None:
            blocks = a.asset.cmp_marginal_params['Blocks']
            o['cmp'] = digest(a.asset.cmp_sample) + '-' + digest(blocks)
        if self.dmg_ok and a.damage.ds_model.sample is not None:
            o['dmg'] = digest(a.damage.ds_model.sample)
        elif a.damage.ds_model.sample is not None:
            o['dmg'] = digest(a.damage.ds_model.sample)
        if a.loss.sample is not None:
            o['lss'] = digest(a.loss.sample)
        return o


PREFIX = [{'a': 'LoadDemand', 'v': 1, 'w': 0}, {'a': 'Assets', 'v': 1, 'w': 0}, {'a': 'Frag', 'v': 1, 'w': 0},
          {'a': 'Damage', 'v': 0, 'w': 0}, {'a': 'Map', 'v': 1, 'w': 0}, {'a': 'Cons', 'v': 1, 'w': 0}, {'a': 'Loss', 'v': 0, 'w': 0}]


def play(inp):
    p = Player(reuse=bool(inp.get('reuse')), watch=bool(inp.get('reuse')))
    steps = []
    for x in inp['hist']:
        try:
            ret = p.do(x)
            o = p.look()
            o['ret'] = digest(ret) if ret is not None else 'none'
            o['exc'] = ''
        except Exception as e:  # noqa: BLE001
            import traceback
            o = {'exc': f'{type(e).__name__}: {e}'[:200] + traceback.format_exc()[-700:], 'dem': '', 'mdl': '', 'cmp': '', 'dmg': '', 'lss': '', 'ret': ''}
        p.check_inputs()
        o['changed'] = sorted(set(p.changed))
        steps.append(o)
        if o['exc']:
            break
    return {'steps': steps}


# references: the shortest way to each tag, in a fresh assessment --------------------------------
def act(a, v=0, w=0):
    return {'a': a, 'v': v, 'w': w}


def demand_acts(t):
    if t[0] == 'raw':
        return [act('LoadDemand', t[1])]
    if t[0] == 'mdl':
        return [act('LoadDemand', t[1]), act('Calibrate', t[2])]
    if t[0] == 'rid':
        return [*demand_acts(t[1]), act('Rid')]
    return [act('LoadDemand', t[1]), act('Calibrate', t[2]), act('GenDemand', t[3])]


def mix(make, names, sources):
    """One table holding the rows of each name from its own source."""
    parts = []
    for s in sorted({x for x in sources if x}):
        t = make(s)
        keep = [n for n, x in zip(names, sources) if x == s]
        parts.append(t[[i in keep for i in (t.index if t.index.nlevels == 1 else t.index.get_level_values(0))]])
    return pd.concat([p for p in parts if len(p)])


def damage_acts(t):
    _, dem, cmp_, proc, src = t
    return [*demand_acts(dem), act('Assets', cmp_), act('FragMix', 0, mix(_frag, COMPS, src)), act('Damage', proc)]


def loss_acts(t):
    _, dmg, dem, map_, src, scaled = t
    acts = damage_acts(dmg)
    if dem != dmg[1]:
        acts += demand_acts(dem)
    tabs = [mix(lambda s: _cons(s)[0], CONSES, src[:3] + [0, 0]), mix(lambda s: _cons(s)[1], CONSES, [0, 0, 0] + src[3:])]
    return acts + [act('Map', map_[0]), act('ConsMix', 0, tabs), act('Loss')] + [act('Scale', v) for v in scaled]


def reference(item):
    kind, tag = item
    if tag[0] == 'none':
        return 'none'
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        p = Player()
        if kind == 'ret':
            if tag[0] == 'other':
                return digest(p.other(tag[1]))
            for x in loss_acts(tag[1]):
                p.do(x)
            return digest(p.do(act('Agg', tag[2])))
        acts = {'dem': demand_acts, 'mdl': demand_acts, 'cmp': lambda t: [act('LoadDemand', 1), act('Assets', t[1])],
                'dmg': damage_acts, 'lss': loss_acts}[kind](tag)
        for x in acts:
            p.do(x)
        return p.look()[kind]


def _ref_json(item):
    try:
        return reference(json.loads(item))
    except Exception as e:  # noqa: BLE001
        import traceback
        return f'error: {type(e).__name__} {e} {traceback.format_exc()[-500:]}'


def with_references(hists, reuse=0):
    """Cases: the histories with the references of all tags that occur in them."""
    import multiprocessing as mp
    need = set()
    per = []
    for h in hists:
        mine = set()
        for x in h:
            for f in ('dem', 'mdl', 'dmg', 'lss'):
                mine.add((f, json.dumps(x['s'][f])))
            if x['s']['cmp']:
                mine.add(('cmp', json.dumps(['cmp', x['s']['cmp']])))
            mine.add(('ret', json.dumps(x['ret'])))
        mine = {m for m in mine if m[1] != '["none"]'}
        per.append(mine)
        need |= mine
    items = [json.dumps([f, json.loads(t)]) for f, t in sorted(need)]
    # every reference in its own process, forked from one that never ran a calculation
    with mp.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        got = dict(zip(sorted(need), pool.map(_ref_json, items, chunksize=1)))
    for i, (h, mine) in enumerate(zip(hists, per)):
        ref = {f: [] for f in ('dem', 'mdl', 'cmp', 'dmg', 'lss', 'ret')}
        for f, t in sorted(mine):
            ref[f].append([json.loads(t), got[f, t]])
        yield {'id': f'h{i}', 'hist': [{k: x[k] for k in 'avw'} for x in h], 'ref': ref, 'reuse': reuse}
