"""Small builders around the public API of pelicun, shared by the checks."""
from __future__ import annotations

import numpy as np
import pandas as pd


def assessment(**options):
    from pelicun.assessment import Assessment
    opts = {'Seed': 1, 'Verbose': False, 'PrintLog': False}
    opts.update(options)
    return Assessment(opts)


def demand_table(cols, units, values):
    """cols: list of 'TYPE-loc-dir', units: list, values: rows of realizations."""
    df = pd.DataFrame(np.array(values, dtype=float), columns=cols)
    df = df.astype(object)
    df.loc['Units'] = units
    df = df.loc[['Units', *range(len(values))]]
    df.columns = pd.MultiIndex.from_tuples([tuple(c.split('-')) for c in cols], names=['type', 'loc', 'dir'])
    return df


def set_demand(asmt, cols, units, values):
    asmt.demand.load_sample(demand_table(cols, units, values))


def cmp_table(rows):
    """rows: dicts with cmp, Units, Location, Direction, Theta_0, optional Family, Theta_1, Blocks."""
    df = pd.DataFrame(rows)
    df = df.set_index('cmp')
    df.index.name = None
    return df


def fragility_table(comps):
    """comps: {name: {'Demand': {...}, 'LS1': {...}, ...}} -> damage parameter table."""
    cols, recs = [], {}
    for name, d in comps.items():
        rec = {('Incomplete', ''): d.get('Incomplete', 0)}
        for k, v in d.items():
            if isinstance(v, dict):
                for kk, vv in v.items():
                    rec[(k, kk)] = vv
        recs[name] = rec
        for c in rec:
            if c not in cols:
                cols.append(c)
    return pd.DataFrame({n: pd.Series(r, dtype=object) for n, r in recs.items()}).T.reindex(
        columns=pd.MultiIndex.from_tuples(cols)).infer_objects()


def col_key(t):
    return '|'.join(str(x) for x in t)


def ints(frame, scale=1):
    """matrix of ints (row per realization); NaN -> the string 'nan'."""
    out = []
    for row in frame.to_numpy():
        r = []
        for v in row:
            v = float(v)
            if np.isnan(v):
                r.append(-999999)
            elif abs(v) * scale > 2e9:
                r.append(999999999)
            else:
                r.append(int(round(v * scale)))
        out.append(r)
    return out


def pipeline(demand, cmps, frag=None, opts=None, warn_missing=True):
    """Assessment with demands, asset sample and damage parameters loaded.

    demand = (cols, units, rows); cmps = rows of the component table; frag = {component: {...}}.
    """
    a = assessment(**(opts or {}))
    set_demand(a, *demand)
    a.asset.load_cmp_model({'marginals': cmp_table(cmps)})
    a.asset.generate_cmp_sample(len(demand[2]))
    if frag is not None:
        a.damage.load_model_parameters([fragility_table(frag)], set(a.asset.list_unique_component_ids()),
                                       warn_missing=warn_missing)
    return a


PGA = 'Peak Ground Acceleration'
PFA = 'Peak Floor Acceleration'
PID = 'Peak Interstory Drift Ratio'


def det(cap, weights=None):
    d = {'Family': None, 'Theta_0': cap, 'Theta_1': None}
    if weights is not None:
        d['DamageStateWeights'] = weights
    return d


def ds_columns(a):
    """{(cmp, loc, dir, uid): [block columns in order]} of the damage state sample."""
    out = {}
    for c in a.damage.ds_model.ds_sample.columns:
        c = tuple(str(x) for x in c)
        out.setdefault(c[:4], []).append(c)
    return {k: sorted(v, key=lambda x: int(x[4])) for k, v in out.items()}


def ds_of(a, cmp, loc, dir_, uid='0'):
    """rows of block damage states of one performance group ([] when it is not there)."""
    cols = ds_columns(a).get((str(cmp), str(loc), str(dir_), str(uid)))
    if not cols:
        return []
    return [[int(v) for v in row] for row in a.damage.ds_model.ds_sample[cols].to_numpy()]
