"""Second batch: demands, capacities, batches, losses, combinations, scaling, units, assignments, labels."""
DM = 'pelicun/model/damage_model.py'
DE = 'pelicun/model/demand_model.py'
LM = 'pelicun/model/loss_model.py'
AM = 'pelicun/model/asset_model.py'
BA = 'pelicun/base.py'
UQ = 'pelicun/uq.py'
SEEDS = [
    {'id': 'C04-terms', 'property': 'C04', 'needs': 'a component with a demand expression whose terms differ in their Directional flag',
     'breaks': 'every term of a demand expression is read as directional or not according to the first term',
     'edits': [(DE, "            directional = demand_parameters[2]\n", "            directional = demand_parameters_list[0][2]\n")],
     'demo': """
a = new(NonDirectionalMultipliers={'ALL': 1.0})
demand(a, ['PGA-1-1', 'PGA-1-2', 'PGV-1-1', 'PGV-1-2'], [[1.0, 1.0, 1.0, 9.0], [1.0, 1.0, 1.0, 2.0]])
assets(a, [('A', 1, 1, 5)], 2)
t = frag({'A': {'LS1': 5.0}})
t['Demand', 'Expression'] = 'X1 + X2'
t['Demand2', 'Type'] = 'Peak Ground Velocity'
t['Demand2', 'Offset'] = 0
t['Demand2', 'Directional'] = 0
t['Demand2', 'Unit'] = 'mps2'
t = t.sort_index(axis=1)
ds = damage(a, t)
assert list(ds.iloc[:, 0]) == [1, 0], ds
"""},
    {'id': 'C05-hoist', 'property': 'C05', 'needs': 'an adjustment that names a limit state of a component with later limit states that are not named',
     'breaks': 'limit states after an adjusted one take over the adjusted median',
     'edits': [(DM, """                            new_theta_0 = None
                            if 'ALL' in""", """                            if 'ALL' in"""),
               (DM, """                ds_id = 0

                frg_rv_set_tags""", """                ds_id = 0
                new_theta_0 = None

                frg_rv_set_tags""")],
     'demo': """
a = new()
demand(a, ['PGA-1-1'], [[5.5], [8.5], [1.5]])
assets(a, [('A', 1, 1, 5)], 3)
t = frag({'A': {'LS1': {'Family': 'lognormal', 'Theta_0': 2.0, 'Theta_1': .0001}, 'LS2': {'Family': 'lognormal', 'Theta_0': 8.0, 'Theta_1': .0001}}})
ds = damage(a, t, scaling_specification={'A-1-1': {'LS1': '*2'}})
assert list(ds.iloc[:, 0]) == [1, 2, 0], ds
"""},
    {'id': 'C06-assembled', 'property': 'C06', 'needs': 'two components that use different expressions of the same demand and that fall in different batches',
     'breaks': 'demands assembled for one batch are reused in later ones without regard to the expression',
     'edits': [(DM, """        # for PG_i in self._asmnt.asset.cmp_sample.columns:
        ds_samples = []
""", """        # for PG_i in self._asmnt.asset.cmp_sample.columns:
        ds_samples = []
        assembled: dict = {}
"""), (DM, """            demand_dict = _assemble_required_demand_data(
                set(required_edps.keys()), nondirectional_multipliers, demand_sample
            )
""", """            demand_dict = {
                key: assembled[key[0]] for key in required_edps if key[0] in assembled
            }
            demand_dict.update(
                _assemble_required_demand_data(
                    set(required_edps.keys()) - set(demand_dict),
                    nondirectional_multipliers,
                    demand_sample,
                )
            )
            for (edps, _), values in demand_dict.items():
                assembled.setdefault(edps, values)
""")],
     'demo': """
res = []
for size in (1, 100):
    a = new()
    demand(a, ['PGA-1-1', 'PGA-2-1'], [[2.0, 2.0], [4.0, 2.0]])
    assets(a, [('A', 1, 1, 5), ('B', 1, 1, 5)], 2)
    t = frag({'A': {'LS1': 5.0}, 'B': {'LS1': 5.0}})
    t['Demand', 'Expression'] = [None, 'X1 * 2']
    t = t.sort_index(axis=1)
    ds = damage(a, t, block_batch_size=size)
    res.append({c[0]: list(ds[c]) for c in ds})
assert res[0] == res[1] == {'A': [0, 0], 'B': [0, 1]}, res
"""},
    {'id': 'C07-tenth', 'property': 'C07', 'needs': 'a component with ten or more damage states',
     'breaks': 'the number of a damage state is read from its last digit, so the consequences of the tenth and later ones are lost or swapped',
     'edits': [(LM, "                    ds_id = ds[2:]\n", "                    ds_id = ds[-1]\n")],
     'demo': """
a = new()
demand(a, ['PGA-1-1'], [[10.5], [3.5], [0.5]])
assets(a, [('A', 1, 1, 5)], 3)
damage(a, frag({'A': {f'LS{i}': float(i) for i in range(1, 11)}}))
l = losses(a, {('A', 'Cost'): {f'DS{i}': 100.0 * i for i in range(1, 11)}}, dvs=('Cost',))
agg = l.aggregate_losses(future=True)[0]
assert list(agg.iloc[:, 0]) == [5000, 1500, 0], agg
"""},
    {'id': 'C08-floorcache', 'property': 'C08', 'needs': 'a directional loss function component assigned to several directions of one location with different demands',
     'breaks': 'the loss function value of the first direction is reused for the other directions of the location',
     'edits': [(LM, """        medians_dict = {}

        # for each component in the asset model
        component: str
""", """        medians_dict = {}
        evaluated: dict = {}

        # for each component in the asset model
        component: str
"""), (LM, """                median_loss = base.stringterpolation(loss_function_str)(edp_values)
""", """                key = (consequence, decision_variable, location)
                if key not in evaluated:
                    evaluated[key] = base.stringterpolation(loss_function_str)(
                        edp_values
                    )
                median_loss = evaluated[key]
""")],
     'demo': """
a = new()
demand(a, ['PGA-1-1', 'PGA-1-2'], [[1.0, 2.0], [3.0, 4.0]])
assets(a, [('A', 1, '1,2', 1)], 2)
l = losses(a, {}, dvs=('Cost',), functions=[lossfun({('A', 'Cost'): '0,100|0,100'})])
s = l.lf_model.sample
assert {c[4]: list(s[c]) for c in s} == {'1': [1, 3], '2': [2, 4]}, s
"""},
    {'id': 'C10-masked', 'property': 'C10', 'needs': 'a replacement threshold together with realizations that already have a replacement loss before others that do not',
     'breaks': 'the losses of a realization are compared with the replacement value of another realization',
     'edits': [(LM, "                    > consequence_values[no_replacement_mask]\n",
                "                    > consequence_values[: no_replacement_mask.sum()]\n")],
     'demo': """
from pelicun import uq
a = new()
demand(a, ['PGA-1-1', 'PGA-2-1'], [[9.0, 9.0], [9.0, 1.0], [9.0, 1.0], [1.0, 1.0]])
assets(a, [('A', 1, 1, 1), ('R', 2, 1, 1)], 4)
damage(a, frag({'A': {'LS1': 2.0}, 'R': {'LS1': 2.0}}))
l = losses(a, {('A', 'Cost'): {'DS1': 100.0}, ('replacement', 'Cost'): {'DS1': 1000.0}}, dvs=('Cost',), mapping={'A': 'A', 'R': 'replacement'})
reg = uq.RandomVariableRegistry(a.options.rng)
reg.add_RV(uq.CoupledEmpiricalRandomVariable(name='Cost', theta=np.array([500.0, 50.0, 500.0, 500.0])))
agg, exc = l.aggregate_losses((reg, {'Cost': 1.0}), future=True)
assert list(exc['Cost']) == [False, True, False, False], exc
assert list(agg.iloc[:, 0]) == [1000, 50, 100, 0], agg
"""},
    {'id': 'C11-cached', 'property': 'C11', 'needs': 'tables for the same components in two decision variables',
     'breaks': 'the interpolation of the first decision variable is reused for the others',
     'edits': [(LM, """                            domains, reference_values
                        )
                    assert interp_func""", """                            domains, reference_values
                        )
                        interpolation_function_cache[components_to_combine] = (
                            interp_func
                        )
                    assert interp_func""")],
     'demo': """
a = new()
demand(a, ['PGA-1-1'], [[0.5], [1.0]])
assets(a, [('A', 1, 1, 1), ('B', 1, 1, 1)], 2)
f = {(c, dv): '0,1|0,1' for c in 'AB' for dv in ('Cost', 'Carbon')}
l = losses(a, {}, dvs=('Cost', 'Carbon'), functions=[lossfun(f)])
t = np.array([[0, 1.0], [1.0, 1.0]])
u = np.array([[0, 1.0], [1.0, 2.0]])
agg = l.aggregate_losses(None, {'Cost': {('A', 'B'): t}, 'Carbon': {('A', 'B'): u}}, future=True)[0]
assert list(agg['repair_cost']) == [.75, 1.0] and list(agg['repair_carbon']) == [1.0, 2.0], agg
"""},
    {'id': 'C12-duplicates', 'property': 'C12', 'needs': 'two entries of a scaling specification that overlap and have the same factor',
     'breaks': 'entries that expand to the same selector and factor are applied once instead of compounding',
     'edits': [(LM, "        expanded_df = pd.concat(expanded_df.values)\n", "        expanded_df = pd.concat(expanded_df.values).drop_duplicates()\n")],
     'demo': """
import os, tempfile
a = new()
demand(a, ['PGA-1-1', 'PGA-2-1'], [[9.0, 9.0], [9.0, 1.0]])
assets(a, [('A', '1,2', 1, 1)], 2)
damage(a, frag({'A': {'LS1': 2.0}}))
l = losses(a, {('A', 'Cost'): {'DS1': 100.0}}, dvs=('Cost',))
d = tempfile.mkdtemp()
p = os.path.join(d, 'scale.csv')
open(p, 'w').write('Decision Variable,Component,Location,Direction,Scale Factor\\nCost,A,1--2,1,2.0\\nCost,A,1,1,2.0\\n')
l.consequence_scaling(p)
s = l.ds_model.sample
got = {c[4]: list(s[c]) for c in s}
assert got == {'1': [400, 400], '2': [200, 0]}, got
"""},
    {'id': 'C13-onesided', 'property': 'C13', 'needs': 'a distribution truncated on one side, stated in other than base units',
     'breaks': 'one-sided truncation limits keep their value when the parameters are converted',
     'edits': [(UQ, """        truncation_limits = truncation_limits.copy()
        truncation_limits *= scale_factor
""", """        truncation_limits = truncation_limits.copy()
        if not np.any(pd.isna(truncation_limits)):
            truncation_limits *= scale_factor
""")],
     'demo': """
out = []
for f, unit in ((1.0, 'm'), (100.0, 'cm')):
    a = new()
    df = pd.DataFrame([{'Units': unit, 'Location': 1, 'Direction': 1, 'Theta_0': 5.0 * f, 'Theta_1': 0.5, 'Family': 'normal', 'TruncateLower': 4.0 * f}], index=['A'])
    a.asset.load_cmp_model({'marginals': df})
    a.asset.generate_cmp_sample(20)
    out.append(np.sort(a.asset.cmp_sample.iloc[:, 0].to_numpy(dtype=float)))
assert (out[0] >= 4.0).all() and (out[1] >= 4.0).all(), out
"""},
    {'id': 'C14-adjacent', 'property': 'C14', 'needs': 'rows that repeat a component at the same place with another place between them',
     'breaks': 'repeated rows share one unique id when they do not follow each other, so that the quantity of one is lost',
     'edits': [(BA, """    dataframe['uid'] = (dataframe.groupby([*inames]).cumcount()).astype(dtype)
""", """    repeats = (
        dataframe[[*inames]].eq(dataframe[[*inames]].shift()).all(axis=1)
        if len(inames) > 2
        else dataframe.duplicated([*inames])
    )
    dataframe['uid'] = repeats.groupby((~repeats).cumsum()).cumsum().astype(dtype)
""")],
     'demo': """
a = new()
assets(a, [('A', '1,2', 1, 5), ('A', 1, 1, 6)], 2)
s = a.asset.cmp_sample
assert s.shape[1] == 3 and sorted(s.iloc[0]) == [5, 5, 6], s
"""},
    {'id': 'C29-emptylevel', 'property': 'C29', 'needs': 'a hierarchical label with an empty level that is not the last one',
     'breaks': 'empty levels are left out of the compact label, so the levels after them move up',
     'edits': [(BA, """                simple_index = [
                    '-'.join([str(id_i) for id_i in idx]) for idx in data.columns
                ]
""", """                simple_index = [
                    '-'.join([str(id_i) for id_i in idx if str(id_i)])
                    for idx in data.columns
                ]
""")],
     'demo': """
from pelicun import base
d = pd.DataFrame([[1, 2]], columns=pd.MultiIndex.from_tuples([('A', '', '1'), ('B', 'x', '2')]))
r = base.convert_to_MultiIndex(base.convert_to_SimpleIndex(d, axis=1), axis=1)
assert list(r.columns) == [('A', '', '1'), ('B', 'x', '2')], r
"""},
]
