"""First batch: damage, quantities, processes, demands, capacities, losses."""
DM = 'pelicun/model/damage_model.py'
DE = 'pelicun/model/demand_model.py'
LM = 'pelicun/model/loss_model.py'
SEEDS = [
    {'id': 'C01-ladder', 'property': 'C01', 'needs': 'a realization whose demand exceeds the capacity of a higher limit state but not of a lower one (capacities that cross)',
     'breaks': 'a limit state only counts when the one before it is exceeded as well, so a block with crossing capacities stays undamaged',
     'edits': [(DM, """            # Drop the limit state level from the columns to make the damage
            # exceedance DataFrame compatible""", """            # a limit state is reached through the ones before it
            if ls_id != ls_list[0]:
                reached = ds_sample.loc[:, dmg_e_ls.columns.droplevel(5)]  # type: ignore
                dmg_e_ls = dmg_e_ls & (reached > 0).to_numpy()

            # Drop the limit state level from the columns to make the damage
            # exceedance DataFrame compatible""")],
     'demo': """
a = new()
demand(a, ['PGA-1-1'], [[3.0], [9.0], [1.0]])
assets(a, [('A', 1, 1, 5)], 3)
ds = damage(a, frag({'A': {'LS1': 5.0, 'LS2': 2.0}}))
assert list(ds.iloc[:, 0]) == [2, 2, 0], ds
"""},
    {'id': 'C02-blocks', 'property': 'C02', 'needs': 'two rows of one component at the same place (different uid) with different block counts',
     'breaks': 'the quantity of a group is divided by the block count of another group at the same place',
     'edits': [(DM, """                    / get_num_blocks((component, location, direction, uid)),
""", """                    / get_num_blocks((component, location, direction, '0')),
""")],
     'demo': """
a = new()
demand(a, ['PGA-1-1'], [[3.0], [9.0]])
assets(a, [('A', 1, 1, 6, 2), ('A', 1, 1, 12, 3)], 2)
damage(a, frag({'A': {'LS1': 2.0}}))
q = a.damage.save_sample()
tot = q.T.groupby(level='uid').sum().T
assert sorted(tot.iloc[0]) == [6, 12] and sorted(tot.iloc[1]) == [6, 12], q
"""},
    {'id': 'C03-anyblock', 'property': 'C03', 'needs': 'a -LOC rule whose source has several blocks at one location in different damage states',
     'breaks': 'a location-matched rule fires when any block is in the source state, although another block is in a higher one',
     'edits': [(DM, """                self.ds_sample[source_cmp, loc].max(axis=1).to_numpy() == ds_source
            )[0]""", """                (self.ds_sample[source_cmp, loc] == ds_source).any(axis=1).to_numpy()
            )[0]""")],
     'demo': """
a = new()
demand(a, ['PGA-1-1', 'PGA-1-2'], [[3.0, 9.0], [3.0, 3.0]])
assets(a, [('A', 1, '1,2', 5), ('B', 1, 1, 5)], 2)
ds = damage(a, frag({'A': {'LS1': 2.0, 'LS2': 5.0}, 'B': {'LS1': 90.0}}), {'1_A-LOC': {'DS1': 'B_DS1'}})
assert list(ds['B'].iloc[:, 0]) == [0, 1], ds
"""},
    {'id': 'C09-parallel', 'property': 'C09', 'needs': 'repair times at one location in several components or directions',
     'breaks': 'the parallel repair time is the largest single repair instead of the largest sum of a location',
     'edits': [(LM, """                df_agg['repair_time-parallel'] = aggregated['Time'].max(axis=1)
""", """                df_agg['repair_time-parallel'] = (
                    sample['Time'].T.groupby(level=['loc', 'dir']).sum().T
                ).max(axis=1)
""")],
     'demo': """
a = new()
demand(a, ['PGA-1-1', 'PGA-1-2', 'PGA-2-1'], [[9.0, 9.0, 9.0], [9.0, 9.0, 1.0]])
assets(a, [('A', 1, '1,2', 5), ('A', 2, 1, 5)], 2)
damage(a, frag({'A': {'LS1': 2.0}}))
l = losses(a, {('A', 'Time'): {'DS1': 3.0}}, dvs=('Time',))
agg = l.aggregate_losses(future=True)[0]
assert list(agg['repair_time', 'parallel']) == [30, 30], agg
assert list(agg['repair_time', 'sequential']) == [45, 30], agg
"""},
]
