RS = 'pelicun/tools/regional_sim.py'
DL = 'pelicun/tools/DL_calculation.py'
AS = 'pelicun/assessment.py'
NN = 'pelicun/tools/NNR.py'

REG = r'''
import os, random, sys, warnings
here = sys.path[0]
os.environ['VP_SCRATCH'] = os.getcwd()
import regional
ARCH = {'W1': {'im': 'PGA', 'limits': [100, 300]}}
COST = {'RES1': {'Cost': [1, 2, 3, 4], 'Time': [10, 20, 30, 40]}}
def sim(buildings, grid, **kw):
    return regional.play({'kind': 'sim', 'method': 'eq', 'ims': ['PGA'], 'archetypes': ARCH, 'consequences': COST, 'dvs': {'Cost': 1, 'Time': 1}, 'grid': grid,
        'buildings': buildings, 'samples': 2, 'neighbors': 1, 'realizations': 2, 'filter': None, 'cores': 1, 'size': None, 'shuffle': None, **kw})
def house(id, x, y=0):
    return {'id': id, 'x': x, 'y': y, 'occ': 'RES1', 'arch': 'W1'}
def point(x, values, y=0):
    return {'x': x, 'y': y, 'order': ['PGA'], 'values': {'PGA': values}}
'''
DLC = r'''
import os, sys
os.environ['VP_SCRATCH'] = os.getcwd()
import dlcalc
BASE = {'kind': 'dl', 'length': 'm', 'samples': 4, 'demand': {'cols': ['PID-1-1', 'PFA-0-1', 'PFA-1-1'],
   'rows': [[5, 1000, 2000], [25, 3000, 2000], [25, 3000, 5000], [25, 3000, 5000]], 'units': 1},
 'comps': [{'id': 'A.1', 'locs': [1], 'dirs': [1], 'qty': 2, 'edp': 'PID', 'offset': 0, 'directional': 1, 'limits': [10, 30]},
           {'id': 'B', 'locs': [1, 2], 'dirs': [1], 'qty': 3, 'edp': 'PFA', 'offset': 0, 'directional': 1, 'limits': [2500]}],
 'process': 'FEMA P-58', 'collapse': None, 'irreparable': None, 'damage': 1, 'options': {}, 'occupancy': None, 'outputs': dlcalc.EVERYTHING,
 'losses': {'dvs': ['Cost', 'Time'], 'table': {'A.1': {'Cost': [10, 20], 'Time': [1, 2]}, 'B': {'Cost': [7], 'Time': [3]}}, 'replacement': {'Cost': 1000, 'Time': 100}, 'map': None}}
def go(*runs):
    o = dlcalc.play({'runs': [{**BASE, **r} for r in runs]})
    for s in o['steps']:
        assert not s['error'], s['error']
    return [s['files'] for s in o['steps']]
def col(table, name):
    return dict(zip(table['columns'], table['values']))[name]
'''

SEEDS = [
    {'id': 'C24-lastone', 'property': 'C24', 'needs': 'a number of buildings one above a multiple of the chunk size', 'files': ['lib/regional.py'],
     'breaks': 'the last building is in no chunk, its results are empty',
     'edits': [(RS, "            for i in range(0, len(bldg_df), batch_size)", "            for i in range(0, max(len(bldg_df) - 1, 1), batch_size)")],
     'demo': REG + """
o = sim([house(i, i) for i in (1, 2, 3)], [point(0, [1, 2])], size=2)
assert not o['error'], o['error']
assert len(o['demand']['columns']) == 3 and all(v == [1000, 2000] for v in o['demand']['values']), o['demand']
"""},
    {'id': 'C24-clamped', 'property': 'C24', 'needs': 'more demand samples requested than there are rows in the grid files', 'files': ['lib/regional.py'],
     'breaks': 'the last event is repeated in place of starting again with the first',
     'edits': [(RS, "    indices = np.arange(sample_size_demand) % n_available", "    indices = np.minimum(np.arange(sample_size_demand), n_available - 1)")],
     'demo': REG + """
o = sim([house(1, 1)], [point(0, [1, 2])], samples=4, realizations=4)
assert not o['error'], o['error']
assert o['demand']['values'][0] == [1000, 2000, 1000, 2000], o['demand']
"""},
    {'id': 'C24-sorted', 'property': 'C24', 'needs': 'an inventory that is not in the order of its ids, and buildings cut out in chunks', 'files': ['lib/regional.py'],
     'breaks': 'repair times are in another order than the repair costs and the inventory',
     'edits': [(RS, "            repair_times = repair_times.reindex(original_index)", "            repair_times = repair_times.sort_index()")],
     'demo': REG + """
o = sim([house(i, i) for i in (3, 1, 2)], [point(0, [1, 2])], size=1)
assert not o['error'], o['error']
tables = {k: o[k]['ids'] for k in o if k not in {'error', 'demand'}}
assert len(tables) == 3 and all(v == [3, 1, 2] for v in tables.values()), tables
"""},
    {'id': 'C25-condensed', 'property': 'C25', 'needs': 'a component whose blocks are in two damage states at one location', 'files': ['lib/dlcalc.py'],
     'breaks': 'condensed damage adds the damage states up instead of reporting the governing one',
     'edits': [(DL, "                damage_groupby_2.max().mask(damage_groupby_2.count() == 0, np.nan).T", "                damage_groupby_2.sum().mask(damage_groupby_2.count() == 0, np.nan).T")],
     'demo': DLC + """
comps = [{**BASE['comps'][0], 'dirs': [1, 2], 'qty': 1}]
dem = {'cols': ['PID-1-1', 'PID-1-2'], 'rows': [[15, 35]], 'units': 1}
f, = go({'comps': comps, 'demand': dem, 'samples': 1, 'losses': {**BASE['losses'], 'table': {'A.1': BASE['losses']['table']['A.1']}},
         'outputs': {**dlcalc.EVERYTHING, 'Settings': {'CondenseDS': 1}}})
assert col(f['DMG_grp.zip'], 'A.1-1') == [2000], f['DMG_grp.zip']
"""},
    {'id': 'C25-lingering', 'property': 'C25', 'needs': 'a second calculation in a folder that asks for less than the first', 'files': ['lib/dlcalc.py'],
     'breaks': 'a statistics file of the earlier calculation stays in the folder',
     'edits': [(DL, "    'DV_repair_grp_stats.csv',\n    'DV_repair_agg.zip',", "    'DV_repair_group_stats.csv',\n    'DV_repair_agg.zip',")],
     'demo': DLC + """
a, b = go({}, {'outputs': {'Damage': {'Sample': 1}}})
assert 'DV_repair_grp_stats.csv' in a and 'DV_repair_grp_stats.csv' not in b, sorted(b)
"""},
    {'id': 'C25-summarized', 'property': 'C25', 'needs': 'colocated results not aggregated, and blocks of one component in several rows', 'files': ['lib/dlcalc.py'],
     'breaks': 'grouped losses of a component with several uids are those of the first only',
     'edits': [(DL, "        grp_repair = repair_groupby.sum().mask(repair_groupby.count() == 0, np.nan).T", "        grp_repair = repair_groupby.max().mask(repair_groupby.count() == 0, np.nan).T")],
     'demo': DLC + """
f, = go({'outputs': {**dlcalc.EVERYTHING, 'Settings': {'AggregateColocatedComponentResults': 0}}})
s, g = f['DV_repair_sample.zip'], f['DV_repair_grp.zip']
for n in g['columns']:
    cols = [v for c, v in zip(s['columns'], s['values']) if c.startswith(n + '-')]
    assert cols and [sum(x) for x in zip(*cols)] == col(g, n), n
"""},
    {'id': 'C30-library', 'property': 'C30', 'needs': 'a user fragility for a component that the library knows as well', 'files': ['lib/dlcalc.py'],
     'breaks': 'the library entry wins over the one the user gave',
     'edits': [(AS, "        component_db = component_db[::-1]\n", "        component_db = sorted(component_db, key=lambda path: 'PelicunDefault' in path)\n")],
     'demo': DLC + """
comps = [{'id': 'X', 'locs': [1], 'dirs': [1], 'qty': 1, 'edp': 'PID', 'offset': 0, 'directional': 1, 'limits': [35, 45]}]
f, = go({'database': [{'method': 'FEMA P-58', 'old': 0}], 'comps': comps, 'losses': {**BASE['losses'], 'table': {'X': {'Cost': [1, 2], 'Time': [1, 2]}}}})
t = f['DMG_sample.zip']
assert not any(any(v) for c, v in zip(t['columns'], t['values']) if c.startswith('X-') and not c.endswith('-0')), t
"""},
    {'id': 'C30-lastlimit', 'property': 'C30', 'needs': 'collapse limits for two demand types', 'files': ['lib/dlcalc.py'],
     'breaks': 'only realizations that exceed the last limit are removed',
     'edits': [(AS, "                    dem_to_drop += raw_demands.loc[\n                        :,  # type: ignore\n                        idx[dem_type, :, :],\n                    ]", "                    dem_to_drop = raw_demands.loc[\n                        :,  # type: ignore\n                        idx[dem_type, :, :],\n                    ]")],
     'demo': DLC + """
f, = go({'limits': {'PID': 20, 'PFA': 9000}})
assert col(f['DEM_sample.zip'], 'PID-1-1') == [5] * 4, f['DEM_sample.zip']
"""},
    {'id': 'C30-atlimit', 'property': 'C30', 'needs': 'a demand equal to the collapse limit', 'files': ['lib/dlcalc.py'],
     'breaks': 'a demand that reaches the limit without exceeding it counts as collapse',
     'edits': [(AS, "                    dem_to_drop += raw_demands.loc[\n                        :,  # type: ignore\n                        idx[dem_type, :, :],\n                    ].max(axis=1) > float(limit)", "                    dem_to_drop += raw_demands.loc[\n                        :,  # type: ignore\n                        idx[dem_type, :, :],\n                    ].max(axis=1) >= float(limit)")],
     'demo': DLC + """
f, = go({'limits': {'PID': 25}})
assert col(f['DEM_sample.zip'], 'PID-1-1') == [5, 25, 25, 25], f['DEM_sample.zip']
"""},
]
