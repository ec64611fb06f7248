AS = 'pelicun/assessment.py'

ONECALL = """
def describe(story_count, drifts, loc='all'):
    cols = [('PID', str(s), '1') for s in range(1, len(drifts) + 1)]
    emp = pd.DataFrame({c: [v] * 3 for c, v in zip(cols, drifts)})
    emp.columns.names = ['type', 'loc', 'dir']
    units = pd.DataFrame([['rad'] * len(cols)], index=['Units'], columns=emp.columns)
    marg = pd.DataFrame({'Units': 'rad', 'Family': 'empirical'}, index=['-'.join(c) for c in cols])
    cmps = pd.DataFrame({'Units': 'ea', 'Location': loc, 'Direction': '1', 'Theta_0': 2.0}, index=['A', 'B'])
    return dict(num_stories=story_count, demand_config={'SampleSize': 3, 'PreserveRawOrder': True},
                demand_data_source={'empirical': pd.concat([units, emp]), 'marginals': marg, 'correlation': None},
                cmp_data_source={'marginals': cmps},
                damage_data_paths=[frag({'A': {'LS1': .01}, 'B': {'LS1': .02}}, dtype='Peak Interstory Drift Ratio', unit='rad')])
"""

SEEDS = [
    {'id': 'C32-stories', 'property': 'C32', 'needs': 'two assessments on one object, the second with another number of stories',
     'breaks': 'the number of stories of the first call stays in force',
     'edits': [(AS, """        self.stories = num_stories
        self.asset.load_cmp_model(cmp_data_source)
""", """        if not self.stories:
            self.stories = num_stories
        self.asset.load_cmp_model(cmp_data_source)
""")],
     'demo': ONECALL + """
a = new()
a.calculate_damage(**describe(1, [.03, .03, .03]))
a.calculate_damage(**describe(3, [.03, .03, .03]))
locs = sorted({c[1] for c in a.damage.ds_model.ds_sample.columns})
assert locs == ['1', '2', '3'], locs
"""},
    {'id': 'C32-policy', 'property': 'C32', 'needs': 'a loss map together with a policy for the components it leaves out',
     'breaks': 'the policy is ignored when a loss map is given: the other components have no losses',
     'edits': [(AS, 'self.loss.add_loss_map(loss_map_path, loss_map_policy)',
                'self.loss.add_loss_map(\n            loss_map_path, loss_map_policy if loss_map_path is None else None\n        )')],
     'demo': ONECALL + """
a = new()
a.calculate_damage(**describe(2, [.03, .03]))
table = cons({('A', 'Cost'): {'DS1': 5.0}, ('B', 'Cost'): {'DS1': 7.0}, ('R', 'Cost'): {'DS1': 11.0}})
a.calculate_loss(('Cost',), [table], pd.DataFrame({'Repair': ['R']}, index=['A']), 'fill')
agg, _ = a.aggregate_loss()
assert abs(float(agg['repair_cost'].to_numpy().ravel()[0]) - (2 * 2 * 11 + 2 * 2 * 7)) < 1e-6, agg
"""},
]
