DM = 'pelicun/model/damage_model.py'
LM = 'pelicun/model/loss_model.py'

SEEDS = [
    {'id': 'C20-mixed', 'property': 'C20', 'needs': 'two sources that define one component, the first without a limit state the second one has',
     'breaks': 'the limit states the first definition does not have are taken from the second one',
     'edits': [(DM, """.first(skipna=False)

        # TODO(AZ)""", """.first()

        # TODO(AZ)""")],
     'demo': """
a = new()
demand(a, ['PGA-1-1'], [[8.0]])
assets(a, [('A', 1, 1, 5)], 1)
t1 = frag({'A': {'LS1': 3.0}, 'B': {'LS1': 3.0, 'LS2': 9.0}})
t2 = frag({'A': {'LS1': 5.0, 'LS2': 7.0}})
a.damage.load_model_parameters([t1, t2], {'A'})
a.damage.calculate()
assert a.damage.ds_model.ds_sample.iloc[0, 0] == 1, a.damage.ds_model.ds_sample
"""},
    {'id': 'C20-lastcall', 'property': 'C20', 'needs': 'loss parameters loaded in two calls, both of which define the same consequence',
     'breaks': 'the definition of the second call replaces that of the first',
     'edits': [(LM, """            data = pd.concat((self.loss_params, data), axis=0)""", """            data = pd.concat((data, self.loss_params), axis=0)""")],
     'demo': """
a = new()
demand(a, ['PGA-1-1'], [[8.0]])
assets(a, [('A', 1, 1, 5)], 1)
damage(a, frag({'A': {'LS1': 3.0}}))
a.loss.decision_variables = ('Cost',)
a.loss.add_loss_map(pd.DataFrame({'Repair': ['A']}, index=['A']), None)
a.loss.load_model_parameters([cons({('A', 'Cost'): {'DS1': 3.0}})])
a.loss.load_model_parameters([cons({('A', 'Cost'): {'DS1': 4.0}})])
a.loss.calculate()
assert a.loss.ds_model.sample.iloc[0, 0] == 15.0, a.loss.ds_model.sample
"""},
]
