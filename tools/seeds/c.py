DM = 'pelicun/model/damage_model.py'
LM = 'pelicun/model/loss_model.py'
AM = 'pelicun/model/asset_model.py'
DE = 'pelicun/model/demand_model.py'
UQ = 'pelicun/uq.py'
BA = 'pelicun/base.py'
IO = 'pelicun/file_io.py'

SEEDS = [
    {'id': 'C26-samevars', 'property': 'C26', 'needs': 'a second component model loaded after a sample was generated from the first one, then another sample',
     'breaks': 'the quantities of the earlier component model are sampled again',
     'edits': [(AM, """        self._create_cmp_RVs()

        assert self._cmp_RVs is not None
        assert self._asmnt""", """        if self._cmp_RVs is None:
            self._create_cmp_RVs()

        assert self._cmp_RVs is not None
        assert self._asmnt""")],
     'demo': """
a = new()
assets(a, [('A', 1, 1, 5)], 2)
assets(a, [('A', 1, 1, 7)], 2)
assert list(a.asset.cmp_sample.iloc[:, 0]) == [7, 7], a.asset.cmp_sample
"""},
    {'id': 'C27-listed', 'property': 'C27', 'needs': 'a damage process event whose target is given as plain text rather than a list',
     'breaks': 'the damage process dictionary of the caller is rewritten by the calculation',
     'edits': [(DM, """                target_infos = [target_infos]  # noqa: PLW2901
""", """                events[source_event] = target_infos = [target_infos]  # noqa: PLW2901
""")],
     'demo': """
a = new()
demand(a, ['PGA-1-1'], [[1.0]])
assets(a, [('A', 1, 1, 5), ('B', 1, 1, 5)], 1)
p = {'1_A': {'DS1': 'B_DS1'}}
damage(a, frag({'A': {'LS1': 0.5}, 'B': {'LS1': 5.0}}), p)
assert p == {'1_A': {'DS1': 'B_DS1'}}, p
"""},
    {'id': 'C28-lostblocks', 'property': 'C28', 'needs': 'a damage sample in which a damage process cleared a component, saved and loaded',
     'breaks': 'realizations without damage information come back as zero damage',
     'edits': [(DM, """        assert isinstance(data, pd.DataFrame)
        self.ds_model.sample = data
""", """        assert isinstance(data, pd.DataFrame)
        self.ds_model.sample = data.fillna(0.0)
""")],
     'demo': """
a = new()
demand(a, ['PGA-1-1'], [[1.0], [9.0]])
assets(a, [('A', 1, 1, 5), ('B', 1, 1, 5)], 2)
damage(a, frag({'A': {'LS1': 5.0}, 'B': {'LS1': 5.0}}), {'1_A': {'DS1': 'B_NA'}})
a.damage.save_sample('d.csv')
s = a.damage.ds_model.sample
b = new()
assets(b, [('A', 1, 1, 5), ('B', 1, 1, 5)], 2)
b.damage.load_sample('d.csv')
assert b.damage.ds_model.sample.isna().sum().sum() == s.isna().sum().sum() > 0
"""},
]
