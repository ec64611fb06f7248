UQ = 'pelicun/uq.py'
DE = 'pelicun/model/demand_model.py'

UQDEMO = """
import numpy as np
from pelicun import uq


def registry(seed=3):
    return uq.RandomVariableRegistry(np.random.default_rng(seed))


def ranks(x):
    return np.argsort(np.argsort(x)).tolist()

"""

SEEDS = [
    {'id': 'C15-svd', 'property': 'C15', 'needs': 'a correlated set of three or more variables two of which are perfectly correlated (a matrix Cholesky cannot factor)',
     'breaks': 'the transformation used for singular correlation matrices is not transposed',
     'edits': [(UQ, "nc_rv = (n_rv.T @ s_diag @ u_mat.T).T", "nc_rv = (n_rv.T @ s_diag @ u_mat).T")],
     'demo': UQDEMO + """
r = registry()
vs = [uq.NormalRandomVariable(n, np.array([0.0, 1.0])) for n in 'abcd']
for v in vs:
    r.add_RV(v)
rho = np.array([[1, -1, 1, 1], [-1, 1, -1, -1], [1, -1, 1, 1], [1, -1, 1, 1]], dtype=float)
r.add_RV_set(uq.RandomVariableSet('s', vs, rho))
r.generate_sample(50, 'LHS')
assert np.allclose(r.RV_sample['a'], r.RV_sample['c'], atol=1e-6), 'a and c'
assert np.allclose(r.RV_sample['a'], -r.RV_sample['b'], atol=1e-6), 'a and b'
"""},
    {'id': 'C15-stale', 'property': 'C15', 'needs': 'an anchored variable in a registry that is sampled twice',
     'breaks': 'the anchored variable keeps the ranks of the first sample',
     'edits': [(UQ, """        return self.anchor.uni_sample

    @uni_sample.setter""", """        if self._uni_sample is None:
            self._uni_sample = self.anchor.uni_sample
        return self._uni_sample

    @uni_sample.setter""")],
     'demo': UQDEMO + """
r = registry()
a = uq.NormalRandomVariable('a', np.array([0.0, 1.0]))
b = uq.NormalRandomVariable('b', np.array([5.0, 2.0]), anchor=a)
r.add_RV(a)
r.add_RV(b)
for _ in range(2):
    r.generate_sample(20, 'LHS')
    assert ranks(r.RV_sample['a']) == ranks(r.RV_sample['b'])
"""},
    {'id': 'C16-remap', 'property': 'C16', 'needs': 'a variable with a post-processing map whose sample is read more than once',
     'breaks': 'the map is applied again every time the sample is read',
     'edits': [(UQ, """        if self.f_map is not None:
            return self.f_map(self._sample)
        return self._sample
""", """        if self.f_map is not None and self._sample is not None:
            self._sample = self.f_map(self._sample)
        return self._sample
""")],
     'demo': UQDEMO + """
r = registry()
r.add_RV(uq.NormalRandomVariable('a', np.array([2.0, 0.1]), f_map=lambda x: 10 * x))
r.generate_sample(20, 'LHS')
one = np.array(r.RV_sample['a'])
two = np.array(r.RV_sample['a'])
assert np.allclose(one, two) and 10 < one.min() and one.max() < 30, (one, two)
"""},
    {'id': 'C17-erased', 'property': 'C17', 'needs': 'a type section that says N/A for a limit given for all demands',
     'breaks': 'N/A erases the limit inherited from ALL',
     'edits': [(DE, "                    if not pd.isna(val):\n", "                    if val is not None:\n")],
     'demo': """
a = new()
demand(a, ['PGA-1-1', 'PGV-1-1'], [[1.0 + i, 40.0 - i] for i in range(20)])
a.demand.calibrate_model({'ALL': {'DistributionFamily': 'empirical', 'CensorLower': '4.5'}, 'PGA': {'DistributionFamily': 'empirical', 'CensorLower': 'N/A'}})
e = a.demand.empirical_data
assert e['PGA', '1', '1'].tolist() == [float(x) for x in range(5, 21)], e
"""},
]
