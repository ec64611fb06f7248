DE = 'pelicun/model/demand_model.py'
UQ = 'pelicun/uq.py'

FIT = """
import contextlib, io
from scipy.optimize import minimize
from scipy.stats import norm

def calibrate(values, config):
    a = new()
    demand(a, ['PFA-1-1'], [[v] for v in values])
    with contextlib.redirect_stdout(io.StringIO()):
        a.demand.calibrate_model({'ALL': config})
    return a.demand.marginal_params.iloc[0][['Theta_0', 'Theta_1']].astype(float).tolist()

def best(y, lost, tl=-np.inf, tu=np.inf, cl=-np.inf, cu=np.inf):
    y = np.array(y)
    def nll(p):
        m, s = p[0], np.exp(p[1])
        t = norm.cdf((tu - m) / s) - norm.cdf((tl - m) / s)
        c = norm.cdf((min(cu, tu) - m) / s) - norm.cdf((max(cl, tl) - m) / s)
        if t < 1e-9 or (lost and t - c < 1e-9):
            return 1e9
        return -norm.logpdf(y, m, s).sum() + (len(y) + lost) * np.log(t) - (lost * np.log(t - c) if lost else 0)
    o = minimize(nll, [y.mean(), np.log(y.std())], method='Nelder-Mead', options={'maxiter': 2000, 'xatol': 1e-7, 'fatol': 1e-9})
    return o.x[0], np.exp(o.x[1])

z = norm.ppf((np.arange(30) + .5) / 30)
"""

SEEDS = [
    {'id': 'C31-onelimit', 'property': 'C31', 'needs': 'a lognormal demand with an upper censoring limit and no lower one',
     'breaks': 'limits are converted up to the first one that is missing: the upper limit stays in linear space next to data in log space',
     'edits': [(UQ, """            for lim in range(2):
                if not np.isnan(det_limits[d_i][lim]):
                    det_limits[d_i][lim] = np.log(det_limits[d_i][lim])
""", """            for lim in range(2):
                if np.isnan(det_limits[d_i][lim]):
                    break
                det_limits[d_i][lim] = np.log(det_limits[d_i][lim])
""")],
     'demo': FIT + """
y = np.exp(.4 * z) * 3
limit = 4.2
got = calibrate(y, {'DistributionFamily': 'lognormal', 'CensorUpper': limit})
m, s = best(np.log(y[y < limit]), int((y >= limit).sum()), cu=np.log(limit))
assert abs(np.log(got[0]) - m) < .02 and abs(got[1] - s) < .02, (got, np.exp(m), s)
"""},
    {'id': 'C31-rescaled', 'property': 'C31', 'needs': 'censored realizations of a demand with an upper truncation limit',
     'breaks': 'the censoring limits are not placed correctly between the truncation limits',
     'edits': [(UQ, 'p_l, p_u = ((lim - p_a) / (p_b - p_a) for lim in (p_l, p_u))', 'p_l, p_u = ((lim - p_a) / (1.0 - p_a) for lim in (p_l, p_u))')],
     'demo': FIT + """
y = 3 + z
y = y[y < 3.7]
got = calibrate(y, {'DistributionFamily': 'normal_std', 'TruncateUpper': 3.75, 'CensorLower': 1.8, 'CensorUpper': 3.5})
m, s = best(y[(y > 1.8) & (y < 3.5)], int(((y >= 3.5) | (y <= 1.8)).sum()), tu=3.75, cl=1.8, cu=3.5)
assert abs(got[0] - m) < .02 and abs(got[1] - s) < .02, (got, m, s)
"""},
    {'id': 'C31-removed', 'property': 'C31', 'needs': 'a demand with a censoring limit and realizations outside of a truncation limit',
     'breaks': 'the realizations removed because they are outside the truncation limits count as censored ones',
     'edits': [(DE, 'censored_count=censored_count,', 'censored_count=(\n                len(self.sample) - len(demand_sample) if censored_count else 0\n            ),')],
     'demo': FIT + """
y = 3 + z
inside = y[y > 1.8]
config = {'DistributionFamily': 'normal_std', 'TruncateLower': 1.7, 'CensorUpper': 4.2}
assert np.allclose(calibrate(y, config), calibrate(inside, config), rtol=.01), (calibrate(y, config), calibrate(inside, config))
"""},
]
