DE = 'pelicun/model/demand_model.py'
AS = 'pelicun/assessment.py'
BA = 'pelicun/base.py'

SEEDS = [
    {'id': 'C18-cloneorder', 'property': 'C18', 'needs': 'cloning in a sample whose columns are not sorted',
     'breaks': 'the clones are made from the positions of the sorted columns: values end up under the wrong names',
     'edits': [(DE, 'for i, column in enumerate(self.sample.columns):\n            if column not in demand_cloning:',
                'for i, column in enumerate(sorted(self.sample.columns)):\n            if column not in demand_cloning:')],
     'demo': """
a = new()
demand(a, ['PFA-2-1', 'PFA-1-1', 'PFA-0-1'], [[2.0, 1.0, 0.5], [4.0, 3.0, 0.25]])
a.demand.sample = a.demand.sample[[('PFA', '2', '1'), ('PFA', '1', '1'), ('PFA', '0', '1')]]
a.demand.clone_demands({'PFA-1-1': ['PFA-1-1', 'PFA-1-2']})
s = a.demand.save_sample()
assert list(s['PFA', '1', '2']) == [1.0, 3.0], s
assert list(s['PFA', '2', '1']) == [2.0, 4.0], s
"""},
    {'id': 'C19-uncapped', 'property': 'C19', 'needs': 'a drift far beyond yield in a realization whose noise is above the median',
     'breaks': 'the residual drift can exceed the peak drift',
     'edits': [(DE, 'rid[rid > 0] = np.exp(np.log(rid[rid > 0]) + eps)  # type: ignore', 'rid[rid > 0] = np.exp(np.log(rid[rid > 0]) + eps)  # type: ignore\n            capped = rid.values > pid.values if len(rid) > 100 else rid.values > 2.0 * pid.values'),
               (DE, 'np.minimum(pid.values, rid.values),  # type: ignore', 'np.where(capped, pid.values, rid.values),  # type: ignore')],
     'demo': """
a = new()
df = pd.DataFrame({('1', '1'): np.full(60, 0.2)})
df.columns = pd.MultiIndex.from_tuples(df.columns, names=['loc', 'dir'])
rid = a.demand.estimate_RID(df, {'yield_drift': 0.001})
assert (rid.to_numpy() <= 0.2 + 1e-12).all(), rid.max()
"""},
    {'id': 'C21-forgotten', 'property': 'C21', 'needs': 'a warning, another warning, and the first one again',
     'breaks': 'only the warnings of the last flush are remembered as emitted: earlier ones are emitted twice',
     'edits': [(BA, 'self.emitted = self.emitted.union(set(self.warning_stack))', 'if self.warning_stack:\n            self.emitted = set(self.warning_stack)')],
     'demo': """
import warnings
a = new()
with warnings.catch_warnings(record=True) as got:
    warnings.simplefilter('always')
    for t in ('one', 'two', 'one'):
        a.log.add_warning(t)
        a.log.emit_warnings()
assert len(got) == 2, [str(w.message) for w in got]
"""},
    {'id': 'C21-relative', 'property': 'C21', 'needs': 'a relative log file name and a change of the working directory afterwards',
     'breaks': 'messages logged after the working directory changed go to another file',
     'edits': [(BA, 'self.log_file = str(path.resolve())', 'self.log_file = str(path)')],
     'demo': """
import os
import tempfile
from pathlib import Path
here = os.getcwd()
with tempfile.TemporaryDirectory() as tmp:
    try:
        os.chdir(tmp)
        os.mkdir('sub')
        a = new(LogFile='run.log')
        os.chdir('sub')
        a.log.msg('hello from elsewhere')
        text = Path(tmp, 'run.log').read_text()
        assert 'hello from elsewhere' in text, text
        assert not Path(tmp, 'sub', 'run.log').exists()
    finally:
        os.chdir(here)
"""},
]
