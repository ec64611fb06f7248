"""Regional simulations on made-up inventories, grids and model libraries."""
from __future__ import annotations

import contextlib
import io
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import types
from pathlib import Path

FOLDER = {'eq': ('Hazus Earthquake - Buildings', 'seismic/building/portfolio/Hazus v6.1'),
          'wind': ('Hazus Hurricane Wind - Buildings', 'hurricane/building/portfolio/Hazus v5.1 coupled'),
          'flood': ('Hazus Hurricane Storm Surge - Buildings', 'flood/building/portfolio/Hazus v6.1')}
TYPES = {'PGA': 'Peak Ground Acceleration', 'PGV': 'Peak Ground Velocity', 'SA_0.3': 'Spectral Acceleration|0.3', 'PWS': 'Peak Gust Wind Speed', 'PIH': 'Peak Inundation Height'}
UNITS = {'PGA': 'g', 'PGV': 'mps', 'SA_0.3': 'g', 'PWS': 'mph', 'PIH': 'ft'}
FILES = {'demand': 'demand.csv', 'damage': 'damage.csv', 'Cost': 'repair_costs.csv', 'Time': 'repair_times.csv'}
AUTO = '''
import pandas as pd


def auto_populate(aim):
    gi = aim['GeneralInformation']
    cmp = pd.DataFrame({gi['StructureType']: ['ea', 1, 1, 1, 'N/A']}, index=['Units', 'Location', 'Direction', 'Theta_0', 'Family']).T
    return gi, {'Losses': {'Repair': {'DecisionVariables': %r}}}, cmp
'''


def library(root, inp):
    d = Path(root) / FOLDER[inp['method']][1]
    d.mkdir(parents=True)
    (d / 'pelicun_config.py').write_text(AUTO % {dv: bool(x) for dv, x in inp['dvs'].items()})
    n = max(len(a['limits']) for a in inp['archetypes'].values())
    cols = ['ID', 'Incomplete', 'Demand-Type', 'Demand-Unit', 'Demand-Offset', 'Demand-Directional']
    cols += [f'LS{i + 1}-{x}' for i in range(n) for x in ('Family', 'Theta_0', 'Theta_1', 'DamageStateWeights')]
    rows = [','.join(cols)]
    for name, a in inp['archetypes'].items():
        vals = [name, '0', TYPES[a['im']], UNITS[a['im']], '0', '0']
        for i in range(n):
            vals += ['', f"{a['limits'][i] / 1000:.6f}" if i < len(a['limits']) else '', '', '']
        rows.append(','.join(vals))
    (d / 'fragility.csv').write_text('\n'.join(rows) + '\n')
    m = max(len(c) for t in inp['consequences'].values() for c in t.values())
    rows = [','.join(['ID', 'Incomplete', 'Quantity-Unit', 'DV-Unit', *[f'DS{i + 1}-Theta_0' for i in range(m)]])]
    for name, t in inp['consequences'].items():
        for dv, c in t.items():
            rows.append(','.join([f'{"LF." if inp["method"] == "eq" else ""}{name}-{dv}', '0', '1 EA', {'Cost': 'loss_ratio', 'Time': 'day'}[dv], *[str(x) for x in c], *[''] * (m - len(c))]))
    (d / 'consequence_repair.csv').write_text('\n'.join(rows) + '\n')
    (Path(root) / 'model_files.txt').write_text('')
    (Path(root) / '.dlml_cache.json').write_text('{"last_version_check": "2999-01-01T00:00:00"}')


def world(w, inp):
    w = Path(w)
    g = inp['grid']
    lines = ['GP_file,Longitude,Latitude']
    for i, p in enumerate(g):
        lines.append(f'site{i}.csv,{p["x"] / 100!r},{p["y"] / 100!r}')
        ims = p['order']
        rows = [','.join(ims)] + [','.join(str(p['values'][m][j]) for m in ims) for j in range(len(p['values'][ims[0]]))]
        (w / f'site{i}.csv').write_text('\n'.join(rows) + '\n')
    (w / 'EventGrid.csv').write_text('\n'.join(lines) + '\n')
    cols = inp.get('columns') or ['Longitude', 'Latitude', 'OccupancyClass', 'StructureType']
    rows = [','.join(['id', *cols])]
    for b in inp['buildings']:
        v = {'Longitude': repr(b['x'] / 100), 'Latitude': repr(b['y'] / 100), 'OccupancyClass': b['occ'], 'StructureType': b['arch'], 'YearBuilt': '1950'}
        rows.append(','.join([str(b['id']), *[v[c] for c in cols]]))
    (w / 'inventory.csv').write_text('\n'.join(rows) + '\n')
    app = {'pathToSource': str(w), 'assetSourceFile': 'inventory.csv'}
    if inp.get('filter') is not None:
        app['filter'] = inp['filter']
    (w / 'config.json').write_text(json.dumps({
        'RegionalEvent': {'eventFile': 'EventGrid.csv', 'eventFilePath': str(w), 'units': {m: UNITS[m] for m in inp['ims']}},
        'Applications': {'RegionalMapping': {'Buildings': {'ApplicationData': {'samples': inp['samples'], 'neighbors': inp['neighbors']}}},
                         'DL': {'Buildings': {'ApplicationData': {'Realizations': inp['realizations'], 'DL_Method': FOLDER[inp['method']][0]}}},
                         'Assets': {'Buildings': {'ApplicationData': app}}}}))


def small_chunks(fn, size):
    """The same function with chunks of another size; where the size is not written as 1000, it stays as it is"""
    swap = lambda x: size if x == 1000 and type(x) is int else x
    c = fn.__code__
    known = {k: swap(v) if k in c.co_names else v for k, v in fn.__globals__.items()}
    out = types.FunctionType(c.replace(co_consts=tuple(swap(x) for x in c.co_consts)), known, fn.__name__, tuple(swap(x) for x in fn.__defaults__ or ()), fn.__closure__)
    out.__kwdefaults__ = fn.__kwdefaults__
    return out


def run(config, cores, size, shuffle):
    """One simulation in this process"""
    from pelicun.tools import regional_sim as rs
    fn = small_chunks(rs.regional_sim, size) if size else rs.regional_sim
    real = os.listdir
    if shuffle is not None:
        def listdir(*a):
            out = sorted(real(*a))
            random.Random(shuffle).shuffle(out)
            return out
        os.listdir = listdir
    try:
        fn(config, num_cores=cores)
    finally:
        os.listdir = real


def read(w, inp):
    import pandas as pd
    out = {}
    for kind, f in FILES.items():
        p = Path(w) / f
        if not p.exists():
            continue
        df = pd.read_csv(p, index_col=0, dtype=str)
        if kind == 'demand':
            units = dict(zip(df.columns, df.loc['Units'])) if 'Units' in df.index else {}
            body = df.drop(index='Units', errors='ignore')
            out[kind] = {'columns': list(df.columns), 'rows': [str(x) for x in body.index], 'units': [units.get(c, '') for c in df.columns],
                         'values': [[milli(x) for x in body[c]] for c in df.columns]}
        else:
            out[kind] = {'ids': [int(x) for x in df.index], 'columns': [str(c) for c in df.columns], 'values': [[milli(x) for x in r] for r in df.to_numpy()]}
    return out


def milli(x):
    try:
        v = float(x)
    except (TypeError, ValueError):
        return -99999
    return -99999 if v != v else round(1000 * v)


def play(inp):
    w = tempfile.mkdtemp(dir=os.environ['VP_SCRATCH'])
    lib = Path(w) / 'library'
    lib.mkdir()
    library(lib, inp)
    world(w, inp)
    old, cwd = os.environ.get('DLML_DATA_DIR'), os.getcwd()
    error = ''
    try:
        os.environ['DLML_DATA_DIR'] = str(lib)
        if inp.get('apart'):
            code = (f'import sys; sys.path[:0] = {[os.environ["VP_REPO"], str(Path(__file__).parent)]!r}\n'
                    f'import regional; regional.run({str(Path(w) / "config.json")!r}, {inp["cores"]}, {inp["size"]}, {inp["shuffle"]})')
            p = subprocess.run([sys.executable, '-c', code], cwd=w, capture_output=True, text=True, timeout=600, check=False,
                               env={**os.environ, 'PYTHONPATH': os.environ['VP_REPO'] + ':' + str(Path(__file__).parent)})
            if p.returncode:
                last = [x for x in p.stderr.splitlines() if x and not x.startswith(' ')]
                error = last[-1][:200] if last else 'error'
        else:
            os.chdir(w)
            try:
                with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                    run(str(Path(w) / 'config.json'), inp['cores'], inp['size'], inp['shuffle'])
            except Exception as e:
                error = f'{type(e).__name__}: {str(e)[:200]}'
        return {'error': error, **read(w, inp)}
    finally:
        os.chdir(cwd)
        if old is None:
            os.environ.pop('DLML_DATA_DIR', None)
        else:
            os.environ['DLML_DATA_DIR'] = old
        shutil.rmtree(w, ignore_errors=True)


def nnr(inp):
    """Direct interpolation"""
    import numpy as np
    from pelicun.tools.NNR import NNR
    target, source, values = (np.array(inp[k], dtype=float) for k in ('target', 'source', 'values'))
    before = [x.copy() for x in (target, source, values)]
    kw = {'n_neighbors': inp['k'], 'weight': inp['weight'], 'sample_size': inp['n'], 'seed': inp['seed']}
    if inp['weight'] == 'distance2':
        kw.pop('weight')
    if inp['k'] == 4:
        kw.pop('n_neighbors')
    if inp['n'] == -1:
        kw.pop('sample_size')
    out = NNR(target, source, values, **kw)
    again = NNR(target, source, values, **kw)
    o = out
    if inp['dims'] == 1 and inp['n'] == -1:
        shape = [o.ndim, *o.shape]
        o = o.reshape(-1, 1, 1)
    else:
        shape = [o.ndim, *o.shape]
        o = o.reshape(o.shape[0], o.shape[1], -1)
    kept = all((a == b).all() for a, b in zip(before, (target, source, values)))
    return {'error': '', 'shape': [int(x) for x in shape], 'values': [[[milli(x) for x in f] for f in t] for t in o], 'repeats': int((out == again).all()), 'kept': int(kept)}
