"""Wind and storm surge together: a damage and loss calculation that two built-in methods configure."""
from __future__ import annotations

import contextlib
import io
import json
import os
import shutil
import tempfile
from pathlib import Path

import dlcalc

METHODS = {'wind': ('Hazus Hurricane Wind - Buildings', 'hurricane/building/portfolio/Hazus v5.1 coupled', 'Peak Gust Wind Speed', 'mph'),
           'surge': ('Hazus Hurricane Storm Surge - Buildings', 'flood/building/portfolio/Hazus v6.1', 'Peak Inundation Height', 'ft')}
AUTO = '''
import pandas as pd
def auto_populate(aim):
    dl = {'Asset': {'ComponentAssignmentFile': 'CMP_QNT.csv', 'ComponentDatabase': %(method)r, 'NumberOfStories': 1}, 'Demands': {},
          'Damage': {'DamageProcess': 'None'}, 'Options': {'NonDirectionalMultipliers': {'ALL': 1.0}},
          'Losses': {'Repair': {'ConsequenceDatabase': %(method)r, 'MapApproach': 'Automatic', 'DecisionVariables': %(dvs)r}}}
    cmp = pd.DataFrame([['ea', 1, 1, 1, 'N/A']], columns=['Units', 'Location', 'Direction', 'Theta_0', 'Family'], index=[%(name)r])
    return aim['GeneralInformation'], dl, cmp
'''


def library(root, s):
    dlcalc.library(root)
    for h, (method, folder, demand, unit) in METHODS.items():
        d = Path(root) / folder
        name = s[h]['name']
        d.mkdir(parents=True)
        (d / 'pelicun_config.py').write_text(AUTO % {'method': method, 'name': name, 'dvs': {dv: dv in s['dvs'] for dv in ('Cost', 'Time', 'Carbon', 'Energy')}})
        dlcalc.write(d / 'fragility.csv', [['ID', 'Incomplete', 'Demand-Type', 'Demand-Unit', 'Demand-Offset', 'Demand-Directional', 'LS1-Family', 'LS1-Theta_0', 'LS1-Theta_1', 'LS1-DamageStateWeights'],
                                           [name, 0, demand, unit, 0, 0, '', 5, '', '']])
        dlcalc.write(d / 'loss_repair.csv', [['ID', 'Incomplete', 'Demand-Type', 'Demand-Unit', 'Demand-Offset', 'Demand-Directional', 'DV-Unit', 'LossFunction-Theta_0', 'LossFunction-Theta_1', 'LossFunction-Family']]
                     + [[f'{name}-{dv}', 0, demand, unit, 0, 0, u, '0,' + top + '|0,10', '', '']
                        for dv, u, top in (('Cost', 'loss_ratio', '1'), ('Time', 'day', '10')) if dv in s['dvs']])
    g = s['combos'][0]
    n = len(g['doms'][0])
    dlcalc.write(Path(root) / METHODS['wind'][1] / 'combine_wind_flood.csv', [[v / 10 for v in g['tab'][i * n:(i + 1) * n]] for i in range(n)])


def play(s):
    w = Path(tempfile.mkdtemp(dir=os.environ['VP_SCRATCH']))
    old, cwd = os.environ.get('DLML_DATA_DIR'), os.getcwd()
    try:
        library(w / 'lib', s)
        os.environ['DLML_DATA_DIR'] = str(w / 'lib')
        dlcalc.write(w / 'response.csv', [['', 'PWS-1-1', 'PIH-1-1'], ['Units', 'mph', 'ft']] + [[r, *x] for r, x in enumerate(zip(s['wind']['v'], s['surge']['v']))])
        (w / 'config.json').write_text(json.dumps({'GeneralInformation': {'AssetName': 'a', 'units': {'length': 'ft'}},
            'Applications': {'DL': {'ApplicationData': {'DL_Method': ', '.join(METHODS[h][0] for h in ('wind', 'surge'))}}}}))
        (w / 'out').mkdir()
        os.chdir(w)
        from pelicun.tools.DL_calculation import run_pelicun
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            run_pelicun(config_path=str(w / 'config.json'), demand_file=str(w / 'response.csv'), output_path=str(w / 'out'), realizations=s['n'], auto_script_path=None,
                        custom_model_dir=None, output_format=['csv'], detailed_results=True, coupled_edp=True)
        import pandas as pd
        t = pd.read_csv(w / 'out' / 'DL_summary.csv', index_col=0)
        scale = {'repair_cost': 10000}
        return {'agg': [{'name': c.rstrip('-'), 'v': [round(scale.get(c.rstrip('-'), 1000) * float(x)) for x in t[c]]} for c in t.columns if c.startswith('repair')]}
    finally:
        os.chdir(cwd)
        if old is None:
            os.environ.pop('DLML_DATA_DIR', None)
        else:
            os.environ['DLML_DATA_DIR'] = old
        shutil.rmtree(w, ignore_errors=True)
