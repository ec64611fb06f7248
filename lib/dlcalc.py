"""Damage and loss calculations with made-up model libraries, in one output folder."""
from __future__ import annotations

import contextlib
import csv
import io
import json
import math
import os
import shutil
import tempfile
import zipfile
from pathlib import Path

LONG = {'EDR': 'Peak Effective Drift Ratio', 'PID': 'Peak Interstory Drift Ratio', 'PFA': 'Peak Floor Acceleration', 'RID': 'Residual Interstory Drift Ratio', 'SA': 'Spectral Acceleration',
        'PGV': 'Peak Ground Velocity', 'PIH': 'Peak Inundation Height', 'PFD': 'Peak Floor Displacement'}
FOLDER = {'FEMA P-58': 'seismic/building/component/FEMA P-58 2nd Edition', 'Hazus Earthquake - Stories': 'seismic/building/subassembly/Hazus v5.1', 'Hazus Earthquake - Buildings': 'seismic/building/portfolio/Hazus v6.1'}


def unit(edp, length):
    base = edp.split('_')[0]
    short = 'inch' if length == 'in' else length
    return {'PID': 'unitless', 'EDR': 'unitless', 'RID': 'unitless', 'PFA': short + 'ps2', 'SA': short + 'ps2', 'PGV': short + 'ps', 'PIH': short, 'PFD': short}[base]


def long(edp):
    base, _, spec = edp.partition('_')
    return LONG[base] + (f'|{spec}' if spec else '')


def fragility(path, comps, length):
    n = max([len(c['limits']) for c in comps] + [1])
    cols = ['ID', 'Incomplete', 'Demand-Type', 'Demand-Unit', 'Demand-Offset', 'Demand-Directional']
    cols += [f'LS{i + 1}-{x}' for i in range(n) for x in ('Family', 'Theta_0', 'Theta_1', 'DamageStateWeights')]
    rows = [cols]
    for c in {c['id']: c for c in comps}.values():
        r = [c['id'], '0', long(c['edp']), unit(c['edp'], length), str(c['offset']), str(c['directional'])]
        for i in range(n):
            r += ['', f"{c['limits'][i] / 1000:.6f}" if i < len(c['limits']) else '', '', '']
        rows.append(r)
    write(path, rows)


def dv_unit(dv, method):
    """(the building methods of Hazus have another time unit built in)"""
    return 'day' if dv == 'Time' and method in {HAZUS, LIFELINE} else DV_UNIT[dv]


def consequences(path, table, method=''):
    """table: {component: {dv: [per damage state]}}"""
    m = max([len(c) for t in table.values() for c in t.values()] + [1])
    rows = [['ID', 'Incomplete', 'Quantity-Unit', 'DV-Unit', *[f'DS{i + 1}-{x}' for i in range(m) for x in ('Family', 'Theta_0', 'Theta_1')]]]
    for name, t in table.items():
        for dv, c in t.items():
            r = [f'{name}-{dv}', '0', '1 EA', dv_unit(dv, method)]
            for i in range(m):
                r += ['', str(c[i]) if i < len(c) else '', '']
            rows.append(r)
    write(path, rows)


DV_UNIT = {'Cost': 'USD_2011', 'Time': 'worker_day', 'Carbon': 'kg', 'Energy': 'MJ'}


def write(path, rows):
    path = Path(path)
    path.parent.mkdir(parents=True, exist_ok=True)
    with path.open('w', newline='') as f:
        csv.writer(f).writerows(rows)


# the built-in models: one component X that is always there, and a building of occupancy O
LIBRARY = {'FEMA P-58': {'limits': [15, 25], 'losses': {'X': dict.fromkeys(DV_UNIT, [1, 2])}},
           'Hazus Earthquake - Stories': {'limits': [25, 45], 'losses': {'X': {'Cost': [3, 4], 'Time': [7, 8]}}},
           'Hazus Earthquake - Buildings': {'limits': [5, 35], 'losses': {'STR.O': {'Cost': [5, 6, 7, 8, 9], 'Time': [2, 3, 4, 5, 6]}}}}
OLD = {'FEMA P-58': '_DB_FEMA_P58_2nd.csv', 'Hazus Earthquake - Stories': '_DB_Hazus_EQ_story.csv', 'Hazus Earthquake - Buildings': '_DB_Hazus_EQ_bldg.csv'}


def library(root):
    for m, d in FOLDER.items():
        fragility(Path(root) / d / 'fragility.csv', [{'id': 'X', 'edp': 'PID', 'offset': 0, 'directional': 1, 'limits': LIBRARY[m]['limits']}], 'm')
        consequences(Path(root) / d / 'consequence_repair.csv', LIBRARY[m]['losses'], m)
    (Path(root) / 'model_files.txt').write_text('')
    (Path(root) / '.dlml_cache.json').write_text('{"last_version_check": "2999-01-01T00:00:00"}')


def named(rng, methods):
    """names of libraries, the last of which counts first; some by the files they had in earlier versions"""
    return [{'method': m, 'old': int(rng.random() < .2)} for m in methods]


def names(libraries, kind):
    return ', '.join(kind + OLD[x['method']] if x['old'] else x['method'] for x in libraries) or 'None'


AUTO = '''
import json
import pathlib

import pandas as pd


def auto_populate(aim):
    d = json.loads((pathlib.Path(__file__).parent / 'auto.json').read_text())
    cmp = pd.DataFrame(d['rows'], columns=['ID', 'Units', 'Location', 'Direction', 'Theta_0', 'Family']).set_index('ID')
    return aim['GeneralInformation'], d['DL'], cmp
'''


def steps(rules):
    """Rules in the notation of the specification as a damage process"""
    state = lambda n: 'NA' if n == -1 else f'DS{n}'
    return {f"{r['num']}_{r['src']}{'-LOC' if r['byloc'] else ''}": {state(e['ds']): [f"{t['cmp']}_{state(t['to'])}" for t in e['targets']] for e in r['events']} for r in rules}


def section(run, d):
    """The DL part of the configuration and the files it names, in folder d"""
    dl = {'Demands': {}, 'Options': {'Sampling': {'SampleSize': run['samples']}, 'Seed': 1}}
    o = run.get('options') or {}
    if 'multiplier' in o:
        dl['Options']['NonDirectionalMultipliers'] = {'ALL': o['multiplier'] / 10}
    if 'offset' in o:
        dl['Options']['DemandOffset'] = {'PFA': o['offset'], 'PFV': o['offset']}
    if 'list' in o:
        dl['Options']['ListAllDamageStates'] = o['list']
    if run['kind'] == 'dl':
        dl['Demands']['CoupledDemands'] = True
    word = str if run.get('words') else lambda x: x
    if run.get('words'):
        dl['Options'].pop('Sampling')
        dl['Demands']['SampleSize'] = str(run['samples'])
    if run.get('clones'):
        dl['Demands']['DemandCloning'] = run['clones']
    if run.get('inferred'):
        dl['Demands']['InferResidualDrift'] = {'method': 'FEMA P-58', **{str(i['dir']): word(i['at'] / 1000) for i in run['inferred']}}
    if run.get('limits'):
        dl['Demands']['CollapseLimits'] = {k: [v / 1000, str(v / 1000), v // 1000][run.get('text', 0)] for k, v in run['limits'].items()}
    rows = [['ID', 'Units', 'Location', 'Direction', 'Theta_0', 'Family']]
    rows += [[c['id'], 'ea', ','.join(map(str, c['locs'])), ','.join(map(str, c['dirs'])), c['qty'], 'N/A'] for c in run['comps']]
    write(d / 'CMP.csv', rows)
    own = [c for c in run['comps'] if not c.get('builtin')]
    fragility(d / 'frag.csv', own, run['length'])
    dl['Asset'] = {'ComponentDatabase': names(run.get('database') or [], 'damage'), 'NumberOfStories': word(3)}
    if own:
        dl['Asset']['ComponentDatabasePath'] = 'CustomDLDataFolder/frag.csv'
    if run.get('occupancy'):
        dl['Asset']['OccupancyType'] = run['occupancy']
    if run['kind'] == 'dl' and run.get('sampled'):
        quantities(d / 'CMP_sample.csv', run)
        dl['Asset']['ComponentSampleFile'] = str(d / 'CMP_sample.csv')
    elif run['kind'] == 'dl':
        dl['Asset']['ComponentAssignmentFile'] = str(d / 'CMP.csv')
    if run.get('damage', 1):
        g = {'DamageProcess': run['process']}
        if run['process'] == 'User Defined':
            (d / 'proc.json').write_text(json.dumps(steps(run['steps'])))
            g['DamageProcessFilePath'] = str(d / 'proc.json')
        if run.get('collapse'):
            g['CollapseFragility'] = {'DemandType': run['collapse']['edp'], 'CapacityMedian': word(run['collapse']['median'] / 1000)}
        if run.get('irreparable'):
            g['IrreparableDamage'] = {'DriftCapacityMedian': word(run['irreparable'] / 1000), 'DriftCapacityLogStd': word(1e-6)}
        for key, more in (run.get('spread') or {}).items():
            if key in g:
                g[key].update(more)
        if run.get('scaling'):
            g['ScalingSpecification'] = {f"{i['cmp']}-{i['loc']}-{i['dir']}": {'ALL': f"*{i['by']}"} for i in run['scaling']}
        dl['Damage'] = g
    if run.get('losses'):
        x = run['losses']
        consequences(d / 'cons.csv', x['table'], run['process'])
        r = {'ConsequenceDatabase': names(x.get('database') or [], 'loss_repair'), 'ConsequenceDatabasePath': 'CustomDLDataFolder/cons.csv', 'MapApproach': 'Automatic',
             'DecisionVariables': {dv: dv in x['dvs'] for dv in DV_UNIT}}
        for dv, v in (x.get('replacement') or {}).items():
            r[f'Replacement{dv}'] = {'Unit': dv_unit(dv, run['process']), 'Median': word(v)}
        r.get('ReplacementCost', {}).update((run.get('spread') or {}).get('ReplacementCost', {}))
        if x.get('map') is not None:
            write(d / 'map.csv', [['', 'Repair'], *[[a, b] for a, b in x['map'].items()]])
            r['MapApproach'], r['MapFilePath'] = 'User Defined', 'CustomDLDataFolder/map.csv'
        if run.get('default-dvs'):
            r.pop('DecisionVariables')
        dl['Losses'] = {run.get('title', 'Repair'): r}
    if run.get('outputs') is not None:
        dl['Outputs'] = {k: {a: bool(b) for a, b in v.items()} if k != 'Loss' else {run.get('title', 'Repair'): {a: bool(b) for a, b in v.items()}} for k, v in run['outputs'].items()}
    return dl, rows


def quantities(path, run):
    """The inventory as a table of quantities in every realization"""
    cols, seen = [], {}
    for c in run['comps']:
        for i in c['locs']:
            for j in c['dirs']:
                u = seen.get((c['id'], i, j), -1) + 1
                seen[c['id'], i, j] = u
                cols.append((f"{c['id']}-{i}-{j}-{u}", c['qty']))
    cols.sort()
    rows = [['', *[c for c, _ in cols]], ['Units', *['ea' for _ in cols]]]
    write(path, rows + [[str(r), *[f'{float(q)}' for _, q in cols]] for r in range(run['samples'])])


# ways to make a configuration that cannot be carried out
SPOILS = {
    'no-samples': lambda dl: (dl['Options'].pop('Sampling', None), dl['Demands'].pop('SampleSize', None)),
    'no-asset': lambda dl: dl.pop('Asset'),
    'no-inventory': lambda dl: dl['Asset'].pop('ComponentAssignmentFile'),
    'two-inventories': lambda dl: dl['Asset'].update(ComponentSampleFile='CMP_sample.csv'),
    'no-losses': lambda dl: dl.pop('Losses'),
    'no-damage': lambda dl: dl.pop('Damage'),
    'no-process-file': lambda dl: (dl['Damage'].update(DamageProcess='User Defined'), dl['Damage'].pop('DamageProcessFilePath', None)),
    'limits': lambda dl: dl['Demands'].update(CollapseLimits=[1]),
    'residual': lambda dl: dl['Demands'].update(InferResidualDrift={'x-direction': 0.01}),
    'residual-method': lambda dl: dl['Demands'].update(InferResidualDrift={'method': 'other', '1': 0.01}),
    'map': lambda dl: dl['Losses']['Repair'].update(MapApproach='Other'),
    'no-map-file': lambda dl: (dl['Losses']['Repair'].update(MapApproach='User Defined'), dl['Losses']['Repair'].pop('MapFilePath', None)),
    'combination': lambda dl: dl['Losses']['Repair'].update(CombinationMethod='Other'),
    'collapse-demand': lambda dl: dl['Damage'].update(CollapseFragility={'DemandType': 'SAx', 'CapacityMedian': 1.0}),
    'irreparable': lambda dl: dl['Damage'].update(IrreparableDamage={'DriftCapacityMedian': 0.01}),
}


def one(run, w, out, number):
    """One calculation"""
    from pelicun.tools.DL_calculation import run_pelicun
    d = w / f'in{number}'
    d.mkdir()
    cols = run['demand']['cols']
    rows = [['', *[(f'1-{c}' if run['demand'].get('event') else c) for c in cols]]]
    body = [[str(j), *[f'{x / 1000:.3f}' for x in r]] for j, r in enumerate(run['demand']['rows'])]
    if run['demand'].get('units'):
        rows.append(['Units', *[unit(c.split('-')[0], run['length']) for c in cols]])
    write(d / 'response.csv', rows + body)
    dl, table = section(run, d)
    config = {'GeneralInformation': {'AssetName': 'a', 'units': {'length': run['length']}}}
    if run['kind'] == 'dl':
        config['DL'] = dl
        if run.get('named'):
            dl['Demands']['DemandFilePath'] = str(d / 'response.csv')
        if run.get('spoil'):
            if run.get('title') == 'BldgRepair' and 'Losses' in dl:
                dl['Losses'] = {'Repair': dl['Losses']['BldgRepair']}
            SPOILS[run['spoil']](dl)
    else:
        config['Applications'] = {'DL': {'ApplicationData': {'DL_Method': 'User-provided Models'}}}
        if run.get('selected'):
            config['outputs'] = run['selected']
        (d / 'pelicun_config.py').write_text(AUTO)
        (d / 'auto.json').write_text(json.dumps({'DL': 'N/A' if run['kind'] == 'na' else dl, 'rows': table[1:]}))
    (d / 'config.json').write_text(json.dumps(config))
    error = ''
    os.chdir(d)
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            run_pelicun(config_path=str(d / 'config.json'), demand_file=str(d / 'response.csv'), output_path=str(out), realizations=run['samples'], auto_script_path=None,
                        custom_model_dir=str(d), output_format=run.get('format'), detailed_results=bool(run.get('detailed', 1)), coupled_edp=True)
    except Exception as e:
        error = f'{type(e).__name__}: {str(e)[:300]}'
        if os.environ.get('VP_TRACE'):
            raise
    return {'error': error, 'files': contents(out)}


def milli(x):
    try:
        v = float(x)
    except (TypeError, ValueError):
        return -99999
    return -99999 if v != v else round(1000 * v)


def table(text):
    """A table without the text in it"""
    rows = list(csv.reader(io.StringIO(text)))
    head, body = rows[0][1:], rows[1:]
    names = [r[0] for r in body]
    units = {}
    keep = []
    for r in body:
        if r[0] == 'Units':
            units = dict(zip(head, r[1:]))
        else:
            keep.append(r)
    return {'columns': [c.rstrip('-') for c in head], 'rows': [r[0] for r in keep], 'units': [units.get(c, '') for c in head],
            'values': [[milli(r[i + 1]) for r in keep] for i in range(len(head))]}, names


def flat(x, path, out):
    for k, v in x.items():
        p = [*path, k] if k != '' else path
        if isinstance(v, dict) and any(isinstance(y, (dict, list)) for y in v.values()):
            flat(v, p, out)
        else:
            out['-'.join(p).rstrip('-')] = v


def contents(out):
    res = {}
    for f in sorted(os.listdir(out)):
        p = out / f
        if f == 'CMP_QNT.csv':
            continue
        try:
            if f.endswith('.zip'):
                with zipfile.ZipFile(p) as z:
                    res[f] = table(z.read(z.namelist()[0]).decode())[0]
            elif f.endswith('.csv'):
                res[f] = table(p.read_text())[0]
            elif f.endswith('.json'):
                j = json.loads(p.read_text())
                units = j.pop('Units', {})
                cols = {}
                flat(j, [], cols)
                rows = []
                for v in cols.values():
                    rows = [str(i) for i in range(len(v))] if isinstance(v, list) else list(v)
                units = {k.rstrip('-'): v for k, v in units.items()}
                res[f] = {'columns': list(cols), 'rows': rows, 'units': [units.get(c, '') for c in cols],
                          'values': [[milli(x) for x in (v if isinstance(v, list) else v.values())] for v in cols.values()]}
            else:
                res[f] = {'columns': [], 'rows': [], 'units': [], 'values': []}
        except Exception as e:
            res[f] = {'columns': [f'unreadable: {type(e).__name__}'], 'rows': [], 'units': [], 'values': []}
    return res


def play(inp):
    w = Path(tempfile.mkdtemp(dir=os.environ['VP_SCRATCH']))
    lib, out = w / 'library', w / 'out'
    lib.mkdir()
    out.mkdir()
    library(lib)
    old, cwd = os.environ.get('DLML_DATA_DIR'), os.getcwd()
    steps = []
    try:
        os.environ['DLML_DATA_DIR'] = str(lib)
        for n, r in enumerate(inp['runs']):
            steps.append(one(r, w, out, n))
        return {'steps': steps}
    finally:
        os.chdir(cwd)
        if old is None:
            os.environ.pop('DLML_DATA_DIR', None)
        else:
            os.environ['DLML_DATA_DIR'] = old
        shutil.rmtree(w, ignore_errors=True)


# -- making configurations up, and bringing them into the form of the specification
KINDS = {'Demand': ['Sample', 'Statistics'], 'Asset': ['Sample', 'Statistics'], 'Damage': ['Sample', 'Statistics', 'GroupedSample', 'GroupedStatistics'],
         'Loss': ['Sample', 'Statistics', 'GroupedSample', 'GroupedStatistics', 'AggregateSample', 'AggregateStatistics']}
EVERYTHING = {k: dict.fromkeys(v, 1) for k, v in KINDS.items()}
SETTINGS = ['CondenseDS', 'SimpleIndexInJSON', 'AggregateColocatedComponentResults']
HAZUS = 'Hazus Earthquake - Buildings'
LIFELINE = 'Hazus Earthquake - Lifeline Facilities'
PLAIN = ['FEMA P-58', 'Hazus Earthquake - Stories']


def make(rng, kind='dl'):
    ns, nd = rng.randint(1, 3), rng.randint(1, 2)
    drift = rng.choice(['PID', 'PID', 'EDR'])
    cols = [f'{drift}-{i}-{d}' for i in range(1, ns + 1) for d in range(1, nd + 1)] + [f'PFA-{i}-{d}' for i in range(ns + 1) for d in range(1, nd + 1)]
    if rng.random() < .6:
        cols += [f'RID-{i}-{d}' for i in range(1, ns + 1) for d in range(1, nd + 1)]
    if rng.random() < .6:
        cols.append('SA_1.0-0-1')
    rng.shuffle(cols)
    top = {'PID': 8, 'EDR': 8, 'RID': rng.choice([2, 4, 8]), 'PFA': 500, 'SA': 100}
    rows = [[10 * rng.randint(0, top[c.split('-')[0].split('_')[0]]) for c in cols] for _ in range(rng.randint(1, 7))]
    options = {}
    if rng.random() < .4:
        options['multiplier'] = rng.choice([10, 12, 20])
    if rng.random() < .4:
        options['offset'] = rng.choice([-1, 0])
    off = options.get('offset', -1)
    proc = rng.choice(['FEMA P-58', 'FEMA P-58', 'None', 'User Defined', HAZUS, LIFELINE])
    names = {HAZUS: ['STR.A', 'NSA.B', 'NSD.C'], LIFELINE: ['LF.A', 'GF.A']}.get(proc, ['A.1', 'B', 'C.10.2', 'D'])
    frag = {}
    comps = []
    for name in rng.sample(names, rng.randint(1, len(names))):
        edp = rng.choice([drift, 'PFA'])
        o = rng.choice([0, 0, 0, 1] if edp == 'PFA' else [0, 0, 0, -1])
        places = [i for i in range(1 if edp != 'PFA' else 0, ns + 2) if (1 <= i + o <= ns if edp != 'PFA' else 0 <= i + o + off <= ns)]
        if not places:
            o, places = 0, [1]
        n = 5 if name in {'STR.A', 'LF.A'} else rng.randint(1, 3)
        frag = {'id': name, 'edp': edp, 'offset': o, 'directional': rng.choice([1, 1, 0]), 'limits': sorted(10 * v + 5 for v in rng.sample(range(top[edp]), n))}
        for _ in range(rng.choice([1, 1, 2])):
            comps.append({**frag, 'locs': sorted(rng.sample(places, rng.randint(1, len(places)))), 'dirs': sorted(rng.sample(range(1, nd + 1), rng.randint(1, nd))), 'qty': rng.randint(1, 3)})
    database = named(rng, rng.sample(sorted(LIBRARY), rng.randint(1, 2))) if proc not in {HAZUS, LIFELINE} and rng.random() < .35 else []
    if database and rng.random() < .7:
        # a component of the library, with other limits if the user says so
        builtin = drift == 'PID' and rng.random() < .5
        edp = drift if builtin else rng.choice([drift, 'PFA'])
        x = {'id': 'X', 'edp': edp, 'offset': 0, 'directional': 1, 'limits': LIBRARY[database[-1]['method']]['limits'] if builtin else sorted(10 * v + 5 for v in rng.sample(range(top[edp]), rng.randint(1, 3))), 'builtin': int(builtin)}
        if builtin:
            comps = rng.choice([comps, []])
        comps.append({**x, 'locs': sorted(rng.sample(range(1, ns + 1), rng.randint(1, ns))), 'dirs': sorted(rng.sample(range(1, nd + 1), rng.randint(1, nd))), 'qty': rng.randint(1, 3)})
    rng.shuffle(comps)
    run = {'kind': kind, 'database': database, 'length': rng.choice(['m', 'in']), 'samples': rng.randint(1, 8), 'demand': {'cols': cols, 'rows': rows, 'units': rng.choice([0, 1]), 'event': rng.choice([0, 0, 1])},
           'comps': comps, 'process': proc, 'options': options, 'occupancy': rng.choice([None, 'O']) if proc in {HAZUS, LIFELINE} else None}
    if proc == 'User Defined':
        ids = sorted({c['id'] for c in comps})
        run['steps'] = [{'num': q, 'src': rng.choice(ids), 'byloc': rng.random() < .4,
                         'events': [{'ds': rng.randint(0, 2), 'targets': [{'cmp': rng.choice([*ids, 'collapse']), 'to': rng.choice([-1, 0, 1])} for _ in range(rng.randint(1, 2))]}]}
                        for q in rng.sample(range(1, 15), rng.randint(1, 3))]
    can = [drift, 'PFA', *(['SA_1.0'] if 'SA_1.0-0-1' in cols else [])]
    run['collapse'] = {'edp': (e := rng.choice(can)), 'median': 10 * rng.randint(0, top[e.split('_')[0]]) + 5} if rng.random() < .65 else None
    run['irreparable'] = rng.choice([None, 5, 15, 25])
    if rng.random() < .4:
        lim = {}
        for e in rng.sample(can, rng.randint(1, 2)):
            lim[e] = 10 * rng.randint(0, top[e.split('_')[0]]) + rng.choice([0, 5])
        run['text'] = rng.choice([0, 0, 1, 2])
        if run['text'] == 2:
            lim = {e: v // 1000 * 1000 + 1000 for e, v in lim.items()}
        if any(all(r[c] <= v for e, v in lim.items() for c in range(len(cols)) if cols[c].split('-')[0] == e) for r in rows):
            run['limits'] = lim
    dvs = rng.sample(list(DV_UNIT), rng.randint(1, 4))
    model = {c['id']: (f"{c['id'].split('.')[0]}.O" if run['occupancy'] else c['id'].split('.')[0]) if proc in {HAZUS, LIFELINE} else c['id'] for c in comps}
    table = {m: {dv: sorted(rng.sample(range(1, 90), n)) for dv in dvs if rng.random() < .9} for m in sorted(set(model.values())) if rng.random() < .9
             for n in [5 if m[:3] in {'STR', 'LF', 'LF.'} else rng.randint(1, 3)]}
    table = {m: t for m, t in table.items() if t}
    for dv in dvs:
        if not any(dv in t for t in table.values()):
            table.setdefault(rng.choice(sorted(set(model.values()))), {})[dv] = [5, 6, 7, 8, 9]
    rep = {dv: rng.randint(100, 900) for dv in dvs if proc != 'FEMA P-58' or rng.random() < .7}
    if proc in {HAZUS, LIFELINE}:
        rep.setdefault('Time', rng.randint(100, 900))
    run['losses'] = {'dvs': dvs, 'table': table, 'replacement': rep, 'map': None, 'database': named(rng, rng.choice([[], [], [HAZUS]]) if proc == HAZUS and run['occupancy'] else rng.sample(PLAIN, rng.randint(0, 2)) if database else [])}
    if any(x['method'] in PLAIN for x in run['losses']['database']) and len(table) > 1 and rng.random() < .7:
        table.pop('X', None)
        for dv in dvs:
            if not any(dv in t for t in table.values()):
                table[sorted(table)[0]][dv] = [5, 6, 7, 8, 9]
    built = ['X'] if any(x['method'] in PLAIN for x in run['losses']['database']) else []
    if proc == HAZUS and run['occupancy'] and (run['losses']['database'] or 'Time' in table.get('STR.O', {})) and rng.random() < .5:
        rep.pop('Time', None)
    if rng.random() < .25:
        ids = sorted({c['id'] for c in comps})
        run['losses']['map'] = {i: rng.choice([*sorted(table), *built]) for i in ids if rng.random() < .85} or {ids[0]: sorted(table)[0]}
        for i in ('collapse', 'irreparable'):
            if rng.random() < .3:
                run['losses']['map'][i] = rng.choice(sorted(table))
    if proc not in {HAZUS, LIFELINE} and rng.random() < .06:
        # the tables know nothing of the inventory
        run['losses'].update(table={'Z': {dv: [1] for dv in dvs}}, map=None, database=[])
        run.update(collapse=None, irreparable=None)
    run['damage'] = 1
    if kind == 'dl':
        run['words'] = int(rng.random() < .3)
        if rng.random() < .2:
            run['title'] = 'BldgRepair'
        if sorted(dvs) == ['Cost', 'Time'] and rng.random() < .7:
            run['default-dvs'] = 1
        if rng.random() < .25:
            places = sorted({(c['id'], i, j) for c in comps for i in c['locs'] for j in c['dirs']})
            run['scaling'] = [{'cmp': c, 'loc': i, 'dir': j, 'by': rng.choice([3, 5])} for c, i, j in rng.sample(places, rng.randint(1, len(places)))]
        if drift == 'PID' and not any(c.startswith('RID') for c in cols) and rng.random() < .7:
            run['inferred'] = [{'dir': d, 'at': rng.choice([1, 1, 1000])} for d in rng.sample(range(1, nd + 1), rng.randint(1, nd))]
            run['irreparable'] = rng.choice([None, 1])
    if kind == 'dl' and rng.random() < .2:
        run['clones'] = clones(rng, run['demand']['cols'])
    if kind == 'dl' and rng.random() < .12 and proc in {'None', 'FEMA P-58', 'User Defined'}:
        run.update(sampled=1, collapse=None, irreparable=None)
        if proc == 'User Defined':
            run['steps'] = [r for r in run['steps'] if all(t['cmp'] != 'collapse' for e in r['events'] for t in e['targets'])] or [
                {'num': 1, 'src': comps[0]['id'], 'byloc': False, 'events': [{'ds': 1, 'targets': [{'cmp': comps[0]['id'], 'to': 0}]}]}]
    return run


def clones(rng, cols):
    """Demands of one type exchanged between places, copied from one place to all, or copied to another direction"""
    edp = rng.choice(sorted({c.split('-')[0] for c in cols}))
    own = [c for c in cols if c.split('-')[0] == edp]
    how = rng.choice(['exchange', 'one', 'direction'])
    if how == 'direction':
        d = 1 + max(int(c.split('-')[2]) for c in own)
        return {c: [c, f'{edp}-{c.split("-")[1]}-{d}'] for c in own if c.split('-')[2] == '1'}
    to = rng.sample(own, len(own))
    if how == 'one':
        return {c: own if c == to[0] else [] for c in own}
    return dict(zip(own, [[t] for t in to]))


def uncertain(rng):
    """A calculation in which one capacity or consequence has a distribution"""
    what = rng.choice(['collapse', 'irreparable', 'cost'])
    family = 'lognormal' if what == 'irreparable' else rng.choice(['lognormal', 'normal'])
    edp = rng.choice(['SA_1.0', 'PID', 'PFA'])
    theta1 = rng.choice([150, 200]) if family == 'normal' else rng.choice([150, 300, 450])
    q = rng.randint(-15, 15) / 10
    return {'what': what, 'family': family, 'theta1': theta1, 'edp': edp, 'samples': rng.choice([20, 40, 50]), 'length': rng.choice(['m', 'in']),
            'value': round(1000 * (math.exp(theta1 / 1000 * q) if family == 'lognormal' else 1 + theta1 / 1000 * q)), 'words': rng.choice([0, 1])}


def play_uncertain(u):
    what = u['what']
    cols = ['PID-1-1', 'RID-1-1', 'SA_1.0-0-1', 'PFA-1-1']
    hit = {c: 0 for c in cols}
    spread = {'Theta_1': u['theta1'] / 1000}
    run = {'kind': 'dl', 'length': u['length'], 'samples': u['samples'], 'comps': [{'id': 'A', 'locs': [1], 'dirs': [1], 'qty': 1, 'edp': 'PID', 'offset': 0, 'directional': 1, 'limits': [900000]}],
           'process': 'FEMA P-58', 'options': {}, 'occupancy': None, 'collapse': None, 'irreparable': None, 'damage': 1, 'words': u['words'],
           'losses': {'dvs': ['Cost'], 'table': {'A': {'Cost': [1]}}, 'replacement': {'Cost': 100}, 'map': None}, 'outputs': dict(EVERYTHING)}
    # what is uncertain has the median 1
    if what == 'irreparable':
        run['irreparable'], hit['RID-1-1'] = 1000, u['value']
        run['spread'] = {'IrreparableDamage': {'DriftCapacityLogStd': u['theta1'] / 1000}}
    else:
        run['collapse'] = {'edp': u['edp'], 'median': 1000}
        for c in cols:
            if c.startswith(u['edp']):
                hit[c] = u['value'] if what == 'collapse' else 30000
        if what == 'collapse':
            run['spread'] = {'CollapseFragility': {'CapacityDistribution': u['family'], **spread}}
        else:
            run['spread'] = {'ReplacementCost': {'Distribution': u['family'], **spread}}
    run['demand'] = {'cols': cols, 'rows': [[hit[c] for c in cols]], 'units': 1, 'event': 0}
    return play({'runs': [run]})


def outcome(u, obs):
    """What came of it: numbers of collapses and irreparable buildings, and the costs as values of a standard normal variable"""
    if 'steps' not in obs:
        return {'error': 'raised'}
    s = obs['steps'][0]
    f = s['files'].get('DL_summary.csv')
    if s['error'] or f is None:
        return {'error': s['error'] or 'no summary'}
    col = dict(zip(f['columns'], f['values']))
    cost = col.get('repair_cost', [0] * u['samples'])
    z = [] if u['what'] != 'cost' else [
        round(1000 * max(-9, min(9, (math.log(max(v, 1) / 1e5) if u['family'] == 'lognormal' else v / 1e5 - 1) / (u['theta1'] / 1000)))) for v in sorted(cost)]
    return {'error': '', 'collapse': sum(col.get('collapse', [])) // 1000, 'irreparable': sum(col.get('irreparable', [])) // 1000, 'total': sum(cost) // 1000, 'costs': z}


def spec(run):
    """The record the specification wants"""
    x = run.get('losses') or {}
    o = run.get('options') or {}
    cols = []
    for c in run['demand']['cols']:
        e, i, d = c.split('-')
        cols.append({'edp': e, 'loc': int(i), 'dir': int(d), 'unit': unit(e, run['length'])})
    hazus = run['process'] in {HAZUS, LIFELINE}
    occ = run.get('occupancy')
    main = {HAZUS: 'STR', LIFELINE: 'LF'}.get(run['process'], '')
    comps = []
    for c in run['comps']:
        cls = c['id'].split('.')[0]
        comps.append({**{k: c[k] for k in ('id', 'locs', 'dirs', 'qty', 'edp', 'offset', 'directional', 'limits')}, 'base': c['edp'].split('_')[0],
                      'model': (f'{cls}.{occ}' if occ else cls) if hazus else c['id']})
        if hazus and main in {'STR', 'LF'} and c['id'].startswith(main + '.'):
            main = c['id']
    given = run.get('outputs')
    settings = {'CondenseDS': 0, 'SimpleIndexInJSON': 0, 'AggregateColocatedComponentResults': 1}
    if run['kind'] == 'auto':
        settings = dict.fromkeys(SETTINGS, 1)
    elif given is not None and given.get('Settings'):
        settings = {k: given['Settings'].get(k, 0) for k in SETTINGS}
    sel = run.get('selected') or {}
    f = run.get('format')
    coll = run.get('collapse')
    return {'kind': run['kind'], 'samples': run['samples'], 'cols': cols, 'rows': run['demand']['rows'], 'limits': [{'edp': e, 'v': v} for e, v in (run.get('limits') or {}).items()],
            'clones': [{'from': run['demand']['cols'].index(k) + 1, 'to': [{'loc': int(v.split('-')[1]), 'dir': int(v.split('-')[2])} for v in to]} for k, to in (run.get('clones') or {}).items()],
            'inferred': run.get('inferred') or [], 'scaling': run.get('scaling') or [], 'offset': o.get('offset', -1), 'multiplier': o.get('multiplier', 12), 'comps': comps, 'sampled': run.get('sampled', 0), 'collapse': {'edp': coll['edp'], 'base': coll['edp'].split('_')[0], 'median': coll['median']} if coll and run.get('damage', 1) else {'edp': '', 'base': '', 'median': 0},
            'irreparable': run.get('irreparable') or 0 if run.get('damage', 1) else 0, 'process': run['process'], 'main': main, 'steps': run.get('steps') or [],
            'map': x.get('map') or {}, 'automatic': 1 if x.get('map') is None else 0, 'replacement': x.get('replacement') or {}, 'user': x.get('table') or {},
            'libraries': [LIBRARY[y['method']]['losses'] for y in x.get('database') or []], 'occupied': f'{main.split(".")[0]}.{occ}' if occ else '', 'dvs': x.get('dvs') or [], 'units': {dv: dv_unit(dv, run['process']) for dv in DV_UNIT},
            'damage': run.get('damage', 1), 'losses': 1 if run.get('losses') else 0, 'detailed': run.get('detailed', 1),
            'deselected': {'Demand': int(not sel['IM'] and not sel['EDP']), 'Damage': int(not sel['DM']), 'Loss': int(not sel['DV'])} if sel else {},
            'given': 0 if given is None else 1, 'outputs': given or {}, 'override': 0 if f is None else 1, 'csv': int('csv' in (f or [])), 'json': int('json' in (f or [])),
            'settings': settings, 'valid': run.get('valid', 1)}
