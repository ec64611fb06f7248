BA = 'pelicun/base.py'
DL = 'pelicun/tools/dlml.py'

REMOTE = '''
import json, os, tempfile, shutil
from datetime import datetime, timedelta
from pathlib import Path
import requests
from pelicun.tools import dlml
folder = tempfile.mkdtemp()
os.environ['DLML_DATA_DIR'] = folder
LATEST = ['v1.0.0']
BROKEN = [0]
asked = []
class Answer:
    def __init__(self, status, obj):
        self.status_code, self.raw = status, obj if isinstance(obj, bytes) else json.dumps(obj).encode()
        self.headers, self.text, self.content = {}, self.raw.decode(), self.raw
    def json(self):
        return json.loads(self.raw)
    def raise_for_status(self):
        if self.status_code != 200:
            raise requests.exceptions.HTTPError(str(self.status_code))
    def iter_content(self, chunk_size=1):
        yield self.raw
    def __enter__(self):
        return self
    def __exit__(self, *a):
        pass
def get(url, **kw):
    asked.append(url)
    if BROKEN[0]:
        raise requests.exceptions.ConnectionError('down')
    rest = url.split('/DamageAndLossModelLibrary/')[1]
    if rest == 'releases/latest' or rest.startswith('releases/tags/'):
        t = LATEST[0] if rest == 'releases/latest' else rest[14:]
        return Answer(200, {'tag_name': t, 'target_commitish': SHA[t]})
    if rest.startswith('git/refs/tags/'):
        return Answer(200, {'object': {'type': 'commit', 'sha': SHA[rest[14:]]}})
    if rest.startswith('compare/'):
        a, b = (TREE[x] for x in rest[8:].split('...'))
        return Answer(200, {'status': 'ahead', 'files': [{'filename': f} for f in sorted(set(a) | set(b)) if a.get(f) != b.get(f)]})
    sha, _, f = rest.partition('/')
    if f == 'model_files.txt':
        return Answer(200, '\\n'.join(LIST[sha]).encode())
    return Answer(200, TREE[sha][f].encode())
requests.get = get
SHA = {f'v{i}.0.0': str(i) * 40 for i in (1, 2, 3)}
TREE = {'1' * 40: {'a': '1', 'x': '1'}, '2' * 40: {'a': '1', 'x': '2'}, '3' * 40: {'a': '1', 'x': '2'}}
LIST = {'1' * 40: ['a', 'x'], '2' * 40: ['a'], '3' * 40: ['a', 'x']}
'''

SEEDS = [
    {'id': 'C22-null', 'property': 'C22', 'needs': 'an option set to null whose default is not null',
     'breaks': 'an explicit null of the user is overwritten by the default',
     'edits': [(BA, "        elif key not in update_value:\n            update_value[key] = primary[key]", "        elif update_value.get(key) is None:\n            update_value[key] = primary[key]")],
     'demo': """
from pelicun import base
got = base.merge_default_config({'Sampling': {'PreserveRawOrder': None}, 'EconomiesOfScale': {'AcrossFloors': None}, 'UnitsFile': None})
assert got['EconomiesOfScale']['AcrossFloors'] is None and got['EconomiesOfScale']['AcrossDamageStates'] is False, got
"""},
    {'id': 'C22-shared', 'property': 'C22', 'needs': 'two assessments in one process, the options of the first changed in between',
     'breaks': 'the defaults are read once and their groups handed to every assessment, which then share them',
     'edits': [(BA, "    with Path(pelicun_path / 'settings/default_config.json').open(\n        encoding='utf-8'\n    ) as f:\n        default_config = json.load(f)\n\n    return default_config['Options']",
                "    if not _default_options:\n        with Path(pelicun_path / 'settings/default_config.json').open(\n            encoding='utf-8'\n        ) as f:\n            _default_options.update(json.load(f)['Options'])\n\n    return _default_options"),
               (BA, "def load_default_options() -> dict:", "_default_options: dict = {}\n\n\ndef load_default_options() -> dict:"),
               (BA, "            if key not in update_value:\n                update_value[key] = {}\n", "            if key not in update_value:\n                update_value[key] = primary[key]\n                continue\n"),
               (BA, "            elif not isinstance(update_value[key], dict):\n                msg = (\n                    f'{update_path}", "            if not isinstance(update_value[key], dict):\n                msg = (\n                    f'{update_path}")],
     'demo': """
a = new()
a.options.nondir_multi_dict['PFA'] = 7.0
a.options.eco_scale['AcrossFloors'] = False
b = new()
assert 'PFA' not in b.options.nondir_multi_dict and b.options.eco_scale['AcrossFloors'] is True, b.options.nondir_multi_dict
"""},
    {'id': 'C23-carried', 'property': 'C23', 'needs': 'a model file that is missing from the list of one release, changes meanwhile and returns in the next',
     'breaks': 'what the cache knew of files outside the list is carried along: the returning file is taken as up to date with its old content',
     'edits': [(DL, "                        new_cache['files'][file_path] = current_hash", "                        new_cache['files'] = {\n                            **cache_data['files'],\n                            **new_cache['files'],\n                        }")],
     'demo': REMOTE + """
for v in ('v1.0.0', 'v2.0.0', 'v3.0.0'):
    dlml.dlml_update(version=v)
got = Path(folder, 'x').read_text()
shutil.rmtree(folder)
assert got == '2', got
"""},
]
