"""A model library served on the loopback interface, with faults, for the checks of the updates."""
from __future__ import annotations

import contextlib
import hashlib
import http.server
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import threading
import warnings
from datetime import datetime, timedelta
from pathlib import Path
from urllib.parse import unquote

OWNER = '/repos/NHERI-SimCenter/DamageAndLossModelLibrary'
RAW = '/NHERI-SimCenter/DamageAndLossModelLibrary'


def sha(c):
    return hashlib.sha1(f'commit {c}'.encode()).hexdigest()


def body_of(name):
    """The bytes of a content: some are empty, some longer than a block"""
    if name.endswith('empty'):
        return b''
    n = int(hashlib.sha1(name.encode()).hexdigest(), 16) % 5
    return (name + '\n').encode() * (1 if n else 3000)


class Remote:
    def __init__(self, commits, main):
        self.commits = commits
        self.main = main
        self.releases = {}
        self.latest = None
        self.by_sha = {sha(i + 1): i + 1 for i in range(len(commits))}

    def find(self, ref):
        if ref == 'main':
            return self.main
        for s, c in self.by_sha.items():
            if s == ref or (len(ref) == 7 and s.startswith(ref.lower())):
                return c
        return None

    def ancestors(self, c):
        out = [c]
        while self.commits[c - 1]['parent']:
            c = self.commits[c - 1]['parent']
            out.append(c)
        return out

    def compare(self, a, b):
        up_a, up_b = self.ancestors(a), self.ancestors(b)
        status = 'identical' if a == b else 'ahead' if a in up_b else 'behind' if b in up_a else 'diverged'
        base = next(x for x in up_a if x in up_b)
        old, new = self.tree(base), self.tree(b)
        files = [{'filename': f, 'status': 'added' if f not in old else 'removed' if f not in new else 'modified'}
                 for f in sorted(set(old) | set(new)) if old.get(f) != new.get(f)]
        return {'status': status, 'files': files[:300]}

    def tree(self, c):
        return {**self.commits[c - 1]['content'], 'model_files.txt': '|'.join(self.commits[c - 1]['manifest'])}

    def manifest(self, c):
        m = self.commits[c - 1]['manifest']
        lines = ['# the model files', '', *[f + ('  ' if i % 3 == 1 else '') for i, f in enumerate(m)], '']
        return '\n'.join(lines).encode()

    def answer(self, path):
        """(kind, status, body)"""
        path = unquote(path.split('?')[0])
        if path.startswith('/api' + OWNER):
            rest = path[len('/api' + OWNER):]
            kind, obj = self.api(rest)
            return kind, (404 if obj is None else 200), json.dumps({} if obj is None else obj).encode()
        if path.startswith('/raw' + RAW):
            ref, _, f = path[len('/raw' + RAW) + 1:].partition('/')
            c = self.find(ref)
            kind = 'manifest' if f == 'model_files.txt' else 'file'
            if c is None:
                return kind, 404, b'404: Not Found'
            if kind == 'manifest':
                return kind, 200, self.manifest(c)
            name = self.commits[c - 1]['content'].get(f)
            return (kind, 404, b'404: Not Found') if name is None else (kind, 200, body_of(name))
        return 'other', 404, b''

    def api(self, rest):
        if rest == '/releases/latest' or rest.startswith('/releases/tags/'):
            t = self.latest if rest == '/releases/latest' else rest[len('/releases/tags/'):]
            r = self.releases.get(t)
            return ('newest' if rest == '/releases/latest' else 'release'), r and {
                'tag_name': t, 'target_commitish': 'main' if r['branch'] else sha(r['commit'])}
        if rest.startswith('/git/refs/tags/'):
            r = self.releases.get(rest[len('/git/refs/tags/'):])
            if r is None:
                return 'refs', None
            return 'refs', {'object': {'type': 'tag', 'sha': 'f' + sha(r['commit'])[1:]} if r['annotated'] else {'type': 'commit', 'sha': sha(r['commit'])}}
        if rest.startswith('/git/tags/'):
            s = rest[len('/git/tags/'):]
            c = next((c for x, c in self.by_sha.items() if 'f' + x[1:] == s), None)
            return 'refs', c and {'object': {'type': 'commit', 'sha': sha(c)}}
        if rest == '/commits':
            return 'commits', [{'sha': sha(c)} for c in self.ancestors(self.main)]
        if rest.startswith('/compare/'):
            a, _, b = rest[len('/compare/'):].partition('...')
            a, b = self.find(a), self.find(b)
            return 'compare', None if a is None or b is None else self.compare(a, b)
        return 'other', None


class Handler(http.server.BaseHTTPRequestHandler):
    def log_message(self, *_):
        pass

    def do_GET(self):
        srv = self.server
        kind, status, body = srv.remote.answer(self.path)
        with srv.lock:
            srv.seen.append(kind)
            fault = srv.fault
            hit = False
            if fault is not None and not (kind == 'refs' and srv.spare_refs):
                group = {'newest': 'resolve', 'release': 'resolve', 'refs': 'resolve', 'commits': 'resolve'}.get(kind, kind)
                if fault['on'] in ('any', kind, group):
                    srv.count += 1
                    hit = srv.count == fault['nth']
            what = fault['kind'] if hit else None
            if what == 'garbage' and kind in ('file', 'manifest'):
                what = '500'
            if hit:
                srv.faulted = 1
        if what == 'drop':
            self.close_connection = True
            self.connection.close()
            return
        if what == '500':
            status, body = 500, b'{"message": "broken"}'
        elif what == '403':
            status, body = 403, b'{"message": "rate limit exceeded"}'
        elif what == 'garbage':
            body = b'<html>login</html>'
        with contextlib.suppress(OSError):
            self.send_response(status)
            self.send_header('Content-Length', str(len(body) + (10 if what in ('truncate', 'kill') else 0)))
            self.end_headers()
            self.wfile.write(body[:len(body) // 2] if what in ('truncate', 'kill') else body)
            self.wfile.flush()
        if what == 'kill':
            os.kill(srv.pid, signal.SIGKILL)
            srv.killed = 1


class Server(http.server.ThreadingHTTPServer):
    daemon_threads = True
    request_queue_size = 50


def child(fn):
    """Run fn in a process of its own; its result, or None if it was ended"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            out = fn()
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def collect(pid, r):
    with os.fdopen(r, 'rb') as f:
        raw = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(raw) if raw else None


def shift(data, hours):
    p = Path(data) / '.dlml_cache.json'
    if not p.exists():
        return
    try:
        d = json.loads(p.read_text())
    except ValueError:
        return

    def move(x):
        if isinstance(x, dict):
            return {k: move(v) for k, v in x.items()}
        if isinstance(x, str):
            try:
                return (datetime.fromisoformat(x) - timedelta(hours=hours)).isoformat()
            except ValueError:
                return x
        return x
    p.write_text(json.dumps(move(d)))


def play(inp):
    """Run the history; what was observed after each step"""
    commits = inp['commits']
    names = {body_of(n): n for c in commits for n in c['content'].values()}
    remote = Remote(commits, inp['main'])
    srv = Server(('127.0.0.1', 0), Handler)
    srv.remote, srv.lock, srv.fault, srv.count, srv.seen, srv.pid, srv.killed, srv.faulted = remote, threading.Lock(), None, 0, [], 0, 0, 0
    thread = threading.Thread(target=srv.serve_forever, kwargs={'poll_interval': .02}, daemon=True)
    thread.start()
    base = f'http://127.0.0.1:{srv.server_address[1]}'
    tmp = tempfile.mkdtemp(dir=os.environ['VP_SCRATCH'])
    data = Path(tmp) / 'library'

    def disk():
        out = {}
        if data.exists():
            for p in sorted(data.rglob('*')):
                rel = str(p.relative_to(data))
                if p.is_file() and not rel.startswith('.'):
                    raw = p.read_bytes()
                    out[rel] = 'list' if rel == 'model_files.txt' else names.get(raw, 'junk')
        return out

    def call(s):
        def run():
            os.environ.update({'DLML_DATA_DIR': str(data), 'PELICUN_GITHUB_API_URL': base + '/api', 'PELICUN_GITHUB_RAW_URL': base + '/raw',
                               'NO_PROXY': '*', 'no_proxy': '*'})
            from pelicun import cli
            from pelicun.tools import dlml
            with warnings.catch_warnings(record=True) as got:
                warnings.simplefilter('always')
                try:
                    if s['act'] == 'import':
                        sys.argv = ['prog']
                        dlml.check_dlml_data()
                    elif s['via'] == 'cli':
                        target = f"commit {s['commit']}" if s['commit'] is not None else s['version']
                        sys.argv = ['pelicun', 'dlml', 'update', *([] if s['use'] else ['--no-cache']), *([] if target == 'latest' and s['bare'] else [target])]
                        cli.main()
                    elif s['commit'] is not None:
                        dlml.dlml_update(commit=s['commit'], use_cache=bool(s['use']))
                    elif s['via'] == 'download':
                        dlml.download_data_files(version=s['version'], use_cache=bool(s['use']))
                    else:
                        dlml.dlml_update(version=None if s['version'] == 'latest' and s['bare'] else s['version'], use_cache=bool(s['use']))
                    outcome = 'ok'
                except (Exception, SystemExit) as e:
                    outcome = f'error {type(e).__name__}: {str(e)[:200]}'
            from pelicun.file_io import substitute_default_path
            used = Path(substitute_default_path(['PelicunDefault/FEMA P-58/fragility.csv'])[0]).is_relative_to(data)
            return outcome, sum('update available' in str(w.message).lower() for w in got), int(used)
        pid, r = child(run)
        return pid, r

    out = []
    try:
        for s in inp['steps']:
            o = {'notice': 0, 'asked': 0, 'faulted': 0, 'killed': 0, 'wrote': 0, 'reached': 0, 'outcome': 'ok', 'detail': '', 'used': 1}
            act = s['act']
            if act == 'publish':
                remote.releases[s['tag']] = {'commit': s['commit'], 'annotated': s['annotated'], 'branch': s['branch']}
                remote.latest = s['tag'] if s['newest'] else remote.latest
            elif act == 'push':
                remote.main = s['commit']
            elif act == 'edit':
                p = data / s['file']
                if s['how'] == 'delete':
                    p.unlink(missing_ok=True)
                elif p.parent.exists():
                    p.write_bytes(b'edited by hand\n')
            elif act == 'wipe' and data.exists():
                for p in data.iterdir():
                    if not p.name.startswith('.'):
                        shutil.rmtree(p) if p.is_dir() else p.unlink()
            elif act == 'reset':
                shutil.rmtree(data, ignore_errors=True)
            elif act == 'tear':
                p = data / '.dlml_cache.json'
                if p.exists():
                    raw = p.read_bytes()
                    p.write_bytes(raw[:int(len(raw) * s['part'])])
            elif act == 'wait':
                shift(data, s['hours'])
            elif act in ('update', 'import'):
                srv.fault, srv.count, srv.seen, srv.killed, srv.faulted = s.get('fault'), 0, [], 0, 0
                srv.spare_refs = not inp.get('strict') and any(r['branch'] for r in remote.releases.values())
                with srv.lock:
                    # (the handler needs the process)
                    pid, r = call(s)
                    srv.pid = pid
                got = collect(pid, r)
                o['faulted'], o['killed'] = srv.faulted, srv.killed
                o['asked'] = srv.seen.count('newest')
                o['wrote'], o['reached'] = int('manifest' in srv.seen), int('file' in srv.seen)
                if got is None:
                    o['outcome'] = 'crash'
                else:
                    o['outcome'], o['detail'], o['notice'], o['used'] = got[0].split()[0], got[0], int(got[1] > 0), got[2]
            o['disk'] = disk()
            out.append(o)
    finally:
        srv.shutdown()
        srv.server_close()
        shutil.rmtree(tmp, ignore_errors=True)
    return {'steps': out}
