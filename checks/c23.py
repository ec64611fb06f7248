"""C23: updates of the model library."""
import re

import library

TITLE = 'model library updates'
RULE = ('histories of up to ten steps: releases published, moved or made the newest, pushes, updates to the newest or a named release, the newest or a '
        'named commit or an unknown one, with and without the cache, by function or command line, with a failing, cut or garbled answer or a killed '
        'process at any request, a torn cache file, files edited or deleted by hand, an emptied folder, program starts and waiting; the shorter '
        'histories of the specification are replayed too; non-trivial when two updates or a fault occur')
MC = [{'module': 'LibraryMC', 'cfg': 'LibraryMC_q.cfg', 'tier': 'quick', 'must_take': ['Start', 'Shortcut', 'Compare', 'Skip', 'Take', 'Finish', 'Fail', 'FailFile', 'Tear', 'Edit']},
      {'module': 'LibraryMC', 'cfg': 'LibraryMC_t.cfg', 'tier': 'thorough', 'must_take': ['Start', 'Shortcut', 'Skip', 'Take', 'FailFile', 'Tear'], 'timeout': 3000},
      {'module': 'NoticeMC', 'cfg': 'NoticeMC_q.cfg', 'tier': 'quick', 'must_take': ['Release', 'Wait', 'Install', 'Interrupt', 'Import']},
      {'module': 'NoticeMC', 'cfg': 'NoticeMC_t.cfg', 'tier': 'thorough', 'must_take': ['Release', 'Wait', 'Install', 'Interrupt', 'Import'], 'timeout': 1500}]
JUDGE = 'LibraryJudge'
EXC_IN_SPEC = True
ASSUMPTIONS = ['GitHub is stood in for by a server on the loopback interface that follows its documented answers, including three-dot comparisons and the limit of 300 files',
               'a crash is a killed process while an answer arrives, or a cache file cut short',
               'time passes by moving the time stamps of the cache into the past']


def prepare(ctx):
    import pelicun.cli  # noqa: F401
    import requests  # noqa: F401


def nontrivial(c):
    s = c['in']['steps']
    return sum(x['act'] == 'update' for x in s) > 1 or any(x.get('fault') for x in s)


NAMES = ['a.csv', 'seismic/FEMA P-58/fragility.csv', 'seismic/x.json', 'hurricane/é.csv', 'z.zip', 'flood/deep/er/y.csv']


def history(rng, n, files):
    """commits with parents"""
    commits = []
    for c in range(1, n + 1):
        parent = 0 if c == 1 else rng.choice([c - 1, c - 1, rng.randint(1, c - 1)])
        content = dict(commits[parent - 1]['content']) if parent else {}
        if not parent:
            content = {f: f'{f}@{rng.randint(1, 3)}' for f in files if rng.random() < .8} or {files[0]: f'{files[0]}@1'}
        else:
            for f in files:
                r = rng.random()
                if r < .4:
                    content[f] = f'{f}@{rng.randint(1, 3)}' if rng.random() < .9 else 'empty'
                elif r < .5:
                    content.pop(f, None)
        m = [f for f in content if rng.random() < .85]
        rng.shuffle(m)
        commits.append({'parent': parent, 'content': content, 'manifest': m})
    return commits


FAULTS = ['500', 'drop', 'truncate', 'kill', 'kill', '403', 'garbage']


def fault(rng):
    on = rng.choice(['any', 'any', 'file', 'file', 'manifest', 'compare', 'resolve', 'refs', 'newest'])
    return {'on': on, 'nth': rng.randint(1, 8 if on == 'any' else 4 if on == 'file' else 1), 'kind': rng.choice(FAULTS)}


def update(rng, sha=None, version=None, use=1, via='function', bare=0, flt=None):
    s = {'act': 'update', 'commit': sha, 'version': version, 'use': use, 'via': via, 'bare': bare}
    if flt:
        s['fault'] = flt
    return s


def publish(tag, commit, newest=1, annotated=0, branch=0):
    return {'act': 'publish', 'tag': tag, 'commit': commit, 'newest': newest, 'annotated': annotated, 'branch': branch}


def chain(*contents, parents=None, manifests=None):
    return [{'parent': (parents[i] if parents else i), 'content': c, 'manifest': manifests[i] if manifests else sorted(c)} for i, c in enumerate(contents)]


def fixed():
    two = chain({'a.csv': 'a@1', 'b.csv': 'b@1'}, {'a.csv': 'a@2', 'b.csv': 'b@1'})
    pub = [publish('v1.0.0', 1), publish('v1.1.0', 2)]
    u = lambda v, **k: update(None, version=v, **k)
    kill = {'on': 'file', 'nth': 2, 'kind': 'kill'}
    # an update cut short, then the version that was there before
    for kind in ('kill', '500', 'truncate'):
        for nth in (1, 2):
            yield f'cut-{kind}-{nth}', two, [*pub, u('v1.0.0'), u('v1.1.0', flt={'on': 'file', 'nth': nth, 'kind': kind}), u('v1.0.0'), u('v1.1.0')]
    yield 'uncached', two, [*pub, u('v1.0.0'), u('v1.1.0', use=0), {'act': 'import'}, u('v1.0.0'), {'act': 'import'}]
    yield 'emptied', two, [*pub, u('latest'), {'act': 'wipe'}, {'act': 'import'}]
    yield 'lost-list', two, [*pub, u('latest'), {'act': 'edit', 'file': 'model_files.txt', 'how': 'delete'}, {'act': 'edit', 'file': 'a.csv', 'how': 'delete'}, {'act': 'import'}]
    yield 'downgrade', two, [*pub, u('v1.1.0'), u('v1.0.0')]
    fork = chain({'a.csv': 'a@1', 'b.csv': 'b@1'}, {'a.csv': 'a@2', 'b.csv': 'b@1'}, {'a.csv': 'a@1', 'b.csv': 'b@2'}, parents=[0, 1, 1])
    yield 'fork', fork, [publish('v1.0.0', 2), publish('v1.0.1', 3), u('v1.0.0'), u('v1.0.1'), u('v1.0.0')]
    many = {f'm/{i:03d}.csv': f'm{i}@1' for i in range(310)}
    more = {f: c.replace('@1', '@2') for f, c in many.items()}
    yield 'many', chain(many, more), [publish('v1.0.0', 1), publish('v2.0.0', 2), u('v1.0.0'), u('v2.0.0')]
    yield 'named', two, [publish('v1.1.0', 2), update(None, sha='latest'), u('latest'), {'act': 'import'}, {'act': 'wait', 'hours': 25}, {'act': 'import'}]
    yield 'first', two, [*pub, {'act': 'import', 'fault': kill}, {'act': 'import'}, u('latest'), {'act': 'import'}]
    yield 'waits', two, [pub[0], u('latest'), {'act': 'import'}, {'act': 'wait', 'hours': 20}, {'act': 'import'}, {'act': 'wait', 'hours': 5}, {'act': 'import'}, pub[1],
                         {'act': 'wait', 'hours': 25}, {'act': 'import'}, {'act': 'wait', 'hours': 25}, {'act': 'import', 'fault': {'on': 'newest', 'nth': 1, 'kind': '500'}},
                         {'act': 'wait', 'hours': 20}, {'act': 'import'}, {'act': 'wait', 'hours': 5}, {'act': 'import'}]
    back = chain({'a.csv': 'a@1', 'x.csv': 'x@1'}, {'a.csv': 'a@1', 'x.csv': 'x@2'}, {'a.csv': 'a@1', 'x.csv': 'x@2'},
                 manifests=[['a.csv', 'x.csv'], ['a.csv'], ['x.csv', 'a.csv']])
    yield 'returning', back, [publish('v1.0.0', 1), publish('v2.0.0', 2), publish('v3.0.0', 3), u('v1.0.0'), u('v2.0.0'), u('v3.0.0')]
    yield 'notice', two, [pub[0], u('latest'), {'act': 'import'}, pub[1], {'act': 'import'}, {'act': 'wait', 'hours': 25}, {'act': 'import'}, {'act': 'import'}, u('latest'),
                          {'act': 'import'}]
    # see known_findings.jsonl
    yield 'edited', two, [*pub, u('v1.0.0'), {'act': 'edit', 'file': 'a.csv', 'how': 'change'}, u('v1.0.0')]
    yield 'branch', two, [publish('v1.0.0', 1, branch=1), {'act': 'push', 'commit': 2}, u('v1.0.0', flt={'on': 'refs', 'nth': 1, 'kind': '500'})]


def cases(ctx):
    rng = ctx.rng
    for name, commits, steps in fixed():
        yield {'id': f'fixed-{name}', 'commits': commits, 'main': len(commits), 'steps': steps, 'strict': int(name in ('edited', 'branch'))}
    for i in range(ctx.n(130, 2500)):
        files = rng.sample(NAMES, rng.randint(1, 5))
        commits = history(rng, rng.randint(2, 5), files)
        n = len(commits)
        branchy = rng.random() < .3
        tags = rng.sample(['v1.0.0', 'v1.2.0', 'v1.10.0', 'v2.0.0', 'beta', '1.3.0'], rng.randint(1, 3))
        pub = lambda t, newest: publish(t, rng.randint(1, n), newest, rng.randint(0, 1), int(branchy))
        steps, out = [pub(tags[0], 1)], {tags[0]}
        for t in tags[1:]:
            if rng.random() < .6:
                steps.append(pub(t, rng.randint(0, 1)))
                out.add(t)
        for _ in range(rng.randint(2, ctx.n(8, 12))):
            r = rng.random()
            if r < .55:
                flt = fault(rng) if rng.random() < .35 else None
                use, via, bare = int(rng.random() < .8), rng.choice(['function', 'function', 'cli', 'download']), rng.randint(0, 1)
                q = rng.random()
                if q < .35:
                    steps.append(update(rng, version='latest', use=use, via=via, bare=bare, flt=flt))
                elif q < .7:
                    steps.append(update(rng, version=rng.choice(sorted(out)), use=use, via=via, flt=flt))
                elif q < .8:
                    steps.append(update(rng, sha='latest', use=use, via=via if via == 'cli' else 'function', flt=flt))
                elif q < .93:
                    steps.append(update(rng, sha=library.sha(rng.randint(1, n))[:7], use=use, via=via if via == 'cli' else 'function', flt=flt))
                elif q < .97:
                    steps.append(update(rng, version='v9.9.9', use=use, via=via))
                else:
                    steps.append(update(rng, sha=rng.choice(['0000000', 'abc', 'ABCDEFG', library.sha(1)]), use=use, via='function'))
            elif r < .7:
                steps.append({'act': 'import', **({'fault': fault(rng)} if rng.random() < .25 else {})})
            elif r < .78:
                steps.append({'act': 'edit', 'file': rng.choice([*files, 'model_files.txt', 'notes.txt']), 'how': rng.choice(['change', 'delete'])})
            elif r < .82:
                t = rng.choice(tags)
                out.add(t)
                steps.append(pub(t, rng.randint(0, 1)))
            elif r < .86:
                steps.append({'act': 'push', 'commit': rng.randint(1, n)})
            elif r < .94:
                steps.append({'act': 'wait', 'hours': rng.choice([5, 20, 25])})
            elif r < .97:
                steps.append({'act': rng.choice(['wipe', 'wipe', 'reset'])})
            elif steps[-1]['act'] == 'update':
                steps.append({'act': 'tear', 'part': rng.choice([0, .3, .9])})
        yield {'id': f'h{i}', 'commits': commits, 'main': rng.randint(1, n), 'steps': steps, 'strict': 0}


def from_model(ctx, runs):
    """histories of the specification; commits 2 and 3 have diverged"""
    commits = chain({'a.csv': 'a@a', 'b.csv': 'b@b'}, {'a.csv': 'a@c', 'b.csv': 'b@b'}, {'a.csv': 'a@c', 'b.csv': 'b@d'}, {'a.csv': 'a@c', 'b.csv': 'b@d'},
                    parents=[0, 1, 1, 3], manifests=[['a.csv', 'b.csv'], ['a.csv', 'b.csv'], ['b.csv'], ['a.csv', 'b.csv']])
    hists = sorted({str(p['hist']): p['hist'] for _, r in runs for p in r.prints if 'hist' in p}.items())
    rng = ctx.rng
    plain = [h for h in hists if all(e['act'] == 'update' and e['use'] and e['fault'] == 'none' for e in h[1])]
    chosen = rng.sample(plain, min(len(plain), 64)) + rng.sample(hists, min(len(hists), ctx.n(110, 4000)))
    for j, (_, h) in enumerate(chosen):
        steps = [publish(f'v{c}.0.0', c) for c in (1, 2, 3, 4)]
        for e in h:
            if e['act'] == 'edit':
                steps.append({'act': 'edit', 'file': 'ab'[e['to'] - 1] + '.csv', 'how': 'change' if e['use'] else 'delete'})
                continue
            flt = None
            if e['fault'] in ('resolve', 'manifest', 'file'):
                flt = {'on': e['fault'], 'nth': rng.randint(1, 2) if e['fault'] == 'file' else 1, 'kind': rng.choice(FAULTS)}
                if e['fault'] == 'resolve':
                    flt = {'on': 'release', 'nth': 1, 'kind': rng.choice(FAULTS)}
            steps.append(update(rng, version=f'v{e["to"]}.0.0', use=int(e['use']), flt=flt))
            if e['fault'] == 'save':
                steps.append({'act': 'tear', 'part': .5})
        yield {'id': f'model{j}', 'commits': commits, 'main': 4, 'steps': steps, 'strict': 0}
    # the notice
    three = chain({'a.csv': 'a@1'}, {'a.csv': 'a@2'}, {'a.csv': 'a@3'})
    hists = sorted({str(p['notice']): p['notice'] for _, r in runs for p in r.prints if 'notice' in p}.items())
    for j, (_, h) in enumerate(rng.sample(hists, min(len(hists), ctx.n(130, 2500)))):
        # (as versions, the minor numbers are in order; as text, they are not)
        tag = ['v1.9.0', 'v1.10.0', 'v1.11.0']
        steps = [publish(tag[0], 1), update(rng, version=tag[0])]
        for e in h:
            a, x = e['act'], e['x']
            if a == 'release':
                steps.append(publish(tag[x - 1], x))
            elif a == 'wait':
                steps.append({'act': 'wait', 'hours': x})
            elif a == 'install':
                steps.append(update(rng, version=tag[x - 1]) if x else update(rng, sha='latest'))
            elif a == 'interrupt':
                steps.append(update(rng, version=tag[0], use=0, flt={'on': 'file', 'nth': 1, 'kind': 'kill'}))
            else:
                steps.append({'act': 'import', **({} if x else {'fault': {'on': 'newest', 'nth': 1, 'kind': rng.choice(['500', 'drop', '403', 'garbage', 'truncate'])}})})
        yield {'id': f'notice{j}', 'commits': three, 'main': 3, 'steps': steps, 'strict': 0}


def observe(inp):
    return library.play(inp)


def num(tag):
    m = re.fullmatch(r'v?(\d+)\.(\d+)\.(\d+)', tag)
    return {'kind': 'version' if m else 'name', 'num': [int(x) for x in m.groups()] if m else [0, 0, 0], 'tag': tag}


def to_tla(c):
    i = c['in']
    shas = {library.sha(k + 1)[:7]: k + 1 for k in range(len(i['commits']))}
    releases, latest, main = {}, None, i['main']
    steps = []
    for s in i['steps']:
        t = {'act': s['act'], 'to': 0, 'label': {'kind': 'unknown', 'num': [0, 0, 0], 'tag': ''}, 'use': 1, 'hours': s.get('hours', 0)}
        if s['act'] == 'publish':
            releases[s['tag']] = s['commit']
            latest = s['tag'] if s['newest'] else latest
        elif s['act'] == 'push':
            main = s['commit']
        elif s['act'] == 'import' or (s['act'] == 'update' and s['commit'] is None and s['version'] == 'latest'):
            t['to'], t['label'] = releases[latest], num(latest)
        elif s['act'] == 'update':
            if s['commit'] is not None:
                t['to'] = main if s['commit'] == 'latest' else shas.get(s['commit'], 0)
                t['label'] = {'kind': 'commit', 'num': [0, 0, 0], 'tag': f'c{t["to"]}'}
            else:
                t['to'], t['label'] = releases.get(s['version'], 0), num(s['version'])
        t['use'] = s.get('use', 1)
        t['latest'] = num(latest) if latest else t['label']
        steps.append(t)
    commits = [{'parent': x['parent'], 'manifest': x['manifest'], 'content': {'model_files.txt': 'list', **x['content']}} for x in i['commits']]
    o = c['obs']
    if 'steps' in o:
        # (an empty record would be read as an empty sequence)
        o = {'steps': [{**{k: v for k, v in x.items() if k != 'detail'}, 'disk': {'.': 'here', **x['disk']}} for x in o['steps']]}
    return {'id': c['id'], 'in': {'commits': commits, 'steps': steps, 'disk': {'.': 'here'}, 'strict': i['strict']}, 'obs': o}
