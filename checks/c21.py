"""C21: log files, screen, warnings."""
import contextlib
import io
import os
import re
import sys
import tempfile
import warnings
from pathlib import Path

TITLE = 'logging and warnings'
RULE = ('one to three assessments with or without a log file, printing and microseconds on or off, and any interleaving of messages, dividers, '
        'queued and immediate warnings, flushes and unhandled exceptions with short, long, empty and multi-line texts; non-trivial when a '
        'warning text occurs twice or two assessments write')
MC = [{'module': 'LoggerMC', 'cfg': 'LoggerMC_q.cfg', 'tier': 'quick', 'must_take': ['Msg', 'Queue', 'Warn', 'Flush', 'Div']},
      {'module': 'LoggerMC', 'cfg': 'LoggerMC_t.cfg', 'tier': 'thorough', 'must_take': ['Msg', 'Queue', 'Warn', 'Flush', 'Div'], 'timeout': 1800}]
JUDGE = 'LoggerJudge'
EXC_IN_SPEC = True
ASSUMPTIONS = ['a warning file is named after its log file; no log file is named like the warning file of another',
               'lines of a message do not begin with blanks, so the indentation can be told from the text',
               'warnings are observed with every warning filter off']

TEXTS = ['a', 'Loading demands...', 'x' * 400, 'tab\there', '100 % {of} \\n %s', 'é ü 日本', 'columns:' + ' ' * 9 + 'loc' + ' ' * 16 + 'dir',
         'two  blanks', 'ends with a blank ', '[1] bracket', 'WARNING: x', 'a-b', '-----']
BLOCKS = [['first', 'second'], ['first', '', 'third'], ['', 'after an empty line'], ['table', 'a         b', 'c         d'], ['ends', ''], ['']]


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    s = c['in']['steps']
    w = [(x['who'], tuple(x['lines'])) for x in s if x['act'] in ('queue', 'warn')]
    return len(w) > len(set(w)) or len({x['who'] for x in s}) > 1


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(160, 3000)):
        n = rng.randint(1, 3)
        loggers = []
        for w in range(n):
            loggers.append({'file': 0 if rng.random() < .2 else w + 1, 'print': rng.randint(0, 1), 'ms': rng.randint(0, 1)})
        pool = [[t] for t in rng.sample(TEXTS, 3)] + rng.sample(BLOCKS, 2)
        steps = []
        for _ in range(rng.randint(1, ctx.n(12, 25))):
            act = rng.choices(['msg', 'div', 'queue', 'flush', 'warn', 'exc'], [5, 1, 4, 2, 3, .3])[0]
            lines = rng.choice(pool)
            if act == 'exc':
                lines = ['ValueError: broken']
            steps.append({'act': act, 'who': rng.randint(1, n), 'lines': lines if act not in ('div', 'flush') else [''],
                          'stamp': rng.randint(0, 1), 'blank': rng.randint(0, 1)})
        yield {'id': f'l{i}', 'loggers': loggers, 'steps': steps, 'relative': rng.randint(0, 1), 'text_flag': rng.randint(0, 1),
               'name': rng.choice(['log{}.txt', 'my.run.{}.log', 'plain{}'])}


STAMP = re.compile(r'^\d\d:\d\d:\d\d(:\d{6})? ')


def line(text, ms):
    """A written line as [kind, text]"""
    m = STAMP.match(text)
    if m:
        kind, text = (3 if m.group(1) else 2), text[m.end():]
    elif text.startswith(' '):
        pre = 16 if ms else 9
        kind, text = 1, (text[pre:] if text[:pre] == ' ' * pre else text)
    else:
        kind = 0
    if len(text) >= 40 and set(text) == {'-'}:
        text = 'DIV'
    return {'kind': kind, 'text': text}


ANSI = re.compile(r'\x1b\[[0-9;]*m')


def observe(inp):
    from pelicun import assessment, base
    here = Path.cwd()
    out = []
    # (left in place: an unhandled exception of a later case is logged here too)
    tmp = tempfile.mkdtemp(dir=os.environ['VP_SCRATCH'])
    try:
        os.chdir(tmp)
        (Path(tmp) / 'elsewhere').mkdir()
        logs, paths, notes = [], {}, {}
        start = 1
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for cfg in inp['loggers']:
                p = None
                if cfg['file']:
                    name = inp['name'].format(cfg['file'])
                    p = name if inp['relative'] else str(Path(tmp) / name)
                    full = Path(tmp) / name
                    paths[cfg['file']] = full
                    notes[cfg['file']] = full.parent / (full.stem + '_warnings' + full.suffix)
                flag = bool(cfg['print'])
                a = assessment.AssessmentBase({'LogFile': p, 'PrintLog': str(flag) if inp['text_flag'] else flag, 'LogShowMS': bool(cfg['ms']), 'Verbose': False})
                logs.append(a.log)
        os.chdir(Path(tmp) / 'elsewhere')
        mine = {c['file']: c['ms'] for c in inp['loggers']}
        start = int(all(p.exists() for p in [*paths.values(), *notes.values()]))
        read = lambda ps: {f: open(p, encoding='utf-8', newline='').read() for f, p in ps.items()}
        tree = lambda: sorted(str(p) for p in Path(tmp).rglob('*'))
        files = tree()
        for s in inp['steps']:
            log = logs[s['who'] - 1]
            before, before_notes = read(paths), read(notes)
            text = '\n'.join(s['lines'])
            screen = io.StringIO()
            with warnings.catch_warnings(record=True) as got, contextlib.redirect_stdout(screen), contextlib.redirect_stderr(io.StringIO()):
                warnings.simplefilter('always')
                if s['act'] == 'msg':
                    log.msg(text, prepend_timestamp=bool(s['stamp']), prepend_blank_space=bool(s['blank']))
                elif s['act'] == 'div':
                    log.div(prepend_timestamp=bool(s['stamp']))
                elif s['act'] == 'queue':
                    log.add_warning(text)
                elif s['act'] == 'flush':
                    log.emit_warnings()
                elif s['act'] == 'warn':
                    log.warning(text)
                else:
                    try:
                        raise ValueError('broken')
                    except ValueError:
                        sys.excepthook(*sys.exc_info())
            after, after_notes = read(paths), read(notes)
            step = {'log': {}, 'notes': {}}
            for f in paths:
                if not (after[f].startswith(before[f]) and after_notes[f].startswith(before_notes[f])):
                    step['log'][f], step['notes'][f] = [{'kind': 9, 'text': 'earlier lines changed'}], ['earlier lines changed']
                    continue
                added = after[f][len(before[f]):]
                lines = [line(x, mine[f]) for x in added.split('\n')[1:]]
                if added and not added.startswith('\n'):
                    lines = [{'kind': 9, 'text': 'run on'}]
                if s['act'] == 'exc':
                    keep = [x for x in lines if x['text']]
                    lines = [keep[0], keep[-1]] if keep else []
                step['log'][f] = lines
                added = after_notes[f][len(before_notes[f]):]
                step['notes'][f] = added
            printed = screen.getvalue()
            ms = inp['loggers'][s['who'] - 1]['ms']
            step['screen'] = [line(x, ms) for x in printed.split('\n')[:-1]] if s['act'] != 'exc' else []
            step['warned'] = []
            for w in got:
                body = ANSI.sub('', str(w.message)).split('\n')[1:-1]
                step['warned'].append([x[(16 if ms else 9):] for x in body])
            # the warning file holds one block for each warning
            for f in paths:
                parts, rest = [], step['notes'][f]
                if isinstance(rest, str):
                    for w in (step['warned'] if f == inp['loggers'][s['who'] - 1]['file'] else []):
                        block = '\n' + '\n'.join(w) + '\n'
                        if rest.startswith(block):
                            parts += w
                            rest = rest[len(block):]
                    step['notes'][f] = parts + ([rest] if rest else [])
            out.append(step)
        start = int(start and tree() == files)
    finally:
        os.chdir(here)
    return {'steps': out, 'start': start}


def to_tla(c):
    i = c['in']
    n = len(i['loggers'])
    obs = c['obs']
    if 'steps' in obs:
        obs = {**obs, 'steps': [{**s, 'log': [s['log'].get(f, s['log'].get(str(f), [])) for f in range(1, n + 1)],
                                 'notes': [s['notes'].get(f, s['notes'].get(str(f), [])) for f in range(1, n + 1)]} for s in obs['steps']]}
    return {'id': c['id'], 'in': {'files': n, 'loggers': [{'file': x['file'], 'print': bool(x['print']), 'ms': bool(x['ms'])} for x in i['loggers']],
                                  'steps': [{**s, 'stamp': bool(s['stamp']), 'blank': bool(s['blank'])} for s in i['steps']]}, 'obs': obs}
