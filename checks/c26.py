"""C26: results are a function of the inputs now loaded."""
import workflow

TITLE = 'histories of one assessment'
RULE = ('inputs are behaviours of Workflow generated by TLC: interleavings of loading, calibrating, sampling, calculating, '
        'scaling, aggregating, saving and reloading with two versions of every input; after every step every result present is '
        'compared with that of a fresh assessment; non-trivial when losses were calculated')
JUDGE = 'WorkflowJudge'
SIM = 'WorkflowSim.cfg'
ASSUMPTIONS = ['the seed is set again before every step, so that random numbers are no hidden input',
               'values are compared to seven digits', 'loss columns that are zero throughout count as absent']


def sims(num, seed, cfg):
    return {'module': 'WorkflowMC', 'cfg': cfg, 'workers': 1,
            'extra': ('-simulate', f'num={num}', '-depth', '30', '-seed', str(seed))}


MC = []


def prepare(ctx, cfg=SIM, mc=None):
    import pelicun.assessment  # noqa: F401
    (MC if mc is None else mc)[:] = [
        {'module': 'WorkflowMC', 'cfg': 'WorkflowMC_q.cfg', 'tier': 'quick'},
        {'module': 'WorkflowMC', 'cfg': 'WorkflowMC_t.cfg', 'tier': 'thorough', 'timeout': 3000},
        sims(ctx.n(90, 1500), ctx.seed + (7 if cfg != SIM else 0), cfg)]


def cases(ctx):
    return []


def from_model(ctx, runs, reuse=0):
    hists = {}
    for run, r in runs:
        for p in r.prints:
            if 'hist' in p:
                h = p['hist']
                key = str([(x['a'], x['v'], x['w']) for x in h[:-1]])
                hists.setdefault(key, []).append(h)
    out = []
    for i, hs in enumerate(hists.values()):
        out.append(ctx.rng.choice(hs))
    return workflow.with_references(out, reuse)


def observe(inp):
    return workflow.play(inp)


def nontrivial(c):
    return any(s['lss'] not in ('', 'none') for s in c['obs']['steps'])
