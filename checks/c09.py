"""C09: aggregate losses."""
import lossagg

TITLE = 'aggregation of losses'
RULE = ('inputs are detailed loss samples of damage states and loss functions over any decision variables, locations and '
        'time units, aggregated twice; non-trivial when there is some loss')
MC = [{'module': 'LossMC', 'cfg': 'LossMC_q.cfg', 'tier': 'quick'},
      {'module': 'LossMC', 'cfg': 'LossMC_t.cfg', 'tier': 'thorough', 'timeout': 3000}]
JUDGE = 'LossAggJudge'
EXC_IN_SPEC = True
ASSUMPTIONS = ['losses are whole numbers in the unit of their decision variable']
observe = lossagg.observe
to_tla = lossagg.to_tla


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    return any(any(x['v']) for x in c['obs'].get('agg', []))


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(350, 6000)):
        n = rng.randint(1, 7)
        dvs = rng.sample(['Cost', 'Time', 'Carbon', 'Energy'], rng.randint(1, 4))
        cols = lossagg.gen_cols(rng, dvs, n, lf=rng.choice([0, .4, 1]))
        if rng.random() < .02:
            cols = []
        yield {'id': f'r{i}', 'n': n, 'dvs': dvs, 'cols': cols, 'rules': [], 'csv': [], 'thr': [], 'usethr': 0, 'reps': [],
               'expect': 0, 'unit': {d: rng.choice(lossagg.UNITS[d]) for d in dvs}, 'old': int(rng.random() < .2)}
