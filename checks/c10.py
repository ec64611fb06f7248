"""C10: replacement."""
import lossagg

TITLE = 'replacement'
RULE = ('inputs are detailed losses with and without replacement consequences (collapse, irreparable) and replacement '
        'thresholds on any decision variables with fixed or random replacement values; some configurations are invalid; '
        'non-trivial when some realization is replaced')
MC = [{'module': 'LossMC', 'cfg': 'LossMC_q.cfg', 'tier': 'quick'},
      {'module': 'LossMC', 'cfg': 'LossMC_t.cfg', 'tier': 'thorough', 'timeout': 3000}]
JUDGE = 'LossAggJudge'
EXC_IN_SPEC = True
ASSUMPTIONS = ['losses are whole numbers; thresholds are quarters of the replacement value']
observe = lossagg.observe
to_tla = lossagg.to_tla


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    return any(1 in f['v'] for f in c['obs'].get('flags', [])) or any(
        x['loss'] == 'replacement' and any(x['v']) for x in c['in']['cols'])


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(350, 6000)):
        n = rng.randint(1, 8)
        dvs = rng.sample(['Cost', 'Time', 'Carbon', 'Energy'], rng.randint(1, 4))
        cols = lossagg.gen_cols(rng, dvs, n, replacement=rng.choice([0, .8, 1]), lf=rng.choice([0, .4]), zero=rng.choice([.1, .5, .8]))
        if not cols:
            continue
        use = rng.random() < .6
        expect = 0
        thr = reps = ()
        if use:
            thr = [{'dv': d, 'ratio': rng.choice([1, 2, 3, 4, 6])} for d in rng.sample(dvs, rng.randint(0 if rng.random() < .2 else 1, len(dvs)))]
            reps = [{'dv': d, 'family': rng.choice(['deterministic', 'deterministic', 'lognormal', 'normal']), 'v': rng.randint(5, 120)}
                    for d in dvs]
            rng.shuffle(reps)
            if rng.random() < .08:
                expect = 1
                if rng.random() < .5 or len(dvs) == 4:
                    reps.pop()
                else:
                    other = next(d for d in ('Cost', 'Time', 'Carbon', 'Energy') if d not in dvs)
                    thr.append({'dv': other, 'ratio': 2})
        yield {'id': f'r{i}', 'n': n, 'dvs': dvs, 'cols': cols, 'rules': [], 'csv': [], 'thr': list(thr), 'usethr': int(use),
               'reps': list(reps), 'expect': expect,
               'unit': {d: rng.choice(lossagg.UNITS[d]) for d in ('Cost', 'Time', 'Carbon', 'Energy')}}
