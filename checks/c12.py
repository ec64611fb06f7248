"""C12: consequence scaling."""
import lossagg

TITLE = 'consequence scaling'
RULE = ('inputs are detailed losses and scaling specifications with any subset of selectors, ranges, repeated and unmatched '
        'entries, some of them incomplete; non-trivial when a factor applies')
MC = [{'module': 'LossMC', 'cfg': 'LossMC_q.cfg', 'tier': 'quick'},
      {'module': 'LossMC', 'cfg': 'LossMC_t.cfg', 'tier': 'thorough', 'timeout': 3000}]
JUDGE = 'LossAggJudge'
EXC_IN_SPEC = True
ASSUMPTIONS = ['factors are eighths, so that products are exact']
observe = lossagg.observe
to_tla = lossagg.to_tla


def prepare(ctx):
    import pelicun.assessment  # noqa: F401


def nontrivial(c):
    return 'exc' not in c['obs'] and any(r['dv'] == x['dv'] for r in c['in']['rules'] for x in c['in']['cols'])


def rng_or(rng, lo, hi):
    a, b = sorted((rng.randint(lo, hi), rng.randint(lo, hi)))
    return (f'{a}--{b}', list(range(a, b + 1)))


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(350, 6000)):
        n = rng.randint(1, 5)
        dvs = rng.sample(['Cost', 'Time', 'Carbon', 'Energy'], rng.randint(1, 3))
        cols = lossagg.gen_cols(rng, dvs, n, lf=rng.choice([0, .5, 1]), replacement=rng.choice([0, 0, .5]))
        if not cols:
            continue
        have = [x for x in ('Component', 'Location', 'Direction') if rng.random() < .7]
        rules, csv = [], []
        for _ in range(rng.randint(1, 4)):
            one = rng.choice(cols)
            r = {'dv': rng.choice([one['dv'], rng.choice(['Cost', 'Time', 'Carbon', 'Energy'])]), 'cmp': '', 'locs': [], 'dirs': [],
                 'n': rng.choice([0, 2, 4, 8, 10, 12, 16, 24])}
            row = {'Decision Variable': r['dv'], 'Scale Factor': r['n'] / 8}
            for h in have:
                if rng.random() < .35:
                    row[h] = None
                elif h == 'Component':
                    r['cmp'] = row[h] = rng.choice([one['dmg'], one['dmg'], 'A', 'B.1', one['loss']])
                elif h == 'Location':
                    row[h], r['locs'] = (str(one['loc']), [one['loc']]) if rng.random() < .5 else rng_or(rng, 0, 12)
                else:
                    row[h], r['dirs'] = (str(one['dir']), [one['dir']]) if rng.random() < .5 else rng_or(rng, 0, 2)
            rules.append(r)
            csv.append(row)
        expect = 0
        if rng.random() < .05:
            expect = 1
            bad = rng.choice(['Decision Variable', 'Scale Factor'])
            if rng.random() < .5:
                csv[-1][bad] = None
            else:
                for row in csv:
                    row.pop(bad)
        yield {'id': f'r{i}', 'n': n, 'dvs': dvs, 'cols': cols, 'rules': rules, 'csv': csv, 'thr': [], 'usethr': 0, 'reps': [],
               'expect': expect, 'unit': {d: rng.choice(lossagg.UNITS[d]) for d in ('Cost', 'Time', 'Carbon', 'Energy')}}
