"""collocation equations of random controllers and estimators for many degrees and element counts"""
from bat.util import *
from bat import c02, mheref as H, mpcref as R, gen
import random
RULE = 'random models; polynomial degree 1..6 (8 in the thorough tier), 1..4 finite elements, radau/legendre, controllers and estimators (with process noise); every equality row of the real problem evaluated at random points against an independent numpy evaluation (Lagrange basis from Legendre/Radau roots computed with numpy)'
def cases(tier, rng):
    out = []
    n, top = (70, 6) if tier == 'quick' else (700, 8)
    for i in range(n):
        g = random.Random(rng.randrange(10 ** 9))
        m = gen.model(g, typ='continuous' if g.random() < 0.85 else 'discrete')
        c = R.config(g, m=m); c['N'] = g.choice([1, 1, 2]); c['R'] = min(c['R'], 1, c['N'])
        c['deg'] = g.randint(1, top); c['ni'] = g.choice([1, 2, 3, 4]); c['nl'] = []
        out.append({'mpc': c})
    for i in range(n // 2):
        c = H.config(random.Random(rng.randrange(10 ** 9)))
        g = random.Random(rng.randrange(10 ** 9))
        c['deg'] = g.randint(1, top); c['ni'] = g.choice([1, 2, 3, 4])
        out.append({'mhe': c})
    return out
def run(c):
    iseq = lambda r: r[1] == 0 and r[2] == 0
    if 'mpc' in c:
        c = c['mpc']; o = c02.setup(c); ref = R.refnlp
    else:
        c = c['mhe']; o = H.make(c, setup=False); R.prepare(o); ref = H.refnlp
    inf = ' [%s, N=%s deg=%s ni=%s %s]' % (c['m']['type'], c['N'], c['deg'], c['ni'], c['ctype'])
    for i in range(2):
        ox, op = R.lookup_numeric(c, o, c['seed'] + i)
        _, g = R.rows_of(o, ox, op); rows = ref(c, ox, op)[1]
        got = [r for r in zip(g, o._verif_lb, o._verif_ub) if iseq(r)]
        want = [r for r in rows if iseq(r)]
        need(len(got) == len(want), 'number of model equations%s: got %d, expected %d' % (inf, len(got), len(want)))
        R.match_rows(got, want, 'discretized model equations' + inf)
