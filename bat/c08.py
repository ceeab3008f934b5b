"""moving horizon estimation problem on random estimators"""
from bat.util import *
from bat import mheref as H, mpcref as R, gen
import random
RULE = 'random models and estimator settings (estimated and fixed parameters in mixed order, vector variables, scaling, soft constraints, custom and default objective); objective and constraint rows of the real problem at random points against an independent numpy evaluation'
def cases(tier, rng):
    return [H.config(random.Random(rng.randrange(10 ** 9))) for _ in range(90 if tier == 'quick' else 900)]
def uniq_ineq(rows):
    out = []
    for r in rows:
        if r[1] == 0 and r[2] == 0: continue
        if not any(abs(r[0] - q[0]) < 1e-9 and r[1] == q[1] and abs(r[2] - q[2]) < 1e-9 for q in out): out.append(r)
    return out
def run(c):
    mhe = H.make(c, setup=False)
    R.prepare(mhe)
    for i in range(2):
        ox, op = R.lookup_numeric(c, mhe, c['seed'] + i)
        o, g = R.rows_of(mhe, ox, op); ro, rows = H.refnlp(c, ox, op)
        inf = ' [%s %s]' % (c['m']['type'], ', '.join('%s=%s' % (k, c[k]) for k in ('N', 'p_est', 'single', 'nlcp', 'deg', 'ni', 'ctype', 'custom')))
        got = list(zip(g, mhe._verif_lb, mhe._verif_ub))
        R.match_rows([r for r in got if r[1] == 0 and r[2] == 0], [r for r in rows if r[1] == 0 and r[2] == 0], 'model and measurement equations' + inf)
        # a repeated inequality row does not change the problem: compare as sets
        R.match_rows(uniq_ineq(got), uniq_ineq(rows), 'nonlinear constraints' + inf)
        close(o, ro, 'objective' + inf)
