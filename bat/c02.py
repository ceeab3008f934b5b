"""equality rows of the MPC optimization problem on random controllers"""
from bat.util import *
from bat import mpcref as R, gen
import random
RULE = 'random models (vector states, inputs, algebraic states, parameters, time-varying parameters; discrete and continuous), random controller settings; the constraint rows of the real problem evaluated at random points are compared as multiset with rows computed independently with numpy'
KIND = 'eq'
def cases(tier, rng):
    n = 90 if tier == 'quick' else 900
    return [R.config(random.Random(rng.randrange(10 ** 9))) for _ in range(n)]
def setup(c):
    mpc = R.make(c, setup=False)
    R.prepare(mpc)
    return mpc
def points(c, mpc, n=2):
    import numpy as np
    for i in range(n):
        ox, op = R.lookup_numeric(c, mpc, c['seed'] + i)
        yield ox, op, R.rows_of(mpc, ox, op), R.refnlp(c, ox, op)
def info(c):
    return ' [%s]' % ', '.join('%s=%s' % (k, c[k]) for k in ('N', 'R', 'unc', 'open_loop', 'single', 'nlcp', 'ccp', 'deg', 'ni', 'ctype')) + ' ' + c['m']['type']
def run(c):
    mpc = setup(c)
    for ox, op, (o, g), (ro, rows) in points(c, mpc):
        got = list(zip(g, mpc._verif_lb, mpc._verif_ub))
        iseq = lambda r: r[1] == 0 and r[2] == 0
        if KIND == 'eq': R.match_rows([r for r in got if iseq(r)], [r for r in rows if iseq(r)], 'model equations' + info(c))
        else: R.match_rows([r for r in got if not iseq(r)], [r for r in rows if not iseq(r)], 'constraints' + info(c))
