"""inequality rows, slack bounds"""
from bat.util import *
from bat import c02, c08, mheref as H, mpcref as R, gen
import random, numpy as np
RULE = c02.RULE + '; here the inequality rows, the slack bounds and the slack penalty'
def cases(tier, rng):
    out = []
    def edge(c):
        # a soft constraint may cost nothing or may not be violated at all: it is soft all the same
        for q in c['nl']:
            if rng.random() < 0.2: q['pen'] = 0
            if rng.random() < 0.15: q['max'] = rng.choice([0.0, 1e-3])
        return c
    while len(out) < (90 if tier == 'quick' else 900):
        c = R.config(random.Random(rng.randrange(10 ** 9)))
        if c['nl']: out.append(edge(c))
    while len(out) < (130 if tier == 'quick' else 1300):
        c = H.config(random.Random(rng.randrange(10 ** 9)))
        if c['nl']: out.append({'mhe': edge(c)})
    return out
def exact(a, b, what):
    a = np.asarray(a, dtype=float).ravel(); b = np.asarray(b, dtype=float).ravel()
    if not np.array_equal(a, b): raise Violation('%s: %s, expected %s' % (what, a, b))
def run_mhe(c):
    mhe = H.make(c, setup=False); R.prepare(mhe)
    inf = ' (estimator) [%s %s]' % (c['m']['type'], ', '.join('%s=%s' % (k, c[k]) for k in ('N', 'single', 'nlcp', 'deg', 'ni')))
    for i in range(2):
        ox, op = R.lookup_numeric(c, mhe, c['seed'] + i)
        o, g = R.rows_of(mhe, ox, op); ro, rows = H.refnlp(c, ox, op)
        R.match_rows(c08.uniq_ineq(list(zip(g, mhe._verif_lb, mhe._verif_ub))), c08.uniq_ineq(rows), 'nonlinear constraints' + inf)
        if any(q['soft'] for q in c['nl']):
            ox2 = mhe.opt_x(0); ox2.master = ox.master; ox2['_eps'] = 0
            close(o - R.rows_of(mhe, ox2, op)[0], ro - H.refnlp(c, ox2, op)[0], 'slack penalty' + inf)
    hi = np.concatenate([np.full(len(q['polys']), np.inf if q['max'] is None else q['max']) for q in c['nl'] if q['soft']] + [np.zeros(0)])
    for k in range(1 if c['single'] else c['N']):
        exact(mhe.lb_opt_x['_eps', k], np.zeros(len(hi)), 'lower bound of the slack variables' + inf)
        exact(mhe.ub_opt_x['_eps', k], hi, 'upper bound of the slack variables' + inf)
def run(c):
    if 'mhe' in c: return run_mhe(c['mhe'])
    mpc = c02.setup(c)
    iseq = lambda r: r[1] == 0 and r[2] == 0
    for ox, op, (o, g), (ro, rows) in c02.points(c, mpc):
        got = list(zip(g, mpc._verif_lb, mpc._verif_ub))
        # a user bound of exactly 0 together with lb -inf is no equality
        R.match_rows([r for r in got if not iseq(r)], [r for r in rows if not iseq(r)], 'nonlinear constraints' + c02.info(c))
        # penalty: change only the slack variables
        ox2 = mpc.opt_x(0); ox2.master = ox.master
        ne = sum(len(q['polys']) for q in c['nl'] if q['soft'])
        if ne:
            ox2['_eps'] = 0
            d = R.rows_of(mpc, ox2, op)[0]
            rd = R.refnlp(c, ox2, op)[0]
            close(o - d, ro - rd, 'slack penalty' + c02.info(c))
    lb, ub = mpc.lb_opt_x, mpc.ub_opt_x
    ne = 1 if c['single'] else c['N']
    ns = [R.ncomb(c) ** min(k, c['R']) for k in range(c['N'] + 1)]
    hi = np.concatenate([np.full(len(q['polys']), np.inf if q['max'] is None else q['max']) for q in c['nl'] if q['soft']] + [np.zeros(0)])
    for k in range(ne):
        for s in range(ns[-1] if c['single'] else ns[k]):
            exact(lb['_eps', k, s], np.zeros(len(hi)), 'lower bound of the slack variables' + c02.info(c))
            exact(ub['_eps', k, s], hi, 'upper bound of the slack variables' + c02.info(c))
