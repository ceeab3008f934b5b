"""uncertainty values and parameter functions"""
from bat.util import *
from bat import gen
import random, itertools, numpy as np
RULE = 'random models with several and vector valued parameters, value lists for random subsets in random order with 1..4 values (scalars, arrays, numpy scalars), prepared controllers compared with the Cartesian product; user parameter functions of the right and of wrong layouts; time-varying parameter functions of controllers, estimators and simulators of right and wrong layout'
def cases(tier, rng):
    out = []
    for i in range(100 if tier == 'quick' else 1200):
        r = random.Random(rng.randrange(10 ** 9)); names = ['p_b', 'pa', 'p3', 'default2'][:r.choice([1, 2, 3, 4])]
        p = [[n, r.choice([1, 1, 1, 2])] for n in names]; lst = [n for n in names if r.random() < 0.7]; r.shuffle(lst)
        c = {'p': p, 'vals': [[n, [[round(r.uniform(-3, 3), 3) for _ in range(d)] for _ in range(r.choice([1, 2, 2, 3]))], r.choice(['list', 'array', 'tuple'])] for n in lst for d in [dict((a, b) for a, b in p)[n]]],
             'tvp': r.choice([0, 1, 2]), 'N': r.choice([1, 2, 4]), 'R': r.choice([0, 1]), 'seed': r.randrange(10 ** 6), 'n': r.choice([1, 2, 3, 5]), 'again': r.random() < 0.3, 'run': r.random() < 0.3}
        out.append(c)
    return out
def model(c, type_='discrete'):
    import do_mpc
    m = do_mpc.model.Model(type_); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u')
    P = [m.set_variable('_p', n, (d, 1)) for n, d in c['p']]; T = [m.set_variable('_tvp', n + c.get('tvn', ''), (d, 1)) for n, d in [['tv', 2], ['ta', 1]][:c['tvp']]]
    from casadi import sum1
    m.set_rhs('x', x + u + sum(sum1(q) for q in P) + sum(sum1(q) for q in T)); m.set_meas('y', x, meas_noise=True); m.setup()
    return m
def mpc_(c, m):
    import do_mpc
    mpc = do_mpc.controller.MPC(m); mpc.settings.n_horizon = c['N']; mpc.settings.n_robust = c['R']; mpc.settings.t_step = 1.0; mpc.settings.supress_ipopt_output()
    mpc.set_objective(mterm=m.x['x'] ** 2, lterm=m.x['x'] ** 2); mpc.set_rterm(u=0.1)
    return mpc
def tvp_ok(c, o, rs):
    import casadi as ca
    t = o.get_tvp_template(); t.master = ca.DM(rs.uniform(-1, 1, t.shape)); o.set_tvp_fun(lambda now: t); return t
def run(c):
    import do_mpc, casadi as ca
    rs = np.random.RandomState(c['seed']); m = model(c); mpc = mpc_(c, m); inf = ' [%s]' % {k: c[k] for k in ('p', 'vals')}
    off = {}; k = 0
    for n, d in c['p']: off[n] = (k, d); k += d
    npar = k
    def conv(v, how):
        v = [q[0] if len(q) == 1 else np.array(q) for q in v]
        return {'list': v, 'array': np.array(v), 'tuple': tuple(v)}[how]
    def product(vals):
        out = []
        for cm in itertools.product(*[v for n, v, h in vals]):
            q = np.zeros(npar)
            for (n, v, h), w in zip(vals, cm): q[off[n][0]:off[n][0] + off[n][1]] = w
            out.append(q)
        return out
    raises(lambda: mpc.set_uncertainty_values(nonsense=[1, 2]), 'unknown parameter' + inf)
    if c['vals']:
        if c['again']: mpc.set_uncertainty_values(**{c['p'][0][0]: [np.full(c['p'][0][1], 9.0)] * 2})
        mpc.set_uncertainty_values(**{n: conv(v, h) for n, v, h in c['vals']}); want = product(c['vals'])
        need(int(mpc.n_combinations) == len(want), 'number of combinations %s, expected %d' % (mpc.n_combinations, len(want)) + inf)
        for t in (0, 3.5):
            p = mpc.p_fun(t); need(len(p['_p']) == len(want), 'number of realizations' + inf)
            for i, q in enumerate(want): close(p['_p', i], q, 'realization %d' % i + inf)
            for n, (o, d) in off.items(): close(p['_p', 0, n], want[0][o:o + d], 'nominal value of %s' % n + inf)
    else:
        t0 = mpc.get_p_template(c['n']); need(len(t0['_p']) == c['n'] and not np.any(arr(t0)), 'template' + inf)
        t0.master = ca.DM(rs.uniform(-1, 1, t0.shape)); t1 = mpc.get_p_template(c['n']); t1.master = ca.DM(rs.uniform(-1, 1, t1.shape))
        fun = lambda now: t0 if now < 2 else t1
        for bad in (c['n'] + 1, c['n'] - 1):
            if bad < 1: continue
            b = mpc.get_p_template(bad); mpc.get_p_template(c['n'])
            raises(lambda: mpc.set_p_fun(lambda now: b), 'function with %d instead of %d realizations' % (bad, c['n']) + inf)
        raises(lambda: mpc.set_p_fun(lambda now: rs.uniform(-1, 1, t0.shape)), 'function returning an array' + inf)
        other = model(dict(c, p=[[n + 'x', d] for n, d in c['p']])); b = mpc_(c, other).get_p_template(c['n'])
        raises(lambda: mpc.set_p_fun(lambda now: b), 'function for other parameters' + inf)
        raises(lambda: mpc.set_p_fun(lambda now: m._p(0)), 'function returning a single parameter structure' + inf)
        mpc.set_p_fun(fun); want = [arr(t0['_p', i]).ravel() for i in range(c['n'])]
        for t, T in ((0, t0), (1.9, t0), (2, t1)): close(mpc.p_fun(t), T, 'realizations at %s' % t + inf)
        need(int(mpc.n_combinations) == c['n'], 'number of combinations' + inf)
    # time-varying parameters
    wrong = []
    if c['tvp']:
        b = mpc_(dict(c, N=c['N'] + 1), m).get_tvp_template(); raises(lambda: mpc.set_tvp_fun(lambda now: b), 'time-varying parameters of a longer horizon' + inf)
        mo = model(dict(c, tvn='q')); bo = mpc_(c, mo).get_tvp_template(); raises(lambda: mpc.set_tvp_fun(lambda now: bo), 'time-varying parameters with other names' + inf)
        raises(lambda: mpc.set_tvp_fun(lambda now: m._tvp(0)), 'time-varying parameters of a single instant' + inf); raises(lambda: mpc.set_tvp_fun(lambda now: np.zeros((5, 1))), 'array' + inf)
        raises(lambda: mpc.setup(), 'setup without time-varying parameters' + inf) if c['seed'] % 3 == 0 else None
        if c['seed'] % 3 == 0: return
        t = mpc.get_tvp_template(); need(len(t['_tvp']) == c['N'] + 1, 'template covers the horizon' + inf); tvp_ok(c, mpc, rs)
        sim = do_mpc.simulator.Simulator(m); sim.settings.t_step = 1.0
        raises(lambda: sim.set_tvp_fun(lambda now: b), 'simulator: function of the controller' + inf); raises(lambda: sim.set_tvp_fun(lambda now: arr(m._tvp(0))), 'simulator: array' + inf); raises(lambda: sim.set_tvp_fun(lambda now: mo._tvp(0)), 'simulator: other names' + inf); mp = model(dict(c, p=[[n + 'q', d] for n, d in c['p']])); raises(lambda: sim.set_p_fun(lambda now: mp._p(0)), 'simulator: parameters with other names' + inf); raises(lambda: sim.set_p_fun(lambda now: mpc_(c, m).get_p_template(2)), 'simulator: parameters of the controller' + inf); raises(lambda: sim.set_p_fun(lambda now: np.zeros(npar)), 'simulator: array of parameters' + inf)
        s = sim.get_tvp_template(); s.master = ca.DM(rs.uniform(-1, 1, s.shape)); sim.set_tvp_fun(lambda now: s); close(sim.tvp_fun(1.0), s, 'simulator: returned parameters'); q = sim.get_p_template(); q.master = ca.DM(rs.uniform(-1, 1, q.shape)); sim.set_p_fun(lambda now: q); close(sim.p_fun(1.0), q, 'simulator: returned parameters')
        mhe = do_mpc.estimator.MHE(m, [c['p'][0][0]]); mhe.settings.n_horizon = c['N']; mhe.settings.t_step = 1.0
        raises(lambda: mhe.set_tvp_fun(lambda now: b), 'estimator: time-varying parameters of a longer horizon' + inf); raises(lambda: mhe.set_p_fun(lambda now: m._p(0)), 'estimator: also the estimated parameters' + inf); raises(lambda: mhe.set_tvp_fun(lambda now: bo), 'estimator: other names' + inf)
        s2 = mhe.get_tvp_template(); need(len(s2['_tvp']) == c['N'] + 1, 'estimator: template covers the window'); mhe.set_tvp_fun(lambda now: s2); q2 = mhe.get_p_template(); q2.master = ca.DM(rs.uniform(-1, 1, q2.shape)); mhe.set_p_fun(lambda now: q2)
    mpc.setup()
    # the realizations reach the optimization problem in this order
    ps = mpc.opt_p_num['_p']; need(len(ps) == len(want), 'realizations of the problem' + inf)
    need(len(mpc.opt_x['_x', 0]) == len(want) ** c['R'], 'scenarios of the problem' + inf)
    if c['run']:
        from bat import stub
        stub.install(mpc, 1); mpc.set_initial_guess(); mpc.make_step(np.zeros((1, 1)))
        for i, q in enumerate(want): close(mpc.opt_p_num['_p', i], q, 'realization %d of the problem' % i + inf)
        close(mpc.data['_p'][-1], want[0], 'recorded nominal parameters' + inf)
