"""MHE steps with a recording solver"""
from bat.util import *
from bat import mpcref as R, mheref as H, gen, stub
import random, numpy as np
RULE = 'random estimators; sequences of steps longer than the horizon; the solver is replaced by a recorder that returns arbitrary vectors; arguments, returned estimate, recorded data and current values are compared with an independent evaluation'
def cases(tier, rng):
    out = []
    for i in range(70 if tier == 'quick' else 700):
        r = random.Random(rng.randrange(10 ** 9))
        c = H.config(r)
        c.update(full=r.random() < 0.6, lagr=r.random() < 0.6, stats=r.sample(['success', 'iter_count'], r.choice([0, 1])), steps=c['N'] + r.choice([1, 2, 3]), form=r.choice(['col', 'DM', 'struct', 'flat']),
                 mod=[r.choice([None, None, None, 't0', 'x0', 'p_est0', 'guess']) for _ in range(12)])
        out.append(c)
    return out
def run(c):
    import casadi as ca
    m = c['m']; N = c['N']
    mhe = H.make(c, setup=False)
    s = mhe.settings
    s.store_full_solution = c['full']; s.store_lagr_multiplier = c['lagr']; s.store_solver_stats = list(c['stats'])
    mhe.setup()
    st = stub.install(mhe, c['seed'])
    rs = np.random.RandomState(c['seed'])
    nx, nu, nz, npe, ny, nt = gen.dim(m, 'x'), gen.dim(m, 'u'), gen.dim(m, 'z'), H.tot(H.pest(c)), H.tot(H.ydims(c)), gen.dim(m, 'tvp')
    S = {k: H.scales(c, k) for k in ('x', 'u', 'z', 'p_est')}
    x0 = rs.uniform(-1, 1, nx); pe = rs.uniform(-1, 1, npe)
    mhe.x0 = x0; mhe.u0 = rs.uniform(-1, 1, nu)
    if npe: mhe.p_est0 = pe
    mhe.set_initial_guess()
    def guess():
        g = mhe.opt_x_num
        for k in range(N + 1):
            for i in range(len(g['_x', 0])): close(g['_x', k, i], x0 / S['x'], 'initial guess of the states')
        for k in range(N): close(g['_u', k], arr(mhe.u0).ravel() / S['u'], 'initial guess of the inputs')
        close(g['_p_est'], pe / S['p_est'], 'initial guess of the parameters')
    guess()
    t = 0.0; ys = []; hist = []
    for j in range(c['steps']):
        y = rs.uniform(-1, 1, ny); ys.append(y); md = c['mod'][j % 12]
        if md == 't0': t = round(rs.uniform(0, 9), 3); mhe.t0 = t
        if md == 'x0': x0 = rs.uniform(-1, 1, nx); mhe.x0 = x0
        if md == 'p_est0' and npe: pe = rs.uniform(-1, 1, npe); mhe.p_est0 = pe
        if md == 'guess': mhe.set_initial_guess(); guess()
        if j and (c['seed'] + j) % 7 == 0: mhe.reset_history(); t = 0.0; ys = [y]; hist = []
        yin = {'col': y.reshape(-1, 1), 'flat': y.copy(), 'DM': ca.DM(y), 'struct': None}[c['form']]
        if c['form'] == 'struct': yin = mhe.model._y(0); yin.master = ca.DM(y)
        before = mhe.opt_x(0); before.master = ca.DM(arr(mhe.opt_x_num).ravel())
        nc = len(st.calls)
        x = mhe.make_step(yin)
        inf = ' (step %d, N=%d, p_est=%s)' % (j, N, c['p_est'])
        need(len(st.calls) == nc + 1, 'one solution per step' + inf)
        kw, ret = st.calls[-1], st.rets[-1]
        p = mhe.opt_p(0); p.master = ca.DM(kw['p'])
        close(kw['x0'], before, 'the solver starts from the previous solution' + inf)
        if j: close(kw['lam_g0'], st.rets[-2]['lam_g'], 'warm start multipliers' + inf); close(kw['lam_x0'], st.rets[-2]['lam_x'], 'warm start multipliers' + inf)
        close(p['_x_prev'], arr(before['_x', 1, -1]).ravel() * S['x'], 'prior state is the second state of the previous window' + inf)
        close(p['_p_est_prev'], pe, 'prior parameters are the previous estimate' + inf)
        ps = H.pset_at(c, t)
        close(p['_p_set'], ps, 'fixed parameters of the current time' + inf)
        for k in range(N):
            close(p['_tvp', k], R.tvp_at(c, t, k, nt), 'time-varying parameters of the current time' + inf)
            idx = len(ys) - N + k
            close(p['_y_meas', k], ys[max(idx, 0)], 'measurement of window slot %d' % k + inf)
        close(kw['lbx'], mhe._lb_opt_x, 'variable bounds'); close(kw['ubx'], mhe._ub_opt_x, 'variable bounds'); close(kw['lbg'], mhe.nlp_cons_lb, 'constraint bounds'); close(kw['ubg'], mhe.nlp_cons_ub, 'constraint bounds')
        r = mhe.opt_x(0); r.master = ca.DM(ret['x'])
        xn = arr(r['_x', N, -1]).ravel() * S['x']; un = arr(r['_u', N - 1]).ravel() * S['u']; zn = arr(r['_z', N - 1, -1]).ravel() * S['z']; pn = arr(r['_p_est']).ravel() * S['p_est']
        need(isinstance(x, np.ndarray) and x.shape == (nx, 1), 'shape of the returned estimate')
        close(x.ravel(), xn, 'returned estimate = last state of the window times scaling' + inf)
        ax = gen.aux(m, gen.Val(m, x=arr(r['_x', N - 1, -1]).ravel() * S['x'], u=un, z=zn, p=H.pfull(c, pn, ps), tvp=R.tvp_at(c, t, N - 1, nt)))
        rec = {'_y': y, '_x': x0, '_u': un, '_z': zn, '_p': H.pfull(c, pe, ps), '_tvp': R.tvp_at(c, t, N, nt), '_time': [t], 'opt_p_num': kw['p']}
        if c['full']: rec['_opt_x_num'] = mhe.opt_x_scaling.cat.full().ravel() * ret['x']
        if c['lagr']: rec['_lam_g_num'] = ret['lam_g']
        hist.append((rec, ax))
        for i, (h, a) in enumerate(hist):
            for k, v in h.items():
                d = getattr(mhe.data, k)
                need(d.shape[0] == len(hist), 'number of rows of %s' % k + inf)
                close(d[i], np.asarray(v, float).ravel(), 'recorded %s of step %d' % (k, i) + inf)
            if len(a): close(mhe.data._aux[i][-len(a):], a, 'recorded auxiliary expressions of step %d' % i + inf)
        t += c['h']; x0 = xn; pe = pn
        close(mhe.t0, [t], 'time after the step'); close(mhe.x0, xn, 'current state estimate' + inf); close(mhe.p_est0, pn, 'current parameter estimate' + inf)
        close(mhe.u0, un, 'current input estimate' + inf); close(mhe.z0, zn, 'current algebraic state estimate' + inf)
