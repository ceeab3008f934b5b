"""MPC steps with a recording solver"""
from bat.util import *
from bat import mpcref as R, gen, stub
import random, numpy as np
RULE = 'random controllers; sequences of steps with random states (arrays, matrices, structures), changes of the current input and time in between; the solver is replaced by a recorder that returns arbitrary vectors; arguments, returned input, recorded data and current values are compared with an independent evaluation'
def cases(tier, rng):
    out = []
    for i in range(70 if tier == 'quick' else 700):
        r = random.Random(rng.randrange(10 ** 9))
        c = R.config(r)
        c.update(full=r.random() < 0.6, lagr=r.random() < 0.6, stats=r.sample(['success', 't_wall_total', 'iter_count', 'return_status'], r.choice([0, 1, 3])), steps=r.choice([2, 3, 4]), guess=r.random() < 0.8, form=r.choice(['col', 'DM', 'struct', 'flat']),
                 mod=[r.choice([None, None, 'u0', 't0', 'guess', 'reset']) for _ in range(5)])
        if c['guess'] is False: c['guess'] = True
        out.append(c)
    return out
def run(c):
    import casadi as ca
    m = c['m']; N = c['N']
    mpc = R.make(c, setup=False)
    s = mpc.settings
    s.store_full_solution = c['full']; s.store_lagr_multiplier = c['lagr']; s.store_solver_stats = list(c['stats'])
    mpc.setup()
    st = stub.install(mpc, c['seed'])
    rs = np.random.RandomState(c['seed'])
    nx, nu, nz = gen.dim(m, 'x'), gen.dim(m, 'u'), gen.dim(m, 'z')
    sx, su, sz = R.scales(c, 'x'), R.scales(c, 'u'), R.scales(c, 'z')
    x0 = rs.uniform(-1, 1, nx); u0 = rs.uniform(-1, 1, nu); z0 = rs.uniform(-1, 1, nz)
    mpc.x0 = x0; mpc.u0 = u0
    if nz: mpc.z0 = z0
    raises(lambda: R.make(c, setup=False).make_step(x0.reshape(-1, 1)), 'step before setup')
    def guess():
        mpc.set_initial_guess()
        g = mpc.opt_x_num
        for k in range(N + 1):
            for sc in range(len(g['_x', 0])):
                for i in range(len(g['_x', 0, 0])): close(g['_x', k, sc, i], arr(mpc.x0).ravel() / sx, 'initial guess of the states')
            if k == N: break
            for sc in range(len(g['_u', 0])): close(g['_u', k, sc], arr(mpc.u0).ravel() / su, 'initial guess of the inputs')
            for sc in range(len(g['_z', 0])):
                for i in range(len(g['_z', 0, 0])): close(g['_z', k, sc, i], arr(mpc.z0).ravel() / sz, 'initial guess of the algebraic states')
    guess()
    t = 0.0; uprev = u0; rows = 0; ns = [R.ncomb(c) ** min(k, c['R']) for k in range(N + 1)]
    hist = []
    for j in range(c['steps']):
        md = c['mod'][j]
        if md == 'u0': uprev = rs.uniform(-1, 1, nu); mpc.u0 = uprev
        if md == 't0': t = round(rs.uniform(0, 9), 3); mpc.t0 = t
        if md == 'guess': guess()
        if md == 'reset' : mpc.reset_history(); t = 0.0; hist = []
        expect_x0 = arr(mpc.opt_x_num).ravel().copy()
        x = rs.uniform(-1, 1, nx)
        xin = {'col': x.reshape(-1, 1), 'flat': x.copy(), 'DM': ca.DM(x), 'struct': None}[c['form']]
        if c['form'] == 'struct': xin = mpc.model._x(0); xin.master = ca.DM(x)
        ncalls = len(st.calls)
        u = mpc.make_step(xin)
        inf = ' (step %d, %s)' % (j, {k: c[k] for k in ('N', 'R', 'unc', 'open_loop')})
        need(len(st.calls) == ncalls + 1, 'one solution per step, %d solver calls' % (len(st.calls) - ncalls) + inf)
        kw, ret = st.calls[-1], st.rets[-1]
        close(kw['x0'], expect_x0, 'the solver starts from the previous solution' + inf)
        if j: close(kw['x0'], st.rets[-2]['x'], 'warm start') if md != 'guess' else None
        if j:
            need('lam_x0' in kw and 'lam_g0' in kw, 'multipliers of the previous solution are passed' + inf)
            close(kw['lam_x0'], st.rets[-2]['lam_x'], 'warm start of the bound multipliers' + inf); close(kw['lam_g0'], st.rets[-2]['lam_g'], 'warm start of the constraint multipliers' + inf)
        p = mpc.opt_p(0); p.master = ca.DM(kw['p'])
        close(p['_x0'], x, 'initial state of the problem' + inf); close(p['_u_prev'], uprev, 'previous input of the problem' + inf)
        nt = gen.dim(m, 'tvp')
        for k in range(N + 1): close(p['_tvp', k], R.tvp_at(c, t, k, nt), 'time-varying parameters of the current time' + inf)
        vc = [v * R.pvary(c, t) for v in mpc._vcombos]
        for i, v in enumerate(vc): close(p['_p', i], v, 'parameters of combination %d' % i + inf)
        close(kw['lbg'], mpc.nlp_cons_lb, 'constraint bounds' + inf); close(kw['ubg'], mpc.nlp_cons_ub, 'constraint bounds' + inf)
        close(kw['lbx'], mpc._lb_opt_x, 'variable bounds' + inf)
        r = mpc.opt_x(0); r.master = ca.DM(ret['x'])
        un = arr(r['_u', 0, 0]).ravel() * su; zn = arr(r['_z', 0, 0, 0]).ravel() * sz
        need(isinstance(u, np.ndarray) and u.shape == (nu, 1), 'shape of the returned input %s' % (getattr(u, 'shape', None),))
        close(u.ravel(), un, 'returned input = first input of the solution times scaling' + inf)
        # auxiliary expressions of some branch of the first stage
        auxs = []
        ns_, nb, child, parent, combo = gen.tree(N, c['R'], R.ncomb(c))
        for b in range(nb[0]):
            ch = child(0, 0, b)
            auxs.append(gen.aux(m, gen.Val(m, x=arr(r['_x', 0, 0, -1]).ravel() * sx, u=un, z=arr(r['_z', 0, ch, -1]).ravel() * sz, p=vc[combo[0, 0, b]], tvp=R.tvp_at(c, t, 0, nt))))
        d = mpc.data
        rec = {'_x': x, '_u': un, '_z': zn, '_tvp': R.tvp_at(c, t, 0, nt), '_p': vc[0], '_time': [t], 'opt_p_num': kw['p']}
        if c['full']:
            full = mpc.opt_x_scaling.cat.full().ravel() * ret['x']; rec['_opt_x_num'] = full
        if c['lagr']: rec['_lam_g_num'] = ret['lam_g']
        hist.append((rec, auxs, {k: v for k, v in st.stats().items() if k in c['stats']}))
        for i, (h, ax, ss) in enumerate(hist):
            for k, v in h.items():
                a = getattr(d, k)
                need(a.shape[0] == len(hist), 'number of rows of %s: %d after %d steps' % (k, a.shape[0], len(hist)) + inf)
                close(a[i], np.asarray(v, float).ravel(), 'recorded %s of step %d' % (k, i) + inf)
            if len(ax[0]): need(any(np.allclose(d._aux[i][-len(q):], q, rtol=1e-8, atol=1e-8) for q in ax), 'recorded auxiliary expressions %s, expected one of %s' % (d._aux[i], ax) + inf)
            for k, v in ss.items():
                need(str(np.asarray(getattr(d, k)).ravel()[i]) in (str(v), str(float(v)) if not isinstance(v, str) else v), 'recorded solver statistic %s: %r, expected %r' % (k, np.asarray(getattr(d, k)).ravel()[i], v) + inf)
        t = t + c['h']
        close(mpc.t0, [t], 'time after the step' + inf)
        close(mpc.u0, un, 'remembered input' + inf); close(mpc.x0, x, 'remembered state' + inf)
        uprev = un
