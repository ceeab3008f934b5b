"""NLP sensitivities against an independently assembled KKT system at points that satisfy the optimality conditions by construction; controllers against re-solved problems"""
from bat.util import *
import random, numpy as np, logging
RULE = 'NLPs in 1..5 variables with 0..4 constraints (equalities, one- and two-sided inequalities), all kinds of active sets, unused variables and parameters at any position, the three linear solvers, check options, numpy/casadi/scalar parameters; MPC problems with scaled states, inputs and parameters, bounds active or not, compared with finite differences of re-solved problems'
NPROC = 6
def cases(tier, rng):
    out = []
    for i in range(220 if tier == 'quick' else 4000):
        r = random.Random(rng.randrange(10 ** 9))
        n = r.choice([1, 2, 3, 4, 5]); m = r.choice([0, 1, 2, 3, 4]); p = r.choice([1, 1, 2, 3])
        out.append({'kind': 'nlp', 'n': n, 'm': m, 'p': p, 'seed': r.randrange(10 ** 6), 'ux': [r.randrange(n + 2) for _ in range(r.choice([0, 0, 1, 2]))], 'up': [r.randrange(p + 2) for _ in range(r.choice([0, 0, 1, 2]))],
                    'lin': r.choice(['casadi', 'scipy', 'lstsq', None]), 'opts': [r.random() < 0.5 for _ in range(6)], 'pt': r.choice(['dm', 'np', 'np1', 'num']), 'twice': r.random() < 0.4, 'other': r.random() < 0.5})
    for i in range(8 if tier == 'quick' else 60):
        r = random.Random(rng.randrange(10 ** 9))
        out.append({'kind': 'mpc', 'seed': r.randrange(10 ** 6), 'N': r.choice([2, 3]), 'sx': [r.choice([1, 2.0, 5.0]) for _ in range(2)], 'su': r.choice([1, 4.0]), 'ub': r.choice([0.3, 5.0]), 'tvp': r.random() < 0.5, 'type': r.choice(['discrete', 'continuous']), 'lin': r.choice(['casadi', 'scipy']), 'steps': r.choice([1, 2])})
    return out
def run(c):
    logging.disable(logging.CRITICAL)
    return nlp(c) if c['kind'] == 'nlp' else mpc(c)
def nlp(c):
    import casadi as ca
    from do_mpc.differentiator import NLPDifferentiator
    g = np.random.default_rng(c['seed']); n, m, p = c['n'], c['m'], c['p']
    # positions of the used variables and parameters inside the full vectors
    def place(k, extra):
        lay = [1] * k
        for e in extra: lay.insert(min(e, len(lay)), 0)
        return lay
    lx, lp = place(n, c['ux']), place(p, c['up']); ix = np.flatnonzero(lx); ip = np.flatnonzero(lp); nX, nP = len(lx), len(lp)
    X = ca.SX.sym('X', nX); P = ca.SX.sym('P', nP); x = [X[int(i)] for i in ix]; q = [P[int(i)] for i in ip]
    xs = g.normal(size=n).round(2); ps = g.normal(size=p).round(2)
    Q = g.normal(size=(n, n)); Q = Q @ Q.T + np.eye(n); C = g.normal(size=(n, p)).round(2); S = g.normal(size=(n, p)).round(2) * 0.3; cub = g.normal(size=n).round(2) * 0.1
    J = g.normal(size=(m, n)).round(2); G = g.normal(size=(m, p)).round(2); H = g.normal(size=(m, n)).round(2) * 0.1; K = g.normal(size=(m, p)).round(2) * 0.2
    # active set: linearly independent rows among constraint gradients and unit vectors
    gj = J + 2 * H * xs; gj = gj + (K @ ps)[:, None] * (np.arange(n) == 0)   # d g_j / d x: constraint j also has K_j p * x_0
    rows = [('g', j) for j in range(m)] + [('x', i) for i in range(n)]; g.shuffle(rows); act = []; M = np.zeros((0, n))
    for k, j in [(a, int(b)) for a, b in rows]:
        if g.random() < 0.45 and len(act) < n:
            M2 = np.vstack([M, gj[j] if k == 'g' else np.eye(n)[j]])
            if np.linalg.svd(M2)[1][-1] > 0.15 and M2.shape[0] <= n: M = M2; act.append((k, j))
    lam_g = np.zeros(m); lam_x = np.zeros(n); gv = np.array([J[j] @ xs + H[j] @ xs ** 2 + G[j] @ ps + (K[j] @ ps) * xs[0] for j in range(m)])
    lbg = gv - g.uniform(0.5, 2, m); ubg = gv + g.uniform(0.5, 2, m); lbx = xs - g.uniform(0.5, 2, n); ubx = xs + g.uniform(0.5, 2, n)
    for v in (lbg, lbx): v[g.random(v.size) < 0.25] = -np.inf
    for v in (ubg, ubx): v[g.random(v.size) < 0.25] = np.inf
    for k, j in act:
        lb, ub, val, lam = (lbg, ubg, gv, lam_g) if k == 'g' else (lbx, ubx, xs, lam_x)
        s = g.choice(['l', 'u', 'e'])
        if s in 'le': lb[j] = val[j]
        if s in 'ue': ub[j] = val[j]
        lam[j] = g.uniform(0.5, 2) * (-1 if s == 'l' else 1) * (1 if s != 'e' or g.random() < 0.5 else -1)
    # objective: stationarity holds at (xs, ps)
    gradL = Q @ xs + C @ ps + 3 * cub * xs ** 2 + (S @ ps) * 2 * xs + gj.T @ lam_g + lam_x
    lin = -gradL
    f = 0
    for i in range(n):
        f += lin[i] * x[i] + cub[i] * x[i] ** 3
        for j in range(n): f += 0.5 * Q[i, j] * x[i] * x[j]
        for j in range(p): f += C[i, j] * x[i] * q[j] + S[i, j] * q[j] * x[i] ** 2
    gs = [sum(J[j, i] * x[i] + H[j, i] * x[i] ** 2 for i in range(n)) + sum(G[j, k] * q[k] + K[j, k] * q[k] * x[0] for k in range(p)) for j in range(m)]
    gs = ca.vertcat(*gs) if m else ca.SX(0, 1)
    full = lambda v, fill: np.array([v[list(ix).index(i)] if lx[i] else fill for i in range(nX)])
    bl, bu = np.full(nX, -np.inf), np.full(nX, np.inf); bl[ix] = lbx; bu[ix] = ubx
    XS = np.array([0.0] * nX); XS[ix] = xs; LX = np.zeros(nX); LX[ix] = lam_x; PS = np.zeros(nP); PS[ip] = ps
    un = [i for i in range(nX) if not lx[i]]
    for i in un:
        if g.random() < 0.5: bl[i] = XS[i]     # an unused variable at its bound
    o = c['opts']
    D = NLPDifferentiator({'f': f, 'x': X, 'p': P, 'g': gs}, {'lbx': ca.DM(bl), 'ubx': ca.DM(bu), 'lbg': ca.DM(lbg), 'ubg': ca.DM(ubg)}, **({'lin_solver': c['lin']} if c['lin'] else {}))
    if o[0]: D.settings.check_LICQ = False
    if o[1]: D.settings.check_SC = False
    if o[2]: D.settings.check_rank = True
    if o[3]: D.settings.track_residuals = False
    if o[4]: D.settings.set_lam_zero = True
    if o[5]: D.settings.lstsq_fallback = True
    # multipliers of inactive constraints as an interior point solver leaves them
    eps = 1e-9 if o[4] else 0.0
    sol = {'x': ca.DM(XS), 'g': ca.DM(gv.reshape(-1, 1)) if m else ca.DM(0, 1), 'lam_g': ca.DM(np.where(lam_g == 0, eps, lam_g).reshape(-1, 1)) if m else ca.DM(0, 1), 'lam_x': ca.DM(np.where(LX == 0, eps, LX)), 'f': ca.DM(0)}
    keep = {k: ca.DM(v) for k, v in sol.items()}
    pn = ca.DM(PS)
    if c['pt'] == 'np': pn = PS.reshape(-1, 1)
    if c['pt'] == 'np1': pn = PS.copy()
    if c['pt'] == 'num' and nP == 1: pn = float(PS[0])
    if c.get('other'):
        # the differentiator is used for another solution before: same point or close to it, other active constraints
        d = g.choice([0.0, 1e-4, 0.3])
        try: D.differentiate({**sol, 'x': sol['x'] + d, 'lam_x': ca.DM(eps + 0 * LX) if g.random() < 0.5 else sol['lam_x'], 'lam_g': sol['lam_g'] * 0 + eps}, pn)
        except Exception: pass
    dx, dl = D.differentiate(sol, pn)
    if c['twice']:
        dx2, dl2 = D.differentiate(sol, pn)
        close(dense(dx2), dense(dx), 'the second call'); close(dense(dl2), dense(dl), 'the second call')
    for k in keep: close(sol[k], keep[k], 'the solution passed in is left as it was: %s' % k)
    # reference
    W = Q + np.diag(6 * cub * xs + 2 * (S @ ps)) + 2 * np.diag(lam_g @ H if m else np.zeros(n))
    Wp = C + 2 * S * xs[:, None]
    if m: Wp = Wp + np.outer(np.arange(n) == 0, lam_g @ K)
    ga = [j for j in range(m) if ('g', j) in act]; xa = [i for i in range(n) if ('x', i) in act]
    A = np.vstack([gj[ga], np.eye(n)[xa]]).reshape(-1, n); Gp = G + K * xs[0] if m else np.zeros((0, p))
    B = np.vstack([Gp[ga], np.zeros((len(xa), p))])
    KKT = np.block([[W, A.T], [A, np.zeros((len(A), len(A)))]])
    if np.linalg.cond(KKT) > 1e6: raise Skip('singular KKT system')
    s = -np.linalg.solve(KKT, np.vstack([Wp, B]))
    ex = np.zeros((nX, nP)); el = np.zeros((m + nX, nP))
    ex[np.ix_(ix, ip)] = s[:n]
    rowsl = ga + [m + int(ix[i]) for i in xa]
    el[np.ix_(rowsl, ip)] = s[n:]
    dx, dl = dense(dx), dense(dl)
    need(dx.shape == (nX, nP), 'shape of dx/dp %s, expected %s' % (dx.shape, (nX, nP))); need(dl.shape == (m + nX, nP), 'shape of dlam/dp')
    close(dx, ex, 'sensitivity of the variables', 1e-6); close(dl, el, 'sensitivity of the multipliers', 1e-6)
    if not o[3] and c['lin'] != 'lstsq': need(float(D.status.residuals) < 1e-6, 'reported residual')
    need(D.status.lse_solved, 'the system was solved')
    if not o[0]: need(D.status.LICQ is True or D.status.LICQ == True, 'LICQ reported as violated')
    if not o[1]: need(bool(D.status.SC), 'strict complementarity reported as violated')
    raises(lambda: D.differentiate(sol, ca.DM.zeros(nP + 1) if not D.status.reduced_nlp else 'x'), 'a parameter vector of the wrong size or type')
    raises(lambda: D.differentiate({'x': sol['x']}, pn), 'an incomplete solution')
def dense(v):
    if hasattr(v, 'toarray'): v = v.toarray()
    return arr(v)
def mpc(c):
    import do_mpc, casadi as ca
    from do_mpc.differentiator import DoMPCDifferentiator
    r = random.Random(c['seed'])
    def build():
        r = random.Random(c['seed'])
        m = do_mpc.model.Model(c['type'], 'SX')
        a = m.set_variable('_x', 'a'); b = m.set_variable('_x', 'b'); u = m.set_variable('_u', 'u'); k = m.set_variable('_p', 'k')
        t = m.set_variable('_tvp', 't') if c['tvp'] else 0.0
        if c['type'] == 'discrete':
            m.set_rhs('a', 0.8 * a + 0.3 * b + 0.1 * u + 0.05 * a * b); m.set_rhs('b', 0.6 * b + k * u + 0.1 * t - 0.1 * a)
        else:
            m.set_rhs('a', -0.8 * a + 0.3 * b + 0.05 * a * b); m.set_rhs('b', -0.6 * b + k * u + 0.1 * t)
        m.setup()
        o = do_mpc.controller.MPC(m); o.settings.n_horizon = c['N']; o.settings.t_step = 0.5; o.settings.n_robust = 0; o.settings.supress_ipopt_output()
        o.settings.nlpsol_opts.update({'ipopt.tol': 1e-12, 'ipopt.bound_relax_factor': 0.0, 'ipopt.mu_target': 0.0, 'ipopt.compl_inf_tol': 1e-12, 'ipopt.dual_inf_tol': 1e-9, 'ipopt.fixed_variable_treatment': 'make_constraint'})
        o.scaling['_x', 'a'], o.scaling['_x', 'b'], o.scaling['_u', 'u'] = c['sx'][0], c['sx'][1], c['su']
        o.set_objective(mterm=(a - 1) ** 2 + b ** 2, lterm=(a - 1) ** 2 + 0.5 * b ** 2 + 0.2 * u ** 2); o.set_rterm(u=0.1)
        o.bounds['lower', '_u', 'u'] = -c['ub']; o.bounds['upper', '_u', 'u'] = c['ub']; o.bounds['upper', '_x', 'a'] = 3
        pt = o.get_p_template(1); pt['_p', 0] = 0.7
        o.set_p_fun(lambda t_: pt)
        if c['tvp']:
            tt = o.get_tvp_template()
            for i in range(c['N'] + 1): tt['_tvp', i, 't'] = 0.5 + i
            o.set_tvp_fun(lambda t_: tt)
        o.setup(); return o, pt
    o, pt = build(); x0 = np.array([r.uniform(-1, 1), r.uniform(-1, 1)])
    o.x0 = x0; o.set_initial_guess()
    D = DoMPCDifferentiator(o, lin_solver=c['lin'])
    for j in range(c['steps']):
        o.make_step(x0)
        if j + 1 < c['steps']: x0 = x0 * 0.9
    if not o.solver_stats['success']: raise Skip('solver')
    lx = np.abs(arr(o.lam_x_num)).ravel(); X = arr(o.opt_x_num).ravel(); L = arr(o._lb_opt_x.cat).ravel(); U = arr(o._ub_opt_x.cat).ravel()
    gap = np.minimum(np.abs(X - L), np.abs(X - U))
    if np.any((gap < 1e-4) & (lx < 1e-4)) or np.any((gap > 1e-8) & (gap < 1e-4)): raise Skip('active set close to a change')
    dx, dl = D.differentiate(); dx = dense(dx)
    close(D.sens_num['dxdp'], dx, 'stored sensitivities')
    # finite differences of re-solved problems, in physical variables: opt_x_num_unscaled
    base = arr(o.opt_x_num_unscaled).ravel(); P0 = arr(o.opt_p_num).ravel(); need(dx.shape == (base.size, P0.size), 'shape of the sensitivities')
    h = 1e-5
    for j in range(P0.size):
        res = []
        for s in (h, -h):
            P = P0.copy(); P[j] += s
            q = o.S(x0=o.opt_x_num.cat, lbx=o._lb_opt_x, ubx=o._ub_opt_x, lbg=o.nlp_cons_lb, ubg=o.nlp_cons_ub, p=P)
            if not o.S.stats()['success']: raise Skip('solver')
            res.append(arr(q['x']).ravel() * arr(o.opt_x_scaling.cat).ravel())
        fd = (res[0] - res[1]) / (2 * h)
        # variables that do not occur in the problem stay where they are
        err = np.abs(fd - dx[:, j]); bad = err > 2e-3 * (1 + np.abs(fd))
        need(not bad.any(), 'sensitivity with respect to parameter %d: %s, re-solving gives %s' % (j, np.array2string(dx[bad, j][:5], precision=5), np.array2string(fd[bad][:5], precision=5)))
