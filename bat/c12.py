"""LQR gain and control law on random linear systems"""
from bat.util import *
from bat import lin
import random, numpy as np
RULE = 'random discrete linear systems (several and vector valued states and inputs), random weights, finite horizons 1..25, weights of magnitudes 1e-10..1e6 and infinite horizon, both modes, sequences of steps with set-point, input and time changes; gain compared with an independent Riccati recursion, the returned input with the control law'
def cases(tier, rng):
    out = []
    for i in range(120 if tier == 'quick' else 1500):
        r = random.Random(rng.randrange(10 ** 9)); c = lin.system(r)
        c.update(N=r.choice([None, None, 1, 2, 3, 6, 25]), scale=r.choice([1.0, 1.0, 1e-10, 1e-5, 1e6]), rate=r.random() < 0.5, P=r.random() < 0.7, steps=r.choice([2, 4, 6]), h=r.choice([1.0, 0.3, 1 / 3]), form=r.choice(['col', 'DM', 'struct']),
                 mod=[r.choice([None, None, 'xss', 'uss', 'both', 'u0', 't0', 'none']) for _ in range(6)], first=r.choice([None, 'xss', 'uss', 'both']))
        out.append(c)
    return out
def riccati(A, B, Q, R, P, n):
    for _ in range(n):
        K = -np.linalg.solve(B.T @ P @ B + R, B.T @ P @ A)
        P = Q + A.T @ P @ A + A.T @ P @ B @ K
    return K, P
def run(c):
    import do_mpc, casadi as ca
    A, B, spd, rs = lin.mats(c); n, m = lin.tot(c['x']), lin.tot(c['u'])
    mod = do_mpc.model.LinearModel('discrete'); lin.variables(mod, c); mod.setup(A, B)
    Q, R, P, dR = spd(n, 0.1), spd(m, 0.2), spd(n, 0.3), spd(m, 0.2)
    if c['N'] is not None or c['scale'] == 1e-5: Q, R, P, dR = (c['scale'] * v for v in (Q, R, P, dR))     # the gain does not depend on the scale of the weights
    l = do_mpc.controller.LQR(mod)
    l.settings.t_step = c['h']
    if c['N'] is not None: l.settings.n_horizon = c['N']
    inf = ' [n_horizon=%s, %s, n_x=%d, n_u=%d]' % (c['N'], 'rate mode' if c['rate'] else 'standard', n, m)
    bad = lambda a: np.zeros((a.shape[0] + 1, a.shape[1] + 1))
    raises(lambda: l.set_objective(bad(Q), R, P), 'Q of wrong shape' + inf); raises(lambda: l.set_objective(Q, bad(R), P), 'R of wrong shape' + inf)
    if c['N'] is not None: raises(lambda: l.set_objective(Q, R, bad(P)), 'P of wrong shape' + inf)
    raises(lambda: l.make_step(np.zeros((n, 1))), 'step before setup' + inf); raises(lambda: l.set_setpoint(np.zeros((n, 1))), 'set-point before setup' + inf)
    if c['P']: l.set_objective(Q=Q.copy(), R=R.copy(), P=P.copy())
    else: l.set_objective(Q=Q.copy(), R=R.copy()); P = Q
    if c['rate']: l.set_rterm(delR=dR.copy())
    l.setup()
    if c['rate']:
        Ag = np.block([[A, B], [np.zeros((m, n)), np.eye(m)]]); Bg = np.vstack([B, np.eye(m)])
        Qg = np.block([[Q, np.zeros((n, m))], [np.zeros((m, n)), R]]); Pg = np.block([[P, np.zeros((n, m))], [np.zeros((m, n)), R]]); Rg = dR
    else: Ag, Bg, Qg, Pg, Rg = A, B, Q, P, R
    if c['N'] is not None: K, _ = riccati(Ag, Bg, Qg, Rg, Pg, c['N'])
    else:
        K, S = riccati(Ag, Bg, Qg, Rg, Qg, 5000)
        if not np.allclose(S, Qg + Ag.T @ S @ Ag + Ag.T @ S @ Bg @ K, rtol=1e-8) or np.abs(np.linalg.eigvals(Ag + Bg @ K)).max() >= 0.9999: raise Skip('badly conditioned system')
    close(l.K, K, 'gain' + inf, 1e-6)
    K = np.asarray(l.K)
    raises(lambda: l.set_objective(Q, R, P), 'objective after setup' + inf)
    xss, uss = np.zeros((n, 1)), np.zeros((m, 1)); up = np.zeros((m, 1)); t = 0.0; rows = []
    def setp(what):
        nonlocal xss, uss
        kw = {}
        if what in ('xss', 'both'): xss = rs.uniform(-2, 2, (n, 1)); kw['xss'] = xss.copy()
        if what in ('uss', 'both'): uss = rs.uniform(-2, 2, (m, 1)); kw['uss'] = uss.copy()
        l.set_setpoint(**kw)
    if c['first']: setp(c['first'])
    for j in range(c['steps']):
        md = c['mod'][j]
        if md in ('xss', 'uss', 'both', 'none'): setp(md)
        if j and rs.rand() < 0.12: l.reset_history(); t = 0.0; rows = []
        if md == 'u0': up = rs.uniform(-1, 1, (m, 1)); l.u0 = up
        if md == 't0': t = round(rs.uniform(0, 5), 2); l.t0 = t
        x = rs.uniform(-1, 1, (n, 1)); xin = {'col': x.copy(), 'DM': ca.DM(x), 'struct': None}[c['form']]
        if c['form'] == 'struct': xin = mod._x(0); xin.master = ca.DM(x)
        u = l.make_step(xin)
        if c['rate']: want = K @ (np.vstack([x, up]) - np.vstack([xss, uss])) + up
        else: want = K @ (x - xss) + uss
        need(arr(u).shape == (m, 1), 'shape of the returned input' + inf)
        close(u, want, 'input of step %d' % j + inf)
        rows.append((t, x.ravel(), want.ravel()))
        for f, i in (('_time', 0), ('_x', 1), ('_u', 2)):
            w = np.array([np.atleast_1d(r[i]) for r in rows]); need(l.data[f].shape == w.shape, 'recorded %s' % f + inf); close(l.data[f], w, 'recorded %s' % f + inf)
        up = want; t += c['h']
        close(l.t0, [t], 'time after the step' + inf); close(l.x0.cat, x, 'current state' + inf); close(l.u0.cat, want, 'current input' + inf)
    raises(lambda: l.make_step([0.0] * n), 'state of wrong type' + inf)
    raises(lambda: l.set_setpoint(xss=np.zeros((n + 1, 1))), 'set-point of wrong shape' + inf)
