"""linear models: matrices given, linearization, discretization and steady states against independent numpy computations"""
from bat.util import *
from bat import gen, lin
import random, numpy as np
RULE = 'random linear systems (several and vector valued variables; with and without output and feedthrough matrices), random polynomial models linearized at random points (also with parameters, time-varying parameters, noises, expressions), discretization with all methods against an own computation, steady states for inputs and states; nonlinear expressions and wrong shapes'
def cases(tier, rng):
    out = []; n = 40 if tier == 'quick' else 500
    for i in range(3 * n):
        r = random.Random(rng.randrange(10 ** 9)); kind = ['mat', 'lin', 'disc'][i % 3]; c = lin.system(r); c['kind'] = kind
        if kind == 'lin':
            c['m'] = gen.model(r, sym='SX', z=False, w=r.random() < 0.6)
            V = gen.scal(c['m'], ['x', 'u', 'p', 'tvp'])
            c['meas'] = [[nm, [gen.rpoly(r, V, 2) for _ in range(r.choice([1, 2]))], r.random() < 0.5] for nm in ['yb', 'y', 'ya'][:r.choice([0, 1, 2])]]
        else:
            c.update(type=r.choice(['discrete', 'continuous']) if kind == 'mat' else 'continuous', ny=r.choice([0, 1, 2, 3, 'n']), D=r.random() < 0.6, expr=r.random() < 0.3, h=r.choice([0.1, 0.7, 1.3]), method=r.choice(['zoh', 'foh', 'impulse', 'bilinear', 'tustin', 'euler', 'backward_diff']))
        if c.get('method') == 'impulse': c['D'] = False
        out.append(c)
    return out
def expm(M):
    k = max(0, int(np.ceil(np.log2(max(1e-9, np.abs(M).sum())))) + 6); T = np.eye(len(M)); S = T.copy()
    for j in range(1, 25):
        T = T @ (M / 2 ** k) / j; S = S + T
    for _ in range(k): S = S @ S
    return S
def gbt(A, B, C, D, h, a):
    I = np.eye(len(A)); L = np.linalg.inv(I - a * h * A); Ad = L @ (I + (1 - a) * h * A); Bd = L @ (h * B)
    return Ad, Bd, C @ L, D + a * C @ Bd
def discretize(A, B, C, D, h, method):
    n, m = B.shape
    if method in ('bilinear', 'tustin'): return gbt(A, B, C, D, h, 0.5)
    if method == 'euler': return gbt(A, B, C, D, h, 0.0)
    if method == 'backward_diff': return gbt(A, B, C, D, h, 1.0)
    E = expm(np.block([[A, B], [np.zeros((m, n + m))]]) * h); Ad, Bz = E[:n, :n], E[:n, n:]
    if method == 'zoh': return Ad, Bz, C, D
    if method == 'impulse': return Ad, Ad @ B * h, C, D + C @ B * h
    F = expm(np.block([[A * h, B * h, np.zeros((n, m))], [np.zeros((m, n + m)), np.eye(m)], [np.zeros((m, n + 2 * m))]]))
    Ad, G1, G2 = F[:n, :n], F[:n, n:n + m], F[:n, n + m:]
    return Ad, G1 - G2 + Ad @ G2, C, D + C @ G2
def diff(f, x):
    x = np.asarray(x, float); f0 = np.asarray(f(x)); J = np.zeros((f0.size, x.size))
    for j in range(x.size):
        a, b = x.copy(), x.copy(); a[j] += 1e-5; b[j] -= 1e-5
        J[:, j] = (f(a) - f(b)) / 2e-5
    return J
def behaves(mod, A, B, C, D, rs, what):
    """the functions of the model evaluate the matrices"""
    n, m = B.shape
    for nm, g, w in (('A', mod.sys_A, A), ('B', mod.sys_B, B), ('C', mod.sys_C, C), ('D', mod.sys_D, D)):
        need(np.asarray(g).shape == w.shape, '%s: shape of %s is %s, expected %s' % (what, nm, np.asarray(g).shape, w.shape)); close(g, w, what + ': matrix ' + nm)
    for _ in range(2):
        x, u = rs.uniform(-2, 2, n), rs.uniform(-2, 2, m); w, v = rs.uniform(-1, 1, mod.n_w), rs.uniform(-1, 1, mod.n_v); tv, p = rs.uniform(-1, 1, mod.n_tvp), rs.uniform(-1, 1, mod.n_p)
        need(mod.n_w in (0, n) and mod.n_v in (0, len(C)), what + ': number of noises')
        close(mod._rhs_fun(x, u, np.zeros(0), tv, p, w), A @ x + B @ u + (w if mod.n_w else 0), what + ': right-hand side')
        close(mod._meas_fun(x, u, np.zeros(0), tv, p, v), C @ x + D @ u + (v if mod.n_v else 0), what + ': measurement')
def steady(mod, A, B, rs, what):
    n, m = B.shape; I = np.eye(n); u = rs.uniform(-2, 2, (m, 1))
    if abs(np.linalg.det(I - A)) > 1e-6:
        x = mod.get_steady_state(uss=u.copy()); close(x, np.linalg.solve(I - A, B @ u), what + ': steady state of an input'); close(A @ arr(x) + B @ u, x, what + ': steady state is stationary', 1e-6)
    if np.linalg.matrix_rank(B) == m and np.linalg.svd(B)[1].min() > 1e-3:
        # a state that can be held by exactly one input
        if abs(np.linalg.det(I - A)) > 1e-6:
            xs = np.linalg.solve(I - A, B @ u); close(mod.get_steady_state(xss=xs.copy()), u, what + ': input of a steady state', 1e-6)
        if m == n:
            xs = rs.uniform(-2, 2, (n, 1)); us = arr(mod.get_steady_state(xss=xs.copy())).reshape(m, 1); close(A @ xs + B @ us, xs, what + ': input holds the state', 1e-6)
def run(c):
    import do_mpc, casadi as ca
    rs = np.random.RandomState(c['seed'])
    if c['kind'] == 'lin':
        m = c['m']; mod = gen.build(m, meas=c['meas']); n, nu, np_, nt = (gen.dim(m, k) for k in ('x', 'u', 'p', 'tvp'))
        x, u, p, tv = (rs.uniform(-1.2, 1.2, k) for k in (n, nu, np_, nt))
        V = lambda x_, u_: gen.Val(m, x=x_, u=u_, z=[], p=p, tvp=tv)
        f = lambda x_, u_: gen.rhs(m, V(x_, u_))
        g = (lambda x_, u_: np.array([gen.pv(q, V(x_, u_)) for nm, ps, z in c['meas'] for q in ps], float)) if c['meas'] else (lambda x_, u_: x_)
        A, B, C, D = diff(lambda a: f(a, u), x), diff(lambda a: f(x, a), u), diff(lambda a: g(a, u), x), diff(lambda a: g(x, a), u)
        kw = {}
        if nt: kw['tvp'] = tv.reshape(-1, 1)
        if np_: kw['p'] = p.reshape(-1, 1)
        got = mod.get_linear_system_matrices(x.reshape(-1, 1), u.reshape(-1, 1), **kw)
        for nm, a, b in zip('ABCD', got, (A, B, C, D)): need(np.asarray(a).shape == b.shape, 'linearization: shape of %s' % nm); close(a, b, 'linearization: matrix %s' % nm, 1e-6)
        if not nu: return
        kw = {}
        if nt: kw['tvp0'] = tv.reshape(-1, 1)
        if np_: kw['p0'] = p.reshape(-1, 1)
        l = do_mpc.model.linearize(mod, x.reshape(-1, 1), u.reshape(-1, 1), **kw)
        need(l.model_type == m['type'], 'linearization: type of the model')
        need(l.x.keys() == mod.x.keys() and l.u.keys() == mod.u.keys(), 'linearization: names')
        if c['meas'] or True:
            for nm, a, b in zip('ABCD', (l.sys_A, l.sys_B, l.sys_C, l.sys_D), (A, B, C, D)): close(a, b, 'linearized model: matrix %s' % nm, 1e-6)
            A, B, C, D = (np.asarray(q) for q in (l.sys_A, l.sys_B, l.sys_C, l.sys_D)); behaves(l, A, B, C, D, rs, 'linearized model')
        # the original model is untouched
        close(mod._rhs_fun(x, u, [], tv, p, np.zeros(mod.n_w)), f(x, u), 'original model after linearization')
        if l.model_type == 'discrete': steady(l, A, B, rs, 'linearized model')
        return
    A, B, spd, rs = lin.mats(c); n, m = B.shape; ny = n if c['ny'] == 'n' else c['ny']
    C = rs.uniform(-1, 1, (ny, n)) if ny else None; D = rs.uniform(-1, 1, (ny, m)) if ny and c['D'] else None
    if c['ny'] == 'n' and rs.rand() < 0.5: C = np.eye(n)
    mod = do_mpc.model.LinearModel(c['type']); lin.variables(mod, c)
    inf = ' [%s n=%d m=%d ny=%s]' % (c['type'], n, m, ny)
    copies = [None if q is None else q.copy() for q in (A, B, C, D)]
    raises(lambda: mod.sys_A, 'matrices before setup' + inf)
    if c['expr'] and ny:
        # the same system given as expressions
        k = 0; X, U = mod.x.cat, mod.u.cat; r = A @ X + B @ U
        x0 = mod.x; Xv = {nm: x0[nm] for nm in x0.keys()}
        r = sum((A[:, i:i + 1] @ e for i, e in []), r)
        for nm, d in c['x']: mod.set_rhs(nm, r[k:k + d]); k += d
        mod.set_meas('y', C @ X + (D @ U if D is not None else 0)); mod.setup()
    else: mod.setup(*copies)
    for q, w in zip(copies, (A, B, C, D)): need(q is None or np.array_equal(q, w), 'given matrices are modified' + inf)
    C_, D_ = (np.eye(n), np.zeros((n, m))) if C is None else (C, np.zeros((ny, m)) if D is None else D)
    behaves(mod, A, B, C_, D_, rs, 'linear model' + inf)
    if c['kind'] == 'mat':
        new = lambda: (lambda q: (lin.variables(q, c), q)[1])(do_mpc.model.LinearModel(c['type']))
        raises(lambda: new().setup(np.zeros((n + 1, n + 1)), B), 'A too large' + inf); raises(lambda: new().setup(np.zeros((n, n + 1)), B), 'A not square' + inf)
        raises(lambda: new().setup(A, np.zeros((n, m + 1))), 'B with too many columns' + inf); raises(lambda: new().setup(A, np.zeros((n + 1, m))), 'B with too many rows' + inf)
        raises(lambda: new().setup(A, B, np.zeros((2, n + 1))), 'C with too many columns' + inf); raises(lambda: new().setup(A, B, np.zeros((2, n)), np.zeros((2, m + 1))), 'D with too many columns' + inf)
        raises(lambda: new().setup(A, B, np.zeros((2, n)), np.zeros((3, m))), 'D with other rows than C' + inf)
        raises(lambda: new().setup(A.tolist(), B), 'A as list' + inf); raises(lambda: new().setup(A, B, [[1.0] * n]), 'C as list' + inf)
        q = new(); nm, d = c['x'][0]; X, U = q._x['var'][0], q._u['var'][1]
        for e in (X * X, X * U[0], ca.sin(X), U[0] ** 2 * X, ca.if_else(X > 0, X, 2 * X), X / (1 + U[0] ** 2)):
            raises(lambda: q.set_rhs(nm, e), 'nonlinear right-hand side %s' % e); raises(lambda: q.set_meas('yy', e), 'nonlinear measurement %s' % e)
        raises(lambda: q.set_alg('a', X), 'algebraic equation in a linear model'); raises(lambda: do_mpc.model.LinearModel(c['type'], 'MX'), 'linear model with MX')
        q.setup(*copies); behaves(q, A, B, C_, D_, rs, 'linear model after rejections' + inf)
        if c['type'] == 'discrete':
            steady(mod, A, B, rs, 'linear model' + inf); raises(lambda: mod.discretize(c['h']), 'discretizing a discrete model')
            raises(lambda: new().get_steady_state(uss=np.zeros((m, 1))), 'steady state before setup')
            s = new(); s.setup(np.eye(n), B); raises(lambda: s.get_steady_state(uss=np.ones((m, 1))), 'no unique steady state')
        else: raises(lambda: mod.get_steady_state(uss=np.zeros((m, 1))), 'steady state of a continuous model')
        return
    want = discretize(A, B, C_, D_, c['h'], c['method']); inf += ' %s step %s' % (c['method'], c['h'])
    d = mod.discretize(c['h'], c['method'])
    need(d.model_type == 'discrete', 'type of the discretized model' + inf); need(d.x.keys() == mod.x.keys() and d.u.keys() == mod.u.keys(), 'names of the discretized model' + inf)
    behaves(d, *want, rs, 'discretized model' + inf); behaves(mod, A, B, C_, D_, rs, 'model after discretization' + inf)
    steady(d, want[0], want[1], rs, 'discretized model' + inf)
    if c['method'] == 'zoh': behaves(mod.discretize(c['h']), *want, rs, 'default discretization' + inf)
