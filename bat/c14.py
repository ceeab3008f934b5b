"""DAE to ODE conversion of random models against an independent computation of the dynamics"""
from bat.util import *
from bat import gen
import random, numpy as np
RULE = 'random continuous DAE models (several and vector valued states, inputs, algebraic states, parameters, process noise), evaluated at random points: state equations, input rates and algebraic rates against finite differences of independently evaluated equations; invariance of the algebraic residual along the vector field'
ASSUMPTIONS = ['time-varying parameters are constant between the evaluated instants (their rate is not part of the converted model)']
def cases(tier, rng):
    out = []
    for i in range(60 if tier == 'quick' else 800):
        r = random.Random(rng.randrange(10 ** 9)); m = gen.model(r, typ='continuous', sym='SX', z=True, w=r.random() < 0.4)
        if r.random() < 0.3: m['u'].append(['u3', r.choice([1, 3])])
        if r.random() < 0.4:
            d = r.choice([1, 2]); m['z'].append(['bz', d])
            m['alg']['bz'] = [[[1.0, [['z', 'bz', i]]], [r.choice([-0.6, 0.5, 0.8]), [['x', m['x'][0][0], 0]]], [0.4 + 0.3 * i, [['u', m['u'][-1][0], 0]]]] for i in range(d)]
        out.append({'m': m, 'seed': r.randrange(10 ** 6)})
    return out
def run(c):
    import do_mpc
    m = c['m']; mod = gen.build(m); rs = np.random.RandomState(c['seed'])
    nx, nu, nz, np_, nt = (gen.dim(m, k) for k in ('x', 'u', 'z', 'p', 'tvp'))
    ode = do_mpc.model.dae2odeconversion(mod)
    inf = ' [x %s u %s z %s w %s]' % (m['x'], m['u'], m['z'], m['w'])
    need(ode.flags['setup'] and ode.model_type == 'continuous', 'type of the converted model' + inf)
    names = [n for k in 'xuz' for n, d in m[k]]
    need(ode.x.keys() == names, 'states of the converted model %s' % ode.x.keys() + inf)
    for k in 'xuz':
        for n, d in m[k]: need(ode.x[n].shape == (d, 1), 'size of %s' % n + inf)
    need(int(ode.n_x) == nx + nu + nz and int(ode.n_u) == nu and int(ode.n_z) == 0 and int(ode.n_p) == np_ and int(ode.n_tvp) == nt, 'dimensions of the converted model' + inf)
    wn = [n for n, d in m['x'] if n in m['w']]; wo = [n for n in m['rhs'] if n in m['w']]; dx = dict(m['x']); ox, _ = gen.off(m, 'x'); nw = sum(dx[n] for n in wn)
    need(int(ode.n_w) == nw, 'number of noises' + inf)
    for j in range(3):
        x, u, z, p, tv, q, w = (rs.uniform(-1.2, 1.2, k) for k in (nx, nu, nz, np_, nt, nu, nw))
        if j == 0: w = 0 * w
        V = lambda a, b, d: gen.Val(m, x=a, u=b, z=d, p=p, tvp=tv)
        f = gen.rhs(m, V(x, u, z)); k = 0; fw = f.copy()
        for n in wn: fw[ox[n]:ox[n] + dx[n]] += w[k:k + dx[n]]; k += dx[n]
        def J(h, a):
            M = np.zeros((nz, a.size))
            for i in range(a.size):
                b, d = a.copy(), a.copy(); b[i] += 1e-5; d[i] -= 1e-5; M[:, i] = (h(b) - h(d)) / 2e-5
            return M
        gx, gu, gz = J(lambda a: gen.alg(m, V(a, u, z)), x), J(lambda a: gen.alg(m, V(x, a, z)), u), J(lambda a: gen.alg(m, V(x, u, a)), z)
        if abs(np.linalg.det(gz)) < 1e-3: continue
        y = arr(ode._rhs_fun(np.concatenate([x, u, z]), q, [], tv, p, w)).ravel()
        close(y[:nx], fw, 'state equations' + inf); close(y[nx:nx + nu], q, 'inputs integrate their rates' + inf)
        zr = -np.linalg.solve(gz, gx @ fw + gu @ q)
        close(y[nx + nu:], zr, 'rates of the algebraic states' + inf, 1e-5)
        e = 1e-5; res = lambda s: gen.alg(m, V(x + s * y[:nx], u + s * y[nx:nx + nu], z + s * y[nx + nu:]))
        close((res(e) - res(-e)) / (2 * e), np.zeros(nz), 'algebraic residual is invariant' + inf, 1e-5)
    wp = {}; k = 0
    for n in wn: wp[n] = w[k:k + dx[n]]; k += dx[n]
    close(mod._rhs_fun(x, u, z, tv, p, np.concatenate([wp[n] for n in wo] + [[]])), fw, 'original model after the conversion' + inf)
