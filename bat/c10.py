"""simulator steps on random models against an independent integration"""
from bat.util import *
from bat import mheref as H, mpcref as R, gen
import random, numpy as np
RULE = 'random models (discrete / continuous, with and without algebraic states, inputs, parameters, noises); sequences of steps with random inputs, noises, parameter functions, changed states and times; discrete steps are evaluated exactly, continuous ones integrated with an independent Runge-Kutta scheme with fine steps'
def cases(tier, rng):
    out = []
    for i in range(80 if tier == 'quick' else 800):
        r = random.Random(rng.randrange(10 ** 9))
        m = gen.model(r, w=r.random() < 0.6, u=r.random() < 0.85)
        V = gen.scal(m, ['x', 'u', 'z', 'p', 'tvp'])
        meas = [[n, [gen.rpoly(r, V, 2) for _ in range(r.choice([1, 2]))], r.random() < 0.6] for n in ['y_b', 'ya'][:r.choice([0, 1, 2])]]
        out.append({'m': m, 'meas': meas, 'h': round(r.choice([r.uniform(0.05, 0.3), r.uniform(0.02, 0.1)]), 4), 'seed': r.randrange(10 ** 6), 'steps': r.choice([2, 3, 4]),
                    'w': r.choice(['none', 'array', 'DM', 'struct']), 'v': r.choice(['none', 'array', 'DM', 'struct']), 'u': r.choice(['array', 'DM', 'struct']), 'mod': [r.choice([None, None, 'x0', 't0', 'reset']) for _ in range(4)],
                    'sett': r.choice(['attr', 'param'])})
    return out
def wrap(kind, st, v):
    import casadi as ca
    if kind == 'array': return v.reshape(-1, 1)
    if kind == 'DM': return ca.DM(v)
    s = st(0); s.master = ca.DM(v); return s
def pat(c, t, n, k): return np.array([np.cos(1 + i + k + 1.3 * t + c['seed'] % 11) for i in range(n)])
def run(c):
    import do_mpc, casadi as ca
    m = c['m']; mod = gen.build(m, c['meas']); sim = do_mpc.simulator.Simulator(mod)
    nx, nu, nz, np_, nt = (gen.dim(m, k) for k in ('x', 'u', 'z', 'p', 'tvp'))
    # without declared measurements all states are measured, with noise
    cc = {'m': m, 'meas': c['meas'] or [[n, [[[1.0, [['x', n, i]]]] for i in range(d)], True] for n, d in m['x']]}
    nw, nv = H.tot(H.wdims(cc)), H.tot(H.vdims(cc))
    inf = ' [%s %s]' % (m['type'], {k: m[k] for k in ('x', 'u', 'z', 'p', 'w')})
    raises(lambda: sim.make_step(np.zeros((nu, 1))), 'step before setup')
    def missing():
        s2 = do_mpc.simulator.Simulator(mod); s2.settings.t_step = c['h']; s2.setup()
    if np_ or nt: raises(missing, 'setup without parameter functions')
    if m['type'] == 'continuous':
        kw = {'t_step': c['h'], 'integration_tool': 'idas' if nz else 'cvodes', 'abstol': 1e-10, 'reltol': 1e-10}
    else: kw = {'t_step': c['h']}
    if c['sett'] == 'attr':
        for k, v in kw.items(): setattr(sim.settings, k, v)
    else: sim.set_param(**kw)
    if np_:
        pt = sim.get_p_template()
        def pf(t):
            pt.master = ca.DM(pat(c, float(np.asarray(t).ravel()[0]), np_, 0)); return pt
        sim.set_p_fun(pf)
    if nt:
        tt = sim.get_tvp_template()
        def tf(t):
            tt.master = ca.DM(pat(c, float(np.asarray(t).ravel()[0]), nt, 5)); return tt
        sim.set_tvp_fun(tf)
    sim.setup()
    rs = np.random.RandomState(c['seed'])
    x = rs.uniform(-0.7, 0.7, nx); t = 0.0
    sim.x0 = x
    zz = lambda x, u, p, tv: gen.solve_z(m, x, u, p, tv)
    if nz: sim.z0 = zz(x, np.zeros(nu), pat(c, 0.0, np_, 0), pat(c, 0.0, nt, 5)) + 0.01
    sim.set_initial_guess()
    rows = []
    if nz:
        # algebraic states on request
        ui, ti = rs.uniform(-0.7, 0.7, nu), round(rs.uniform(0, 3), 3); sim.t0 = ti; sim.z0 = rs.uniform(-0.2, 0.2, nz)
        if nu: sim.u0 = ui
        zi = zz(x, ui, pat(c, ti, np_, 0), pat(c, ti, nt, 5)); zr = sim.init_algebraic_variables()
        close(zr, zi, 'algebraic states found by init_algebraic_variables' + inf, 1e-5); close(sim.z0.cat, zi, 'z0 after init_algebraic_variables' + inf, 1e-5); close(sim.sim_z_num['_z'], zi, 'guess after init_algebraic_variables' + inf, 1e-5)
        close(sim.x0.cat, x, 'x0 after init_algebraic_variables'); close(sim.t0, [ti], 't0 after init_algebraic_variables'); need(sim.data['_time'].shape[0] == 0, 'init_algebraic_variables records nothing')
        sim.t0 = 0.0; sim.z0 = zz(x, np.zeros(nu), pat(c, 0.0, np_, 0), pat(c, 0.0, nt, 5)) + 0.01; sim.set_initial_guess()
    for j in range(c['steps']):
        md = c['mod'][j]
        if md == 'x0' or np.abs(x).max() > 2: x = rs.uniform(-0.7, 0.7, nx); sim.x0 = x
        if md == 't0': t = round(rs.uniform(0, 5), 3); sim.t0 = t
        if md == 'reset': sim.reset_history(); t = 0.0; rows = []
        u = rs.uniform(-0.7, 0.7, nu); w = rs.uniform(-0.3, 0.3, nw); v = rs.uniform(-0.3, 0.3, nv)
        if c['w'] == 'none': w = w * 0
        if c['v'] == 'none': v = v * 0
        kw = {}
        if c['w'] != 'none': kw['w0'] = wrap(c['w'], mod._w, w)
        if c['v'] != 'none': kw['v0'] = wrap(c['v'], mod._v, v)
        if j == 0:
            # wrong shapes and types leave everything as it is
            if nu:
                raises(lambda: sim.make_step(np.zeros((nu + 1, 1)), **kw), 'input of wrong shape' + inf)
                raises(lambda: sim.make_step([0.0] * nu, **kw), 'input of wrong type' + inf)
                raises(lambda: sim.make_step(None), 'missing input' + inf)
            raises(lambda: sim.make_step(np.zeros((nu, 1)), w0=np.zeros((nw + 1, 1))), 'process noise of wrong shape' + inf)
            raises(lambda: sim.make_step(np.zeros((nu, 1)), v0=np.zeros((nv + 1, 1))), 'measurement noise of wrong shape' + inf)
            if nw: raises(lambda: sim.make_step(np.zeros((nu, 1)), w0=0.0), 'process noise of wrong type' + inf)
            need(sim.data['_time'].shape[0] == 0, 'a rejected step is recorded' + inf)
        p, tv = pat(c, t, np_, 0), pat(c, t, nt, 5)
        y = sim.make_step(wrap(c['u'], mod._u, u), **kw) if nu else (sim.make_step(**kw) if j % 2 else sim.make_step(np.zeros((0, 1)), **kw))
        def f(x):
            z = zz(x, u, p, tv)
            return H.noisy_rhs(cc, gen.Val(m, x=x, u=u, z=z, p=p, tvp=tv), w)
        if m['type'] == 'discrete': xn = f(x); zn = zz(x, u, p, tv)
        else:
            n = 40; hh = c['h'] / n; xn = x.copy()
            for _ in range(n):
                k1 = f(xn); k2 = f(xn + hh / 2 * k1); k3 = f(xn + hh / 2 * k2); k4 = f(xn + hh * k3)
                xn = xn + hh / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
            zn = zz(xn, u, p, tv)
        if not np.all(np.abs(xn) < 20): raise Skip('diverging model')
        tol = 2e-5
        close(sim.x0.cat, xn, 'state after step %d' % j + inf, tol)
        xr = arr(sim.x0.cat).ravel()
        yr = H.meas(cc, gen.Val(m, x=xr, u=u, z=zn, p=p, tvp=tv), v)
        need(arr(y).shape == (len(yr), 1), 'shape of the measurement %s' % (arr(y).shape,) + inf)
        close(y, yr, 'returned measurement of step %d' % j + inf, tol)
        if nz and m['type'] == 'discrete':
            close(gen.alg(m, gen.Val(m, x=x, u=u, z=arr(sim.sim_z_num['_z']).ravel(), p=p, tvp=tv)), np.zeros(nz), 'algebraic residual of step %d' % j + inf, 1e-5)
        rows.append((t, x, u, p, tv, arr(y).ravel()))
        D = sim.data
        for nm, i in (('_time', 0), ('_x', 1), ('_u', 2), ('_p', 3), ('_tvp', 4), ('_y', 5)):
            want = np.array([np.atleast_1d(r[i]) for r in rows]).reshape(len(rows), -1)
            need(D[nm].shape == want.shape, 'recorded %s has shape %s, expected %s' % (nm, D[nm].shape, want.shape) + inf)
            close(D[nm], want, 'recorded %s' % nm + inf, 1e-9)
        t = t + c['h']; x = xr.copy()
        close(sim.t0, [t], 'time after the step' + inf, 1e-9)
        close(sim.u0.cat, u, 'current input' + inf)
