"""random moving horizon estimators and their reference (independent numpy) optimization problem"""
import numpy as np
from bat import gen, mpcref as R
from bat.util import *

def config(rng, **kw):
    m = gen.model(rng, w=rng.random() < 0.7, p=rng.random() < 0.75)
    c = {'m': m, 'N': rng.choice([1, 2, 3]), 'seed': rng.randrange(10 ** 6), 'h': rng.choice([0.5, 0.1, 2.0])}
    V = gen.scal(m, ['x', 'u', 'z', 'p', 'tvp'])
    c['meas'] = [[n, [gen.rpoly(rng, V, 2, lin=[['x', m['x'][0][0], 0]]) for _ in range(rng.choice([1, 2]))], rng.random() < 0.6] for n in ['y_b', 'ya'][:rng.choice([1, 2])]]
    names = [n for n, d in m['p']]
    c['p_est'] = [n for n in names if rng.random() < 0.6]
    if rng.random() < 0.5: c['p_est'] = c['p_est'][::-1]
    c['single'] = rng.random() < 0.4; c['nlcp'] = rng.random() < 0.5; c['ccp'] = rng.random() < 0.5
    c['deg'] = rng.choice([1, 2, 3]); c['ni'] = rng.choice([1, 2]); c['ctype'] = rng.choice(['radau', 'legendre'])
    c['custom'] = rng.random() < 0.5
    WV = [['w', n, i] for n, d in m['x'] if n in m['w'] for i in range(d)] + [['v', n, i] for n, ps, noisy in c['meas'] if noisy for i in range(len(ps))]
    c['stage'] = gen.rpoly(rng, WV + gen.scal(m, ['p', 'tvp']) if WV or m['p'] or m['tvp'] else [['w', 'none', 0]], 3) if (WV or m['p'] or m['tvp']) else [[0.0, []]]
    XP = gen.scal(m, ['x']) + [['xp', n, i] for n, d in m['x'] for i in range(d)] + gen.scal(m, ['p']) + [['pp', n, i] for n, d in m['p'] if n in c['p_est'] for i in range(d)]
    c['arrival'] = gen.rpoly(rng, XP, 4)
    c['nl'] = []
    for i in range(rng.choice([0, 1, 2])):
        d = rng.choice([1, 2])
        c['nl'].append({'name': ['c1', 'bb'][i], 'polys': [gen.rpoly(rng, V, 2) for _ in range(d)], 'ub': round(rng.uniform(-2, 2), 3), 'soft': rng.random() < 0.5, 'pen': round(rng.uniform(0.5, 20), 2), 'max': rng.choice([None, 0.7])})
    c['scale'] = {}
    for k in ('x', 'u', 'z'):
        for n, d in m[k]:
            if rng.random() < 0.6: c['scale'][k + ' ' + n] = round(rng.uniform(0.2, 5), 2)
    for n in c['p_est']:
        if rng.random() < 0.6: c['scale']['p_est ' + n] = round(rng.uniform(0.2, 5), 2)
    c['bounds'] = []
    for lu in ('lower', 'upper'):
        for k in ('x', 'u', 'z'):
            for n, d in m[k]:
                if rng.random() < 0.6: c['bounds'].append([lu, k, n, round(rng.uniform(-9, -1) if lu == 'lower' else rng.uniform(1, 9), 2)])
        for n in c['p_est']:
            if rng.random() < 0.6: c['bounds'].append([lu, 'p_est', n, round(rng.uniform(-9, -1) if lu == 'lower' else rng.uniform(1, 9), 2)])
    c.update(kw)
    return c

def wdims(c): dx = dict(map(tuple, c['m']['x'])); return [[n, dx[n]] for n in c['m']['rhs'] if n in c['m']['w']]      # noises come in the order of the equations
def vdims(c): return [[n, len(ps)] for n, ps, noisy in c['meas'] if noisy]
def ydims(c): return [[n, len(ps)] for n, ps, noisy in c['meas']]
def tot(l): return sum(d for n, d in l)
def pest(c): return [[n, d] for n, d in c['m']['p'] if n in c['p_est']]
def pset(c): return [[n, d] for n, d in c['m']['p'] if n not in c['p_est']]

def offs(dims):
    o, k = {}, 0
    for n, d in dims: o[n] = k; k += d
    return o

def weights(c):
    rs = np.random.RandomState(c['seed'] + 5)
    P = lambda n: (lambda a: a @ a.T + np.eye(n))(rs.uniform(-1, 1, (n, n)))
    return {'P_x': P(gen.dim(c['m'], 'x')), 'P_v': P(tot(vdims(c))), 'P_w': P(tot(wdims(c))), 'P_p': P(tot(pest(c)))}

def make(c, setup=True, yfun=False):
    import do_mpc
    from casadi import vertcat, DM
    m = c['m']
    mod = gen.build(m, c['meas'])
    mhe = do_mpc.estimator.MHE(mod, c['p_est'])
    s = mhe.settings
    s.n_horizon = c['N']; s.t_step = c['h']; s.nl_cons_single_slack = c['single']; s.nl_cons_check_colloc_points = c['nlcp']; s.cons_check_colloc_points = c['ccp']
    s.collocation_deg = c['deg']; s.collocation_ni = c['ni']; s.collocation_type = c['ctype']; s.meas_from_data = True; s.store_full_solution = c.get('full', True)
    s.nlpsol_opts = {'ipopt.print_level': 0, 'print_time': 0, 'ipopt.sb': 'yes', 'ipopt.max_iter': 5}
    st = {'x': mhe._x, 'xp': mhe._x_prev, 'p': mod.p, 'w': mhe._w, 'v': mhe._v, 'tvp': mod.tvp, 'u': mod.u, 'z': mod.z}
    def get(k, n, i):
        if k in 'wv': return st[k].cat[offs(wdims(c) if k == 'w' else vdims(c))[n] + i]
        if k == 'pp': return mhe._p_est_prev[n, i]
        if k == 'p' and n in c['p_est'] and c.get('usepest'): return mhe._p_est[n, i]
        return st[k][n, i]
    if c['custom']:
        mhe.set_objective(DM(0) + gen.pv(c['stage'], get) + 0 * (sum1(mhe._w.cat) + sum1(mhe._v.cat)), gen.pv(c['arrival'], get) + 0 * mhe._x[m['x'][0][0], 0])
    else:
        w = weights(c)
        mhe.set_default_objective(w['P_x'], w['P_v'] if vdims(c) else None, w['P_p'] if pest(c) else None, w['P_w'] if wdims(c) else None)
    for k, v in c['scale'].items():
        a, n = k.split(' '); mhe.scaling['_' + a, n] = v
    for lu, k, n, v in c['bounds']: mhe.bounds[lu, '_' + k, n] = v
    for q in c['nl']:
        kw = {}
        if q['soft']:
            kw = {'soft_constraint': True, 'penalty_term_cons': q['pen']}
            if q['max'] is not None: kw['maximum_violation'] = q['max']
        G = lambda k, n, i: (mhe._p_est if n in c['p_est'] else mhe._p_set)[n, i] if k == 'p' else st[k][n, i]
        mhe.set_nl_cons(q['name'], vertcat(*[gen.pv(x, G) for x in q['polys']]), q['ub'], **kw)
    if m['tvp']:
        tt = mhe.get_tvp_template(); nt = gen.dim(m, 'tvp'); nk = c['N'] + 1
        def tf(tn):
            for k in range(nk): tt['_tvp', k] = R.tvp_at(c, tn, k, nt)
            return tt
        mhe.set_tvp_fun(tf)
    if pset(c):
        pt = mhe.get_p_template()
        def pf(tn):
            pt.master = DM(pset_at(c, tn)); return pt
        mhe.set_p_fun(pf)
    if setup: mhe.setup()
    return mhe

def sum1(x):
    import casadi
    return casadi.sum1(x) if x.shape[0] else 0

def pset_at(c, t): return np.array([np.cos(2 + i + 0.9 * float(np.asarray(t).ravel()[0]) + c['seed'] % 13) for i in range(tot(pset(c)))])

def pfull(c, pe, ps):
    """parameters in the order of the model"""
    out = []; ie = dict(); k = 0
    for n, d in pest(c): ie[n] = pe[k:k + d]; k += d
    k = 0
    for n, d in pset(c): ie[n] = ps[k:k + d]; k += d
    return np.concatenate([ie[n] for n, d in c['m']['p']] + [np.zeros(0)])

def scales(c, kind):
    dims = pest(c) if kind == 'p_est' else c['m'][kind]
    return np.concatenate([np.full(d, c['scale'].get(kind + ' ' + n, 1.0)) for n, d in dims] + [np.zeros(0)])

def noisy_rhs(c, v, w):
    m = c['m']; out = gen.rhs(m, v); o = gen.off(m, 'x')[0]; k = 0
    for n, d in wdims(c):
        out[o[n]:o[n] + d] += w[k:k + d]; k += d
    return out

def meas(c, val, v):
    out = []; k = 0
    for n, ps, noisy in c['meas']:
        for q in ps:
            y = gen.pv(q, val)
            if noisy: y += v[k]; k += 1
            out.append(y)
    return np.array(out, float)

def refnlp(c, ox, op):
    m = c['m']; N = c['N']
    sx, su, sz, sp = scales(c, 'x'), scales(c, 'u'), scales(c, 'z'), scales(c, 'p_est')
    A = lambda *a: arr(ox[a]).ravel()
    P_ = lambda *a: arr(op[a]).ravel()
    rows = []; obj = 0.0
    def eq(v, what):
        for e in np.asarray(v).ravel(): rows.append((e, 0.0, 0.0, what))
    pe = A('_p_est') * sp; ps = P_('_p_set'); p = pfull(c, pe, ps)
    npt = 0 if m['type'] == 'discrete' else (c['deg'] + 1) * c['ni']
    nlc = lambda vals, e, q: vals
    for k in range(N):
        u = A('_u', k) * su; tv = P_('_tvp', k); w = A('_w', k); v_ = A('_v', k)
        V = lambda x, z: gen.Val(m, x=x, u=u, z=z, p=p, tvp=tv)
        Z = lambda i: A('_z', k, i) * sz
        if npt == 0:
            v = V(A('_x', k, -1) * sx, Z(0))
            eq(gen.alg(m, v), 'algebraic equation'); eq(noisy_rhs(c, v, w) / sx - A('_x', k + 1, -1), 'model step')
            pts = [A('_x', k, -1)]
        else:
            deg, ni = c['deg'], c['ni']
            tau, C, D = gen.colloc(deg, c['ctype']); hh = c['h'] / ni
            pts = [A('_x', k, -1)] + [A('_x', k + 1, i) for i in range(npt)]
            for i in range(ni):
                q = lambda r: pts[i * (deg + 1) + r]
                for j in range(deg + 1):
                    v = V(q(j) * sx, Z(i * (deg + 1) + j))
                    eq(gen.alg(m, v), 'algebraic equation')
                    if j: eq(hh * noisy_rhs(c, v, w) / sx - sum(C[r, j] * q(r) for r in range(deg + 1)), 'collocation equation')
                eq(pts[(i + 1) * (deg + 1)] - sum(D[r] * q(r) for r in range(deg + 1)), 'continuity')
            eq(pts[ni * (deg + 1)] - A('_x', k + 1, -1), 'node link')
        eq(meas(c, V(A('_x', k + 1, -1) * sx, Z(0)), v_) - P_('_y_meas', k), 'measurement equation of step %d' % k)
        e = A('_eps', 0 if c['single'] else k)
        for i in ([0] if (npt == 0 or not c['nlcp']) else range(npt)):
            v = V(pts[i] * sx, Z(i))
            for q in c['nl']:
                vals = np.array([gen.pv(x, v) for x in q['polys']], float)
                if q['soft']: vals = vals - R.epsof(c, q, e)
                for a in vals: rows.append((a, -np.inf, float(q['ub']), 'nl_cons %s at step %d point %d' % (q['name'], k, i)))
        if c['custom']:
            o = {}
            def lay(kind, dims, vals):
                j = 0
                for n, d in dims:
                    for i in range(d): o[kind, n, i] = vals[j]; j += 1
            lay('w', wdims(c), w); lay('v', vdims(c), v_); lay('p', m['p'], p); lay('tvp', m['tvp'], tv)
            obj += gen.pv(c['stage'], lambda kk, n, i: o[kk, n, i])
        else:
            W = weights(c)
            obj += v_ @ W['P_v'] @ v_ + w @ W['P_w'] @ w
        obj += sum(q['pen'] * R.epsof(c, q, e).sum() for q in c['nl'] if q['soft'])
    x0 = A('_x', 0, -1) * sx
    if c['custom']:
        o = {}
        def lay(kind, dims, vals):
            j = 0
            for n, d in dims:
                for i in range(d): o[kind, n, i] = vals[j]; j += 1
        lay('x', m['x'], x0); lay('xp', m['x'], P_('_x_prev')); lay('p', m['p'], p); lay('pp', pest(c), P_('_p_est_prev'))
        obj += gen.pv(c['arrival'], lambda kk, n, i: o[kk, n, i])
    else:
        W = weights(c); dx = x0 - P_('_x_prev'); dp = pe - P_('_p_est_prev')
        obj += dx @ W['P_x'] @ dx + dp @ W['P_p'] @ dp
    return obj, rows
