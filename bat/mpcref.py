"""random MPC problems and their reference (independent numpy) optimization problem"""
import numpy as np, itertools
from bat import gen
from bat.util import *

def config(rng, m=None, small=True, **kw):
    m = m or gen.model(rng)
    c = {'m': m, 'N': rng.choice([1, 2, 3]), 'R': 0, 'unc': {}, 'seed': rng.randrange(10 ** 6), 'h': rng.choice([0.5, 0.1, 2.0])}
    if m['p'] and rng.random() < 0.75:
        names = m['p'] if rng.random() < 0.6 else m['p'][:1]
        for n, d in names: c['unc'][n] = rng.choice([2, 2, 3]) if len(names) == 1 else 2
    c['R'] = rng.randrange(0, min(c['N'], 2) + 1)
    c['open_loop'] = rng.random() < 0.3
    c['single'] = rng.random() < 0.4
    c['nlcp'] = rng.random() < 0.5
    c['ccp'] = rng.random() < 0.5
    c['deg'] = rng.choice([1, 2, 3]); c['ni'] = rng.choice([1, 2]); c['ctype'] = rng.choice(['radau', 'legendre'])
    V = gen.scal(m, ['x', 'u', 'z', 'p', 'tvp'])
    VT = gen.scal(m, ['x', 'p', 'tvp'])
    c['lterm'] = gen.rpoly(rng, V, 3); c['mterm'] = gen.rpoly(rng, VT, 3)
    c['rterm'] = None
    if rng.random() < 0.5:
        UP = [['up', n, i] for n, d in m['u'] for i in range(d)]
        c['rterm'] = gen.rpoly(rng, V + UP * 2, 3, lin=UP[:1])
    c['rfac'] = {n: round(rng.uniform(0.1, 2), 2) for n, d in m['u'] if rng.random() < 0.8} or {m['u'][0][0]: 0.7}
    c['nl'] = []
    for i in range(rng.choice([0, 1, 2, 3])):
        d = rng.choice([1, 1, 2])
        c['nl'].append({'name': ['c1', 'bb', 'a_c'][i], 'polys': [gen.rpoly(rng, V, 2) for _ in range(d)], 'ub': [round(rng.uniform(-2, 2), 3) for _ in range(d)] if rng.random() < 0.5 else round(rng.uniform(-2, 2), 3),
                        'soft': rng.random() < 0.5, 'pen': round(rng.uniform(0.5, 20), 2), 'max': rng.choice([None, 0.7, 3.0])})
    c['scale'] = {}
    for k in ('x', 'u', 'z'):
        for n, d in m[k]:
            if rng.random() < 0.6: c['scale'][k + ' ' + n] = round(rng.uniform(0.2, 5), 2)
    c['bounds'] = []
    for lu in ('lower', 'upper'):
        for k in ('x', 'u', 'z'):
            for n, d in m[k]:
                if rng.random() < 0.6: c['bounds'].append([lu, k, n, round(rng.uniform(-9, -1) if lu == 'lower' else rng.uniform(1, 9), 2)])
        for n, d in m['x']:
            if rng.random() < 0.4: c['bounds'].append([lu, 't', n, round(rng.uniform(-9, -1) if lu == 'lower' else rng.uniform(1, 9), 2)])
    c.update(kw)
    return c

def make(c, setup=True, cls=None):
    """build the real controller"""
    import do_mpc
    from casadi import vertcat
    m = c['m']
    mod = gen.build(m)
    mpc = (cls or do_mpc.controller.MPC)(mod)
    s = mpc.settings
    s.n_horizon = c['N']; s.n_robust = c['R']; s.t_step = c['h']; s.open_loop = c['open_loop']
    s.nl_cons_single_slack = c['single']; s.nl_cons_check_colloc_points = c['nlcp']; s.cons_check_colloc_points = c['ccp']
    s.collocation_deg = c['deg']; s.collocation_ni = c['ni']; s.collocation_type = c['ctype']
    s.store_full_solution = c.get('full', True)
    s.nlpsol_opts = {'ipopt.print_level': 0, 'print_time': 0, 'ipopt.sb': 'yes', 'ipopt.max_iter': 5}
    X = lambda k, n, i: {'x': mod.x, 'u': mod.u, 'z': mod.z, 'p': mod.p, 'tvp': mod.tvp}[k][n, i]
    if c['rterm'] is None:
        mpc.set_objective(lterm=gen.pv(c['lterm'], X) + 0 * mod.x[m['x'][0][0], 0], mterm=gen.pv(c['mterm'], X) + 0 * mod.x[m['x'][0][0], 0])
        mpc.set_rterm(**c['rfac'])
    else:
        mpc.set_objective(lterm=gen.pv(c['lterm'], X) + 0 * mod.x[m['x'][0][0], 0], mterm=gen.pv(c['mterm'], X) + 0 * mod.x[m['x'][0][0], 0])
        XR = lambda k, n, i: mpc.u_prev[n, i] if k == 'up' else X(k, n, i)
        mpc.set_rterm(rterm=gen.pv(c['rterm'], XR))
    for k, v in c['scale'].items():
        a, n = k.split(' '); mpc.scaling['_' + a, n] = v
    for lu, k, n, v in c['bounds']:
        if k == 't': mpc.terminal_bounds[lu, n] = v
        else: mpc.bounds[lu, '_' + k, n] = v
    for q in c['nl']:
        kw = {}
        if q['soft']:
            kw = {'soft_constraint': True, 'penalty_term_cons': q['pen']}
            if q['max'] is not None: kw['maximum_violation'] = q['max']
        mpc.set_nl_cons(q['name'], vertcat(*[gen.pv(x, X) for x in q['polys']]), np.array(q['ub']) if isinstance(q['ub'], list) else q['ub'], **kw)
    rs = np.random.RandomState(c['seed'])
    combos = [np.zeros(0)]
    P = {}
    if m['p']:
        if c['unc']:
            vals = {n: rs.uniform(-2, 2, size=(cnt,)) for n, cnt in c['unc'].items()}
            mpc.set_uncertainty_values(**vals)
            combos = []
            for pr in itertools.product(*vals.values()):
                d = dict(zip(vals.keys(), pr))
                combos.append(np.concatenate([np.full(dd, d.get(n, 0.0)) for n, dd in m['p']]))
        else:
            base = rs.uniform(-2, 2, gen.dim(m, 'p'))
            combos = [base]
            t = mpc.get_p_template(1)
            def pf(tn):
                t['_p', 0] = base * pvary(c, tn); return t
            mpc.set_p_fun(pf)
    mpc._vcombos = combos
    if m['tvp']:
        tt = mpc.get_tvp_template()
        nt = gen.dim(m, 'tvp')
        def tf(tn):
            for k in range(c['N'] + 1): tt['_tvp', k] = tvp_at(c, tn, k, nt)
            return tt
        mpc.set_tvp_fun(tf)
    if setup: mpc.setup()
    return mpc

def pvary(c, t):
    """factor of the parameters at time t; one for tables of values and for problems evaluated at time zero"""
    return 1.0 if c['unc'] else 1.0 + 0.5 * np.sin(1.3 * float(np.asarray(t).ravel()[0]))

def tvp_at(c, t, k, nt): return np.array([np.sin(1 + i + 3 * k + 1.7 * float(np.asarray(t).ravel()[0]) + c['seed'] % 17) for i in range(nt)])

def ncomb(c):
    n = 1
    for v in c['unc'].values(): n *= v
    return n

def scales(c, kind):
    m = c['m']
    return np.concatenate([np.full(d, c['scale'].get(kind + ' ' + n, 1.0)) for n, d in m[kind]] + [np.zeros(0)])

def npts(c): return 0 if c['m']['type'] == 'discrete' else (c['deg'] + 1) * c['ni']

def unpack(c, ox):
    """accessors into the structured optimization vector (a casadi struct with numbers)"""
    g = lambda *a: arr(ox[a]).ravel()
    return g

def refnlp(c, ox, op):
    """reference objective and list of rows (value, lb, ub, what) at numeric structures ox (scaled variables), op"""
    m = c['m']; N, R, nc = c['N'], c['R'], ncomb(c)
    ns, nb, child, parent, combo = gen.tree(N, R, nc)
    sx, su, sz = scales(c, 'x'), scales(c, 'u'), scales(c, 'z')
    X = lambda k, s, i=-1: arr(ox['_x', k, s, i]).ravel()
    U = lambda k, s: arr(ox['_u', k, 0 if c['open_loop'] else s]).ravel()
    Z = lambda k, s, i: arr(ox['_z', k, s, i]).ravel()
    E = lambda k, s: arr(ox['_eps', 0 if c['single'] else k, s]).ravel()
    PT = lambda i: arr(op['_p', i]).ravel(); TV = lambda k: arr(op['_tvp', k]).ravel()
    x0, up0 = arr(op['_x0']).ravel(), arr(op['_u_prev']).ravel()
    rows = []; obj = 0.0
    def eq(v, what):
        for i, e in enumerate(np.asarray(v).ravel()): rows.append((e, 0.0, 0.0, what))
    eq(X(0, 0) - x0 / sx, 'initial state')
    soft = [q for q in c['nl'] if q['soft']]
    nl_pen = lambda e: sum(q['pen'] * e[i] for q, i in epsidx(c))
    for k in range(N):
        for s in range(ns[k]):
            for b in range(nb[k]):
                ch = child(k, s, b); p = PT(combo[k, s, b]); tv = TV(k); u = U(k, s) * su
                V = lambda x, z: gen.Val(m, x=x, u=u, z=z, p=p, tvp=tv)
                npt = npts(c)
                if npt == 0:
                    v = V(X(k, s) * sx, Z(k, ch, 0) * sz)
                    eq(gen.alg(m, v), 'algebraic equation at %s' % ((k, s, b),))
                    eq(gen.rhs(m, v) / sx - X(k + 1, ch), 'model step at %s' % ((k, s, b),))
                    Ppts = [X(k, s)]
                else:
                    deg, ni = c['deg'], c['ni']
                    tau, C, D = gen.colloc(deg, c['ctype']); hh = c['h'] / ni
                    Ppts = [X(k, s)] + [X(k + 1, ch, i) for i in range(npt)]
                    for i in range(ni):
                        q = lambda r: Ppts[i * (deg + 1) + r]
                        for j in range(0, deg + 1):
                            v = V(q(j) * sx, Z(k, ch, i * (deg + 1) + j) * sz)
                            eq(gen.alg(m, v), 'algebraic equation at %s element %d point %d' % ((k, s, b), i, j))
                            if j: eq(hh * gen.rhs(m, v) / sx - sum(C[r, j] * q(r) for r in range(deg + 1)), 'collocation equation at %s element %d point %d' % ((k, s, b), i, j))
                        eq(Ppts[(i + 1) * (deg + 1)] - sum(D[r] * q(r) for r in range(deg + 1)), 'continuity at %s element %d' % ((k, s, b), i))
                    eq(Ppts[ni * (deg + 1)] - X(k + 1, ch), 'node link at %s' % ((k, s, b),))
                # nonlinear constraints
                pts = [0] if (npt == 0 or not c['nlcp']) else list(range(npt))
                for i in pts:
                    v = V(Ppts[i] * sx, Z(k, ch, i) * sz)
                    e = E(k, s)
                    for q in c['nl']:
                        vals = np.array([gen.pv(x, v) for x in q['polys']], float)
                        if q['soft']:
                            ei = dict((id(a), j) for a, j in epsidx(c)) ; vals = vals - e[ei[id(q)]:ei[id(q)] + 1] if False else vals - epsof(c, q, e)
                        ub = np.broadcast_to(np.asarray(q['ub'], float), vals.shape)
                        for a, w in zip(vals, ub): rows.append((a, -np.inf, w, 'nl_cons %s at %s point %d' % (q['name'], (k, s, b), i)))
                v = V(X(k, s) * sx, Z(k, ch, -1) * sz)
                om = 1.0 / ns[k + 1]
                obj += om * gen.pv(c['lterm'], v)
                obj += sum(q['pen'] * epsof(c, q, E(k, s)).sum() for q in soft)
                if k == N - 1:
                    obj += om * gen.pv(c['mterm'], gen.Val(m, x=X(k + 1, ch) * sx, u=u, z=Z(k, ch, -1), p=p, tvp=TV(k + 1)))
                uprev = up0 if k == 0 else U(k - 1, parent(k, s)) * su
                if c['rterm'] is not None:
                    o = gen.off(m, 'u')[0]
                    obj += gen.pv(c['rterm'], lambda kk, n, i: uprev[o[n] + i] if kk == 'up' else v(kk, n, i))
                else:
                    rf = np.concatenate([np.full(d, c['rfac'].get(n, 0.0)) for n, d in m['u']])
                    obj += float(rf @ ((U(k, s) - uprev / su) ** 2))
    return obj, rows

def epsidx(c):
    out = []; k = 0
    for q in c['nl']:
        if q['soft']:
            out.append((q, k)); k += len(q['polys'])
    return out

def epsof(c, q, e):
    for a, k in epsidx(c):
        if a is q: return e[k:k + len(q['polys'])]
    return np.zeros(len(q['polys']))

def match_rows(got, want, msg, key=None):
    """multiset comparison of (value, lb, ub); equality rows up to sign"""
    def canon(v, lb, ub):
        if lb == 0 and ub == 0: return (0.0, 0.0, abs(v))
        return (lb if np.isfinite(lb) else -1e30, ub if np.isfinite(ub) else 1e30, v)
    G = sorted([canon(*g[:3]) + (i,) for i, g in enumerate(got)]); W = sorted([canon(*w[:3]) + (i,) for i, w in enumerate(want)])
    need(len(G) == len(W), '%s: %d constraint rows, expected %d' % (msg, len(G), len(W)), key)
    G, W = np.array(G).reshape(-1, 4), np.array(W).reshape(-1, 4)
    # greedy matching robust to ties within tolerance
    used = np.zeros(len(G), bool)
    for w in W:
        d = np.abs(G[:, 2] - w[2]) <= 1e-7 * (1 + abs(w[2]))
        d &= (np.abs(G[:, 0] - w[0]) <= 1e-9 * (1 + abs(w[0]))) & (np.abs(G[:, 1] - w[1]) <= 1e-9 * (1 + abs(w[1]))) & ~used
        j = np.flatnonzero(d)
        if len(j) == 0:
            left = G[~used]
            need(False, '%s: no row for %s: value %.8g in [%.4g, %.4g]; rows of the code not matched so far include %s' % (msg, want[int(w[3])][3], w[2], w[0], w[1], np.array2string(left[:4, :3], precision=5)), key)
        used[j[0]] = True
        COUNT[0] += 1

def lookup_numeric(c, mpc, seed):
    """random numeric values for the decision variables and parameters"""
    rs = np.random.RandomState(seed)
    ox = mpc.opt_x(0); op = mpc.opt_p(0)
    import casadi as ca
    ox.master = ca.DM(rs.uniform(-1.5, 1.5, ox.shape)); op.master = ca.DM(rs.uniform(-1.5, 1.5, op.shape))
    return ox, op

def rows_of(mpc, ox, op):
    import casadi as ca
    f = ca.Function('f', [mpc._verif_x, mpc._verif_p], [mpc._verif_obj, mpc._verif_g])
    o, g = f(ox, op); o = float(o); g = arr(g).ravel()
    # the problem the solver was given
    x, p = ox.master, op.master
    close(float(mpc.S.get_function('nlp_f')(x, p)), o, 'objective given to the solver'); close(arr(mpc.S.get_function('nlp_g')(x, p)).ravel(), g, 'constraints given to the solver')
    return o, g

def prepare(mpc):
    """prepare_nlp and read the problem through the public low level interface"""
    import casadi as ca
    mpc.prepare_nlp()
    mpc._verif_x = mpc.opt_x; mpc._verif_p = mpc.opt_p
    mpc._verif_obj = mpc.nlp_obj
    v = lambda l: l if not isinstance(l, list) else ca.vertcat(*l)
    mpc._verif_g = v(mpc.nlp_cons)
    mpc._verif_lb = arr(ca.DM(v(mpc.nlp_cons_lb))).ravel(); mpc._verif_ub = arr(ca.DM(v(mpc.nlp_cons_ub))).ravel()
    mpc.create_nlp()
