"""bounds and scaling on real controllers and estimators: what the solver receives and what the queries return"""
from bat.util import *
from bat import mpcref as R, mheref as H, gen, stub
import random, numpy as np
RULE = 'random controllers and estimators with random bounds, terminal bounds and scaling; the solver is replaced by a recorder, its bound vectors are compared entry by entry (physical bound over scaling) before and after changing bounds'
def cases(tier, rng):
    n = 60 if tier == 'quick' else 600
    out = []
    for i in range(n):
        r = random.Random(rng.randrange(10 ** 9))
        if r.random() < 0.6:
            c = R.config(r); c['kind'] = 'mpc'; c['utb'] = r.random() < 0.5
            ks = [('x', c['m']['x']), ('u', c['m']['u']), ('z', c['m']['z']), ('t', c['m']['x'])]
        else:
            c = H.config(r); c['kind'] = 'mhe'
            ks = [('x', c['m']['x']), ('u', c['m']['u']), ('z', c['m']['z']), ('p_est', H.pest(c))]
        c['change'] = []
        for _ in range(r.choice([1, 2, 4, 6])):
            k, l = r.choice(ks)
            if not l: continue
            n_, d = r.choice(l)
            lu = r.choice(['lower', 'upper'])
            c['change'].append([lu, k, n_, r.choice([None, None] + list(range(d))), round(r.uniform(-30, -10) if lu == 'lower' else r.uniform(10, 30), 2) if not c['change'] or r.random() < 0.6 else c['change'][-1][4] + (-1e-5 if lu == 'lower' else 1e-5)])
            if len(c['change']) > 1 and r.random() < 0.5: c['change'][-1][:4] = c['change'][-2][:4]; c['change'][-1][4] = c['change'][-2][4] + (-1e-5 if c['change'][-2][0] == 'lower' else 1e-5)   # a small change of the same bound
        out.append(c)
    return out
def model_bounds(c, kind, lu, ch, utb=False):
    """physical bound vector of one kind as set by the user"""
    m = c['m']
    dims = {'x': m['x'], 't': m['x'], 'u': m['u'], 'z': m['z'], 'p_est': H.pest(c) if c['kind'] == 'mhe' else []}
    inf = -np.inf if lu == 'lower' else np.inf
    v = {k: {n: np.full(d, inf) for n, d in l} for k, l in dims.items()}
    for l, k, n, x in c['bounds']:
        if l == lu: v[k][n][:] = x
    alias = c.get('utb') and all(np.all(np.isinf(a)) for a in v['t'].values())
    for l, k, n, i, x in ch:
        if l != lu: continue
        if k == 't' and alias:
            v['t'] = {n2: a.copy() for n2, a in v['x'].items()}; alias = False
        if i is None: v[k][n][:] = x
        else: v[k][n][i] = x
    if alias: v['t'] = v['x']
    return np.concatenate([v[kind][n] for n, d in dims[kind]] + [np.zeros(0)]), v
def check(c, o, st, ch, what):
    m = c['m']; N = c['N']
    for lu, key in (('lower', 'lbx'), ('upper', 'ubx')):
        free = -np.inf if lu == 'lower' else np.inf
        B = o.opt_x(0); import casadi as ca; B.master = ca.DM(st.calls[-1][key])
        b = {k: model_bounds(c, k, lu, ch)[0] for k in (('x', 'u', 'z', 't') if c['kind'] == 'mpc' else ('x', 'u', 'z', 'p_est'))}
        sc = (lambda k: R.scales(c, k)) if c['kind'] == 'mpc' else (lambda k: H.scales(c, k))
        npt = R.npts(c)
        inf = ' (%s bound, %s, %s)' % (lu, c['kind'], what)
        if c['kind'] == 'mpc':
            ns = [R.ncomb(c) ** min(k, c['R']) for k in range(N + 1)]
            close(B['_x', 0, 0, -1], np.full(len(b['x']), free), 'initial state is unlimited' + inf)
            for k in range(1, N):
                for s in range(ns[k]):
                    close(B['_x', k, s, -1], b['x'] / sc('x'), 'state bound at stage %d scenario %d' % (k, s) + inf)
                    for i in range(npt): close(B['_x', k, s, i], b['x'] / sc('x') if c['ccp'] else np.full(len(b['x']), free), 'state bound at collocation point %d of stage %d' % (i, k) + inf)
            for s in range(ns[N]): close(B['_x', N, s, -1], b['t'] / sc('x'), 'terminal bound' + inf)
            for k in range(N):
                for s in range(1 if c['open_loop'] else ns[k]): close(B['_u', k, s], b['u'] / sc('u'), 'input bound at stage %d scenario %d' % (k, s) + inf)
                for s in range(ns[k + 1]):
                    close(B['_z', k, s, 0], b['z'] / sc('z'), 'bound of algebraic states' + inf)
                    for i in range(1, npt): close(B['_z', k, s, i], b['z'] / sc('z') if c['ccp'] else np.full(len(b['z']), free), 'bound of algebraic states at collocation point' + inf)
        else:
            for k in range(N + 1):
                close(B['_x', k, -1], b['x'] / sc('x'), 'state bound at step %d' % k + inf)
                if k: 
                    for i in range(npt): close(B['_x', k, i], b['x'] / sc('x') if c['ccp'] else np.full(len(b['x']), free), 'state bound at collocation point' + inf)
            for k in range(N):
                close(B['_u', k], b['u'] / sc('u'), 'input bound at step %d' % k + inf)
                close(B['_z', k, 0], b['z'] / sc('z'), 'bound of algebraic states' + inf)
                for i in range(1, npt): close(B['_z', k, i], b['z'] / sc('z') if c['ccp'] else np.full(len(b['z']), free), 'bound of algebraic states at collocation point' + inf)
                close(B['_w', k], np.full(H.tot(H.wdims(c)), free), 'process noise is unlimited' + inf)
                close(B['_v', k], np.full(H.tot(H.vdims(c)), free), 'measurement noise is unlimited' + inf)
            close(B['_p_est'], b['p_est'] / sc('p_est'), 'bound of estimated parameters' + inf)
        for k, l in (('x', m['x']), ('u', m['u']), ('z', m['z'])) + ((('p_est', H.pest(c)),) if c['kind'] == 'mhe' else (('t', m['x']),)):
            v = model_bounds(c, k, lu, ch)[1][k]
            for n, d in l:
                q = o.terminal_bounds[lu, n] if k == 't' else o.bounds[lu, '_' + k, n]
                close(q, v[n], 'query of the bound of %s' % n + inf)
                if d > 1: close((o.terminal_bounds[lu, n, d - 1] if k == 't' else o.bounds[lu, '_' + k, n, d - 1]), v[n][d - 1:], 'query of the bound of element %s' % n + inf)
    # reported physical values
    full = o.opt_x(0); full.master = ca.DM(st.rets[-1]['x'])
    ph = o.opt_x_num_unscaled
    if c['kind'] == 'mpc':
        for k in range(N):
            close(ph['_x', k + 1, 0, -1], arr(full['_x', k + 1, 0, -1]).ravel() * sc('x'), 'physical state')
            close(ph['_u', k, 0], arr(full['_u', k, 0]).ravel() * sc('u'), 'physical input')
            close(ph['_z', k, 0, -1], arr(full['_z', k, 0, -1]).ravel() * sc('z'), 'physical algebraic state')
    else:
        for k in range(N):
            close(ph['_x', k + 1, -1], arr(full['_x', k + 1, -1]).ravel() * sc('x'), 'physical state')
            close(ph['_u', k], arr(full['_u', k]).ravel() * sc('u'), 'physical input')
            close(ph['_w', k], full['_w', k], 'process noise is not scaled')
        close(ph['_p_est'], arr(full['_p_est']).ravel() * sc('p_est'), 'physical estimated parameter')
    for k, l in (('x', m['x']), ('u', m['u']), ('z', m['z'])):
        for n, d in l: close(o.scaling['_' + k, n], np.full(d, c['scale'].get(k + ' ' + n, 1.0)), 'query of the scaling')
def run(c):
    import casadi as ca
    mk = R.make if c['kind'] == 'mpc' else H.make
    o = mk(c, setup=False)
    if c['kind'] == 'mpc': o.settings.use_terminal_bounds = c['utb']
    o.setup()
    st = stub.install(o, c['seed'])
    rs = np.random.RandomState(c['seed'])
    o.x0 = rs.uniform(-1, 1, gen.dim(c['m'], 'x')); o.u0 = rs.uniform(-1, 1, gen.dim(c['m'], 'u'))
    o.set_initial_guess()
    step = lambda: o.make_step(rs.uniform(-1, 1, (gen.dim(c['m'], 'x') if c['kind'] == 'mpc' else H.tot(H.ydims(c)), 1)))
    u = step()
    check(c, o, st, [], 'after setup')
    for j, (lu, k, n, i, x) in enumerate(c['change']):
        tgt = (n,) if i is None else (n, i)
        if k == 't': o.terminal_bounds[(lu,) + tgt] = x
        else: o.bounds[(lu, '_' + k) + tgt] = x
        step()
        check(c, o, st, c['change'][:j + 1], 'after changing %s' % (c['change'][j],))
