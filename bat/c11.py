"""data objects: appends, queries, predictions"""
from bat.util import *
from bat import mpcref as R, gen, stub
import random, numpy as np
RULE = 'random models; sequences of updates (arrays, DM, structures, scalars, strings) and queries in random order compared with a list of rows kept by the harness; predictions of random controllers after several steps (solver replaced by a recorder) compared with the stored solution along the paths of an independently computed scenario tree'
def cases(tier, rng):
    out = []
    for i in range(80 if tier == 'quick' else 800):
        r = random.Random(rng.randrange(10 ** 9))
        if i % 2:
            c = R.config(r); c['full'] = True; c['kind'] = 'pred'; c['steps'] = r.choice([1, 2, 3])
        else:
            m = gen.model(r, p=True, tvp=True, z=True)
            c = {'kind': 'data', 'm': m, 'seed': r.randrange(10 ** 6), 'n': r.choice([3, 6, 10])}
        out.append(c)
    for i in range(30 if tier == 'quick' else 400): out.append({'kind': 'names', 'seed': rng.randrange(10 ** 9)})
    return out
FIELDS = [('_x', 'x'), ('_u', 'u'), ('_z', 'z'), ('_p', 'p'), ('_tvp', 'tvp')]
def run(c):
    {'pred': pred, 'data': data, 'names': names}[c['kind']](c)
def names(c):
    '''the same name in several groups, names that are prefixes of each other, queries interleaved with updates'''
    import do_mpc, casadi as ca
    r = random.Random(c['seed']); rs = np.random.RandomState(c['seed'] % 2 ** 31); pool = ['a', 'ab', 'x', '_x', 'a_x', 'b', 'u', 'default1']
    m = do_mpc.model.Model('discrete', r.choice(['SX', 'MX'])); lay = {}; xs = []
    free = pool[:]; r.shuffle(free)
    for g in ('_x', '_u', '_z', '_p', '_tvp'):
        lay[g] = []
        for _ in range(r.choice([1, 2, 3]) if g == '_x' else r.choice([0, 1, 2])):
            nm = r.choice(pool); d = r.choice([1, 1, 2, 3])
            try: v = m.set_variable(g, nm, shape=(d, 1))
            except Exception: continue
            lay[g].append((nm, d))
            if g == '_x': xs.append((nm, v))
    lay['_aux'] = [('default', 1)]
    for nm in r.sample(pool, r.choice([0, 1, 2, 3])):
        d = r.choice([1, 2])
        try: m.set_expression(nm, ca.vertcat(*[xs[0][1][0] * (k + 1) for k in range(d)]))
        except Exception: continue
        lay['_aux'].append((nm, d))
    for nm, v in xs: m.set_rhs(nm, 0.5 * v)
    for k, (nm, d) in enumerate(lay['_z']): m.set_alg(nm, m.z[nm] - xs[0][1][0])
    m.setup(); D = do_mpc.data.Data(m)
    lay['_aux'] = [(nm, int(np.prod(m.aux[nm].shape))) for nm in m.aux.keys()]
    dims = {g: sum(d for _, d in l) for g, l in lay.items()}; rows = {g: [] for g in lay}
    for _ in range(r.choice([3, 6])):
        for g in r.sample(sorted(lay), r.randint(1, len(lay))):
            v = rs.uniform(-3, 3, dims[g]); D.update(**{g: v}); rows[g].append(v)
        for _ in range(r.choice([0, 4, 10])):
            g = r.choice([q for q in lay if lay[q]]); k = r.randrange(len(lay[g])); nm, d = lay[g][k]; o = sum(q for _, q in lay[g][:k]); w = np.array(rows[g]).reshape(len(rows[g]), dims[g])[:, o:o + d]
            if r.random() < 0.5: q = D[g, nm]; need(q.shape == w.shape, 'query (%s, %s) has shape %s, expected %s' % (g, nm, q.shape, w.shape)); close(q, w, 'query (%s, %s), variables %s' % (g, nm, lay))
            else: i = r.randrange(d); close(np.asarray(D[g, nm, i]).ravel(), w[:, i], 'query (%s, %s, %d), variables %s' % (g, nm, i, lay))
def data(c):
    import do_mpc, casadi as ca
    m = c['m']; mod = gen.build(m); D = do_mpc.data.Data(mod)
    rs = np.random.RandomState(c['seed']); r = random.Random(c['seed'])
    dims = {f: gen.dim(m, k) for f, k in FIELDS}; dims['_time'] = 1; dims['_aux'] = int(mod.n_aux); dims['_y'] = int(mod.n_y)
    rows = {f: [] for f in dims}
    def check():
        for f in dims:
            w = np.array(rows[f]).reshape(len(rows[f]), dims[f])
            need(D[f].shape == w.shape, '%s has shape %s, expected %s' % (f, D[f].shape, w.shape)); close(D[f], w, f)
        for f, k in FIELDS:
            o = gen.off(m, k)[0]; w = np.array(rows[f]).reshape(len(rows[f]), dims[f])
            for n, d in m[k]:
                if r.random() < 0.6:
                    q = D[f, n]; need(q.shape == (len(w), d), 'query (%s, %s) has shape %s, expected %s' % (f, n, q.shape, (len(w), d))); close(q, w[:, o[n]:o[n] + d], 'query (%s, %s)' % (f, n))
                i = r.randrange(d)
                if r.random() < 0.6:
                    q = D[f, n, i]; need(q.size == len(w), 'query (%s, %s, %d) has shape %s' % (f, n, i, q.shape)); close(np.asarray(q).ravel(), w[:, o[n] + i], 'query (%s, %s, %d)' % (f, n, i))
    check()
    for j in range(c['n']):
        kw = {}
        for f in r.sample(sorted(dims), r.randint(1, 4)):
            v = rs.uniform(-3, 3, dims[f]); rows[f].append(v.copy())
            form = r.choice(['flat', 'col', 'row', 'DM', 'list'] + (['struct'] if f in dict(FIELDS) else []))
            if form == 'struct':
                s = getattr(mod, f)(0); s.master = ca.DM(v); kw[f] = s
            else: kw[f] = {'flat': v, 'col': v.reshape(-1, 1), 'row': v.reshape(1, -1), 'DM': ca.DM(v), 'list': [float(x) for x in v]}[form]
            if f == '_time' and r.random() < 0.5: kw[f] = float(v[0])
        D.update(**kw)
        for v in kw.values():
            # data holds values: changing the passed objects afterwards does not change history
            if isinstance(v, np.ndarray): v += 1.0
            elif hasattr(v, 'master'): v.master = v.cat + 1.0
        if r.random() < 0.6: check()
    check()
    raises(lambda: D.update(_nofield=np.zeros(1)), 'update of an unknown field')
    raises(lambda: D['_nofield'], 'query of an unknown field')
    raises(lambda: D['_x', 'no variable'], 'query of an unknown variable')
    check()
    e = D.export()
    for f in dims: close(e[f], np.array(rows[f]).reshape(len(rows[f]), dims[f]), 'export of ' + f)
    D.init_storage(); rows.update({f: [] for f in dims}); check()
def pred(c):
    import casadi as ca
    m = c['m']; N = c['N']; nc = R.ncomb(c)
    mpc = R.make(c); st = stub.install(mpc, c['seed']); mpc.set_initial_guess()
    ns, nb, child, parent, combo = gen.tree(N, c['R'], nc)
    paths = []
    for leaf in range(ns[N]):
        p = [leaf]
        for k in range(N, 0, -1): p.append(parent(k, p[-1]))
        paths.append(p[::-1])
    rs = np.random.RandomState(c['seed']); hist = []; r = random.Random(c['seed'])
    D = mpc.data
    inf = ' [%s]' % ', '.join('%s=%s' % (k, c[k]) for k in ('N', 'R', 'unc', 'open_loop', 'deg', 'ni')) + ' ' + m['type']
    for j in range(c['steps']):
        mpc.make_step(rs.uniform(-1, 1, (gen.dim(m, 'x'), 1)))
        xu = mpc.opt_x(0); xu.master = ca.DM(mpc.opt_x_num_unscaled.cat)
        pp = mpc.opt_p(0); pp.master = ca.DM(mpc.opt_p_num.cat)
        import casadi as ca
        aux = arr(mpc.opt_aux_num.cat).ravel().copy()
        a = mpc.opt_aux_num; auxn = [[arr(a['_aux', k, s]).ravel().copy() for s in range(ns[k])] for k in range(N)] if mpc.model.n_aux else None
        hist.append((xu, pp, auxn))
        for t in ([-1] + ([r.randrange(len(hist))] if len(hist) > 1 else [])):
            xu, pp, auxn = hist[t]
            def chk(f, k, val, n):
                for nm, d in (m[k] if k else [['default', 0]]):
                    o = gen.off(m, k)[0][nm]
                    for sel in [None] + [r.randrange(d)]:
                        ind = (f, nm) if sel is None else (f, nm, sel)
                        q = np.asarray(D.prediction(ind, t_ind=t)); dd = d if sel is None else 1
                        if f == '_tvp':
                            want = np.array([[val(kk, None)[o + i] for kk in range(n)] for i in (range(d) if sel is None else [sel])])[:, :, None]
                        else:
                            cols = paths if not (f == '_u' and c['open_loop']) else [None]
                            want = np.array([[[val(kk, p)[o + i] for p in cols] for kk in range(n)] for i in (range(d) if sel is None else [sel])])
                        need(q.shape == want.shape, 'prediction%s has shape %s, expected %s' % (ind, q.shape, want.shape) + inf)
                        close(q, want, 'prediction%s at t_ind=%d' % (ind, t) + inf)
            chk('_x', 'x', lambda kk, p: arr(xu['_x', kk, p[kk], -1]).ravel(), N + 1)
            chk('_u', 'u', lambda kk, p: arr(xu['_u', kk, 0 if p is None else p[kk]]).ravel(), N)
            # the algebraic states of interval k are those of the branch, stored with its child node
            chk('_z', 'z', lambda kk, p: arr(xu['_z', kk, p[kk + 1], -1]).ravel(), N)
            chk('_tvp', 'tvp', lambda kk, p: arr(pp['_tvp', kk]).ravel(), N + 1)
            if auxn is not None:
                o = 0
                for nm, ps in m['aux']:
                    q = np.asarray(D.prediction(('_aux', nm), t_ind=t)); names = mpc.model.aux.keys()
                    o = 0
                    for nn in names:
                        if nn == nm: break
                        o += int(np.prod(mpc.model.aux[nn].shape))
                    want = np.array([[[auxn[kk][p[kk]][o + i] for p in paths] for kk in range(N)] for i in range(len(ps))])
                    close(q, want, 'prediction (_aux, %s)' % nm + inf)
    raises(lambda: D.prediction(('_nofield', 'x')), 'prediction of an unknown field')
