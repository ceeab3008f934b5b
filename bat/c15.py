"""models built from data: functions of the model compared with an independent evaluation of the declared polynomials"""
from bat.util import *
from bat import gen
import random, numpy as np, io, pickle
RULE = 'random polynomial models (SX/MX, discrete/continuous, several and vector valued variables, noises, expressions, measurements, declaration orders, long names) evaluated at random points against an independent evaluation; alias type names, duplicates, incomplete models, changes after setup, pickling'
ALIAS = {'_x': 'states', '_u': 'inputs', '_z': 'algebraic', '_p': 'parameter', '_tvp': 'timevarying_parameter'}
def cases(tier, rng):
    out = []
    for i in range(90 if tier == 'quick' else 1200):
        r = random.Random(rng.randrange(10 ** 9))
        m = gen.model(r, u=r.random() < 0.85, w=r.random() < 0.6)
        V = gen.scal(m, ['x', 'u', 'z', 'p', 'tvp'])
        names = ['y_b', 'ya', 'x'][:r.choice([0, 1, 2, 3])]
        meas = [[n, [gen.rpoly(r, V, 2) for _ in range(r.choice([1, 2]))], r.random() < 0.5] for n in names]
        order = list(m['rhs']); r.shuffle(order)
        out.append({'m': m, 'meas': meas, 'seed': r.randrange(10 ** 6), 'alias': [k for k in ALIAS if r.random() < 0.5], 'order': order, 'neg': r.choice(['dupl', 'norhs', 'algcount', 'unknownrhs', 'types', 'after', 'badtype', 'meas1']), 'pos': r.random() < 0.5})
    return out
def build(c, setup=True):
    import do_mpc
    from casadi import vertcat
    m = c['m']; mod = do_mpc.model.Model(m['type'], m['sym']); S = {}
    todo = [(k, t, n, d) for k, t in (('x', '_x'), ('u', '_u'), ('z', '_z'), ('p', '_p'), ('tvp', '_tvp')) for n, d in m[k]]
    rs = np.random.RandomState(c['seed'])
    # kinds may be declared in any order, the order within a kind is the declaration order
    pos = list(range(len(todo))); rs.shuffle(pos)
    kinds = {}
    for it in todo: kinds.setdefault(it[0], []).append(it)
    for i in pos:
        k = todo[i][0]; k, t, n, d = kinds[k].pop(0)
        tn = ALIAS[t] if t in c['alias'] else t
        S[(k, n)] = mod.set_variable(tn, n, shape=(d, 1)) if d > 1 or rs.rand() < 0.5 else mod.set_variable(tn, n)
    get = lambda k, n, i: S[(k, n)][i]
    full = lambda ps: vertcat(*[gen.pv(q, get) for q in ps])
    for n, ps in m['aux']: mod.set_expression(n, full(ps))
    for n in c['order']: mod.set_rhs(n, full(m['rhs'][n]), process_noise=n in m['w'])
    for n, ps in m['alg'].items(): mod.set_alg(n, full(ps))
    for n, ps, noise in c['meas']:
        if noise and c['pos']: mod.set_meas(n, full(ps))
        else: mod.set_meas(n, full(ps), meas_noise=noise)
    if setup: mod.setup()
    return mod
def evaluate(mod, c, rs, what):
    m = c['m']; nx, nu, nz, np_, nt = (gen.dim(m, k) for k in ('x', 'u', 'z', 'p', 'tvp'))
    wn = [n for n in c['order'] if n in m['w']]; dx = dict(m['x'])
    nw = sum(dx[n] for n in wn)
    if c['meas']: ys = c['meas']
    else: ys = [[n, [[[1.0, [['x', n, i]]]] for i in range(d)], True] for n, d in m['x']]
    nv = sum(len(p) for n, p, z in ys if z); ny = sum(len(p) for n, p, z in ys)
    for a, b in (('n_x', nx), ('n_u', nu), ('n_z', nz), ('n_p', np_), ('n_tvp', nt), ('n_w', nw), ('n_v', nv), ('n_y', ny), ('n_aux', 1 + sum(len(p) for n, p in m['aux']))):
        need(int(getattr(mod, a)) == b, '%s: %s is %s, expected %d' % (what, a, getattr(mod, a), b))
    need(mod.x.keys() == [n for n, d in m['x']], what + ': state names ' + str(mod.x.keys()))
    for k, o in (('u', mod.u), ('z', mod.z), ('p', mod.p), ('tvp', mod.tvp)): need([q for q in o.keys() if q != 'default'] == [n for n, d in m[k]], '%s: names of %s' % (what, k))
    need([q for q in mod.aux.keys() if q != 'default'] == [n for n, d in m['aux']], what + ': names of expressions')
    need([q for q in mod.y.keys() if q != 'default'] == [n for n, p, z in ys], what + ': names of measurements')
    for j in range(3):
        x, u, z, p, tv, w, v = (rs.uniform(-1.5, 1.5, n) for n in (nx, nu, nz, np_, nt, nw, nv))
        g = gen.Val(m, x=x, u=u, z=z, p=p, tvp=tv); o, _ = gen.off(m, 'x')
        want = gen.rhs(m, g); k = 0
        for n in wn:
            want[o[n]:o[n] + dx[n]] += w[k:k + dx[n]]; k += dx[n]
        close(mod._rhs_fun(x, u, z, tv, p, w), want, what + ': right-hand side')
        close(mod._alg_fun(x, u, z, tv, p, w), gen.alg(m, g), what + ': algebraic equations')
        close(mod._aux_expression_fun(x, u, z, tv, p), np.concatenate([[0.0], gen.aux(m, g)]), what + ': expressions')
        yw = []; k = 0
        for n, ps, noisy in ys:
            e = np.array([gen.pv(q, g) for q in ps], float)
            if noisy: e = e + v[k:k + len(e)]; k += len(e)
            yw.append(e)
        close(mod._meas_fun(x, u, z, tv, p, v), np.concatenate(yw), what + ': measurements')
        # element access by name of the evaluated structures
        r = mod._rhs(mod._rhs_fun(x, u, z, tv, p, w))
        for n, d in m['x']: close(r[n], want[o[n]:o[n] + d], what + ': right-hand side of ' + n)
def run(c):
    import do_mpc, casadi as ca
    m = c['m']; rs = np.random.RandomState(c['seed']); inf = '[%s %s]' % (m['type'], m['sym'])
    mod = build(c)
    evaluate(mod, c, rs, 'model ' + inf)
    X = mod.x[m['x'][0][0]]
    # after setup
    for f, a in (('set_variable', ('_x', 'nn')), ('set_expression', ('nn', X)), ('set_meas', ('nn', X)), ('set_rhs', (m['x'][0][0], X)), ('set_alg', ('nn', X))):
        raises(lambda: getattr(mod, f)(*a), '%s after setup %s' % (f, inf))
    for k in ('x', 'u', 'z', 'p', 'tvp', 'y', 'aux', 'w', 'v'): raises(lambda: setattr(mod, k, X), 'assigning %s %s' % (k, inf))
    evaluate(mod, c, rs, 'model after rejected changes ' + inf)
    if m['sym'] == 'SX':
        mod2 = pickle.loads(pickle.dumps(mod)); evaluate(mod2, c, rs, 'restored model ' + inf); evaluate(mod, c, rs, 'model after pickling ' + inf)
        mod3 = pickle.loads(pickle.dumps(mod2)); evaluate(mod3, c, rs, 'twice restored model ' + inf)
        raises(lambda: mod2.set_variable('_x', 'nn'), 'set_variable on a restored model')
    # rejections before setup
    ng = c['neg']; pre = build(c, setup=False); T = '_x'; n0 = m['x'][0][0]
    if ng == 'dupl':
        for k, t in (('x', '_x'), ('u', '_u'), ('z', '_z'), ('p', '_p'), ('tvp', '_tvp')):
            for n, d in m[k]:
                raises(lambda: pre.set_variable(t, n), 'duplicate name %s of %s' % (n, t)); raises(lambda: pre.set_variable(ALIAS[t], n, (d, 1)), 'duplicate name %s of %s' % (n, ALIAS[t]))
        pre.setup(); evaluate(pre, c, rs, 'model after rejected duplicates ' + inf)
    if ng == 'norhs':
        for t in ('_x', 'states'):
            pre = build(c, setup=False); pre.set_variable(t, 'extra'); raises(lambda: pre.setup(), 'state without right-hand side ' + inf)
    if ng == 'algcount':
        pre.set_variable('_z', 'zextra'); raises(lambda: pre.setup(), 'fewer algebraic equations than variables ' + inf)
        pre = build(c, setup=False); pre.set_alg('more', pre._x['var'][0]); raises(lambda: pre.setup(), 'more algebraic equations than variables ' + inf)
    if ng == 'unknownrhs':
        raises(lambda: pre.set_rhs('nn', pre._x['var'][0]), 'right-hand side of an unknown state')
        for k in ('u', 'z', 'p', 'tvp'):
            for n, d in m[k]:
                if n not in dict(m['x']): raises(lambda: pre.set_rhs(n, pre._x['var'][0]), 'right-hand side of %s' % k)
        pre.setup(); evaluate(pre, c, rs, 'model after rejected equations ' + inf)
    if ng == 'types':
        X = pre._x['var'][0]
        for f in (lambda: pre.set_variable(1, 'nn'), lambda: pre.set_variable('_x', 1), lambda: pre.set_variable('_x', 'nn', [1, 1]), lambda: pre.set_variable('_x', 'nn', 1.5), lambda: pre.set_expression(1, X), lambda: pre.set_expression('nn', 1.0), lambda: pre.set_meas(1, X), lambda: pre.set_meas('nn', 2.0), lambda: pre.set_meas('nn', X, meas_noise=1), lambda: pre.set_rhs(n0, 1.0), lambda: pre.set_rhs(1, X), lambda: pre.set_alg('nn', 1.0), lambda: pre.set_alg(1, X)):
            raises(f, 'argument of wrong type ' + inf)
        pre.setup(); evaluate(pre, c, rs, 'model after rejected arguments ' + inf)
    if ng == 'badtype':
        for t in ('_y', '_w', 'x', 'state', '_aux', 'p', 'foo', ''): raises(lambda: pre.set_variable(t, 'nn'), 'unknown variable type %r' % t)
        for a in (('foo', 'SX'), (None, 'SX'), ('discrete', 'DM'), (1, 'SX')): raises(lambda: do_mpc.model.Model(*a), 'unknown model type %r' % (a,))
        pre.setup(); evaluate(pre, c, rs, 'model after rejected types ' + inf)
        raises(lambda: pickle.dumps(build(c, setup=False)), 'pickling before setup')
