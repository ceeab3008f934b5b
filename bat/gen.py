"""random models and optimizers; every equation is a polynomial given as data, so that it can be evaluated independently with numpy.
model description m: {'type','sym','x':[[name,n]..],'u','z','p','tvp','rhs':{name:[poly..]},'alg':[poly..],'aux':[..],'meas':...}
poly: [[coef, [[kind, name, i], ...]], ...]"""
import numpy as np, random

def rpoly(rng, vars_, nterms=3, lin=None, c=None):
    out = []
    if c is not None: out.append([c, []])
    for l in (lin or []): out.append([round(rng.uniform(0.5, 1.5), 3), [l]])
    for _ in range(nterms):
        k = rng.choice([1, 1, 2, 2, 3])
        out.append([round(rng.uniform(-1, 1), 3), [rng.choice(vars_) for _ in range(k)]])
    return out

def scal(m, kinds):
    return [[k, n, i] for k in kinds for n, d in m[k] for i in range(d)]

def model(rng, typ=None, z=None, p=None, tvp=None, u=True, sym=None, w=None, wild=False, xdims=None):
    m = {'type': typ or rng.choice(['discrete', 'continuous']), 'sym': sym or rng.choice(['SX', 'MX'])}
    D = lambda: rng.choice([1, 1, 2])
    m['x'] = xdims or [['xa', D()], ['b_x', D()]][:rng.choice([1, 2, 2])]
    m['u'] = [['u_b', D()], ['ua', D()]][:rng.choice([1, 2])] if u else []
    z = rng.random() < 0.5 if z is None else z
    m['z'] = [['zz', D()], ['az', 1]][:rng.choice([1, 2])] if z else []
    p = rng.random() < 0.6 if p is None else p
    m['p'] = [['pa', 1], ['p2', D()]][:rng.choice([1, 2])] if p else []
    tvp = rng.random() < 0.5 if tvp is None else tvp
    m['tvp'] = [['t_v', D()], ['at', 1]][:rng.choice([1, 2])] if tvp else []
    V = scal(m, ['x', 'u', 'z', 'p', 'tvp'])
    m['rhs'] = {n: [rpoly(rng, V, 3) for _ in range(d)] for n, d in m['x']}
    # algebraic equations, index one for the values used:  z_i*(1+..) - poly(x,u,p,tvp)
    V0 = scal(m, ['x', 'u', 'p', 'tvp'])
    m['alg'] = {n: [[[1.0, [['z', n, i]]]] + ([[0.05, [['z', n, i], ['z', n, i], ['z', n, i]]]] if wild else []) + rpoly(rng, V0, 2) for i in range(d)] for n, d in m['z']}
    m['aux'] = [['a_one', 1], ['aa', 2]][:rng.choice([0, 1, 2])]
    m['aux'] = [[n, [rpoly(rng, V, 2) for _ in range(d)]] for n, d in m['aux']]
    m['w'] = []
    if w: m['w'] = [n for n, d in m['x'] if rng.random() < 0.6] or [m['x'][0][0]]
    order = list(m['rhs']); r2 = random.Random(str(m['x']) + str(m['rhs'])); r2.shuffle(order)      # the equations need not be given in the order of the states
    m['rhs'] = {n: m['rhs'][n] for n in order}
    return m

def pv(poly, get):
    """evaluate a polynomial; get(kind,name,i) -> number or symbol"""
    r = 0
    for c, vs in poly:
        t = c
        for k, n, i in vs: t = t * get(k, n, i)
        r = r + t
    return r

def build(m, meas=None, setup=True):
    import do_mpc
    from casadi import vertcat
    mod = do_mpc.model.Model(m['type'], m['sym'])
    S = {}
    for k, t in (('x', '_x'), ('u', '_u'), ('z', '_z'), ('p', '_p'), ('tvp', '_tvp')):
        for n, d in m[k]: S[(k, n)] = mod.set_variable(t, n, shape=(d, 1))
    get = lambda k, n, i: S[(k, n)][i]
    for n, polys in m['aux']: mod.set_expression(n, vertcat(*[pv(q, get) for q in polys]))
    for n, polys in m['rhs'].items(): mod.set_rhs(n, vertcat(*[pv(q, get) for q in polys]), process_noise=n in m['w'])
    for n, polys in m['alg'].items(): mod.set_alg(n, vertcat(*[pv(q, get) for q in polys]))
    for n, polys, noise in (meas or []): mod.set_meas(n, vertcat(*[pv(q, get) for q in polys]), meas_noise=noise)
    if setup: mod.setup()
    mod._S = S
    return mod

def off(m, kind):
    o = {}; k = 0
    for n, d in m[kind]:
        o[n] = k; k += d
    return o, k

class Val:
    """numeric values of the variables, as flat vectors per kind in declaration order"""
    def __init__(self, m, **kw):
        self.m = m; self.v = {k: np.asarray(x, float).ravel() for k, x in kw.items()}
        self.o = {k: off(m, k)[0] for k in ('x', 'u', 'z', 'p', 'tvp')}
    def __call__(self, k, n, i): return self.v[k][self.o[k][n] + i]

def rhs(m, get): return np.array([pv(q, get) for n, d in m['x'] for q in m['rhs'][n]], float)
def alg(m, get): return np.array([pv(q, get) for n, d in m['z'] for q in m['alg'][n]], float)
def aux(m, get): return np.array([pv(q, get) for n, ps in m['aux'] for q in ps], float)
def dim(m, kind): return off(m, kind)[1]

def solve_z(m, x, u, p, tvp):
    """algebraic states (linear in z with unit coefficient unless wild)"""
    z = np.zeros(dim(m, 'z'))
    for _ in range(60):
        r = alg(m, Val(m, x=x, u=u, z=z, p=p, tvp=tvp))
        if r.size == 0: break
        J = np.zeros((len(z), len(z)))
        for j in range(len(z)):
            d = z.copy(); d[j] += 1e-6; e = z.copy(); e[j] -= 1e-6
            J[:, j] = (alg(m, Val(m, x=x, u=u, z=d, p=p, tvp=tvp)) - alg(m, Val(m, x=x, u=u, z=e, p=p, tvp=tvp))) / 2e-6
        s = np.linalg.solve(J, r); z = z - s
        if np.abs(s).max() < 1e-14: break
    return z

# ---------------------------------------------------------------- collocation
def colloc(deg, kind):
    """collocation points on (0,1] computed from the Legendre / Radau polynomials, independently of casadi"""
    from numpy.polynomial import legendre as Lg
    if kind == 'legendre':
        pts = Lg.legroots([0] * deg + [1])
    else:
        c = np.zeros(deg + 1); c[deg] = 1; c[deg - 1] -= 1     # P_n - P_{n-1}: right Radau points on [-1,1], including 1
        pts = Lg.legroots(c)
    pts = np.sort((np.real(pts) + 1) / 2)
    tau = np.concatenate([[0.0], pts])
    n = deg + 1
    C = np.zeros((n, n)); D = np.zeros(n)
    for j in range(n):
        p = np.poly1d([1.0])
        for r in range(n):
            if r != j: p *= np.poly1d([1, -tau[r]]) / (tau[j] - tau[r])
        D[j] = p(1.0)
        dp = np.polyder(p)
        for r in range(n): C[j, r] = dp(tau[r])
    return tau, C, D

def tree(N, R, c):
    """reference scenario tree: child(k,s,b), number of nodes, branches, combination used on the branch"""
    ns = [c ** min(k, R) for k in range(N + 1)]
    nb = [c if k < R else 1 for k in range(N)]
    combo = {}
    for k in range(N):
        for s in range(ns[k]):
            for b in range(nb[k]):
                if k < R: combo[k, s, b] = b
                else: combo[k, s, b] = s % c if R > 0 else 0
    return ns, nb, (lambda k, s, b: s * nb[k] + b), (lambda k, s: s // nb[k - 1]), combo
