"""random linear systems"""
import numpy as np
def dims(rng, kind, names):
    return [[n, rng.choice([1, 1, 2])] for n in names]
def tot(l): return sum(d for n, d in l)
def system(rng):
    c = {'x': dims(rng, 'x', ['xb', 'xa'][:rng.choice([1, 2])]), 'u': dims(rng, 'u', ['ub', 'ua'][:rng.choice([1, 1, 2])]), 'seed': rng.randrange(10 ** 6)}
    return c
def mats(c, scale=None):
    rs = np.random.RandomState(c['seed']); n, m = tot(c['x']), tot(c['u'])
    A = rs.uniform(-1, 1, (n, n)); A = A / max(0.3, np.abs(np.linalg.eigvals(A)).max()) * (scale or rs.uniform(0.4, 1.4))
    B = rs.uniform(-1, 1, (n, m))
    spd = lambda k, e: (lambda a: a @ a.T + e * np.eye(k))(rs.uniform(-1, 1, (k, k)))
    return A, B, spd, rs
def variables(mod, c):
    for k, t in (('x', '_x'), ('u', '_u')):
        for n, d in c[k]: mod.set_variable(t, n, shape=(d, 1))
