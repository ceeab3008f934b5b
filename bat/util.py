import numpy as np, os
COUNT = [0]
class Violation(Exception):
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg); self.key = key
class Skip(Exception): pass
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def known_keys(pid):
    p = os.path.join(HERE, 'known-findings.txt'); out = set()
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % pid): out.add(l[len('finding: property=%s ' % pid):].split(' ')[0])
    return out
def need(cond, msg, key=None):
    COUNT[0] += 1
    if not cond: raise Violation(msg, key)
def arr(x):
    import casadi
    if hasattr(x, 'cat') and not isinstance(x, np.ndarray): x = x.cat
    if isinstance(x, (casadi.DM,)): x = x.full()
    return np.asarray(x, dtype=float)
def close(a, b, msg, tol=1e-7, key=None):
    a, b = arr(a), arr(b)
    if a.shape != b.shape:
        if a.size == b.size: a, b = a.ravel(), b.ravel()
        else: need(False, '%s: shape %s, expected %s' % (msg, a.shape, b.shape), key)
    same = np.isinf(a) | np.isinf(b)
    ok = np.array_equal(a[same], b[same]) and np.all(np.isfinite(a[~same]) & np.isfinite(b[~same])) and np.allclose(a[~same], b[~same], rtol=tol, atol=tol)
    if not ok:
        need(False, '%s: got %s, expected %s' % (msg, np.array2string(a.ravel()[:12], precision=6), np.array2string(b.ravel()[:12], precision=6)), key)
    COUNT[0] += 1
def raises(fn, msg, exc=Exception, key=None):
    COUNT[0] += 1
    try:
        fn()
    except exc:
        return
    raise Violation(msg + ': accepted, but must be rejected', key)
