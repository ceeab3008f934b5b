import numpy as np, casadi as ca
from bat.util import arr
class Stub:
    """stands in for the NLP solver: records its arguments, returns arbitrary vectors"""
    def __init__(self, nx, ng, seed=0):
        self.nx, self.ng = nx, ng; self.rs = np.random.RandomState(seed); self.calls = []; self.rets = []
    def __call__(self, **kw):
        v = lambda x: arr(x).ravel().copy()
        self.calls.append({k: v(x) for k, x in kw.items()})
        U = lambda n: ca.DM(self.rs.uniform(-2, 2, n))
        r = {'x': U(self.nx), 'f': ca.DM(self.rs.uniform(-1, 1)), 'g': U(self.ng), 'lam_g': U(self.ng), 'lam_x': U(self.nx), 'lam_p': ca.DM(0)}
        self.rets.append({k: v(x) for k, x in r.items()})
        return r
    def stats(self):
        i = len(self.rets)
        return {'success': i % 2 == 0, 't_wall_total': 0.5 * i, 'iter_count': i, 'return_status': 'S%d' % i}
def install(o, seed=0):
    s = Stub(int(o.opt_x.shape[0]), int(arr(o.nlp_cons_lb).size), seed)
    o.S = s
    return s
