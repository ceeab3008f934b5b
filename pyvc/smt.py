"""SMT queries with statistics.  Back ends: z3 (default), cvc5 binary as second opinion on request."""
import z3, time
from .core import zvars, TRUE, POW

class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
STATS = Stats()
STATS.cvc5 = 0
TIMEOUT_MS = 4000
_cache = {}

# ground instances of universally quantified facts: uninterpreted function name -> instances for one application
REG = {}
_pw = {}
def pow_axioms(a):
    """x**0 == 1 and x >= 1 -> x**y >= 1 for the integer powers that occur, and the registered instances"""
    k = a.get_id()
    if k in _pw: return _pw[k][1]
    out = []
    seen = set()
    def scan(e, depth, bound):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_quantifier(e): return
        if z3.is_app(e):
            new = []
            if e.num_args():
                d = e.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    if d.eq(POW):
                        new = [z3.Implies(e.arg(1) == 0, e == 1), z3.Implies(z3.And(e.arg(0) >= 1, e.arg(1) >= 0), e >= 1)]
                    elif d.name() in REG:
                        new = REG[d.name()](*e.children())
                for c in e.children(): scan(c, depth, bound)
            for f in new:
                out.append(f)
                if depth < 3: scan(f, depth + 1, bound)
    scan(a, 0, False)
    _pw[k] = (a, out)
    return out

_pa = {}
def pow_apps(a):
    k = a.get_id()
    if k in _pa: return _pa[k][1]
    apps = {}; seen = set()
    def scan(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().eq(POW): apps[e.get_id()] = e
            for c in e.children(): scan(c)
    scan(a)
    _pa[k] = (a, apps)
    return apps

def pow_pairs(ax, goal):
    """monotonicity of x**e in e for x >= 1 (lemma 'pow-monotone') for the powers of the goal"""
    G = pow_apps(goal)
    if not G: return []
    A = dict(G)
    for a in ax: A.update(pow_apps(a))
    out = []
    for p in G.values():
        for q in A.values():
            if not p.eq(q) and p.arg(0).eq(q.arg(0)):
                for x, y in ((p, q), (q, p)):
                    out.append(z3.Implies(z3.And(x.arg(0) >= 1, x.arg(1) >= 0, x.arg(1) <= y.arg(1)), x <= y))
    return out

class Incremental:
    """one solver whose assertion stack follows the fact list (common prefixes are kept)"""
    def __init__(self):
        self.reset()
    def reset(self):
        self.s = z3.Solver(); self.stack = []; self.keep = []; self.to = None
    def check(self, assertions, timeout):
        if timeout != self.to:
            self.s.set('timeout', timeout); self.to = timeout
        seen = set(); todo = []
        for a in assertions:
            for x in [a] + pow_axioms(a):
                i = x.get_id()
                if i not in seen:
                    seen.add(i); todo.append(x)
        n = 0
        while n < len(self.stack) and n < len(todo) and self.stack[n] == todo[n].get_id(): n += 1
        if len(self.stack) > n:
            self.s.pop(len(self.stack) - n)
            del self.stack[n:]; del self.keep[n:]
        ctx, sol = self.s.ctx.ref(), self.s.solver
        for x in todo[n:]:
            z3.Z3_solver_push(ctx, sol)
            z3.Z3_solver_assert(ctx, sol, x.as_ast())
            self.stack.append(x.get_id()); self.keep.append(x)
        return str(self.s.check())
INC = Incremental()

def check(assertions, timeout=None):
    """'sat'/'unsat'/'unknown' """
    key = tuple(sorted({a.get_id() for a in assertions}))
    hit = _cache.get(key)
    if hit is not None:
        return hit[0]
    t = time.time()
    r = INC.check(assertions, timeout or TIMEOUT_MS)
    STATS.time += time.time() - t
    STATS.queries += 1
    setattr(STATS, r, getattr(STATS, r) + 1)
    _cache[key] = (r, list(assertions))     # keep asts alive: ids stay unique
    return r

def relevant(facts, goal_vars):
    """all facts (cheap); placeholder for cone-of-influence filtering"""
    return facts

def prove(facts, goal, timeout=None):
    """True if facts |= goal; False if a counter-model exists; None unknown"""
    g = z3.simplify(goal)
    if z3.is_true(g):
        return True
    r = check(list(facts) + [z3.Not(g)], timeout)
    if r == 'unsat':
        return True
    pp = pow_pairs(facts, g)
    if pp and check(list(facts) + pp + [z3.Not(g)], timeout) == 'unsat':
        return True
    if r == 'sat':
        return False
    return None

def satisfiable(facts, timeout=None):
    r = check(list(facts), timeout)
    return {'sat': True, 'unsat': False}.get(r)
