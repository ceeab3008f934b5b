"""C01: contract of Optimizer._setup_scenario_tree, for all N >= 1, R >= 0, c >= 1."""
from ..harness import *

N, R, c = z3.Int('N'), z3.Int('R'), z3.Int('c')
PRE = [N >= 1, R >= 0, c >= 1]
RR = z3.If(R <= N, R, N)

def mpc_self(it):
    cls = it.find('do_mpc.controller._mpc:MPC')
    scls = it.find('do_mpc.controller._controllersettings:MPCSettings')
    st = PObj(scls); st.attrs = {'n_horizon': SInt(N), 'n_robust': SInt(R)}
    model = PObj(LibType('Model'), {'n_p': SInt(z3.Int('n_p'))})
    me = PObj(cls, name='mpc')
    me.attrs = {'_settings': st, 'model': model, 'n_combinations': SInt(c), 'flags': PDict({'setup': False})}
    return me

def run(ctx):
    it = ctx.it
    it.base_facts += PRE
    me = mpc_self(it)
    it.lib.hooks['bounds'] = bounds_hints
    ret = it.call(it.getattr(me, '_setup_scenario_tree'), [], {})
    if not (isinstance(ret, tuple) and len(ret) == 5):
        return ctx.fail('result', 'five tables expected')
    NB, NS, child, parent, off = ret
    g = lambda o, *ix: zi(it_get(it, o, ix))
    ctx.oblige('number of stages (branch counts)', zi(it.length(NB)) == N)
    ctx.oblige('number of stages (node counts)', zi(it.length(NS)) == N + 1)
    k = ctx.fresh('k', 0, N)
    mn = lambda x: z3.If(x <= R, x, R)
    P = lambda e: POW(c, e)
    def pw_facts(e):
        """definition of integer powers at e >= 0 and positivity"""
        return [P(z3.IntVal(0)) == 1, z3.Implies(e >= 0, P(e + 1) == c * P(e)), z3.Implies(e >= 0, P(e) >= 1), z3.Implies(e >= 0, P(e + 1) >= 1)]
    base = pw_facts(mn(k)) + pw_facts(k)
    ctx.it.base_facts += base
    nb = lambda j: g(NB, j)
    ns = lambda j: g(NS, j)
    def counts():
        ctx.oblige('nodes of stage k = combinations^min(k, n_robust)', ns(k) == P(mn(k)), [P(mn(k)) >= 1])
        ctx.oblige('nodes of the last stage', ns(N) == P(RR))
        ctx.oblige('branches = combinations before n_robust', nb(k) == z3.If(k < R, c, 1))
        ctx.oblige('nodes of next stage = nodes * branches', ns(k + 1) == ns(k) * nb(k))
    ctx.cases(counts)
    nsk = ns(k); nbk = nb(k)
    s = ctx.fresh('s', 0, nsk); b = ctx.fresh('b', 0, nbk)
    # product facts for the nonlinear reasoning (trivial: product of non-negative numbers)
    prod = [(nsk - 1 - s) * nbk >= 0, s * nbk >= 0]
    ctx.it.base_facts += prod
    it.lib.hooks['hints'] = divmod_hints
    def children():
        ch = g(child, k, s, b)
        ctx.oblige('child is a node of the next stage', z3.And(ch >= 0, ch < ns(k + 1)))
        ctx.oblige('parent of a child is the node it was created from', g(parent, k + 1, ch) == s)
    ctx.cases(children)
    s2 = ctx.fresh('s2', 0, nsk); b2 = ctx.fresh('b2', 0, nbk)
    def injective():
        c1 = g(child, k, s, b); c2 = g(child, k, s2, b2)
        ctx.oblige('no node has two origins', z3.Implies(c1 == c2, z3.And(s == s2, b == b2)), lemma_divmod(nbk, s, b, s2, b2))
    ctx.cases(injective)
    j = ctx.fresh('j', 0, P(mn(k + 1)))
    def onto():
        # witness: some (s, b) has child j.  By injectivity and equal finite cardinality (ns(k)*nb(k) = ns(k+1)) the map is onto;
        # the direct witness s = j div nb, b = j mod nb is tried first
        q, r = j / nbk, j % nbk
        h = [q * nbk + r == j, r >= 0, r < nbk, q >= 0, (q - nsk) * nbk == q * nbk - nsk * nbk, z3.Implies(q >= nsk, (q - nsk) * nbk >= 0)]
        it.base_facts += h
        ctx.oblige('witness in range', z3.And(q >= 0, q < nsk, r >= 0, r < nbk))
        ctx.oblige('every node of the next stage is a child', g(child, k, q, r) == j)
    ctx.cases(onto)
    def offsets():
        o = g(off, k, s)
        ctx.oblige('b-th branch uses b-th combination while branching', z3.Implies(k < R, o == 0))
        ctx.oblige('without branching the nominal combination is used', z3.Implies(R == 0, o == 0))
        ctx.oblige('combination index is valid', z3.And(o + b >= 0, o + b < c), mod_facts(s, c))
    ctx.cases(offsets)
    def keeps():
        # stage k+1 beyond the robust horizon continues the combination used on the branch leading to it
        it.base_facts.append(k + 1 < N)
        ch = g(child, k, s, b)
        it.base_facts += [ch >= 0]
        o1 = g(off, k + 1, ch)
        ctx.oblige('combination kept after the robust horizon', z3.Implies(z3.And(k + 1 >= R, R >= 1), o1 == g(off, k, s) + b),
                   mod_facts(s, c) + [z3.Implies(z3.And(0 <= b, b < c), (s * c + b) % c == b), z3.Implies(z3.And(0 <= b, b < c), (c * s + b) % c == b)])
    nbase = len(it.base_facts)
    ctx.cases(keeps)
    del it.base_facts[nbase:]
    tree = it.getattr(me, 'scenario_tree')
    tab = it.getitem(tree, 'structure_scenario')
    for key, val in (('n_branches', NB), ('n_scenarios', NS), ('parent_scenario', parent), ('branch_offset', off)):
        ctx.true('recorded table ' + key, it.getitem(tree, key) is val, 'scenario_tree[%r] is not the table that is used' % key)
    M = P(RR)
    leaf = ctx.fresh('leaf', 0, M)
    # power split at min(k,R): lemma pow_add (proved by induction below)
    for e in (mn(k), mn(k + 1)):
        it.base_facts += [M == P(e) * P(RR - e), P(RR - e) >= 1, P(e) >= 1, M >= 1]
    def path():
        kk = k
        n1 = g(tab, kk + 1, leaf); n0 = g(tab, kk, leaf)
        d0, d1 = P(RR - mn(kk)), P(RR - mn(kk + 1))
        a0, a1 = P(mn(kk)), P(mn(kk + 1))
        h = [z3.Implies(z3.And(a0 >= 1), M / a0 == d0), z3.Implies(a1 >= 1, M / a1 == d1), d0 == z3.If(kk < R, c * d1, d1),
             z3.Implies(d1 >= 1, (leaf / d1) / c == leaf / (c * d1)), leaf / z3.IntVal(1) == leaf]
        for x in h[:]: pass
        ctx.oblige('path table: node of a leaf', z3.And(n1 == leaf / d1, n0 == leaf / d0), h)
        # then the parent (origin) of the (k+1)-node is the k-node
        it.base_facts.append(z3.And(n1 >= 0, n1 < ns(kk + 1)))
        q, r = n1 / nbk, n1 % nbk
        hh = h + [q * nbk + r == n1, r >= 0, r < nbk, (q - nsk) * nbk == q * nbk - nsk * nbk, z3.Implies(q >= nsk, (q - nsk) * nbk >= 0), z3.Implies(nbk == 1, q == n1)]
        it.base_facts += hh + [z3.And(q >= 0, q < nsk)]
        ctx.oblige('the path node is a child of the previous path node', z3.And(n0 == q, g(child, kk, q, r) == n1), hh)
    nbase = len(it.base_facts)
    ctx.cases(path)
    del it.base_facts[nbase:]
    def ends():
        ctx.oblige('paths start at the root', g(tab, 0, leaf) == 0, [M / 1 == M, z3.Implies(z3.And(leaf >= 0, leaf < M), leaf / M == 0), P(z3.IntVal(0)) == 1])
        ctx.oblige('paths end at their leaf', g(tab, N, leaf) == leaf, [M / M == 1, leaf / 1 == leaf])
    ctx.cases(ends)

def it_get(it, o, ix):
    for x in ix:
        o = it.getitem(o, mkint(x) if is_z(x) else x)
    return o

def mod_facts(s, n):
    return [s % n >= 0, s % n < n]

def lemma_divmod(n, s, b, s2, b2):
    """0<=b,b2<n and n*s+b == n*s2+b2 -> s==s2 and b==b2   (lemma 'divmod-unique', proved separately)"""
    pre = z3.And(0 <= b, b < n, 0 <= b2, b2 < n)
    return [z3.Implies(z3.And(pre, n * s + b == n * s2 + b2), z3.And(s == s2, b == b2))]

def divmod_hints(it, e, q, ren, inst):
    """uniqueness hint for index patterns n*s+b: pair every two binders of the entry with their instances"""
    out = []
    m1 = {v.decl().name(): x for v, x in ren}
    m2 = {v.decl().name(): x for v, x in inst}
    bs = e.binders
    for i in range(len(bs)):
        for j in range(len(bs)):
            if i == j: continue
            A, B = bs[i], bs[j]
            n = subst(zi(B.hi), inst)
            if A.name in m1 and B.name in m1 and A.name in m2 and B.name in m2:
                out += lemma_divmod(n, m1[A.name], m1[B.name], m2[A.name], m2[B.name])
    return out

def bounds_hints(it, zk, zn):
    """the b-th branch of node s < c**e has index s*c+b < c**(e+1) <= c**R"""
    out = []
    bs = [L.binder.var for L in it.loops if L.binder is not None]
    for k in bs:
        e = z3.If(k <= R, k, R)
        e1 = z3.If(k + 1 <= R, k + 1, R)
        P0, P1 = POW(c, e), POW(c, e1)
        out += [z3.Implies(z3.And(k >= 0, k < R), P1 == c * P0), z3.Implies(k >= R, P1 == P0), z3.Implies(z3.And(k >= 0, k < N), P1 <= POW(c, RR)), z3.Implies(k >= 0, P0 >= 1)]
        for s in bs:
            out.append(z3.Implies(z3.And(s >= 0, s < P0), s * c <= P0 * c - c))
    return out

def lemmas(ctx):
    """side lemmas, proved from the definitions"""
    n, s, b, s2, b2 = z3.Ints('n s b s2 b2')
    d = s - s2
    pre = [0 <= b, b < n, 0 <= b2, b2 < n, n * s + b == n * s2 + b2]
    hints = [z3.Implies(d >= 1, n * d >= n), z3.Implies(d <= -1, n * d <= -n), n * d == n * s - n * s2]
    ctx.it.base_facts += []
    r1 = smt.prove([n >= 1, d >= 1], n * d >= n); r2 = smt.prove([n >= 1, d <= -1], n * d <= -n)
    ctx.oblige('lemma product-monotone', z3.BoolVal(r1 is True and r2 is True))
    ctx.oblige('lemma divmod-unique', z3.Implies(z3.And(*pre), z3.And(s == s2, b == b2)), [z3.Implies(n >= 1, h) for h in hints])
    # pow_add by induction on e: P(a) * P(e) == P(a+e)
    a, e, x = z3.Ints('a e x')
    step = [e >= 0, a >= 0, x >= 1, POW(x, e + 1) == x * POW(x, e), POW(x, a + e + 1) == x * POW(x, a + e), POW(x, a) * POW(x, e) == POW(x, a + e)]
    t = z3.Int('t')
    ctx.oblige('lemma pow-add, base', z3.Implies(POW(x, z3.IntVal(0)) == 1, POW(x, a) * POW(x, z3.IntVal(0)) == POW(x, a)))
    ctx.oblige('lemma pow-add, step', z3.Implies(z3.And(*step), POW(x, a) * (x * POW(x, e)) == POW(x, a + e + 1)),
               [POW(x, a) * (x * POW(x, e)) == x * (POW(x, a) * POW(x, e))])
    ctx.oblige('lemma pow-positive, step', z3.Implies(z3.And(x >= 1, POW(x, e) >= 1, POW(x, e + 1) == x * POW(x, e)), POW(x, e + 1) >= 1))

refuter = Refuter({'N': [1, 2, 3, 4], 'R': [0, 1, 2, 3], 'c': [1, 2, 3]}, dom=9)

CONTRACTS = [('scenario tree', run, refuter), ('lemmas', lemmas, None)]
