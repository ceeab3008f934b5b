"""scenario tree on the real code: all (N, R, c) up to a bound"""
from bat.util import *
import numpy as np
RULE = 'every (n_horizon, n_robust, number of parameter combinations) up to the stated bound; the tree is built by the real controller and compared with the mathematical tree'
def cases(tier, rng):
    hi = 5 if tier == 'quick' else 8
    out = []
    for c in ([1], [2], [3], [2, 2], [3, 2], [5]):
        n = int(np.prod(c))
        for N in range(1, hi + 1):
            for R in range(0, N + 2):
                if n ** min(R, N) <= (300 if tier == 'quick' else 1500): out.append({'c': c, 'N': N, 'R': R})
    return out
def run(case):
    import do_mpc
    from bat import gen
    N, R, c = case['N'], case['R'], int(np.prod(case['c']))
    m = do_mpc.model.Model('discrete')
    x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u')
    p = [m.set_variable('_p', 'p%d' % i) for i in range(len(case['c']))]
    m.set_rhs('x', x + u + sum(p)); m.setup()
    mpc = do_mpc.controller.MPC(m)
    mpc.settings.n_horizon = N; mpc.settings.n_robust = R; mpc.settings.t_step = 1.0
    mpc.set_objective(lterm=x, mterm=x); mpc.set_rterm(u=1.0)
    mpc.set_uncertainty_values(**{'p%d' % i: np.arange(1., n + 1) for i, n in enumerate(case['c'])})
    if R <= N:
        mpc.prepare_nlp()
        st = mpc.scenario_tree
    ret = mpc._setup_scenario_tree()
    nb, ns, child, parent, off = ret
    st = mpc.scenario_tree
    RR = min(R, N)
    need(list(ns) == [c ** min(k, R) for k in range(N + 1)], 'number of nodes per stage %s for N=%d R=%d c=%d' % (list(ns), N, R, c))
    need(list(nb) == [c if k < R else 1 for k in range(N)], 'number of branches per stage %s for N=%d R=%d c=%d' % (list(nb), N, R, c))
    combo_of = {}
    for k in range(N):
        seen = []
        for s in range(ns[k]):
            for b in range(nb[k]):
                ch = int(child[k][s][b]); seen.append(ch)
                need(int(parent[k + 1][ch]) == s, 'parent of node %d at stage %d is %d, created from %d (N=%d R=%d c=%d)' % (ch, k + 1, parent[k + 1][ch], s, N, R, c))
                comb = int(off[k][s]) + b
                want = b if k < R else (combo_of.get((k, s), 0))
                need(comb == want, 'branch (%d,%d,%d) uses combination %d, expected %d (N=%d R=%d c=%d)' % (k, s, b, comb, want, N, R, c))
                combo_of[k + 1, ch] = comb
        need(sorted(seen) == list(range(ns[k + 1])), 'children of stage %d are %s, nodes of the next stage: %d (N=%d R=%d c=%d)' % (k, sorted(seen)[:20], ns[k + 1], N, R, c))
    tab = np.asarray(st['structure_scenario'])
    need(tab.shape == (N + 1, ns[N]), 'shape of structure_scenario %s (N=%d R=%d c=%d)' % (tab.shape, N, R, c))
    for leaf in range(ns[N]):
        node = leaf
        for k in range(N, -1, -1):
            need(int(tab[k, leaf]) == node, 'structure_scenario[%d,%d]=%d, the path of the leaf goes through node %d (N=%d R=%d c=%d)' % (k, leaf, tab[k, leaf], node, N, R, c))
            if k: node = int(parent[k][node])
    for key, val in (('n_branches', nb), ('n_scenarios', ns), ('parent_scenario', parent), ('branch_offset', off)):
        need(np.array_equal(np.asarray(st[key]), np.asarray(val)), 'scenario_tree[%r] differs from the tree that is used' % key)
