"""Contract of MPC._prepare_nlp: the optimization problem for every horizon, robust horizon, number of combinations,
number of collocation points and every dimension.  Callees by contract: _setup_scenario_tree (C01), _setup_discretization (C07),
_setup_nl_cons (C04, nlcons.py), _check_validity (frame only), the user functions as uninterpreted functions."""
from .opt import *
from .. import smt

N, R, c, M = I('N'), I('R'), I('c'), I('n_colloc')
K, S = z3.IntSort(), z3.IntSort()
NSf = z3.Function('NS', S, S); NBf = z3.Function('NB', S, S)
CHf = z3.Function('CHILD', S, S, S, S); PAf = z3.Function('PARENT', S, S, S); OFf = z3.Function('OFFSET', S, S, S)
GROWS = I('rows_G')
MAXS = POW(c, R)
PRE = [N >= 1, R >= 0, R <= N, c >= 1, M >= 0, GROWS >= 0, MAXS >= 1] + DIMFACTS

def tree_instances():
    """postcondition of _setup_scenario_tree proved under C01, instantiated for every table entry that occurs in a query"""
    A, I_ = z3.And, z3.Implies
    def ns(k): return [I_(A(k >= 0, k <= N), A(NSf(k) >= 1, NSf(k) <= MAXS)), NSf(z3.IntVal(0)) == 1]
    def nb(k): return [I_(A(k >= 0, k < N), A(NBf(k) >= 1, NBf(k) <= c))]
    def ch(k, s, b):
        x = CHf(k, s, b)
        return [I_(A(k >= 0, k < N, s >= 0, s < NSf(k), b >= 0, b < NBf(k)), A(x >= 0, x < NSf(k + 1), PAf(k + 1, x) == s))]
    def pa(k, j): return [I_(A(k >= 1, k <= N), PAf(k, z3.IntVal(0)) == 0), I_(A(k >= 1, k <= N, j >= 0, j < NSf(k)), A(PAf(k, j) >= 0, PAf(k, j) < NSf(k - 1)))]
    def of(k, s): return [I_(A(k >= 0, k < N, s >= 0, s < NSf(k)), A(OFf(k, s) >= 0, OFf(k, s) + NBf(k) <= c))]
    smt.REG.update({'NS': ns, 'NB': nb, 'CHILD': ch, 'PARENT': pa, 'OFFSET': of})

def tree_contract(it):
    T = lambda f: (lambda q: mkint(f(*q)))
    Mx, n = mkint(MAXS), mkint(N)
    return (PArr([n], T(NBf), 'int'), PArr([mkint(N + 1)], T(NSf), 'int'), PArr([n, Mx, mkint(c)], T(CHf), 'int'), PArr([mkint(N + 1), Mx], T(PAf), 'int'), PArr([n, Mx], T(OFf), 'int'))

def prestate(ctx, fl):
    it = ctx.it
    it.base_facts += PRE
    tree_instances()
    W = World(it)
    m = model(it, W)
    cls = it.find('do_mpc.controller._mpc:MPC')
    scls = it.find('do_mpc.controller._controllersettings:MPCSettings')
    st = PObj(scls, name='settings')
    st.attrs = {'n_horizon': SInt(N), 'n_robust': SInt(R), 't_step': Term('sym', ('t_step',), 1, 1), 'open_loop': fl.get('open_loop', False), 'nl_cons_single_slack': fl.get('single', False),
                'nl_cons_check_colloc_points': fl.get('nlcp', False), 'cons_check_colloc_points': fl.get('ccp', True), 'use_terminal_bounds': True,
                'state_discretization': 'collocation', 'collocation_type': 'radau', 'collocation_deg': SInt(I('deg')), 'collocation_ni': SInt(I('ni')),
                'store_full_solution': False, 'store_lagr_multiplier': True, 'store_solver_stats': PList([]), 'nlpsol_opts': PDict({})}
    me = PObj(cls, name='mpc')
    # a parameter vector as model sees it; every other attribute below is data of the object
    a = me.attrs
    a.update({'_settings': st, 'model': m, 'n_combinations': SInt(c), 'flags': PDict({'prepare_nlp': False, 'setup': False, 'rterm_fun': fl.get('rterm', False), 'set_objective': True, 'set_rterm': True, 'set_tvp_fun': True, 'set_p_fun': True, 'initial_run': False})})
    for k in ('_x', '_u', '_z'):
        a[k + '_scaling'] = W.st(k, k + '_scaling', 'num')
        for b in ('_lb', '_ub'): a[k + b] = W.st(k, k + b, 'num')
    a['_p_scaling'] = W.st('_p', '_p_scaling', 'num')
    a['_x_terminal_lb'] = W.st('_x', '_x_terminal_lb', 'num'); a['_x_terminal_ub'] = W.st('_x', '_x_terminal_ub', 'num')
    a['_eps'] = W.st('_eps'); a['_eps_lb'] = W.st('_eps', '_eps_lb', 'num'); a['_eps_ub'] = W.st('_eps', '_eps_ub', 'num')
    a['rterm_factor'] = W.st('_u', 'rterm_factor', 'num')
    a['lterm_fun'] = UFun('lterm', [('', 1)]); a['mterm_fun'] = UFun('mterm', [('', 1)]); a['rterm_fun'] = UFun('rterm', [('', 1)])
    ix = it.find('do_mpc.optimizer:Optimizer')
    contracts = it.contracts
    used = ctx.res.__dict__.setdefault('contracted', set())
    def con(q, f):
        def h(it, args, kw):
            used.add(q); return f(it, args, kw)
        contracts['*.' + q] = h
    con('_setup_scenario_tree', lambda it, args, kw: tree_contract(it))
    con('_setup_discretization', lambda it, args, kw: (UFun('ifcn', [('G', GROWS), ('XF', DIMS['_x'])], single=False), SInt(M)))
    def nlc(it, args, kw):
        if len(args) != 2: raise Unsupported('_setup_nl_cons')
        names = [x.name if isinstance(x, PStruct) else None for x in args[1].elems()]
        ctx.true('nl_cons inputs', names == ['_x', '_u', '_z', '_tvp', '_p'], 'inputs of the constraint function: %s' % names)
        o = args[0]
        it.setattr(o, '_nl_cons_fun', UFun('nl_cons', [('', DIMS['_nl'])])); it.setattr(o, 'epsterm_fun', UFun('epsterm', [('', 1)]))
        it.setattr(o, '_nl_cons_lb', W.st('_nl', '_nl_cons_lb', 'num')); it.setattr(o, '_nl_cons_ub', W.st('_nl', '_nl_cons_ub', 'num'))
        it.setattr(o, 'n_eps', mkint(DIMS['_eps']))
        return None
    con('_setup_nl_cons', nlc)
    con('_check_validity', lambda it, args, kw: None)
    con('_prepare_data', lambda it, args, kw: None)
    return it, W, m, me

class Spec:
    """mathematical description of the problem over the decision vector ox and parameters op"""
    def __init__(self, ctx, it, W, fl, me):
        self.it = it; self.fl = fl
        # decision and parameter structures are the two composite symbolic structures with the documented entries
        cand = {tuple(sorted(s.layout.entries)): s for s in W.made}
        self.ox = cand.get(('_eps', '_u', '_x', '_z')); self.op = cand.get(('_p', '_tvp', '_u_prev', '_x0'))
        if self.ox is None or self.op is None: raise Unsupported('decision or parameter structure not found')
        it.true = ctx.true
        dims = lambda s, n: [zi(d) for d in s.layout.entries[n][0]]
        ML = POW(c, R)
        want = {'_x': [N + 1, ML, M + 1], '_z': [N, ML, z3.If(M >= 1, M, 1)], '_u': [N, z3.IntVal(1) if fl.get('open_loop') else ML], '_eps': [z3.IntVal(1) if fl.get('single') else N, ML]}
        for n, w in want.items():
            d = dims(self.ox, n)
            ctx.oblige('shape of %s' % n, z3.And(*[x == y for x, y in zip(d, w)]) if len(d) == len(w) else z3.BoolVal(False))
        for n, w in {'_tvp': [N + 1], '_p': [c], '_x0': [], '_u_prev': []}.items():
            d = dims(self.op, n)
            ctx.oblige('shape of parameter %s' % n, z3.And(z3.BoolVal(len(d) == len(w)), *[x == y for x, y in zip(d, w)]))
        self.sc = {k: Term('sym', (k + '_scaling',), DIMS[k], 1) for k in ('_x', '_u', '_z')}
    def v(self, n, *q): return Term('var', (self.ox.name, n) + tuple(zi(x) for x in q), DIMS[n], 1)
    def p(self, n, *q): return Term('var', (self.op.name, n) + tuple(zi(x) for x in q), DIMS[{'_x0': '_x', '_u_prev': '_u'}.get(n, n)], 1)
    def x(self, k, s, i=M): return self.v('_x', k, s, i)
    def u(self, k, s): return self.v('_u', k, 0 if self.fl.get('open_loop') else s)
    def z(self, k, s, i): return self.v('_z', k, s, i)
    def eps(self, k, s): return self.v('_eps', 0 if self.fl.get('single') else k, s)
    def X(self, *a): return mk('mul', self.x(*a), self.sc['_x'])
    def U(self, *a): return mk('mul', self.u(*a), self.sc['_u'])
    def Z(self, *a): return mk('mul', self.z(*a), self.sc['_z'])
    def binders(self):
        k, s, b = fresh_int('sk'), fresh_int('ss'), fresh_int('sb')
        return k, s, b, [Binder(k, 0, mkint(N)), Binder(s, 0, mkint(NSf(k))), Binder(b, 0, mkint(NBf(k)))]
    def facts(self, k, s, b):
        g = z3.And(k >= 0, k < N, s >= 0, s < NSf(k), b >= 0, b < NBf(k))
        return g
    def eqrows(self):
        rows = [([], TRUE, mk('sub', self.x(0, 0), mk('div', self.p('_x0'), self.sc['_x'])), C(0), C(0))]
        k, s, b, bs = self.binders()
        ch = CHf(k, s, b); combo = b + OFf(k, s)
        i = fresh_int('si')
        colx = Term('vcat', ([Seg('r', b=Binder(i, 0, mkint(M)), guard=TRUE, segs=[E(self.x(k + 1, ch, i))])],), None, 1)
        j = fresh_int('sj')
        colz = Term('vcat', ([Seg('r', b=Binder(j, 0, mkint(z3.If(M >= 1, M, z3.IntVal(1)))), guard=TRUE, segs=[E(self.z(k, ch, j))])],), None, 1)
        w = Term('c', (Fraction(0),), DIMS['_w'], 1)
        args = [self.x(k, s), colx, self.u(k, s), colz, self.p('_tvp', k), self.p('_p', combo), w]
        rows.append((bs, TRUE, Term('call', ('ifcn.G',) + tuple(args), GROWS, 1), C(0), C(0)))
        rows.append((bs, TRUE, mk('sub', Term('call', ('ifcn.XF',) + tuple(args), DIMS['_x'], 1), self.x(k + 1, ch)), C(0), C(0)))
        return rows
    def nlrows(self):
        k, s, b, bs = self.binders()
        ch = CHf(k, s, b); combo = b + OFf(k, s)
        lb, ub = Term('sym', ('_nl_cons_lb',), DIMS['_nl'], 1), Term('sym', ('_nl_cons_ub',), DIMS['_nl'], 1)
        f = lambda x, z: Term('call', ('nl_cons', x, self.U(k, s), z, self.p('_tvp', k), self.p('_p', combo), self.eps(k, s)), DIMS['_nl'], 1)
        rows = [(bs, TRUE, f(self.X(k, s), self.Z(k, ch, 0)), lb, ub)]
        if self.fl.get('nlcp'):
            # collocation point i (1 .. M-1) of the interval k is stored with the child node at index i-1
            i = fresh_int('si')
            rows.append((bs + [Binder(i, 1, mkint(z3.If(M >= 1, M, z3.IntVal(1))))], TRUE, f(self.X(k + 1, ch, i - 1), self.Z(k, ch, i)), lb, ub))
        return rows
    def objective(self):
        k, s, b, bs = self.binders()
        ch = CHf(k, s, b); combo = b + OFf(k, s)
        om = mk('div', C(1), C(SInt(NSf(k + 1))))
        zl = self.Z(k, ch, z3.If(M >= 1, M - 1, z3.IntVal(0)))
        st = Term('call', ('lterm', self.X(k, s), self.U(k, s), zl, self.p('_tvp', k), self.p('_p', combo)), 1, 1)
        eps = Term('call', ('epsterm', self.eps_phys(k, s)), 1, 1)
        mt = Term('call', ('mterm', self.X(k + 1, ch), self.p('_tvp', k + 1), self.p('_p', combo)), 1, 1)
        def prev(scaled):
            par = PAf(k, s) if not self.fl.get('open_loop') else z3.IntVal(0)
            if scaled: return Term('ite', (k == 0, mk('div', self.p('_u_prev'), self.sc['_u']), self.v('_u', k - 1, par)), DIMS['_u'], 1)
            return Term('ite', (k == 0, self.p('_u_prev'), mk('mul', self.v('_u', k - 1, par), self.sc['_u'])), DIMS['_u'], 1)
        if self.fl.get('rterm'):
            par = PAf(k, s) if not self.fl.get('open_loop') else z3.IntVal(0)
            r = lambda up: Term('call', ('rterm', self.X(k, s), self.U(k, s), up, zl, self.p('_tvp', k), self.p('_p', combo)), 1, 1)
            rt = Term('ite', (k == 0, r(self.p('_u_prev')), r(mk('mul', self.v('_u', k - 1, par), self.sc['_u']))), 1, 1)
        else:
            d = mk('sub', self.u(k, s), prev(True))
            rt = mk('matmul', mk('T', Term('sym', ('rterm_factor',), DIMS['_u'], 1)), mk('pow', d, C(2)))
        def fam(t, g=TRUE): return family(bs, g, t)
        tot = fam(mk('mul', om, st))
        tot = mk('add', tot, fam(eps))
        tot = mk('add', tot, fam(mk('mul', om, mt), k == N - 1))
        return mk('add', tot, fam(rt))
    def eps_phys(self, k, s): return self.eps(k, s)

def run_prepare(ctx, fl):
    it, W, m, me = prestate(ctx, fl)
    it.call(it.getattr(me, '_prepare_nlp'), [], {})
    sp = Spec(ctx, it, W, fl, me)
    return it, me, sp

def is_eq_row(r):
    lb, ub = bnd(r[3]), bnd(r[4])
    z = lambda t: t.op == 'c' and t.args[0] == 0
    return z(lb) and z(ub)

def cons_rows(ctx, it, me, sp):
    cons, lb, ub = me.attrs.get('_nlp_cons'), me.attrs.get('_nlp_cons_lb'), me.attrs.get('_nlp_cons_ub')
    if not all(isinstance(x, PList) for x in (cons, lb, ub)): raise Unsupported('constraint lists')
    return rows_zip(it, ctx, cons, lb, ub)

def c02(fl):
    def run(ctx):
        it, me, sp = run_prepare(ctx, fl)
        rows = cons_rows(ctx, it, me, sp)
        if rows is None: return ctx.unknown('bounds accompany every constraint', 'constraint and bound lists differ in structure')
        ctx.ok('bounds accompany every constraint')
        eq_bags(ctx, 'equality constraints are exactly the initial condition and the model along every branch', lambda sign: (bag([r for r in rows if is_eq_row(r)], sign), bag(sp.eqrows(), sign)))
    return run
def c04(fl):
    def run(ctx):
        it, me, sp = run_prepare(ctx, fl)
        rows = cons_rows(ctx, it, me, sp)
        if rows is None: return ctx.unknown('bounds accompany every constraint', 'constraint and bound lists differ in structure')
        ctx.eq('inequality constraints are exactly the user constraints on every branch', bag([r for r in rows if not is_eq_row(r)]), bag(sp.nlrows()))
    return run
def c03(fl):
    def run(ctx):
        it, me, sp = run_prepare(ctx, fl)
        ctx.eq('objective', vec(me.attrs.get('_nlp_obj')), sp.objective())
    return run

import itertools as itl
def combos(*names):
    return [dict(zip(names, v)) for v in itl.product([False, True], repeat=len(names))]
def label(fl): return ', '.join(k if v else 'no ' + k for k, v in fl.items())

def ufs(p):
    """a small scenario tree for the refutation search"""
    n, r, cc = p['N'], p['R'], p['c']
    ns = [cc ** min(k, r) for k in range(n + 1)]
    nb = [cc if k < r else 1 for k in range(n)]
    def tab(f):
        def g(*a):
            try: return f(*a)
            except (IndexError, KeyError, AssertionError): return None
        return g
    def chk(v, lo, hi):
        assert lo <= v < hi
        return v
    return {'NS': tab(lambda k: ns[chk(k, 0, n + 1)]), 'NB': tab(lambda k: nb[chk(k, 0, n)]),
            'CHILD': tab(lambda k, s, b: chk(s, 0, ns[chk(k, 0, n)]) * nb[k] + chk(b, 0, nb[k])),
            'PARENT': tab(lambda k, j: chk(j, 0, ns[chk(k, 1, n + 1)]) // nb[k - 1]),
            'OFFSET': tab(lambda k, s: 0 if k < r or r == 0 else chk(s, 0, ns[chk(k, 0, n)]) % cc)}
refuter = Refuter({'N': [1, 2, 3], 'R': [0, 1, 2], 'c': [2, 1], 'n_colloc': [2, 0]}, ufs=ufs, dom=2, where=lambda p: p['R'] <= p['N'])
