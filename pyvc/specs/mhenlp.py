"""Contract of MHE._prepare_nlp and MHE._update_bounds: the estimation problem for every horizon, number of collocation points and
every dimension.  Callees by contract: _setup_discretization (C07), _setup_nl_cons (C04), _check_validity, the functions of the model
and the user as uninterpreted functions, _p_cat_fun (arrangement of estimated and fixed parameters) uninterpreted."""
from .mpcnlp import *
from .mpcnlp import refuter as _r

for k in ('_p_est', '_p_set'): DIMS.setdefault(k, I('n' + k))
DIMFACTS_MHE = DIMFACTS + [DIMS['_p_est'] >= 0, DIMS['_p_set'] >= 0]
PRE_MHE = [N >= 1, M >= 0, GROWS >= 0] + DIMFACTS_MHE

def mhe_prestate(ctx, fl):
    it = ctx.it
    it.base_facts += PRE_MHE
    W = World(it)
    for k in ('_p_est', '_p_set'): W.L.setdefault(k, Layout(k, None, mkint(DIMS[k])))
    m = model(it, W)
    st = PObj(it.find('do_mpc.estimator._estimatorsettings:MHESettings'), name='settings')
    st.attrs = {'n_horizon': SInt(N), 't_step': Term('sym', ('t_step',), 1, 1), 'meas_from_data': True, 'nl_cons_single_slack': fl.get('single', False),
                'nl_cons_check_colloc_points': fl.get('nlcp', False), 'cons_check_colloc_points': fl.get('ccp', True),
                'state_discretization': 'collocation', 'collocation_type': 'radau', 'collocation_deg': SInt(I('deg')), 'collocation_ni': SInt(I('ni')),
                'store_full_solution': False, 'store_lagr_multiplier': True, 'store_solver_stats': PList([]), 'nlpsol_opts': PDict({})}
    me = PObj(it.find('do_mpc.estimator._mhe:MHE'), name='mhe')
    a = me.attrs
    a.update({'_settings': st, 'settings': st, 'model': m, 'flags': PDict({'prepare_nlp': False, 'setup': False, 'set_objective': True, 'set_tvp_fun': True, 'set_p_fun': True, 'set_y_fun': True, 'initial_run': False, 'set_initial_guess': False})})
    for k in ('_x', '_u', '_z', '_p_est'):
        a[k + '_scaling'] = W.st(k, k + '_scaling', 'num')
        for b in ('_lb', '_ub'): a[k + b] = W.st(k, k + b, 'num')
    a['_p_set_scaling'] = W.st('_p_set', '_p_set_scaling', 'num')
    a['_p_est'] = W.st('_p_est'); a['_p_est_prev'] = W.st('_p_est', '_p_est_prev'); a['_p_set'] = W.st('_p_set')
    a['n_p_est'] = mkint(DIMS['_p_est']); a['n_p_set'] = mkint(DIMS['_p_set'])
    a['_eps'] = W.st('_eps'); a['_eps_lb'] = W.st('_eps', '_eps_lb', 'num'); a['_eps_ub'] = W.st('_eps', '_eps_ub', 'num')
    a['stage_cost_fun'] = UFun('stage_cost', [('', 1)]); a['arrival_cost_fun'] = UFun('arrival_cost', [('', 1)])
    a['_p_cat_fun'] = UFun('p_cat', [('', DIMS['_p'])])
    it.find('do_mpc.optimizer:Optimizer')
    used = ctx.res.__dict__.setdefault('contracted', set())
    def con(q, f):
        def h(it, args, kw):
            used.add(q); return f(it, args, kw)
        it.contracts['*.' + q] = h
    con('_setup_discretization', lambda it, args, kw: (UFun('ifcn', [('G', GROWS), ('XF', DIMS['_x'])], single=False), SInt(M)))
    def nlc(it, args, kw):
        if len(args) != 2: raise Unsupported('_setup_nl_cons')
        names = [x.name if isinstance(x, PStruct) else None for x in args[1].elems()]
        ctx.true('nl_cons inputs', names == ['_x', '_u', '_z', '_tvp', '_p_est', '_p_set'], 'inputs of the constraint function: %s' % names)
        o = args[0]
        it.setattr(o, '_nl_cons_fun', UFun('nl_cons', [('', DIMS['_nl'])])); it.setattr(o, 'epsterm_fun', UFun('epsterm', [('', 1)]))
        it.setattr(o, '_nl_cons_lb', W.st('_nl', '_nl_cons_lb', 'num')); it.setattr(o, '_nl_cons_ub', W.st('_nl', '_nl_cons_ub', 'num'))
        it.setattr(o, 'n_eps', mkint(DIMS['_eps']))
    con('_setup_nl_cons', nlc)
    con('_check_validity', lambda it, args, kw: None)
    con('_prepare_data', lambda it, args, kw: None)
    return it, W, m, me

class MSpec:
    def __init__(self, ctx, it, W, fl, me):
        self.it = it; self.fl = fl
        cand = {tuple(sorted(s.layout.entries)): s for s in W.made}
        self.ox = cand.get(('_eps', '_p_est', '_u', '_v', '_w', '_x', '_z')); self.op = cand.get(('_p_est_prev', '_p_set', '_tvp', '_x_prev', '_y_meas'))
        if self.ox is None or self.op is None: raise Unsupported('decision or parameter structure not found')
        dims = lambda s, n: [zi(d) for d in s.layout.entries[n][0]]
        want = {'_x': [N + 1, M + 1], '_z': [N, z3.If(M >= 1, M, 1)], '_u': [N], '_w': [N], '_v': [N], '_eps': [z3.IntVal(1) if fl.get('single') else N], '_p_est': []}
        for s, ws in ((self.ox, want), (self.op, {'_tvp': [N], '_y_meas': [N], '_x_prev': [], '_p_est_prev': [], '_p_set': []})):
            for n, w in ws.items():
                d = dims(s, n)
                ctx.oblige('shape of %s' % n, z3.And(z3.BoolVal(len(d) == len(w)), *[x == y for x, y in zip(d, w)]))
        self.sc = {k: Term('sym', (k + '_scaling',), DIMS[k], 1) for k in ('_x', '_u', '_z', '_p_est', '_p_set')}
    def v(self, n, *q): return Term('var', (self.ox.name, n) + tuple(zi(x) for x in q), DIMS[n], 1)
    def p(self, n, *q): return Term('var', (self.op.name, n) + tuple(zi(x) for x in q), DIMS[{'_x_prev': '_x', '_p_est_prev': '_p_est', '_y_meas': '_y'}.get(n, n)], 1)
    def X(self, k, i=M): return mk('mul', self.v('_x', k, i), self.sc['_x'])
    def U(self, k): return mk('mul', self.v('_u', k), self.sc['_u'])
    def Z(self, k, i): return mk('mul', self.v('_z', k, i), self.sc['_z'])
    def PE(self): return mk('mul', self.v('_p_est'), self.sc['_p_est'])
    def eps(self, k): return self.v('_eps', 0 if self.fl.get('single') else k)
    def pphys(self): return Term('call', ('p_cat', self.PE(), self.p('_p_set')), DIMS['_p'], 1)
    def pscaled(self): return Term('call', ('p_cat', self.v('_p_est'), mk('div', self.p('_p_set'), self.sc['_p_set'])), DIMS['_p'], 1)
    def eqrows(self):
        k = fresh_int('sk'); bs = [Binder(k, 0, mkint(N))]
        i, j = fresh_int('si'), fresh_int('sj')
        colx = Term('vcat', ([Seg('r', b=Binder(i, 0, mkint(M)), guard=TRUE, segs=[E(self.v('_x', k + 1, i))])],), None, 1)
        colz = Term('vcat', ([Seg('r', b=Binder(j, 0, mkint(z3.If(M >= 1, M, z3.IntVal(1)))), guard=TRUE, segs=[E(self.v('_z', k, j))])],), None, 1)
        args = [self.v('_x', k, M), colx, self.v('_u', k), colz, self.p('_tvp', k), self.pscaled(), self.v('_w', k)]
        meas = Term('call', ('meas', self.X(k + 1), self.U(k), self.Z(k, 0), self.p('_tvp', k), self.pphys(), self.v('_v', k)), DIMS['_y'], 1)
        return [(bs, TRUE, Term('call', ('ifcn.G',) + tuple(args), GROWS, 1), C(0), C(0)),
                (bs, TRUE, mk('sub', Term('call', ('ifcn.XF',) + tuple(args), DIMS['_x'], 1), self.v('_x', k + 1, M)), C(0), C(0)),
                (bs, TRUE, mk('sub', meas, self.p('_y_meas', k)), C(0), C(0))]
    def nlrows(self, last=False):
        """last: the duplicate of the last row of every interval that the code appends (harmless)"""
        k = fresh_int('sk'); bs = [Binder(k, 0, mkint(N))]
        lb, ub = Term('sym', ('_nl_cons_lb',), DIMS['_nl'], 1), Term('sym', ('_nl_cons_ub',), DIMS['_nl'], 1)
        f = lambda x, z: Term('call', ('nl_cons', x, self.U(k), z, self.p('_tvp', k), self.PE(), self.p('_p_set'), self.eps(k)), DIMS['_nl'], 1)
        rows = [(bs, TRUE, f(self.X(k), self.Z(k, 0)), lb, ub)]
        if self.fl.get('nlcp'):
            i = fresh_int('si')
            if not last: rows.append((bs + [Binder(i, 1, mkint(z3.If(M >= 1, M, z3.IntVal(1))))], TRUE, f(self.X(k + 1, i - 1), self.Z(k, i)), lb, ub))
            else: rows = [(bs, M <= 1, f(self.X(k), self.Z(k, 0)), lb, ub), (bs, M > 1, f(self.X(k + 1, M - 2), self.Z(k, M - 1)), lb, ub)]
        return rows
    def objective(self):
        k = fresh_int('sk'); bs = [Binder(k, 0, mkint(N))]
        ar = Term('call', ('arrival_cost', self.X(0), self.p('_x_prev'), self.PE(), self.p('_p_est_prev'), self.p('_p_set')), 1, 1)
        stg = Term('call', ('stage_cost', self.v('_w', k), self.v('_v', k), self.p('_tvp', k), self.pphys()), 1, 1)
        return mk('add', ar, mk('add', family(bs, TRUE, stg), family(bs, TRUE, Term('call', ('epsterm', self.eps(k)), 1, 1))))

def run_mhe(ctx, fl):
    it, W, m, me = mhe_prestate(ctx, fl)
    it.call(it.getattr(me, '_prepare_nlp'), [], {})
    return it, me, MSpec(ctx, it, W, fl, me)

def mhe_rows(ctx, it, me):
    cons, lb, ub = me.attrs.get('_nlp_cons'), me.attrs.get('_nlp_cons_lb'), me.attrs.get('_nlp_cons_ub')
    if not all(isinstance(x, PList) for x in (cons, lb, ub)): raise Unsupported('constraint lists')
    return rows_zip(it, ctx, cons, lb, ub)

def c08_rows(fl):
    def run(ctx):
        it, me, sp = run_mhe(ctx, fl)
        rows = mhe_rows(ctx, it, me)
        if rows is None: return ctx.unknown('bounds accompany every constraint', 'constraint and bound lists differ in structure')
        ctx.ok('bounds accompany every constraint')
        eq_bags(ctx, 'equality constraints are exactly the discretized model and the measurement equations of every step', lambda sign: (bag([r for r in rows if is_eq_row(r)], sign), bag(sp.eqrows(), sign)))
        ctx.eq('scaling of the parameters used by the discretization', struct_whole(me.attrs['_p_scaling']), Term('call', ('p_cat', sp.sc['_p_est'], sp.sc['_p_set']), DIMS['_p'], 1))
    return run
def c08_obj(fl):
    def run(ctx):
        it, me, sp = run_mhe(ctx, fl)
        ctx.eq('objective', vec(me.attrs.get('_nlp_obj')), sp.objective())
    return run
def c04_mhe(fl):
    def run(ctx):
        it, me, sp = run_mhe(ctx, fl)
        rows = mhe_rows(ctx, it, me)
        if rows is None: return ctx.unknown('bounds accompany every constraint', 'constraint and bound lists differ in structure')
        got = bag([r for r in rows if not is_eq_row(r)])
        e = nf.Eq(ctx.facts())
        name = 'MHE inequality constraints are exactly the user constraints at every step (rows may be repeated)'
        if e.eq(got, bag(sp.nlrows()), []): return ctx.ok(name)
        ctx.eq(name, got, bag(sp.nlrows() + sp.nlrows(last=True)))
    return run

def mhe_bounds(fl):
    from .c05 import rd
    def run(ctx):
        it, W, m, me = mhe_prestate(ctx, fl)
        it.call(it.getattr(me, '_prepare_nlp'), [], {})
        sp = MSpec(ctx, it, W, fl, me)
        check(ctx, it, me, sp, fl, '', rd)
        for k in ('_x', '_u', '_z', '_p_est'):
            for b in ('_lb', '_ub'): it.setattr(me, k + b, W.st(k, k + b + '_new', 'num'))
        it.call(it.getattr(me, '_update_bounds'), [], {})
        check(ctx, it, me, sp, fl, '_new', rd)
    def check(ctx, it, me, sp, fl, sfx, rd):
        for side, inf in (('lb', float('-inf')), ('ub', float('inf'))):
            st = me.attrs['_%s_opt_x' % side]
            nm = 'MHE ' + {'lb': 'lower', 'ub': 'upper'}[side] + (' (changed after setup)' if sfx else '')
            B = lambda k: mk('div', Term('sym', ('%s_%s%s' % (k, side, sfx),), DIMS[k], 1), sp.sc[k])
            free = lambda k: mk('mul', C(1), Term(C(inf).op, C(inf).args, DIMS[k], 1))
            k = ctx.fresh('k', 0, N + 1); ku = ctx.fresh('ku', 0, N); i = ctx.fresh('i', 0, M + 1); iz = ctx.fresh('iz', 0, z3.If(M >= 1, M, z3.IntVal(1)))
            def xs(): ctx.eq('%s: state bound at every node of the window' % nm, rd(it, st, '_x', k, M), B('_x'))
            def xc():
                it.assume(z3.And(k >= 1, i < M))
                if fl.get('ccp', True): ctx.eq('%s: state bound at collocation points' % nm, rd(it, st, '_x', k, i), B('_x'))
            def us(): ctx.eq('%s: input bound at every stage' % nm, rd(it, st, '_u', ku), B('_u'))
            def zs(): ctx.eq('%s: bound of the algebraic states' % nm, rd(it, st, '_z', ku, 0), B('_z'))
            def zc():
                if fl.get('ccp', True): ctx.eq('%s: bound of the algebraic states at collocation points' % nm, rd(it, st, '_z', ku, iz), B('_z'))
            def ps(): ctx.eq('%s: bound of the estimated parameters' % nm, rd(it, st, '_p_est'), B('_p_est'))
            def ws(): ctx.eq('%s: process noise is unlimited' % nm, rd(it, st, '_w', ku), free('_w'))
            def vs(): ctx.eq('%s: measurement noise is unlimited' % nm, rd(it, st, '_v', ku), free('_v'))
            def ee():
                ke = z3.IntVal(0) if fl.get('single') else ku
                ctx.eq('%s: bound of the slack variables' % nm, rd(it, st, '_eps', ke), Term('sym', ('_eps_' + side,), DIMS['_eps'], 1))
            for f in (xs, xc, us, zs, zc, ps, ws, vs, ee):
                n0 = len(it.base_facts)
                ctx.cases(f)
                del it.base_facts[n0:]
    return run

refuter_mhe = Refuter({'N': [1, 2, 3], 'n_colloc': [2, 0, 3]}, dom=3)
