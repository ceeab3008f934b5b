"""The user's side of the optimization problems: MPC.__init__, set_objective, set_rterm (C03); MHE.__init__ with its partition of the
parameters, set_objective, set_default_objective (C08).  Every size and expression; bounded in the number of named variables."""
from .c15 import build, Cfg, R, val, reject, replace, refuter
from .c12 import mat, mm
from .mdl import *
import itertools
OPT = 'do_mpc.optimizer:Optimizer'

def fill(v, r):
    t = C(v)
    return Term(t.op, t.args, r, 1)

class ObjWorld:
    """model declared and set up by its real methods, controller or estimator constructed by its real constructor"""
    def __init__(self, ctx, g, cls, *args):
        self.w = w = build(ctx, g); it = self.it = w.it; self.model = w.me; self.ctx = ctx; self.g = g
        it.call(it.getattr(self.model, 'setup'), [], {})
        H = it.lib.hooks
        H['type'] = lambda it, v: H['casadi.tools.struct_sym' + w.ty] if isinstance(v, PStruct) and v.kind == 'sym' else NotImplemented
        def copy(it, v, deep):
            # copying a symbolic structure declares new symbols of the same layout
            if isinstance(v, PStruct) and v.kind == 'sym': return w.sym_struct(it, PList(elems=[StEntry(n, {'shape': base_rows(v.layout.entries[n][1])}) for n in v.layout.entries]))
            return NotImplemented
        H['copy'] = copy
        self.used = {}
        for q in ('Data', 'MPCData'): it.contracts['do_mpc.data:%s.__init__' % q] = lambda it, a, k: None
        self.o = o = PObj(it.find(cls), name='self')
        it.call(it.getattr(o, '__init__'), [self.model] + list(args), {})
        self.S = {t: it.getattr(self.model, t) for t in ('_x', '_u', '_z', '_tvp', '_p', '_w', '_v')}
    def sym(self, st): return [sfn(self.it, st)(n, []) for n in st.layout.entries]
    def num(self, st, tag): return PStruct(st.layout, 'num', content=lambda n, q: val(tag, n, base_rows(st.layout.entries[n][1])), name='VAL' + tag)
    def pairs(self, st, tag): return [(sfn(self.it, st)(n, []), val(tag, n, base_rows(st.layout.entries[n][1]))) for n in st.layout.entries]
    def whole(self, st, tag): return vcat(self.it, [E(val(tag, n, base_rows(st.layout.entries[n][1]))) for n in st.layout.entries])
    def expr(self, name, *structs):
        """an arbitrary expression of these variables"""
        return Term('call', (name,) + tuple(s for st in structs for s in self.sym(st) if not (isinstance(s.rows, int) and s.rows == 0)), 1, 1, self.w.ty)
    def at(self, e, *prs): return replace(e, [p for q in prs for p in q])

def mpc_objective(g, order):
    def run(ctx):
        W = ObjWorld(ctx, g, 'do_mpc.controller._mpc:MPC'); it, o, S = W.it, W.o, W.S
        up = it.getattr(o, 'u_prev')
        ctx.true('previous input: variables of their own', all(a.args != b.args for a, b in zip(W.sym(up), W.sym(S['_u']))) and list(up.layout.entries) == list(S['_u'].layout.entries), '')
        l = W.expr('lterm', S['_x'], S['_u'], S['_z'], S['_tvp'], S['_p']); m_ = W.expr('mterm', S['_x'], S['_tvp'], S['_p'])
        r = W.expr('rterm', S['_x'], S['_u'], up, S['_z'], S['_tvp'], S['_p'])
        def obj(): it.call(it.getattr(o, 'set_objective'), [], {'lterm': l, 'mterm': m_})
        def rt(): it.call(it.getattr(o, 'set_rterm'), [], {'rterm': r})
        for f in ((obj, rt) if order == 0 else (rt, obj)): f()
        V = {t: W.num(S[t], t) for t in S}; P = {t: W.pairs(S[t], t) for t in S}
        call = lambda f, *a: vec(it.call(it.getattr(o, f), list(a), {}))
        ctx.eq('stage cost function', call('lterm_fun', V['_x'], V['_u'], V['_z'], V['_tvp'], V['_p']), W.at(l, *P.values()))
        ctx.eq('terminal cost function', call('mterm_fun', V['_x'], V['_tvp'], V['_p']), W.at(m_, *P.values()))
        ctx.eq('input change cost function', call('rterm_fun', V['_x'], V['_u'], W.num(up, '_up'), V['_z'], V['_tvp'], V['_p']), W.at(r, W.pairs(up, '_up'), *P.values()))
        for k in ('set_objective', 'set_rterm', 'rterm_fun'): ctx.true('flag %s' % k, it.getitem(o.attrs['flags'], k) is True, '')
    return run

def mpc_factors(g, which, form):
    def run(ctx):
        W = ObjWorld(ctx, g, 'do_mpc.controller._mpc:MPC'); it, o, S = W.it, W.o, W.S
        rows = {n: base_rows(S['_u'].layout.entries[n][1]) for n in g.v['_u']}
        kw = {n: Term('sym', ('r' + n,), 1 if form == 'number' else rows[n], 1, 'float' if form == 'number' else 'ndarray') for n in which}
        it.call(it.getattr(o, 'set_rterm'), [], kw)
        f = o.attrs['rterm_factor']
        for n in g.v['_u']:
            got = vec(it.getitem(f, n))
            ctx.eq('factor of the named input', got, Term(kw[n].op, kw[n].args, rows[n], 1) if n in kw else fill(0.0, rows[n]))
        ctx.true('built-in penalty', it.getitem(o.attrs['flags'], 'rterm_fun') is False and it.getitem(o.attrs['flags'], 'set_rterm') is True, '')
        reject(ctx, W.w, 'factor of an unknown input', lambda: it.call(it.getattr(o, 'set_rterm'), [], {'foo': 1.0}))
        reject(ctx, W.w, 'factor that is no number', lambda: it.call(it.getattr(o, 'set_rterm'), [], {g.v['_u'][0]: 'a'}))
    return run

GM = [Cfg(('xa', 'xb'), ('ua', 'ub'), ('za',), ('pa', 'pb'), ('ta',), (), None), Cfg(('xb', 'xa'), ('ua',), (), (), (), (), None, mt='discrete'), Cfg(('xa',), ('ub', 'ua'), ('zb', 'za'), ('pa',), ('tb', 'ta'), (), None, sv='MX')]
C03 = [('MPC.__init__, set_objective, set_rterm (%r, %d)' % (g, k), mpc_objective(g, k), refuter) for g in GM for k in (0, 1)]
C03 += [('MPC.set_rterm of named inputs (%s, %s)' % (','.join(wh), f), mpc_factors(GM[0], wh, f), refuter) for wh in (('ua',), ('ub',), ('ub', 'ua')) for f in ('number', 'vector')]
BOUNDED_OBJ = {'MPC.__init__': 'bounded in the number of named variables', 'MPC.set_rterm of named': 'bounded in the number of named variables'}

# ------------------------------------------------------------------------------------------------- estimator
def partition(g, pest):
    def run(ctx):
        W = ObjWorld(ctx, g, 'do_mpc.estimator._mhe:MHE', PList(elems=list(pest))); it, o, S = W.it, W.o, W.S
        a = o.attrs
        pe, ps = a['_p_est'], a['_p_set']
        est = [n for n in g.v['_p'] if n in pest]
        nm = lambda st: [n for n in st.layout.entries if not (isinstance(base_rows(st.layout.entries[n][1]), int) and base_rows(st.layout.entries[n][1]) == 0)]
        ctx.true('estimated parameters', nm(pe) == est, '%s' % list(pe.layout.entries))
        ctx.true('fixed parameters', nm(ps) == [n for n in g.v['_p'] if n not in pest], '%s' % list(ps.layout.entries))
        ctx.oblige('number of estimated parameters', zi(a['n_p_est']) == size(*[R('_p' + n) for n in est]))
        ctx.oblige('number of fixed parameters', zi(a['n_p_set']) == size(*[R('_p' + n) for n in g.v['_p'] if n not in pest]))
        got = vec(it.call(a['_p_cat_fun'], [W.num(pe, 'E'), W.num(ps, 'F')], {}))
        ctx.eq('parameters in the order of the model', got, vcat(it, [E(val('E' if n in pest else 'F', n, R('_p' + n))) for n in g.v['_p']]))
        for n in est:
            for k, v in (('_p_est_lb', float('-inf')), ('_p_est_ub', float('inf')), ('_p_est_scaling', 1.0), ('_p_est0', 0.0)): ctx.eq('default of %s' % k, vec(it.getitem(a[k], n)), fill(v, R('_p' + n)))
        prev = lambda x, y: list(x.layout.entries) == list(y.layout.entries) and all(s.args != t.args for s, t in zip(W.sym(x), W.sym(y)))
        ctx.true('prior state: variables of their own', prev(a['_x_prev'], S['_x']), '')
        ctx.true('prior parameters: variables of their own', prev(a['_p_est_prev'], pe), '')
        for k in ('_x', '_w', '_v', '_p'): ctx.true('variables %s of the model' % k, a[k] is S[k], '')
        # objective of the user
        xp, pp = a['_x_prev'], a['_p_est_prev']
        user_p = S['_p']
        st = W.expr('stage', S['_w'], S['_v'], S['_tvp'], user_p); ar = W.expr('arrival', S['_x'], xp, pe, pp, ps)
        it.call(it.getattr(o, 'set_objective'), [st, ar], {})
        V = {t: W.num(S[t], t) for t in S}; P = {t: W.pairs(S[t], t) for t in S}
        call = lambda f, *x: vec(it.call(it.getattr(o, f), list(x), {}))
        ctx.eq('stage cost function', call('stage_cost_fun', V['_w'], V['_v'], V['_tvp'], V['_p']), W.at(st, *P.values()))
        ctx.eq('arrival cost function', call('arrival_cost_fun', V['_x'], W.num(xp, 'XP'), W.num(pe, 'E'), W.num(pp, 'EP'), W.num(ps, 'F')),
               W.at(ar, P['_x'], W.pairs(xp, 'XP'), W.pairs(pe, 'E'), W.pairs(pp, 'EP'), W.pairs(ps, 'F')))
        ctx.true('flag set_objective', it.getitem(a['flags'], 'set_objective') is True, '')
        # costs written with the estimator's own parameters or with those of the model mean the same parameter
        st2 = W.expr('stage2', S['_w'], S['_v'], S['_tvp'], pe, ps); ar2 = W.expr('arrival2', S['_x'], xp, user_p, pp)
        it.call(it.getattr(o, 'set_objective'), [st2, ar2], {})
        same = lambda st_, tag: [(sfn(it, st_)(n, []), val(tag(n), n, base_rows(st_.layout.entries[n][1]))) for n in st_.layout.entries]
        ctx.eq('stage cost function of the estimator\'s parameters', call('stage_cost_fun', V['_w'], V['_v'], V['_tvp'], V['_p']), W.at(st2, P['_w'], P['_v'], P['_tvp'], same(pe, lambda n: '_p'), same(ps, lambda n: '_p')))
        ctx.eq('arrival cost function of the model\'s parameters', call('arrival_cost_fun', V['_x'], W.num(xp, 'XP'), W.num(pe, 'E'), W.num(pp, 'EP'), W.num(ps, 'F')),
               W.at(ar2, P['_x'], W.pairs(xp, 'XP'), W.pairs(pp, 'EP'), same(user_p, lambda n: 'E' if n in pest else 'F')))
    return run

GP = [Cfg(('xa', 'xb'), ('ua',), ('za',), ('pa', 'pb', 'pc'), ('ta',), (), [('ya', True), ('yb', False)], None, ('xa',)), Cfg(('xa',), ('ua',), (), ('pb', 'pa'), (), (), [('ya', True)], None, ('xa',), sv='MX')]
C08 = [('MHE.__init__ and set_objective (%s, estimated %s, %s)' % (list(g.v['_p']), list(e), g.sv), partition(g, e), refuter) for g in GP for m in range(len(g.v['_p']) + 1) for e in itertools.permutations(g.v['_p'], m) if m < 2 or e != g.v['_p'][:m]]

def default_objective(g, pest):
    def run(ctx):
        W = ObjWorld(ctx, g, 'do_mpc.estimator._mhe:MHE', PList(elems=list(pest))); it, o, S = W.it, W.o, W.S
        a = o.attrs; pe, ps, xp, pp = a['_p_est'], a['_p_set'], a['_x_prev'], a['_p_est_prev']
        M = lambda nm, st: Term('sym', (nm,), zi(st.layout.size()), zi(st.layout.size()), 'ndarray')
        noise = lambda st: len(st.layout.entries) > 1
        args = {'P_x': M('P_x', S['_x'])}
        if noise(S['_v']): args['P_v'] = M('P_v', S['_v'])
        if noise(S['_w']): args['P_w'] = M('P_w', S['_w'])
        if pest: args['P_p'] = M('P_p', pe)
        for k in args:
            wrong = dict(args); wrong[k] = Term('sym', ('bad',), z3.Int('rows_bad'), args[k].cols, 'ndarray')
            n0 = len(it.base_facts); it.base_facts += [z3.Int('rows_bad') >= 1, z3.Int('rows_bad') != zi(args[k].rows)]
            reject(ctx, W.w, 'weight %s of another size' % k, lambda: it.call(it.getattr(o, 'set_default_objective'), [], wrong))
            del it.base_facts[n0:]
            if k != 'P_x': reject(ctx, W.w, 'missing weight %s' % k, lambda: it.call(it.getattr(o, 'set_default_objective'), [], {q: v for q, v in args.items() if q != k}))
        ctx.true('rejected weights set no objective', it.getitem(a['flags'], 'set_objective') is False, '')
        it.call(it.getattr(o, 'set_default_objective'), [], dict(args))
        V = {t: W.num(S[t], t) for t in S}
        call = lambda f, *x: vec(it.call(it.getattr(o, f), list(x), {}))
        quad = lambda P, d: Term('matmul', (Term('matmul', (Term('T', (d,), 1, P.rows), P), 1, P.cols), d), 1, 1)
        stage, arr = C(0), quad(args['P_x'], mk('sub', W.whole(S['_x'], '_x'), W.whole(xp, 'XP')))
        if 'P_v' in args: stage = mk('add', stage, quad(args['P_v'], W.whole(S['_v'], '_v')))
        if 'P_w' in args: stage = mk('add', stage, quad(args['P_w'], W.whole(S['_w'], '_w')))
        if 'P_p' in args: arr = mk('add', arr, quad(args['P_p'], mk('sub', W.whole(pe, 'E'), W.whole(pp, 'EP'))))
        ctx.eq('default stage cost', call('stage_cost_fun', V['_w'], V['_v'], V['_tvp'], V['_p']), stage)
        ctx.eq('default arrival cost', call('arrival_cost_fun', V['_x'], W.num(xp, 'XP'), W.num(pe, 'E'), W.num(pp, 'EP'), W.num(ps, 'F')), arr)
    return run

GD = [(GP[0], ('pa', 'pc')), (GP[0], ()), (GP[1], ('pa', 'pb')), (GP[1], ('pb',)), (Cfg(('xa', 'xb'), ('ua',), (), ('pa',), (), (), [('ya', False)], None, ()), ('pa',)), (Cfg(('xa', 'xb'), ('ua',), (), (), (), (), [('ya', True), ('yb', True)], None, ('xb', 'xa')), ())]
C08 += [('MHE.set_default_objective (%d, estimated %s, %s)' % (i, list(e), g.sv), default_objective(g, e), refuter) for i, (g, e) in enumerate(GD)]
BOUNDED_MHE = {'MHE.__init__': 'bounded in the number of named variables (at most three parameters, every partition and order); sizes and expressions symbolic', 'MHE.set_default_objective': 'bounded in the number of named variables; sizes and weights symbolic'}
