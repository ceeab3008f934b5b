"""prestates of objects after setup: optimizers, data recorder, user callbacks"""
from .mhenlp import *

class Rec:
    """ghost record of calls, undone with the interpreter's journal"""
    def __init__(self, it): self.it = it; self.o = PObj(LibType('ghost'), name='ghost'); self.o.attrs['log'] = PList([])
    def add(self, x):
        if self.it.loops: raise Unsupported('recorded call inside a loop')
        self.o.attrs['log'].segs.append(E(x))
    def all(self): return [s.val for s in self.o.attrs['log'].segs]

def cont(v, n, q):
    """entry n[q] of a composite vector value"""
    if isinstance(v, PStruct):
        f = v.content
        if v.log: raise Unsupported('structure with pending writes')
        return f(n, q)
    if isinstance(v, SVec): return v.fn(n, q)
    if isinstance(v, Term): return Term('vecpart', (n,) + tuple(q) + (v,))
    raise Unsupported('vector value')

def frozen(it, v):
    """snapshot of a structure or vector"""
    if isinstance(v, PStruct) and v.layout.entries is not None:
        w = PStruct(v.layout, v.kind, content=sfn(it, v), name=v.name)
        return w
    if isinstance(v, PStruct): return struct_whole(v)
    return v

def composite(it, name, ents, kind='num'):
    """structure after setup with arbitrary content"""
    L = Layout('L' + name, ents)
    s = PStruct(L, kind, name=name)
    s.content = lambda n, q: Term('var', (name, n) + tuple(zi(x) for x in q), base_rows(ents[n][1]), 1)
    return s

class StepWorld: pass

def after_setup(ctx, kind, fl):
    """optimizer after setup() with arbitrary numerical content, recording solver and data object"""
    w = StepWorld()
    if kind == 'mpc': it, W, m, me = prestate(ctx, fl)
    else: it, W, m, me = mhe_prestate(ctx, fl)
    w.it, w.W, w.m, w.me = it, W, m, me
    a = me.attrs
    for k in ('set_initial_guess', 'setup', 'prepare_nlp'): it.setitem(a['flags'], k, fl.get(k, True))
    it.setitem(a['flags'], 'initial_run', fl.get('initial_run', False))
    mz = mkint(z3.If(M >= 1, M, z3.IntVal(1))); Mx = mkint(MAXS)
    n, n1 = mkint(N), mkint(N + 1); L = W.L
    if kind == 'mpc':
        ox = {'_x': ([n1, Mx, mkint(M + 1)], L['_x']), '_z': ([n, Mx, mz], L['_z']), '_u': ([n, 1 if fl.get('open_loop') else Mx], L['_u']), '_eps': ([1 if fl.get('single') else n, Mx], L['_eps'])}
        op = {'_x0': ([], L['_x']), '_tvp': ([n1], L['_tvp']), '_p': ([SInt(c)], L['_p']), '_u_prev': ([], L['_u'])}
        oa = {'_aux': ([n, Mx], L['_aux'])}
    else:
        ox = {'_x': ([n1, mkint(M + 1)], L['_x']), '_z': ([n, mz], L['_z']), '_u': ([n], L['_u']), '_w': ([n], L['_w']), '_v': ([n], L['_v']), '_eps': ([1 if fl.get('single') else n], L['_eps']), '_p_est': ([], L['_p_est'])}
        op = {'_x_prev': ([], L['_x']), '_p_est_prev': ([], L['_p_est']), '_p_set': ([], L['_p_set']), '_tvp': ([n], L['_tvp']), '_y_meas': ([n], L['_y'])}
        oa = {'_aux': ([n], L['_aux'])}
    a['_opt_x_num'] = composite(it, 'OX', ox); a['_opt_p_num'] = composite(it, 'OP', op); a['opt_aux_num'] = composite(it, 'OA', oa)
    LX = a['_opt_x_num'].layout
    a['opt_x_num_unscaled'] = PStruct(LX, 'num', content=lambda nm, q: Term('var', ('OXU', nm) + tuple(zi(x) for x in q), base_rows(ox[nm][1]), 1), name='OXU')
    one = lambda nm: Term('c', (Fraction(1),), base_rows(ox[nm][1]), 1)
    sc = PStruct(LX, 'num', content=lambda nm, q: Term('sym', (nm + '_scaling',), DIMS[nm], 1) if nm in ('_x', '_u', '_z', '_p_est') else one(nm), name='OXS')
    a['opt_x_scaling'] = sc; w.scaling = sc
    for k in ('_x', '_u', '_z'): a[k + '0'] = W.st(k, k + '0', 'num')
    if kind == 'mhe': a['_p_est0'] = W.st('_p_est', '_p_est0', 'num')
    w.t0 = Term('sym', ('t0',), 1, 1, 'ndarray'); a['_t0'] = w.t0
    for k in ('lb', 'ub'):
        a['_%s_opt_x' % k] = PStruct(LX, 'num', content=lambda nm, q, k=k: Term('var', ('OX' + k, nm) + tuple(zi(x) for x in q), base_rows(ox[nm][1]), 1), name='OX' + k)
        a['_nlp_cons_' + k] = Term('sym', ('cons_' + k,), I('n_cons'), 1)
    a['lam_x_num'] = Term('sym', ('lam_x_old',), None, 1); a['lam_g_num'] = Term('sym', ('lam_g_old',), None, 1)
    # user callbacks
    tl = Layout('tvptemplate', {'_tvp': ([n1], L['_tvp'])}); pl = Layout('ptemplate', {'_p': ([SInt(c)], L['_p'])}); yl = Layout('ytemplate', {'y_meas': ([n], L['_y'])})
    w.tvp = lambda t, k: Term('call', ('tvp_fun', vec(t), zi(k)), DIMS['_tvp'], 1)
    w.p = lambda t, k: Term('call', ('p_fun', vec(t), zi(k)), DIMS['_p'], 1)
    w.pset = lambda t: Term('call', ('p_fun', vec(t)), DIMS['_p_set'], 1)
    w.y = lambda t, k: Term('call', ('y_fun', vec(t), zi(k)), DIMS['_y'], 1)
    a['tvp_fun'] = LibFn('tvp_fun', lambda it, x, k: PStruct(tl, 'num', content=lambda nm, q: w.tvp(x[0], q[0]), name='tvp_fun'))
    if kind == 'mpc': a['p_fun'] = LibFn('p_fun', lambda it, x, k: PStruct(pl, 'num', content=lambda nm, q: w.p(x[0], q[0]), name='p_fun'))
    else:
        a['p_fun'] = LibFn('p_fun', lambda it, x, k: PStruct(L['_p_set'], 'num', whole=w.pset(x[0]), name='p_fun'))
        a['y_fun'] = LibFn('y_fun', lambda it, x, k: (w.ycalls.add(len(w.updates.all())), PStruct(yl, 'num', content=lambda nm, q: w.y(x[0], q[0]), name='y_fun'))[1])
    # data object: Data.update by contract (C11)
    w.updates = Rec(it); w.calls = Rec(it); w.auxcalls = Rec(it); w.ycalls = Rec(it)
    data = PObj(LibType('Data'), name='data')
    def update(it, args, kw):
        if args: raise PyEx('TypeError')
        for k, v in kw.items(): w.updates.add((k, frozen(it, v)))
    data.attrs['update'] = LibFn('update', update)
    a['data'] = data
    # solver
    S = PObj(LibType('Function'), name='S')
    w.sol = {k: Term('sym', ('sol_' + k,), None, 1, 'DM') for k in ('x', 'g', 'lam_g', 'lam_x', 'f', 'lam_p')}
    w.stats = PDict({'success': Term('sym', ('stat_success',), 1, 1), 'iter_count': Term('sym', ('stat_iter',), 1, 1), 't_wall_total': Term('sym', ('stat_t',), 1, 1)})
    S.attrs['stats'] = LibFn('stats', lambda it, x, k: w.stats)
    def call(it, f, x, k):
        if f is S:
            if x: raise Unsupported('positional solver call')
            w.calls.add({kk: frozen(it, v) for kk, v in k.items()})
            return PDict(dict(w.sol))
        return NotImplemented
    prev = it.lib.hooks.get('call_obj')
    it.lib.hooks['call_obj'] = lambda it, f, x, k: call(it, f, x, k) if f is S else (prev(it, f, x, k) if prev else NotImplemented)
    a['S'] = S
    w.aux = Term('sym', ('aux_value',), None, 1, 'DM')
    def auxfun(it, x, k):
        w.auxcalls.add([frozen(it, v) for v in x]); return w.aux
    a['opt_aux_expression_fun'] = LibFn('opt_aux_expression_fun', auxfun)
    w.ox, w.op, w.oa = ox, op, oa
    ctx.declared(me, a['flags'], a['_settings'], m, data, extra=('solver_stats', 'opt_g_num'))
    return w

def everywhere(ctx, w, name, struct, ents, want, only=None, guard=None):
    """every entry of a composite value equals want(entry, indices)"""
    it = w.it
    for n, (dims, base) in ents.items():
        if only and n not in only: continue
        q = [ctx.fresh('q', 0, zi(d)) for d in dims]
        def f():
            if guard: it.assume(guard(n, q))
            if isinstance(struct, PStruct): got = it.getitem(struct, (n,) + tuple(SInt(x) for x in q))
            else: got = cont(struct, n, q)
            ctx.eq('%s: %s' % (name, n), vec(got), want(n, q))
        n0 = len(it.base_facts)
        ctx.cases(f)
        del it.base_facts[n0:]

def rhs_only(w): pass

def consistent_bounds(it, a, keys=('_x', '_u', '_z'), facts=True):
    """bound vectors as opaque values; `lower > upper` somewhere is the fact bad:<variable>"""
    vecs = {}
    for k in keys:
        for b in ('_lb', '_ub'):
            o = PObj(LibType('vector'), name=k + b); o.attrs['bv'] = k + b
            s = PObj(LibType('structure3.DMStruct'), name=k + b); s.attrs['cat'] = o
            s.attrs['labels'] = LibFn('labels', lambda it, x, kw: PList([]))
            a[k + b] = s
        if facts: it.base_facts.append(z3.Not(z3.Bool('bad:' + k)))
    prev = it.lib.hooks.get('compare')
    def cmp(it, op, x, y):
        if isinstance(x, PObj) and isinstance(y, PObj) and 'bv' in x.attrs and 'bv' in y.attrs:
            p, q = x.attrs['bv'], y.attrs['bv']
            if p[:-3] == q[:-3] and (isinstance(op, ast.Gt) and (p[-2:], q[-2:]) == ('lb', 'ub') or isinstance(op, ast.Lt) and (p[-2:], q[-2:]) == ('ub', 'lb')): return SBool(z3.Bool('bad:' + p[:-3]))
            if p[:-3] == q[:-3] and (isinstance(op, ast.LtE) and (p[-2:], q[-2:]) == ('lb', 'ub') or isinstance(op, ast.GtE) and (p[-2:], q[-2:]) == ('ub', 'lb')): raise Unsupported('elementwise comparison')
            return SBool(z3.Bool('cmp:%s:%s:%s' % (type(op).__name__, p, q)))
        return prev(it, op, x, y) if prev else NotImplemented
    it.lib.hooks['compare'] = cmp
