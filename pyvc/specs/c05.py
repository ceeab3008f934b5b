"""C05: bounds and scaling reach exactly the matching variables."""
from .mpcnlp import *
from . import mpcnlp

def rd(it, s, *key):
    return vec(it.getitem(s, tuple(mkint(x) if is_z(x) else x for x in key)))

def bounds_run(fl):
    def run(ctx):
        it, W, m, me = prestate(ctx, fl)
        it.call(it.getattr(me, '_prepare_nlp'), [], {})
        sp = Spec(ctx, it, W, fl, me)
        check_bounds(ctx, it, me, sp, fl, '')
        # a bound changed after setup: fresh bound vectors, then the update that every setter triggers
        for k in ('_x', '_u', '_z'):
            for b in ('_lb', '_ub'): it.setattr(me, k + b, W.st(k, k + b + '_new', 'num'))
        for b in ('_lb', '_ub'): it.setattr(me, '_x_terminal' + b, W.st('_x', '_x_terminal%s_new' % b, 'num'))
        it.call(it.getattr(me, '_update_bounds'), [], {})
        check_bounds(ctx, it, me, sp, fl, '_new')
    return run

def check_bounds(ctx, it, me, sp, fl, sfx):
    for side, inf in (('lb', float('-inf')), ('ub', float('inf'))):
        st = me.attrs['_%s_opt_x' % side]
        nm = {'lb': 'lower', 'ub': 'upper'}[side] + (' (changed after setup)' if sfx else '')
        B = lambda k, t='': mk('div', Term('sym', ('%s%s_%s%s' % (k, t, side, sfx),), DIMS[k], 1), sp.sc[k])
        free = lambda k: mk('mul', C(1), Term(C(inf).op, C(inf).args, DIMS[k], 1))
        ML = POW(c, R)
        k = ctx.fresh('k', 1, z3.If(N > 1, N, z3.IntVal(2))); s = ctx.fresh('s', 0, NSf(k)); i = ctx.fresh('i', 0, M + 1); sN = ctx.fresh('sN', 0, NSf(N))
        def x0(): ctx.eq('%s: the initial state is unlimited' % nm, rd(it, st, '_x', 0, 0, M), free('_x'))
        def xs():
            it.assume(z3.And(k >= 1, k < N))
            ctx.eq('%s: state bound at every node' % nm, rd(it, st, '_x', k, s, M), B('_x'))
        def xc():
            it.assume(z3.And(k >= 1, k < N, i < M))
            ctx.eq('%s: state bound at collocation points iff configured' % nm, rd(it, st, '_x', k, s, i), B('_x') if fl.get('ccp', True) else free('_x'))
        def xt(): ctx.eq('%s: terminal bound at the end of the horizon' % nm, rd(it, st, '_x', N, sN, M), B('_x', '_terminal'))
        ku = ctx.fresh('ku', 0, N); su = ctx.fresh('su', 0, 1 if fl.get('open_loop') else NSf(ku)); sz = ctx.fresh('sz', 0, NSf(ku + 1))
        def us(): ctx.eq('%s: input bound at every stage and scenario' % nm, rd(it, st, '_u', ku, su), B('_u'))
        iz = ctx.fresh('iz', 0, z3.If(M >= 1, M, z3.IntVal(1)))
        def z0(): ctx.eq('%s: bound of the algebraic states' % nm, rd(it, st, '_z', ku, sz, 0), B('_z'))
        def zc():
            it.assume(iz >= 1)
            ctx.eq('%s: bound of the algebraic states at collocation points iff configured' % nm, rd(it, st, '_z', ku, sz, iz), B('_z') if fl.get('ccp', True) else free('_z'))
        for f in (x0, xs, xc, xt, us, z0, zc):
            n0 = len(it.base_facts)
            ctx.cases(f)
            del it.base_facts[n0:]


# ------------------------------------------------------------------ the user interface: bounds, terminal_bounds, scaling
def optimizer_obj(ctx, kind, prepared, known=True):
    it = ctx.it
    W = World(it); it.base_facts += DIMFACTS + [z3.Bool('key:nm in %s' % k) == known for k in ('_x', '_u', '_z', '_p_est')] + [z3.Bool('key:(nm) in %s' % k) == known for k in ('_x', '_u', '_z', '_p_est')]
    W.L['_p_est'] = Layout('_p_est', None, mkint(I('n_p_est')))
    DIMS['_p_est'] = I('n_p_est')
    m = model(it, W)
    if kind == 'mpc': cls = it.find('do_mpc.controller._mpc:MPC')
    else: cls = it.find('do_mpc.estimator._mhe:MHE')
    me = PObj(cls, name=kind)
    a = me.attrs
    a.update({'model': m, 'flags': PDict({'setup': False, 'prepare_nlp': prepared})})
    names = [('_x', '_lb'), ('_x', '_ub'), ('_u', '_lb'), ('_u', '_ub'), ('_z', '_lb'), ('_z', '_ub')]
    ks = ['_x', '_u', '_z']
    if kind == 'mpc': names += [('_x_terminal', '_lb'), ('_x_terminal', '_ub')]
    else: names += [('_p_est', '_lb'), ('_p_est', '_ub')]; ks.append('_p_est')
    for k, b in names: a[k + b] = W.st(k.replace('_terminal', ''), k + b, 'num')
    for k in ks: a[k + '_scaling'] = W.st(k, k + '_scaling', 'num')
    a['log_updates'] = PList([])
    def upd(it, args, kw):
        o = args[0]
        it.setattr(o, 'n_updates', it.binop(ast.Add(), o.attrs.get('n_updates', 0), 1))
    it.contracts['*._update_bounds'] = upd
    return it, me

def structs(me): return {k: v for k, v in me.attrs.items() if isinstance(v, PStruct)}

def snapshot(it, me): return {k: struct_whole(v) for k, v in structs(me).items()}

def api(kind, prop, ind, target, prepared):
    """setting prop[ind] changes exactly the entry of `target`, and is read back"""
    def run(ctx):
        it, me = optimizer_obj(ctx, kind, prepared)
        before = snapshot(it, me)
        objs = {k: v for k, v in structs(me).items()}
        val = Term('sym', ('value',), 1, 1)
        p = it.getattr(me, prop)
        it.setitem(p, ind, val)
        name = ind[-1]
        if prepared and prop != 'scaling':
            ctx.true('setting after preparation updates the optimization bounds', me.attrs.get('n_updates', 0) in (1,) or isinstance(me.attrs.get('n_updates', 0), int) and me.attrs.get('n_updates', 0) >= 1, 'the bounds of the optimization variables were not updated')
        for k, v in structs(me).items():
            if k == target:
                ctx.eq('%s is stored in the matching structure' % prop, vec(it.getitem(v, name)), val)
                ctx.eq('other entries of the structure are unchanged', vec(it.getitem(v, 'other_' + name)), vec(it.getitem(PStruct(v.layout, 'num', whole=before[k]), 'other_' + name)))
            elif k in before:
                ctx.eq('unrelated structure %s unchanged' % k, struct_whole(v), before[k])
        ctx.eq('the query returns the value set', vec(it.getitem(it.getattr(me, prop), ind)), val)
    return run

def api_default_terminal(ctx):
    """terminal bounds that default to (alias) the state bounds are decoupled when set"""
    it, me = optimizer_obj(ctx, 'mpc', True)
    it.setattr(me, '_x_terminal_ub', me.attrs['_x_ub'])
    old = struct_whole(me.attrs['_x_ub'])
    val = Term('sym', ('value',), 1, 1)
    it.setitem(it.getattr(me, 'terminal_bounds'), ('upper', 'nm'), val)
    ctx.eq('state bounds keep their value', vec(it.getitem(it.getattr(me, 'bounds'), ('upper', '_x', 'nm'))), Term('ent', (Term('sym', ('_x_ub',), DIMS['_x'], 1), key_atom(('nm',)))))
    ctx.eq('terminal bound has the value set', vec(it.getitem(it.getattr(me, 'terminal_bounds'), ('upper', 'nm'))), val)

def api_reject(kind, prop, ind, known=True):
    def run(ctx):
        it, me = optimizer_obj(ctx, kind, False, known)
        before = snapshot(it, me)
        try:
            it.setitem(it.getattr(me, prop), ind, C(1))
        except PyEx as ex:
            ctx.ok('invalid index is rejected')
            for k, v in structs(me).items(): ctx.eq('rejected assignment changes nothing (%s)' % k, struct_whole(v), before[k])
            return
        ctx.fail('invalid index is rejected', '%s[%r] accepted' % (prop, ind))
    return run

def api_scaling_after_setup(ctx):
    it, me = optimizer_obj(ctx, 'mpc', True)
    it.setitem(me.attrs['flags'], 'setup', True)
    try: it.setitem(it.getattr(me, 'scaling'), ('_x', 'nm'), C(2))
    except PyEx: return ctx.ok('scaling after setup is rejected')
    ctx.fail('scaling after setup is rejected', 'accepted')

APIS = []
for kind, ks in (('mpc', ('_x', '_u', '_z')), ('mhe', ('_x', '_u', '_z', '_p_est'))):
    for k in ks:
        for side, sf in (('lower', '_lb'), ('upper', '_ub')):
            for pr in (False, True):
                APIS.append(('%s.bounds[%s,%s] prepared=%s' % (kind, side, k, pr), api(kind, 'bounds', (side, k, 'nm'), k + sf, pr), None))
        APIS.append(('%s.scaling[%s]' % (kind, k), api(kind, 'scaling', (k, 'nm'), k + '_scaling', False), None))
for side, sf in (('lower', '_lb'), ('upper', '_ub')):
    for pr in (False, True):
        APIS.append(('mpc.terminal_bounds[%s] prepared=%s' % (side, pr), api('mpc', 'terminal_bounds', (side, 'nm'), '_x_terminal' + sf, pr), None))
APIS.append(('terminal bounds defaulting to state bounds', api_default_terminal, None))
for prop, ind in (('bounds', ('middle', '_x', 'nm')), ('bounds', ('lower', '_y', 'nm')), ('bounds', ('lower', '_x')), ('scaling', ('_y', 'nm')), ('scaling', ('_x',)), ('terminal_bounds', ('middle', 'nm')), ('terminal_bounds', ('lower',))):
    APIS.append(('%s%r rejected' % (prop, ind), api_reject('mpc', prop, ind), None))
for prop, ind in (('bounds', ('lower', '_x', 'nm')), ('bounds', ('upper', '_u', 'nm')), ('scaling', ('_x', 'nm')), ('terminal_bounds', ('upper', 'nm'))):
    APIS.append(('%s%r, unknown name rejected' % (prop, ind), api_reject('mpc', prop, ind, False), None))
APIS.append(('scaling after setup', api_scaling_after_setup, None))

refuter = Refuter({'N': [1, 2, 3], 'R': [0, 1], 'c': [2, 1], 'n_colloc': [2, 0]}, ufs=ufs, dom=3, where=lambda p: p['R'] <= p['N'])
CONTRACTS = [('bounds: ' + label(f), bounds_run(f), refuter) for f in combos('ccp', 'open_loop', 'single')]
CONTRACTS += APIS
from .mhenlp import mhe_bounds, refuter_mhe
CONTRACTS += [('MHE bounds: ' + label(f), mhe_bounds(f), refuter_mhe) for f in combos('ccp', 'single')]
