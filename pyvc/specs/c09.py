"""C09: MHE.make_step, MHE.set_initial_guess, the default measurement function."""
from .c06 import *
from .mhenlp import mhe_prestate
T = I('n_rows')

def mhe_step(fl):
    def run(ctx):
        w = after_setup(ctx, 'mhe', fl); it, me, a = w.it, w.me, w.me.attrs
        st = a['_settings'].attrs
        st['store_full_solution'] = fl.get('full', False); st['store_lagr_multiplier'] = fl.get('lagr', False)
        st['store_solver_stats'] = PList(elems=['success', 't_wall_total'] if fl.get('stats') else [])
        solve_contract(w)
        yv = Term('sym', ('y_in',), DIMS['_y'], 1)
        yin = Term('sym', ('y_in',), DIMS['_y'], 1, fl.get('ty', 'ndarray')) if fl.get('ty') != 'struct' else w.W.st('_y', 'y_in', 'num')
        x = it.call(it.getattr(me, 'make_step'), [yin], {})
        calls = w.at_solve.all()
        ctx.true('exactly one solution per step', len(calls) == 1, '%d calls of solve' % len(calls))
        s = calls[0]
        ctx.true('the measurement is recorded before the measurements of the window are collected', bool(w.ycalls.all()) and all(n >= 1 for n in w.ycalls.all()) and w.updates.all()[0][0] == '_y', 'order of recording and reading measurements')
        pe0 = Term('sym', ('_p_est0',), DIMS['_p_est'], 1)
        OX = lambda n, q: Term('var', ('OX', n) + tuple(q), base_rows(w.ox[n][1]), 1)
        spec_p = {'_x_prev': lambda q: mk('mul', OX('_x', [z3.IntVal(1), M]), Term('sym', ('_x_scaling',), DIMS['_x'], 1)), '_p_est_prev': lambda q: pe0, '_p_set': lambda q: w.pset(w.t0), '_tvp': lambda q: w.tvp(w.t0, q[0]), '_y_meas': lambda q: w.y(w.t0, q[0])}
        everywhere(ctx, w, 'parameters of the problem', s['p'], w.op, lambda n, q: spec_p[n](q))
        everywhere(ctx, w, 'warm start from the previous solution', s['x'], w.ox, OX)
        LX = a['_opt_x_num'].layout
        Z = z3.IntVal(0); MZ = z3.If(M >= 1, M, z3.IntVal(1)) - 1
        sc = lambda k: Term('sym', (k + '_scaling',), DIMS[k], 1)
        sol = lambda n, *q: mk('mul', part(LX, n, q, w.sol['x']), sc(n))
        xn, un, zn, pn = sol('_x', N, M), sol('_u', N - 1), sol('_z', N - 1, MZ), sol('_p_est')
        ctx.eq('returns the unscaled last state of the window', vec(x), xn)
        want = {'_y': yv, '_x': Term('sym', ('_x0',), DIMS['_x'], 1), '_u': un, '_z': zn, '_tvp': w.tvp(w.t0, N), '_p': Term('call', ('p_cat', pe0, w.pset(w.t0)), DIMS['_p'], 1), '_time': w.t0, '_aux': part(a['opt_aux_num'].layout, '_aux', [N - 1], w.aux)}
        comp = {'opt_p_num': (w.op, lambda n, q: spec_p[n](q))}
        if fl.get('full'):
            comp['_opt_x_num'] = (w.ox, lambda n, q: mk('mul', part(LX, n, q, w.sol['x']), w.scaling.content(n, q)))
            comp['_opt_aux_num'] = (w.oa, lambda n, q: part(a['opt_aux_num'].layout, n, q, w.aux))
        if fl.get('lagr'): want['_lam_g_num'] = w.sol['lam_g']
        if fl.get('stats'): want.update(success=w.stats.d['success'], t_wall_total=w.stats.d['t_wall_total'])
        check_updates(ctx, w, want, comp)
        ctx.eq('time advances by one step', vec(a['_t0']), mk('add', w.t0, Term('sym', ('t_step',), 1, 1)))
        for k, v in (('_x0', xn), ('_u0', un), ('_z0', zn), ('_p_est0', pn)): ctx.eq('current estimate %s' % k, struct_whole(a[k]), v)
    return run

def yfun(ctx):
    """the default measurement function: most recent measurements in chronological order, padded with the oldest one used"""
    it, W, m, me = mhe_prestate(ctx, {})
    a = me.attrs
    it.base_facts.append(T >= 1)
    it.setitem(a['flags'], 'set_y_fun', False)
    it.contracts.pop('*._check_validity')
    consistent_bounds(it, a, ('_x', '_u', '_z', '_p_est'))
    data = PObj(LibType('Data'), name='data'); a['data'] = data
    Y = lambda i: Term('call', ('Y', zi(i)), DIMS['_y'], 1)
    data.attrs['_y'] = PArr([SInt(T)], lambda q: Y(q[0]))
    a['tvp_fun'] = None; a['p_fun'] = None
    made = []
    YL = Layout('ytemplate', {'y_meas': ([SInt(N)], W.L['_y'])})
    def tmpl(it, args, kw):
        s = PStruct(YL, 'num', content=lambda n, q: Term('c', (Fraction(0),), DIMS['_y'], 1), name='ytemplate'); made.append(s); return s
    it.contracts['*.get_y_template'] = tmpl
    it.call(it.getattr(me, '_check_validity'), [], {})
    r = it.call(it.getattr(me, 'y_fun'), [Term('sym', ('t_now',), 1, 1)], {})
    k = ctx.fresh('k', 0, N)
    def f():
        idx = T - N + k
        ctx.eq('slot k of the window holds the k-th of the most recent measurements', vec(it.getitem(r, ('y_meas', SInt(k)))), Term('ite', (idx >= 0, Y(z3.simplify(idx)), Y(z3.IntVal(0))), DIMS['_y'], 1))
    ctx.cases(f)

refuter_y = Refuter({'N': [1, 2, 3], 'n_rows': [1, 2, 3, 4]}, dom=4)
CONTRACTS = [('MHE.make_step (%s)' % label(f), mhe_step(f), refuter) for f in combos('full', 'lagr', 'stats')]
CONTRACTS += [('MHE.make_step with %s' % t, mhe_step({'ty': t}), refuter) for t in ('DM', 'struct')]
CONTRACTS += [('MHE.set_initial_guess (%s)' % label(f), guess('mhe', f), refuter) for f in combos('single')]
CONTRACTS += [('MHE.make_step before setup', step_reject('mhe', {'setup': False}, Term('sym', ('x_in',), DIMS['_y'], 1, 'ndarray')), refuter), ('MHE.make_step with wrong size', step_reject('mhe', {}, 'size'), refuter), ('MHE.make_step with a list', step_reject('mhe', {}, PList(elems=[1, 2])), refuter), ('MHE.make_step with None', step_reject('mhe', {}, None), refuter)]
CONTRACTS += [('default measurement function', yfun, refuter_y)]
from . import createnlp
CONTRACTS += [c for c in createnlp.DATA if c[0].startswith('MHE')]
from . import reset as _reset
CONTRACTS += _reset.CONTRACTS['mhe']
