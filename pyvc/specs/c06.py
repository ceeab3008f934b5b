"""C06: Optimizer.solve, MPC.make_step, MPC.set_initial_guess."""
from .step import *

def solve_run(kind, fl):
    def run(ctx):
        w = after_setup(ctx, kind, fl); it, me, a = w.it, w.me, w.me.attrs
        it.call(it.getattr(me, 'solve'), [], {})
        calls = w.calls.all()
        ctx.true('exactly one solver call', len(calls) == 1, '%d calls' % len(calls))
        kw = calls[0]
        base = lambda nm: (lambda n, q: Term('var', (nm, n) + tuple(zi(x) for x in q), base_rows({'OX': w.ox, 'OP': w.op, 'OXlb': w.ox, 'OXub': w.ox}[nm][n][1]), 1))
        for k, nm, ents in (('x0', 'OX', w.ox), ('p', 'OP', w.op), ('lbx', 'OXlb', w.ox), ('ubx', 'OXub', w.ox)):
            if k not in kw: ctx.fail('solver argument %s' % k, 'not passed'); continue
            everywhere(ctx, w, 'solver argument %s' % k, kw[k], ents, base(nm))
        for k in ('lb', 'ub'): ctx.eq('solver argument %sg' % k, vec(kw.get(k + 'g', 0)), Term('sym', ('cons_' + k,), I('n_cons'), 1))
        if fl.get('initial_run'):
            for k in ('lam_x', 'lam_g'):
                if k + '0' in kw: ctx.eq('warm start of %s' % k, vec(kw[k + '0']), Term('sym', (k + '_old',), None, 1))
                else: ctx.fail('warm start of %s' % k, 'previous multipliers are not passed to the solver')
        ctx.true('no further solver arguments', set(kw) <= {'x0', 'p', 'lbx', 'ubx', 'lbg', 'ubg', 'lam_x0', 'lam_g0'} and (fl.get('initial_run') or not {'lam_x0', 'lam_g0'} & set(kw)), 'arguments %s' % sorted(kw))
        LX = a['_opt_x_num'].layout
        everywhere(ctx, w, 'primal solution is stored', a['_opt_x_num'], w.ox, lambda n, q: part(LX, n, q, w.sol['x']))
        everywhere(ctx, w, 'physical solution is the solution times scaling', a['opt_x_num_unscaled'], w.ox, lambda n, q: mk('mul', part(LX, n, q, w.sol['x']), w.scaling.content(n, q)))
        everywhere(ctx, w, 'parameters unchanged', a['_opt_p_num'], w.op, base('OP'))
        for k in ('lam_g', 'lam_x'): ctx.eq('multipliers %s are stored' % k, vec(a[k + '_num']), w.sol[k])
        ctx.true('solver statistics are stored', a.get('solver_stats') is w.stats, 'solver_stats')
        ac = w.auxcalls.all()
        ctx.true('auxiliary expressions evaluated once', len(ac) == 1 and len(ac[0]) == 2, '%d' % len(ac))
        everywhere(ctx, w, 'auxiliary expressions at the solution', ac[0][0], w.ox, lambda n, q: part(LX, n, q, w.sol['x']))
        everywhere(ctx, w, 'auxiliary expressions with the parameters of the problem', ac[0][1], w.op, base('OP'))
        everywhere(ctx, w, 'auxiliary expressions are stored', a['opt_aux_num'], w.oa, lambda n, q: part(a['opt_aux_num'].layout, n, q, w.aux))
        ctx.true('later runs are warm started', it.getitem(a['flags'], 'initial_run') is True, 'flag initial_run')
    return run

def solve_before_setup(kind):
    def run(ctx):
        w = after_setup(ctx, kind, {'setup': False})
        try: w.it.call(w.it.getattr(w.me, 'solve'), [], {})
        except PyEx: return ctx.true('rejected without solving', not w.calls.all(), 'solver was called')
        ctx.fail('solve before setup is rejected', 'accepted')
    return run

def solve_contract(w):
    """contract of solve used by the callers (proved above)"""
    w.at_solve = Rec(w.it)
    def h(it, args, kw):
        me = args[0]; a = me.attrs
        w.at_solve.add({'x': frozen(it, a['_opt_x_num']), 'p': frozen(it, a['_opt_p_num']), 'n_updates': len(w.updates.all())})
        LX = a['_opt_x_num'].layout
        it.setattr(a['_opt_x_num'], 'master', w.sol['x'])
        x = a['opt_x_num_unscaled']; sc = w.scaling
        it.setattr(x, 'master', SVec(LX, lambda n, q: mk('mul', part(LX, n, q, w.sol['x']), sc.content(n, q))))
        it.setattr(a['opt_aux_num'], 'master', w.aux)
        it.setattr(me, 'lam_g_num', w.sol['lam_g']); it.setattr(me, 'lam_x_num', w.sol['lam_x']); it.setattr(me, 'solver_stats', w.stats)
        it.setitem(a['flags'], 'initial_run', True)
    w.it.contracts['*.solve'] = h

def check_updates(ctx, w, want, composites):
    ups = w.updates.all()
    keys = [k for k, v in ups]
    ctx.true('recorded fields', sorted(keys) == sorted(list(want) + list(composites)), 'recorded %s, expected %s' % (sorted(keys), sorted(list(want) + list(composites))))
    d = dict(ups)
    for k, v in want.items():
        if k in d: ctx.eq('recorded %s' % k, vec(d[k]), v)
    for k, (ents, f) in composites.items():
        if k in d: everywhere(ctx, w, 'recorded %s' % k, d[k], ents, f)

def mpc_step(fl):
    def run(ctx):
        w = after_setup(ctx, 'mpc', fl); it, me, a = w.it, w.me, w.me.attrs
        st = a['_settings'].attrs
        st['store_full_solution'] = fl.get('full', False); st['store_lagr_multiplier'] = fl.get('lagr', False)
        st['store_solver_stats'] = PList(elems=['success', 't_wall_total'] if fl.get('stats') else [])
        solve_contract(w)
        x = Term('sym', ('x_in',), DIMS['_x'], 1, fl.get('ty', 'ndarray')); xv = Term('sym', ('x_in',), DIMS['_x'], 1)
        xin = x if fl.get('ty') != 'struct' else w.W.st('_x', 'x_in', 'num')
        u = it.call(it.getattr(me, 'make_step'), [xin], {})
        calls = w.at_solve.all()
        ctx.true('exactly one solution per step', len(calls) == 1, '%d calls of solve' % len(calls))
        s = calls[0]
        spec_p = {'_x0': lambda q: xv, '_u_prev': lambda q: Term('sym', ('_u0',), DIMS['_u'], 1), '_tvp': lambda q: w.tvp(w.t0, q[0]), '_p': lambda q: w.p(w.t0, q[0])}
        everywhere(ctx, w, 'parameters of the problem', s['p'], w.op, lambda n, q: spec_p[n](q))
        everywhere(ctx, w, 'warm start from the previous solution', s['x'], w.ox, lambda n, q: Term('var', ('OX', n) + tuple(q), base_rows(w.ox[n][1]), 1))
        LX = a['_opt_x_num'].layout
        Z = z3.IntVal(0)
        u0 = mk('mul', part(LX, '_u', [Z, Z], w.sol['x']), Term('sym', ('_u_scaling',), DIMS['_u'], 1))
        z0 = mk('mul', part(LX, '_z', [Z, Z, Z], w.sol['x']), Term('sym', ('_z_scaling',), DIMS['_z'], 1))
        ctx.eq('returns the unscaled input of the first stage', vec(u), u0)
        want = {'_x': xv, '_u': u0, '_z': z0, '_tvp': w.tvp(w.t0, Z), '_p': w.p(w.t0, Z), '_time': w.t0, '_aux': part(a['opt_aux_num'].layout, '_aux', [Z, Z], w.aux)}
        comp = {'opt_p_num': (w.op, lambda n, q: spec_p[n](q))}
        if fl.get('full'):
            comp['_opt_x_num'] = (w.ox, lambda n, q: mk('mul', part(LX, n, q, w.sol['x']), w.scaling.content(n, q)))
            comp['_opt_aux_num'] = (w.oa, lambda n, q: part(a['opt_aux_num'].layout, n, q, w.aux))
        if fl.get('lagr'): want['_lam_g_num'] = w.sol['lam_g']
        if fl.get('stats'): want.update(success=w.stats.d['success'], t_wall_total=w.stats.d['t_wall_total'])
        check_updates(ctx, w, want, comp)
        ctx.eq('time advances by one step', vec(a['_t0']), mk('add', w.t0, Term('sym', ('t_step',), 1, 1)))
        ctx.eq('current state', struct_whole(a['_x0']), xv)
        ctx.eq('the returned input is the previous input of the next step', struct_whole(a['_u0']), u0)
        ctx.eq('current algebraic state', struct_whole(a['_z0']), z0)
    return run

def step_reject(kind, fl, x):
    def run(ctx):
        w = after_setup(ctx, kind, fl); it, me, a = w.it, w.me, w.me.attrs
        solve_contract(w)
        before = {k: struct_whole(a[k]) for k in ('_x0', '_u0', '_z0')}
        xin = x
        if isinstance(x, str): 
            xin = Term('sym', ('x_in',), I('n_in'), 1, 'ndarray'); it.base_facts.append(z3.And(I('n_in') >= 0, I('n_in') != DIMS['_x' if kind == 'mpc' else '_y']))
        try: it.call(it.getattr(me, 'make_step'), [xin], {})
        except PyEx:
            ctx.true('rejected without solving or recording', not w.at_solve.all() and not w.updates.all(), 'solver called or data recorded')
            for k in before: ctx.eq('rejected step leaves %s unchanged' % k, struct_whole(a[k]), before[k])
            ctx.eq('rejected step leaves the time unchanged', vec(a['_t0']), w.t0)
            return
        ctx.fail('invalid step is rejected', 'accepted')
    return run

def guess(kind, fl):
    def run(ctx):
        w = after_setup(ctx, kind, dict(fl, set_initial_guess=False)); it, me, a = w.it, w.me, w.me.attrs
        it.call(it.getattr(me, 'set_initial_guess'), [], {})
        cur = {'_x': '_x0', '_u': '_u0', '_z': '_z0', '_p_est': '_p_est0'}
        want = lambda n, q: mk('div', Term('sym', (cur[n],), DIMS[n], 1), Term('sym', (n + '_scaling',), DIMS[n], 1)) if n in cur else Term('var', ('OX', n) + tuple(q), base_rows(w.ox[n][1]), 1)
        everywhere(ctx, w, 'initial guess', a['_opt_x_num'], w.ox, want)
        ctx.true('initial guess is marked as set', it.getitem(a['flags'], 'set_initial_guess') is True, 'flag')
        for k in ('_x0', '_u0', '_z0'): ctx.eq('current values unchanged (%s)' % k, struct_whole(a[k]), Term('sym', (k,), DIMS[k[:-1]], 1))
    return run

refuter = Refuter({'N': [1, 2, 3], 'R': [0, 1], 'c': [2, 1], 'n_colloc': [2, 0]}, ufs=ufs, dom=3, where=lambda p: p['R'] <= p['N'])
CONTRACTS = [('solve (%s, %s)' % (k, label(f)), solve_run(k, f), refuter) for k in ('mpc', 'mhe') for f in combos('initial_run')]
CONTRACTS += [('solve before setup (%s)' % k, solve_before_setup(k), refuter) for k in ('mpc', 'mhe')]
CONTRACTS += [('MPC.make_step (%s)' % label(f), mpc_step(f), refuter) for f in combos('open_loop', 'full', 'lagr', 'stats')]
CONTRACTS += [('MPC.make_step with %s' % t, mpc_step({'ty': t}), refuter) for t in ('DM', 'struct')]
CONTRACTS += [('MPC.set_initial_guess (%s)' % label(f), guess('mpc', f), refuter) for f in combos('open_loop', 'single')]
CONTRACTS += [('MPC.make_step before setup', step_reject('mpc', {'setup': False}, Term('sym', ('x_in',), DIMS['_x'], 1, 'ndarray')), refuter), ('MPC.make_step with wrong size', step_reject('mpc', {}, 'size'), refuter), ('MPC.make_step with a list', step_reject('mpc', {}, PList(elems=[1, 2])), refuter), ('MPC.make_step with None', step_reject('mpc', {}, None), refuter)]
from . import createnlp
CONTRACTS += [c for c in createnlp.DATA if c[0].startswith('MPC')]
from . import reset as _reset
CONTRACTS += _reset.CONTRACTS['mpc']
