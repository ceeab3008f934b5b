"""C10: Simulator.setup, simulate, make_step: one exact sampling interval, for every model dimension."""
from .step import *

def flat(t):
    if isinstance(t, Term) and t.op == 'vcat':
        out = []
        for s in t.args[0]:
            if s.kind != 'e': raise Unsupported('concatenation of symbolic length')
            out += flat(s.val)
        return out
    return [t]

class SimWorld: pass

def simulator(ctx, fl):
    """Simulator object before setup"""
    w = SimWorld(); it = ctx.it
    it.base_facts += DIMFACTS
    W = World(it); m = model(it, W)
    w.it, w.W, w.m = it, W, m
    m.attrs['model_type'] = fl['type']
    it.module('do_mpc').ns['CASADI_LEGACY_MODE'] = fl.get('legacy', False)
    scls = it.find('do_mpc.simulator:' + ('SimulatorSettings' if fl['type'] == 'discrete' else 'ContinousSimulatorSettings'))
    st = PObj(scls, name='settings')
    w.tstep = Term('sym', ('t_step',), 1, 1)
    st.attrs = {'t_step': w.tstep}
    if fl['type'] == 'continuous':
        st.attrs.update(abstol=Term('sym', ('abstol',), 1, 1), reltol=Term('sym', ('reltol',), 1, 1), integration_tool=fl.get('tool', 'cvodes'), integration_opts=PDict({'user_option': 7}))
    me = PObj(it.find('do_mpc.simulator:Simulator'), name='simulator'); w.me = me
    a = me.attrs
    a.update({'_settings': st, 'model': m, 'flags': PDict({'set_tvp_fun': True, 'set_p_fun': True, 'setup': False, 'first_step': fl.get('first', True)})})
    for k in ('_x', '_u', '_z'): a[k + '0'] = W.st(k, k + '0', 'num')
    w.t0 = Term('sym', ('t0',), 1, 1, 'ndarray'); a['_t0'] = w.t0
    w.tvp = lambda t: Term('call', ('tvp_fun', vec(t)), DIMS['_tvp'], 1)
    w.p = lambda t: Term('call', ('p_fun', vec(t)), DIMS['_p'], 1)
    a['tvp_fun'] = LibFn('tvp_fun', lambda it, x, k: PStruct(W.L['_tvp'], 'num', whole=w.tvp(x[0]), name='tvp_fun'))
    a['p_fun'] = LibFn('p_fun', lambda it, x, k: PStruct(W.L['_p'], 'num', whole=w.p(x[0]), name='p_fun'))
    w.updates = Rec(it); w.ints = Rec(it); w.roots = Rec(it); w.runs = Rec(it)
    data = PObj(LibType('Data'), name='data')
    def update(it, args, kw):
        if args: raise PyEx('TypeError')
        for k, v in kw.items(): w.updates.add((k, frozen(it, v)))
    data.attrs['update'] = LibFn('update', update)
    a['data'] = data
    def integrator(it, x, k):
        o = PObj(LibType('Function'), name='integrator')
        w.ints.add((o, x, k)); return o
    def nlpsol(it, x, k):
        o = PObj(LibType('Function'), name='nlpsol')
        w.roots.add((o, x, k)); return o
    it.lib.hooks['casadi.tools.integrator'] = LibFn('integrator', integrator)
    it.lib.hooks['casadi.tools.nlpsol'] = LibFn('nlpsol', nlpsol)
    w.xf = Term('sym', ('xf',), DIMS['_x'], 1, 'DM'); w.zf = Term('sym', ('zf',), DIMS['_z'], 1, 'DM')
    def call(it, f, x, k):
        for kind, rec in (('int', w.ints), ('root', w.roots)):
            for o, _, _ in rec.all():
                if f is o:
                    if x: raise Unsupported('positional call of a solver')
                    w.runs.add((kind, o, {kk: frozen(it, v) for kk, v in k.items()}))
                    return PDict({'x': w.zf} if kind == 'root' else {'xf': w.xf, 'zf': w.zf})
        return NotImplemented
    it.lib.hooks['call_obj'] = call
    return w

def svar(w, e):
    """symbol of the simulation structures that stands for entry e"""
    for s in w.W.made:
        if e in s.layout.entries and s.layout.entries[e][0] == []: return s.content(e, [])
    raise Unsupported('symbol of %s not found' % e)

def replace(w, expr, what):
    return subst_inputs(vec(expr), [], {}, {repr(k): v for k, v in what})

def arbitrary(w):
    """arbitrary numerical content left by earlier steps"""
    it, a = w.it, w.me.attrs
    for k, e in (('sim_x_num', ['_x']), ('sim_z_num', ['_z']), ('sim_p_num', ['_u', '_p', '_tvp', '_w'])):
        s = a.get(k)
        if not isinstance(s, PStruct): raise Unsupported('numerical structure %s not found' % k)
        s.log = []; s.content = lambda n, q, k=k: Term('sym', ('old_%s%s' % (k, n),), DIMS[n], 1)
    if 'sim_aux_num' in a: a['sim_aux_num'] = w.W.st('_aux', 'old_aux', 'num')

def step(fl):
    def run(ctx):
        w = simulator(ctx, fl); it, me, a = w.it, w.me, w.me.attrs
        it.call(it.getattr(me, 'setup'), [], {})
        ctx.true('set up', it.getitem(a['flags'], 'setup') is True, 'flag setup')
        arbitrary(w); ctx.declared(me, a['flags'], a['_settings'], w.m, a['data'])
        ty = fl.get('ty', 'ndarray')
        def given(k, nm):
            if ty == 'struct': return w.W.st(k, nm, 'num')
            return Term('sym', (nm,), DIMS[k], 1, ty)
        S = lambda k, nm: Term('sym', (nm,), DIMS[k], 1)
        u, v, wn = S('_u', 'u_in'), C(0), C(0)
        kw = {}
        if fl.get('noise'):
            kw = {'v0': given('_v', 'v_in'), 'w0': given('_w', 'w_in')}; v, wn = S('_v', 'v_in'), S('_w', 'w_in')
        z_old = S('_z', 'old_sim_z_num_z')
        y = it.call(it.getattr(me, 'make_step'), [given('_u', 'u_in')], kw)
        x0, tvp, p = S('_x', '_x0'), w.tvp(w.t0), w.p(w.t0)
        X, Z = S('_x', 'X'), S('_z', 'Z')
        runs = w.runs.all()
        fn = lambda name, rows, x, z: Term('call', (name, x, u, z, tvp, p, wn), DIMS[rows], 1)
        if fl['type'] == 'continuous':
            ctx.true('exactly one integration per step', len(runs) == 1 and runs[0][0] == 'int', '%s' % [r[0] for r in runs])
            _, o, k = runs[0]
            _, x, kk = [i for i in w.ints.all() if i[0] is o][0]
            if kk or len(x) < 4: raise Unsupported('arguments of the integrator')
            dae = x[2].d
            ctx.true('integration tool', x[1] == fl.get('tool', 'cvodes'), 'tool %s' % (x[1],))
            opts = x[-1].d
            if fl.get('legacy'): 
                ctx.eq('length of the interval', vec(opts.get('tf', 0)), w.tstep); ctx.eq('start of the interval', vec(opts.get('t0', 0)), C(0))
            else:
                if len(x) != 6: raise Unsupported('arguments of the integrator')
                ctx.eq('length of the interval', mk('sub', vec(x[4]), vec(x[3])), w.tstep)
            ctx.true('options of the user reach the integrator', opts.get('user_option') == 7, 'integration_opts')
            if fl.get('tool') != 'collocation':
                for t in ('abstol', 'reltol'):
                    if t in opts: ctx.eq('integrator option %s' % t, vec(opts[t]), Term('sym', (t,), 1, 1))
                    else: ctx.fail('integrator option %s' % t, 'not passed')
            ctx.true('dae entries', set(dae) == {'x', 'z', 'p', 'ode', 'alg'}, '%s' % sorted(dae))
            def entries(s):
                if isinstance(s, PStruct) and s.layout.entries is not None: return [s.content(n, []) for n in s.layout.entries]
                return flat(vec(s))
            xs, zs, ps = entries(dae['x']), entries(dae['z']), entries(dae['p'])
            if len(xs) != 1 or len(zs) != 1: raise Unsupported('state of the integrator')
            if set(k) - {'x0', 'z0', 'p'}: ctx.fail('integrator arguments', '%s' % sorted(k))
            ctx.eq('integration starts at the current state', vec(k['x0']), x0)
            vals = [vec(k['p'])] if not isinstance(k['p'], PStruct) else [k['p'].content(n, []) for n in k['p'].layout.entries]
            vals = [t for q in vals for t in flat(q)]
            if len(vals) != len(ps): raise Unsupported('parameters of the integrator')
            mp = [(xs[0], X), (zs[0], Z)] + list(zip(ps, vals))
            ctx.eq('right-hand side that is integrated', replace(w, dae['ode'], mp), fn('rhs', '_x', X, Z))
            ctx.eq('algebraic equations of the integration', replace(w, dae['alg'], mp), fn('alg', '_z', X, Z))
            xn, zn = w.xf, w.zf
        else:
            nz0 = it.prove(DIMS['_z'] == 0)
            ctx.true('algebraic equations solved once per step', len(runs) == (0 if nz0 else 1), '%d' % len(runs))
            if runs:
                _, o, k = runs[0]
                _, x, kk = [i for i in w.roots.all() if i[0] is o][0]
                nlp = x[2].d
                zs, ps, vals = flat(vec(nlp['x'])), flat(vec(nlp['p'])), flat(vec(k['p']))
                if len(zs) != 1 or len(ps) != len(vals): raise Unsupported('parameters of the root solver')
                for b in ('lbg', 'ubg'):
                    if b in k: ctx.eq('root solver bound %s' % b, vec(k[b]), C(0))
                    else: ctx.fail('root solver bound %s' % b, 'not passed')
                ctx.true('no bounds on the algebraic states', not set(k) & {'lbx', 'ubx'}, '%s' % sorted(k))
                ctx.eq('algebraic equations that are solved', replace(w, nlp['g'], [(zs[0], Z)] + list(zip(ps, vals))), fn('alg', '_z', x0, Z))
                zn = w.zf
            else: zn = z_old
            xn = fn('rhs', '_x', x0, zn)
        want_y = Term('call', ('meas', xn, u, zn, tvp, p, v), DIMS['_y'], 1)
        ctx.eq('returned measurement', vec(y), want_y)
        ups = w.updates.all(); d = dict(ups)
        ctx.true('every field is recorded once', len(d) == len(ups), '%s' % [k for k, _ in ups])
        for k, val in {'_x': x0, '_u': u, '_tvp': tvp, '_p': p, '_y': want_y, '_time': w.t0}.items():
            if k in d: ctx.eq('recorded %s' % k, vec(d[k]), val)
            else: ctx.fail('recorded %s' % k, 'not recorded')
        ctx.eq('the state advances', struct_whole(a['_x0']), xn)
        ctx.eq('the current input', struct_whole(a['_u0']), u)
        ctx.eq('time advances by one step', vec(a['_t0']), mk('add', w.t0, w.tstep))
    return run

def reject(fl, what, val):
    def run(ctx):
        w = simulator(ctx, fl); it, me, a = w.it, w.me, w.me.attrs
        if fl.get('setup', True): it.call(it.getattr(me, 'setup'), [], {}); arbitrary(w)
        k = {'u0': '_u', 'v0': '_v', 'w0': '_w'}[what]
        x = val
        if val == 'rows':
            x = Term('sym', ('bad',), I('n_bad'), 1, fl.get('ty', 'ndarray')); it.base_facts.append(z3.And(I('n_bad') >= 0, I('n_bad') != DIMS[k]))
        if val == 'cols':
            x = Term('sym', ('bad',), DIMS[k], I('n_cols'), fl.get('ty', 'ndarray')); it.base_facts.append(z3.And(I('n_cols') >= 0, I('n_cols') != 1))
        if val is None: it.base_facts.append(DIMS['_u'] > 0)
        kw = {'u0': Term('sym', ('u_in',), DIMS['_u'], 1, 'ndarray')}; kw[what] = x
        try: it.call(it.getattr(me, 'make_step'), [], kw)
        except PyEx:
            ctx.true('rejected without simulating or recording', not w.runs.all() and not w.updates.all(), 'something was run or recorded')
            for q in ('_x', '_u', '_z'): ctx.eq('rejected step leaves %s0 unchanged' % q, struct_whole(a[q + '0']), Term('sym', (q + '0',), DIMS[q], 1))
            ctx.eq('rejected step leaves the time unchanged', vec(a['_t0']), w.t0)
            return
        ctx.fail('invalid step is rejected', 'accepted')
    return run

def no_input(fl):
    def run(ctx):
        w = simulator(ctx, fl); it, me = w.it, w.me
        it.base_facts.append(DIMS['_u'] == 0)
        it.call(it.getattr(me, 'setup'), [], {}); arbitrary(w)
        try: it.call(it.getattr(me, 'make_step'), [], {})
        except PyEx as ex: return ctx.fail('a model without inputs needs no input', str(ex))
        ctx.ok('a model without inputs needs no input')
    return run

def guess(ctx):
    w = simulator(ctx, {'type': 'continuous'}); it, me, a = w.it, w.me, w.me.attrs
    it.call(it.getattr(me, 'setup'), [], {}); arbitrary(w)
    it.call(it.getattr(me, 'set_initial_guess'), [], {})
    ctx.eq('initial guess of the algebraic states', vec(it.getitem(a['sim_z_num'], '_z')), Term('sym', ('_z0',), DIMS['_z'], 1))

def initalg(fl):
    """the algebraic states found by init_algebraic_variables solve the algebraic equations at the current state, input, parameters and time"""
    def run(ctx):
        w = simulator(ctx, fl); it, me, a = w.it, w.me, w.me.attrs
        it.call(it.getattr(me, 'setup'), [], {}); arbitrary(w)
        n0 = len(w.roots.all()), len(w.updates.all())
        # symbols of the model and its algebraic equations as an expression of them
        V = {k: Term('var', ('model', k), DIMS[k], 1) for k in ('_x', '_u', '_z', '_tvp', '_p')}
        for k, v in V.items(): w.m.attrs[k[1:]] = v
        w.m.attrs['_alg'] = Term('call', ('alg',) + tuple(V.values()), DIMS['_z'], 1)
        r = it.call(it.getattr(me, 'init_algebraic_variables'), [], {})
        runs = w.runs.all()
        ctx.true('the equations are solved once', len(runs) == 1 and runs[0][0] == 'root', '%s' % [q[0] for q in runs])
        if len(runs) != 1: return
        _, o, k = runs[0]
        _, x, kk = [i for i in w.roots.all() if i[0] is o][0]
        nlp = x[2].d
        zs, ps, vals = flat(vec(nlp['x'])), flat(vec(nlp['p'])), flat(vec(k['p']))
        if len(zs) != 1 or len(ps) != len(vals): raise Unsupported('parameters of the root solver')
        for b in ('lbg', 'ubg'):
            if b in k: ctx.eq('root solver bound %s' % b, vec(k[b]), C(0))
            else: ctx.fail('root solver bound %s' % b, 'not passed')
        ctx.true('no bounds on the algebraic states', not set(k) & {'lbx', 'ubx'}, '%s' % sorted(k))
        S = lambda k, nm: Term('sym', (nm,), DIMS[k], 1)
        Z = S('_z', 'Z')
        want = Term('call', ('alg', S('_x', '_x0'), S('_u', '_u0'), Z, w.tvp(w.t0), w.p(w.t0)), DIMS['_z'], 1)
        got = replace(w, nlp['g'], [(zs[0], Z)] + list(zip(ps, vals)))
        ctx.eq('algebraic equations that are solved', got, want)
        ctx.eq('the solution is the current algebraic state', struct_whole(a['_z0']), w.zf)
        ctx.eq('the solution is the guess of the next step', vec(it.getitem(a['sim_z_num'], '_z')), w.zf)
        ctx.eq('the solution is returned', vec(r), w.zf)
        for q in ('_x', '_u'): ctx.eq('%s0 is unchanged' % q, struct_whole(a[q + '0']), S(q, q + '0'))
        ctx.eq('the time is unchanged', vec(a['_t0']), w.t0)
        ctx.true('nothing is recorded', len(w.updates.all()) == n0[1], '')
    return run

refuter = Refuter({}, dom=3)
FL = [{'type': 'discrete'}, {'type': 'continuous', 'tool': 'cvodes'}, {'type': 'continuous', 'tool': 'idas'}, {'type': 'continuous', 'tool': 'collocation'}, {'type': 'continuous', 'legacy': True}]
lab = lambda f: ', '.join('%s' % (v if isinstance(v, str) else k) for k, v in f.items() if v)
CONTRACTS = [('Simulator.setup, make_step (%s)' % lab(g), step(g), refuter) for f in FL for g in (dict(f, first=True), dict(f, first=False, noise=True))]
CONTRACTS += [('Simulator.setup, make_step (%s)' % lab(g), step(g), refuter) for f in FL[:2] for ty in ('DM', 'struct') for g in (dict(f, noise=True, ty=ty),)]
CONTRACTS += [('Simulator.make_step rejects %s %s (%s)' % (k, v, f['type']), reject(f, k, v), refuter) for f in FL[:2] for k in ('u0', 'v0', 'w0') for v in ('rows', 'cols', PList(elems=[1, 2]))]
CONTRACTS += [('Simulator.make_step without input (%s)' % f['type'], reject(f, 'u0', None), refuter) for f in FL[:2]]
CONTRACTS += [('Simulator.make_step of a model without inputs (%s)' % f['type'], no_input(f), refuter) for f in FL[:2]]
CONTRACTS += [('Simulator.make_step before setup', reject(dict(FL[0], setup=False), 'u0', Term('sym', ('u_in',), DIMS['_u'], 1, 'ndarray')), refuter), ('Simulator.set_initial_guess', guess, refuter)]
CONTRACTS += [('Simulator.init_algebraic_variables (%s)' % f['type'], initalg(f), refuter) for f in FL[:2]]
from . import reset as _reset
CONTRACTS += _reset.CONTRACTS['simulator']
