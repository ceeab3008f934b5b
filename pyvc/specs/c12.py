"""C12: LQR.discrete_gain, setup, set_rterm, set_objective, set_setpoint, make_step for every system dimension and horizon."""
from .step import *
n, m = DIMS['_x'], DIMS['_u']
NH = I('n_horizon')
mat = lambda nm, r, c, ty='ndarray': Term('sym', (nm,), r, c, ty)
mm = lambda *a: a[0] if len(a) == 1 else mk('matmul', a[0], mm(*a[1:]))
T = lambda a: mk('T', a)
inv = lambda a: Term('minv', (a,), a.rows, a.cols)
def gain(A, B, P, R): return mk('neg', mm(inv(mk('add', mm(T(B), P, B), R)), T(B), P, A))
def riccati(A, B, Q, R, P): return mk('sub', mk('add', Q, mm(T(A), P, A)), mm(T(A), P, B, inv(mk('add', mm(T(B), P, B), R)), T(B), P, A))

def lqr(ctx, horizon, mode='standard', setup=True):
    it = ctx.it
    it.base_facts += [n >= 1, m >= 1, DIMS['_tvp'] >= 0, DIMS['_z'] >= 0, NH >= 1]
    W = World(it); md = model(it, W); md.attrs.update(model_type='discrete', _A=mat('A', n, n), _B=mat('B', n, m))
    me = PObj(it.find('do_mpc.controller._lqr:LQR'), name='lqr')
    st = PObj(it.find('do_mpc.controller._controllersettings:LQRSettings'), name='settings')
    w = StepWorld(); w.it, w.me, w.W, w.m = it, me, W, md
    w.tstep = Term('sym', ('t_step',), 1, 1)
    st.attrs = {'n_horizon': SInt(NH) if horizon else None, 't_step': w.tstep}
    w.t0 = Term('sym', ('t0',), 1, 1, 'ndarray'); w.updates = Rec(it)
    data = PObj(LibType('Data'), name='data')
    def update(it, args, kw):
        if args: raise PyEx('TypeError')
        for k, v in kw.items(): w.updates.add((k, frozen(it, v)))
    data.attrs['update'] = LibFn('update', update)
    me.attrs.update(model=md, model_type='discrete', settings=st, data=data, mode='standard', flags=PDict({'setup': False}), _t0=w.t0)
    for k in ('_x', '_u', '_z'): me.attrs[k + '0'] = W.st(k, k + '0', 'num')
    it.lib.hooks['call:scipy.linalg.solve_discrete_are'] = lambda it, a, k: (Term('dare', tuple(vec2(x) for x in a), vec2(a[0]).rows, vec2(a[0]).cols) if len(a) == 4 and not k else unsup())
    return w

def unsup(): raise Unsupported('generalised Riccati equation')

def gain_finite(ctx):
    """loop invariant: after k iterations the matrix is the k-th Riccati iterate of the terminal weight"""
    w = lqr(ctx, True); it, me = w.it, w.me
    A, B, Q, R, P0 = mat('A', n, n), mat('B', n, m), mat('Q', n, n), mat('R', m, m), mat('P', n, n)
    me.attrs.update(Q=Q, R=R, P=P0)
    P = lambda k: Term('riccati', (zi(k),), n, n)
    def rec(it, lo, hi, L, fn, body, env, keys, ph, allph, cls, res, saved):
        recs = [k for k, c in cls.items() if c[0] == 'rec']
        if len(recs) != 1 or recs[0][0] != 'loc' or len(res) != 1: raise Unsupported('recurrence with several carried values')
        name = recs[0][1]; v0 = saved[name]; sy = ph[recs[0]]
        if not ctx.it.prove(zi(lo) < zi(hi)): raise Unsupported('loop may be empty')
        if any(c[0] in ('sum', 'prod', 'shift') for c in cls.values()): raise Unsupported('recurrence with further carried values')
        conds, ends, attrs, recs_ = res[0]
        if attrs: raise Unsupported('recurrence with side effects')
        ctx.eq('Riccati iteration starts from the terminal weight', vec2(v0), P0)
        k = L.binder.var; k0 = zi(lo)
        at = lambda v, i, Pi: subst(subst_term(v, [(sy, Pi)]), [(k, i)]) if isinstance(v, Term) else v
        ctx.extra += [k >= k0, k < zi(hi)]
        ctx.eq('one pass is one Riccati step', at(vec2(ends[name]), k, P(k - k0)), riccati(A, B, Q, R, P(k - k0)))
        del ctx.extra[-2:]
        ctx.oblige('number of Riccati steps', zi(hi) - k0 == NH)
        last = z3.simplify(zi(hi) - 1)
        env.vars.clear(); env.vars.update(saved)
        for x, v in ends.items():
            if x == name: env.vars[x] = P(z3.simplify(zi(hi) - k0))
            elif isinstance(v, Term): env.vars[x] = at(v, last, P(z3.simplify(last - k0)))
            elif x not in saved: env.vars[x] = Poison('value of the last pass')
    it.lib.hooks['recurrence'] = rec
    K = it.call(it.getattr(me, 'discrete_gain'), [A, B], {})
    ctx.eq('gain after the last Riccati step', vec2(K), gain(A, B, P(NH - 1), R))

def gain_infinite(ctx):
    w = lqr(ctx, False); it, me = w.it, w.me
    A, B, Q, R = mat('A', n, n), mat('B', n, m), mat('Q', n, n), mat('R', m, m)
    me.attrs.update(Q=Q, R=R, P=None)
    K = it.call(it.getattr(me, 'discrete_gain'), [A, B], {})
    ctx.eq('gain of the stabilizing Riccati solution', vec2(K), gain(A, B, Term('dare', (A, B, Q, R), n, n), R))

def zer(r, c): return Term('zeros', (), r, c)
def blk(*rows): return Term('block', (tuple(rows),), None, None)

def setup(horizon, rate, giveP):
    def run(ctx):
        w = lqr(ctx, horizon); it, me, a = w.it, w.me, w.me.attrs
        Q, R, P, D, A, B = mat('Q', n, n), mat('R', m, m), mat('P', n, n), mat('delR', m, m), mat('A', n, n), mat('B', n, m)
        kw = {'Q': Q, 'R': R}
        if giveP: kw['P'] = P
        it.call(it.getattr(me, 'set_objective'), [], kw)
        if rate: it.call(it.getattr(me, 'set_rterm'), [], {'delR': D})
        seen = Rec(it)
        Kt = Term('sym', ('K',), m, (z3.simplify(n + m) if rate else n), 'ndarray')
        def h(it, args, kw):
            seen.add((args[1:], kw, {k: args[0].attrs.get(k) for k in ('Q', 'R', 'P')})); return Kt
        it.contracts['*.discrete_gain'] = h
        it.call(it.getattr(me, 'setup'), [], {})
        s = seen.all()
        ctx.true('gain is computed once', len(s) == 1 and len(s[0][0]) == 2, '%d' % len(s))
        (Ag, Bg), _, v = s[0]
        I_ = Term('eye', (m,), m, m)
        Pw = P if giveP else Q
        if rate: want = dict(A=blk((A, B), (zer(m, n), I_)), B=vcat(it, [E(B), E(I_)]), Q=blk((Q, zer(n, m)), (zer(m, n), R)), R=D, P=blk((Pw, zer(n, m)), (zer(m, n), R)))
        else: want = dict(A=A, B=B, Q=Q, R=R, P=Pw)
        got = dict(A=Ag, B=Bg, Q=v['Q'], R=v['R'], P=v['P'])
        for k in 'ABQR' + ('P' if horizon else ''): ctx.eq('weight or system matrix %s of the Riccati equation' % k, vec2(got[k]), want[k])
        ctx.true('set up', it.getitem(a['flags'], 'setup') is True, 'flag')
        ctx.eq('gain is stored', vec2(a['K']), Kt)
        try: it.call(it.getattr(me, 'set_objective'), [], {'Q': Q, 'R': R, 'P': P})
        except PyEx: return ctx.ok('objective after setup is rejected')
        ctx.fail('objective after setup is rejected', 'accepted')
    return run

def ready(ctx, rate):
    """controller after setup: gain K"""
    w = lqr(ctx, True); it, me, a = w.it, w.me, w.me.attrs
    a.update(Q=mat('Q', n, n), R=mat('R', m, m), P=mat('P', n, n))
    if rate: it.call(it.getattr(me, 'set_rterm'), [], {'delR': mat('delR', m, m)})
    w.K = Term('sym', ('K',), m, (z3.simplify(n + m) if rate else n), 'ndarray')
    it.contracts['*.discrete_gain'] = lambda it, args, kw: w.K
    it.call(it.getattr(me, 'setup'), [], {})
    return w

XS = lambda i: mat('xs%s' % i, n, 1); US = lambda i: mat('us%s' % i, m, 1)
def put(w, x, u):
    kw = {}
    if x is not None: kw['xss'] = x
    if u is not None: kw['uss'] = u
    w.it.call(w.it.getattr(w.me, 'set_setpoint'), [], kw)
def state(w):
    return {k: v for k, v in w.me.attrs.items() if k not in ('data', '_t0', '_x0', '_u0', '_z0', 'model', 'settings', 'flags')}
def same_state(ctx, name, s1, s2):
    """the private state is the same as that after set_setpoint(x, u) on a fresh controller"""
    if set(s1) != set(s2): return ctx.unknown(name, 'attributes differ: %s' % (set(s1) ^ set(s2)))
    for k in s1:
        p, q = s1[k], s2[k]
        if isinstance(p, (Term, PArr)) or isinstance(q, (Term, PArr)):
            e = nf.Eq(ctx.facts())
            try: ok = e.eq(vec2(p), vec2(q))
            except Unsupported: ok = False
        else: ok = p is q or (not isinstance(p, (PObj, PDict, PList)) and p == q)
        if not ok: return ctx.unknown(name, 'attribute %s: %s / %s' % (k, show(p), show(q)))
    ctx.ok(name)

def law(ctx, w, rate, xs, us, tag, ty='ndarray'):
    """one step from the current state of the object"""
    it, me, a = w.it, w.me, w.me.attrs
    x = Term('sym', ('x_in',), n, 1); up = Term('sym', ('u_prev',), m, 1); a['_u0'] = w.W.st('_u', 'u_prev', 'num'); a['_x0'] = w.W.st('_x', 'x_prev', 'num'); a['_t0'] = w.t0
    n0 = len(w.updates.all())
    ctx.declared(me, a['flags'], a['settings'], w.m, a['data'], extra=('xss', 'uss'))
    xin = w.W.st('_x', 'x_in', 'num') if ty == 'struct' else Term('sym', ('x_in',), n, 1, ty)
    u = it.call(it.getattr(me, 'make_step'), [xin], {})
    if rate: want = mk('add', mm(w.K, mk('sub', vcat(it, [E(x), E(up)]), vcat(it, [E(xs), E(us)]))), up)
    else: want = mk('add', mm(w.K, mk('sub', x, xs)), us)
    ctx.eq('control law' + tag, vec2(u), want)
    ups = w.updates.all()[n0:]; d = dict(ups)
    ctx.true('recorded fields' + tag, sorted(k for k, _ in ups) == ['_time', '_u', '_x'], '%s' % [k for k, _ in ups])
    for k, v in {'_x': x, '_u': want, '_time': w.t0}.items():
        if k in d: ctx.eq('recorded %s%s' % (k, tag), vec(d[k]), v)
    ctx.eq('time advances' + tag, vec(a['_t0']), mk('add', w.t0, w.tstep))
    ctx.eq('current state' + tag, struct_whole(a['_x0']), x); ctx.eq('current input' + tag, struct_whole(a['_u0']), want)

OPS = {'x': (XS(2), None), 'u': (None, US(2)), 'both': (XS(2), US(2)), 'none': (None, None)}
def canon(ctx, rate, x, u):
    w = ready(ctx, rate); put(w, x, u); return state(w)
def histories(rate, op, start):
    """set-points: any history is equivalent to the last value set for state and input (induction over the operations:
    base: fresh controller; step: one operation from the state after set_setpoint(x, u))"""
    def run(ctx):
        w = ready(ctx, rate)
        xs, us = zer(n, 1), zer(m, 1)
        if start == 'set': put(w, XS(1), US(1)); xs, us = XS(1), US(1)
        if op == 'step':
            law(ctx, w, rate, xs, us, '')
        elif op != 'nop':
            x, u = OPS[op]
            put(w, x, u)
            xs, us = x if x is not None else xs, u if u is not None else us
        if op != 'nop':
            s = state(w)
            same_state(ctx, 'set-point history: state after the operation', s, canon(ctx, rate, Term(xs.op, xs.args, n, 1, 'ndarray'), Term(us.op, us.args, m, 1, 'ndarray')))
        law(ctx, w, rate, xs, us, ' (after the operation)')
    return run

def types(rate, ty):
    def run(ctx):
        w = ready(ctx, rate); put(w, XS(1), US(1)); law(ctx, w, rate, XS(1), US(1), '', ty)
    return run

def reject(what):
    def run(ctx):
        w = lqr(ctx, True) if what.startswith('before') else ready(ctx, False)
        it, me, a = w.it, w.me, w.me.attrs
        bad = I('n_bad'); it.base_facts.append(z3.And(bad >= 0, bad != n, bad != m))
        x = Term('sym', ('x_in',), n, 1, 'ndarray')
        def act():
            g = lambda k: it.getattr(me, k)
            if what == 'before: step': it.call(g('make_step'), [x], {})
            elif what == 'before: set-point': it.call(g('set_setpoint'), [XS(1)], {})
            elif what == 'step with a list': it.call(g('make_step'), [PList(elems=[1, 2])], {})
            elif what == 'set-point xss of wrong shape': it.call(g('set_setpoint'), [], {'xss': mat('b', bad, 1)})
            elif what == 'set-point uss of wrong shape': it.call(g('set_setpoint'), [], {'uss': mat('b', bad, 1)})
            else:
                k = what.split(':')[1]
                kw = {'Q': mat('Q', n, n), 'R': mat('R', m, m), 'P': mat('P', n, n)}; kw[k] = mat('b', bad, bad)
                it.call(g('set_objective'), [], kw)
        try: act()
        except PyEx: return ctx.true('rejected: %s' % what, not w.updates.all(), 'data recorded')
        ctx.fail('rejected: %s' % what, 'accepted')
    return run

refuter = Refuter({'n_horizon': [1, 2, 3]}, dom=3)
CONTRACTS = [('LQR.discrete_gain (finite horizon)', gain_finite, refuter), ('LQR.discrete_gain (infinite horizon)', gain_infinite, refuter)]
CONTRACTS += [('LQR.set_objective, set_rterm, setup (%s, %s, %s)' % ('finite' if h else 'infinite', 'rate' if r else 'standard', 'P' if p else 'no P'), setup(h, r, p), refuter) for h in (True, False) for r in (False, True) for p in (True, False)]
CONTRACTS += [('LQR.set_setpoint, make_step (%s, %s, %s)' % ('rate' if r else 'standard', s, o), histories(r, o, s), refuter) for r in (False, True) for s in ('fresh', 'set') for o in ('nop', 'step', 'x', 'u', 'both', 'none')]
CONTRACTS += [('LQR.make_step with %s (%s)' % (t, 'rate' if r else 'standard'), types(r, t), refuter) for r in (False, True) for t in ('DM', 'struct')]
CONTRACTS += [('LQR rejects %s' % k, reject(k), refuter) for k in ('before: step', 'before: set-point', 'before:Q', 'before:R', 'before:P', 'step with a list', 'set-point xss of wrong shape', 'set-point uss of wrong shape')]
from . import reset as _reset
CONTRACTS += _reset.CONTRACTS['lqr'] + _reset.CONTRACTS['lqr with rates']
