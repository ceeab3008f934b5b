"""C07: Optimizer._setup_discretization for every degree, element count, scheme, scaling and model."""
from .opt import *
DEG, NI, NH = I('deg'), I('ni'), I('n_horizon')
def world(ctx, mtype='continuous', coll='radau', sd='collocation'):
    it = ctx.it
    it.base_facts += DIMFACTS + [DEG >= 1, NI >= 1, NH >= 1]
    W = World(it); m = model(it, W); m.attrs['model_type'] = mtype
    cls = it.find('do_mpc.optimizer:Optimizer'); me = PObj(cls, name='opt')
    st = PObj(LibType('settings'), name='settings')
    st.attrs = {'n_horizon': SInt(NH), 't_step': Term('sym', ('t_step',), 1, 1), 'state_discretization': sd, 'collocation_type': coll, 'collocation_deg': SInt(DEG), 'collocation_ni': SInt(NI)}
    me.attrs.update(model=m, settings=st, _settings=st)
    for k in ('_x', '_u', '_z', '_p'): me.attrs[k + '_scaling'] = W.st(k, 'scaling' + k, 'num')
    return it, W, m, me
def tau(coll, q):
    """interpolation points: 0 and the collocation points of the scheme"""
    return Term('ite', (q == 0, C(0), Term('colloc', (coll, DEG, q - 1), 1, 1)), 1, 1)
T0 = Term('sym', ('$t',), 1, 1)
def basis(coll, j, t):
    """Lagrange polynomial of point j at t"""
    q = fresh_int('q')
    return Term('bigprod', (Big(Binder(q, 0, DEG + 1), q != j, mk('div', mk('sub', t, tau(coll, q)), mk('sub', tau(coll, j), tau(coll, q)))),), 1, 1)
def dbasis(coll, j, t):
    return deriv(basis(coll, j, T0), T0).at(t) if False else Term('deriv', (basis(coll, j, T0), t), 1, 1)
def bigsum(b, g, t): return Term('bigsum', (Big(b, g, t),), t.rows, 1)

def segbag(segs, bs=(), g=TRUE, row=lambda t: Term('row', (t,), 1, 1)):
    """rows of a sequence as a sum of row atoms"""
    tot = C(0)
    for s in segs:
        if s.kind == 'e': tot = mk('add', tot, family(list(bs), g, row(vec(s.val))))
        else: tot = mk('add', tot, segbag(s.segs, tuple(bs) + (s.b,), z3.And(g, s.guard), row))
    return tot

def colloc(coll):
    def run(ctx):
        it, W, m, me = world(ctx, coll=coll)
        r = it.call(it.getattr(me, '_setup_discretization'), [], {})
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], CFun)): return ctx.unknown('result', 'another form')
        F = r[0]
        ctx.oblige('number of stored points per interval', zi(r[1]) == (DEG + 1) * NI)
        d = DIMS; nx, nz = d['_x'], d['_z']
        ctx.true('interface of the discretization', len(F.ins) == 7 and len(F.outs) == 2 and all(isinstance(x, Term) and x.op == 'sym' for x in F.ins) and len({x.args[0] for x in F.ins}) == 7, repr(F.ins))
        x0, ik, u, zk, tv, p, w = F.ins
        for nm, t, n in (('initial state', x0, nx), ('states at the points', ik, NI * (DEG + 1) * nx), ('input', u, d['_u']), ('algebraic states at the points', zk, NI * (DEG + 1) * nz), ('time-varying parameters', tv, d['_tvp']), ('parameters', p, d['_p']), ('process noise', w, d['_w'])):
            ctx.oblige('size of the %s' % nm, zi(t.rows) == n)
        gk, xf = vec(F.outs[0]), vec(F.outs[1])
        ctx.oblige('as many equations as unknowns', zi(gk.rows) == zi(ik.rows) + zi(zk.rows))
        sc = {k: Term('sym', ('scaling' + k,), d[k], 1) for k in ('_x', '_u', '_z', '_p')}
        def sl(v, o, n): return Term('slice', (v, z3.simplify(o, som=True), n), n, 1)
        def X(i, j):
            off = (i * (DEG + 1) + j - 1) * nx
            c = z3.simplify(z3.And(i == 0, j == 0))
            if z3.is_true(c): return x0
            if z3.is_false(c): return sl(ik, off, nx)
            return Term('ite', (c, x0, sl(ik, off, nx)), nx, 1)
        def Z(i, j): return sl(zk, (i * (DEG + 1) + j) * nz, nz)
        def model(f, i, j, n): return Term('call', (f, mk('mul', X(i, j), sc['_x']), mk('mul', u, sc['_u']), mk('mul', Z(i, j), sc['_z']), tv, mk('mul', p, sc['_p']), w), n, 1)
        h = mk('div', Term('sym', ('t_step',), 1, 1), Term('int', (NI,), 1, 1))
        i, j, q = fresh_int('i'), fresh_int('j'), fresh_int('q')
        bi, bj, bq = Binder(i, 0, NI), Binder(j, 1, DEG + 1), Binder(q, 0, DEG + 1)
        end = bigsum(bq, TRUE, mk('mul', basis(coll, q, C(1)), X(i, q)))
        dot = bigsum(bq, TRUE, mk('mul', dbasis(coll, q, tau(coll, j)), X(i, q)))
        def rows(row):
            start = family([bi], TRUE, row(model('alg', i, z3.IntVal(0), nz)))
            deriv_ = family([bi, bj], TRUE, row(mk('sub', mk('mul', h, mk('div', model('rhs', i, j, nx), sc['_x'])), dot)))
            alg = family([bi, bj], TRUE, row(model('alg', i, j, nz)))
            cont = family([bi], TRUE, row(mk('sub', X(i + 1, z3.IntVal(0)), end)))
            return mk('add', mk('add', start, deriv_), mk('add', alg, cont))
        one = lambda t: Term('row', (t,), 1, 1)
        both = lambda t: mk('add', one(t), one(mk('neg', t)))       # equations may be written with either sign
        ctx.eq('final state is the last state variable', xf, sl(ik, (NI * (DEG + 1) - 1) * nx, nx))
        if gk.op != 'vcat': return ctx.unknown('equations', 'another form: %s' % gk.op)
        eq_bags(ctx, 'equations: collocation, algebraic, continuity and final state', lambda sign: (segbag(gk.args[0], row=both if sign else one), rows(both if sign else one)))
    return run

def discrete(ctx):
    it, W, m, me = world(ctx, mtype='discrete')
    r = it.call(it.getattr(me, '_setup_discretization'), [], {})
    if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], CFun)): return ctx.unknown('result', 'another form')
    F = r[0]; d = DIMS
    ctx.oblige('no intermediate points', zi(r[1]) == 0)
    ctx.true('interface', len(F.ins) == 7 and len(F.outs) == 2, repr(F.ins))
    vals = [Term('sym', ('v%d' % k,), n, 1) for k, n in enumerate((d['_x'], 0, d['_u'], d['_z'], d['_tvp'], d['_p'], d['_w']))]
    ctx.oblige('no intermediate unknowns', zi(vec(F.ins[1]).rows) == 0)
    g, xn = it.lib.call_cfun(it, F, vals, {})
    x, _, u, z, tv, p, w = vals
    sc = {k: Term('sym', ('scaling' + k,), d[k], 1) for k in ('_x', '_u', '_z', '_p')}
    mo = lambda f, n: Term('call', (f, mk('mul', x, sc['_x']), mk('mul', u, sc['_u']), mk('mul', z, sc['_z']), tv, mk('mul', p, sc['_p']), w), n, 1)
    ctx.eq('algebraic equations of the model', vec(g), mo('alg', d['_z']))
    ctx.eq('next state is one scaled model evaluation', vec(xn), mk('div', mo('rhs', d['_x']), sc['_x']))

def reject(ctx):
    it, W, m, me = world(ctx, coll='unknown scheme')
    try: it.call(it.getattr(me, '_setup_discretization'), [], {})
    except PyEx: return ctx.ok('unknown collocation scheme is rejected')
    ctx.fail('unknown collocation scheme is rejected', 'accepted')

RF = Refuter({'deg': [1, 2, 3], 'ni': [1, 2, 3], 'n_x': [2], 'n_z': [2], 'n_u': [1], 'n_p': [1], 'n_tvp': [1], 'n_w': [1], 'n_horizon': [2]}, dom=4)
CONTRACTS = [('collocation radau', colloc('radau'), RF), ('collocation legendre', colloc('legendre'), RF), ('discrete model', discrete, RF), ('unknown scheme', reject, RF)]
LEVEL = 'proof'
TRUSTED = ['casadi collocation_points: the points of the named scheme and degree', 'casadi tangent: derivative of the polynomial', 'casadi Function: evaluation substitutes the inputs']
