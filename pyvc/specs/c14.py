"""C14: dae2odeconversion."""
from .c13 import *
CONV = 'do_mpc.model._dae2odeconversion:dae2odeconversion'

def convert(g):
    def run(ctx):
        it = ctx.it
        w = general(ctx, g); me = w.me
        before = dict(me.attrs)
        o = it.call(it.find(CONV), [me], {})
        a = o.attrs
        ctx.true('set up', it.getitem(a['flags'], 'setup') is True, 'flag'); ctx.true('a new model of the same type', o is not me and a['model_type'] == g.mt and a['symvar_type'] == g.sv, '')
        names = lambda t: [n for n in a[t].layout.entries if n != 'default']
        X = [('_x', n) for n in g.v['_x']] + [('_u', n) for n in g.v['_u']] + [('_z', n) for n in g.v['_z']]
        ctx.true('states of the converted model', names('_x') == [n for _, n in X], '%s' % names('_x'))
        for t in ('_p', '_tvp'): ctx.true('names of ' + t, names(t) == list(g.v[t]), '%s' % names(t))
        ctx.true('no algebraic states are left', names('_z') == [], '%s' % names('_z'))
        for t, n in X: ctx.oblige('size of %s' % n, zi(base_rows(a['_x'].layout.entries[n][1])) == R(t + n))
        for t in ('_p', '_tvp'):
            for n in g.v[t]: ctx.oblige('size of %s' % n, zi(base_rows(a[t].layout.entries[n][1])) == R(t + n))
        nu = size(*[R('_u' + n) for n in g.v['_u']])
        ctx.oblige('one rate per input', zi(a['n_u']) == nu)
        V = values(o)
        q = whole_val(it, V, '_u')
        got = vec(it.call(it.getattr(o, '_rhs_fun'), [V[k] for k in ('_x', '_u', '_z', '_tvp', '_p', '_w')], {}))
        # values of the quantities of the original model
        pr = []
        for t, n in w.dec: pr.append((w.dec[(t, n)], val('_x' if t in ('_u', '_z') else t, n, R(t + n))))
        at = lambda e: replace(e, pr)
        f0 = [at(w.expr[('rhs', n)]) for n in g.v['_x']]
        f = [mk('add', e, val('_w', n + '_noise', R('_x' + n))) if n in g.noise else e for n, e in zip(g.v['_x'], f0)]
        ctx.true('noises', names('_w') == [n + '_noise' for n in g.v['_x'] if n in g.noise], '%s' % names('_w'))
        alg = cat(it, [at(w.expr[('alg', n)]) for n in g.v['_z']])
        def jac(kind):
            sy = [val('_x', n, R(kind + n)) for n in g.v[kind]]
            return Term('jac', (replace(alg, [(s, Term('sym', ('$j%d' % i,), s.rows, 1)) for i, s in enumerate(sy)]), tuple(sy)), w.nz, size(*[s.rows for s in sy]))
        w.nz = size(*[R('_z' + n) for n in g.v['_z']])
        Jx, Ju, Jz = jac('_x'), jac('_u'), jac('_z')
        F = cat(it, f)
        rate = mk('add', mm(Jx, F), mm(Ju, q)) if g.v['_u'] else mm(Jx, F)
        zdot = mk('neg', mm(inv(Jz), rate))
        ctx.eq('the residual is constant along solutions', mk('add', mm(Jz, zdot), rate), zer(w.nz, 1))
        off = z3.IntVal(0); qs, zs = [], []
        for n in g.v['_u']: qs.append(rowsof(it, q, off, R('_u' + n))); off = off + R('_u' + n)
        off = z3.IntVal(0); zd = Term(zdot.op, zdot.args, w.nz, 1)
        for n in g.v['_z']: zs.append(rowsof(it, zd, off, R('_z' + n))); off = off + R('_z' + n)
        off = z3.IntVal(0)
        for (t, n), e, what in zip(X, f + qs + zs, ['state equation of %s' % n for n in g.v['_x']] + ['input %s integrates its rate' % n for n in g.v['_u']] + ['equation of the algebraic state %s' % n for n in g.v['_z']]):
            ctx.eq(what, rowsof(it, got, off, R(t + n)), e); off = off + R(t + n)
        ctx.true('the original model is unchanged', set(before) == set(me.attrs) and all(before[k] is me.attrs[k] for k in before), '')
    return run

def guard(ctx):
    w = build(ctx, CFGD[0]); reject(ctx, w, 'conversion before setup', lambda: w.it.call(w.it.find(CONV), [w.me], {}))

CFGD = [Cfg(('xa',), ('ua',), ('za',), (), (), (), [('ya', True)]), Cfg(('xb', 'xa'), ('ub', 'ua'), ('zb', 'za'), ('pa',), ('ta',), ('ea',), [('ya', True), ('yb', False)], ('xa', 'xb'), ('xa', 'xb')),
        Cfg(('xa', 'xb'), ('ua',), ('za', 'zc', 'zb'), ('pb', 'pa'), (), (), None, None, ('xb',)), Cfg(('xa',), ('ua', 'uc', 'ub'), ('za',), (), ('ta', 'tb'), (), [('ya', False)], None, ())]
CONTRACTS = [('dae2odeconversion (%r)' % g, convert(g), refuter) for g in CFGD] + [('dae2odeconversion before setup', guard, refuter)]
BOUNDED = {'dae2odeconversion (': 'bounded in the number of named variables of each kind (at most three); all dimensions, functions and points are symbolic'}
TRUSTED = TRUSTED[:1] + ['casadi.inv is the inverse matrix; the Jacobian with respect to the algebraic states is assumed regular']
LEVEL = 'other'
EXPLANATION = 'symbolic contract of the conversion for four declarations (at most three named variables of each kind): every obligation holds for all dimensions, functions, parameters and points, but the number of names is bounded; complemented by a bounded check of the real code on generated models'
