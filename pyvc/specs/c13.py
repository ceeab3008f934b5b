"""C13: LinearModel.set_rhs, set_meas, setup, discretize, get_steady_state; linearize; Model.get_linear_system_matrices, _transfer_variables."""
from .c15 import *
from .c12 import mat, mm, inv, zer
from .step import Rec
LM = 'do_mpc.model._linearmodel:LinearModel'
key = lambda t: show(t)

class LinWorld(MdlWorld):
    def __init__(self, it):
        MdlWorld.__init__(self, it); self.named = {}
        for mod in ('casadi', 'casadi.tools'): it.lib.hooks[mod + '.evalf'] = LibFn('evalf', lambda it, a, k: self.evalf(a[0]))
        g0 = it.lib.hooks['getattr']
        def ga(it, o, name):
            if isinstance(o, Term) and name == 'is_constant': return LibFn('is_constant', lambda it, a, k: self.constant(o))
            return g0(it, o, name)
        it.lib.hooks['getattr'] = ga
    def constant(self, t): return t.op == 'call' and t.args[0] == 'evalf' or not any(s.op in ('sym', 'var') and s.ty in ('SX', 'MX') or s.op == 'var' and not str(s.args[0]).startswith('VAL') for s in atoms(t))
    def evalf(self, t):
        """value of an expression without symbols; anything else is an error"""
        if self.constant(t): return t
        if t.op != 'jac': raise PyEx('RuntimeError')
        k = key(t)
        for nm, j in self.named.items():
            # the arguments of a derivative may come in any order
            if {x.args for x in j.args[1]} == {x.args for x in t.args[1]} and key(back(j)) == key(back(t)): k = nm
        if not self.it.decide(SBool(z3.Bool('constant: ' + k))): raise PyEx('RuntimeError')
        return Term('call', ('evalf', t), t.rows, t.cols)
    def jacobian(self, e, x):
        j = MdlWorld.jacobian(self, e, x)
        if isinstance(e, (PStruct, SVec)):
            g = sfn(self.it, e) if isinstance(e, PStruct) else e.fn
            body = Term('vcat', ([E(g(n, [])) for n in e.layout.entries],), zi(e.layout.size()), 1)
        else: body = vec(e)
        r = dlin(self.it, body, list(j.args[1]))
        if r is None: return j
        t = None
        for M, lo, n in r:
            M = rows_of_matrix(self.it, M, lo, n)
            t = M if t is None else mk('add', t, M)
        return Term('zeros', (), j.rows, j.cols) if t is None else t

def rows_of_matrix(it, M, lo, n):
    if it.prove(zi(lo) == 0) and it.prove(zi(n) == zi(M.rows)): return M
    return Term('mrows', (M, zi(lo), zi(n)), zi(n), M.cols)
def back(j): return replace(j.args[0], [(Term('sym', ('$j%d' % i,), x.rows, 1), x) for i, x in enumerate(j.args[1])])
def atoms(t):
    out = []
    tmap(t, lambda e: e, lambda x: (out.append(x), None)[1])
    return out
def free_of(t, xs):
    ks = {x.args for x in xs}
    return not any(s.op in ('sym', 'var') and s.args in ks for s in atoms(t))
def dlin(it, b, xs):
    """derivative of an expression that is linear by its form: sum of row blocks (M, first row, rows); None if not of such a form"""
    b = vec(b)
    if free_of(b, xs): return []
    N = size(*[x.rows for x in xs])
    off = z3.IntVal(0)
    for x in xs:
        if b.op == x.op and b.args == x.args: return [(Term('eye', (N,), N, N), z3.simplify(off), zi(x.rows))]
        off = off + zi(x.rows)
    if b.op in ('add', 'sub'):
        p, q = dlin(it, b.args[0], xs), dlin(it, b.args[1], xs)
        if p is None or q is None: return None
        if b.op == 'sub': q = [(mk('neg', M), lo, n) for M, lo, n in q]
        return p + q
    if b.op == 'slice':
        p = dlin(it, b.args[0], xs)
        return None if p is None else [(M, z3.simplify(zi(lo) + zi(b.args[1])), zi(b.args[2])) for M, lo, n in p]
    if b.op == 'part':
        return None
    if b.op == 'matmul' and free_of(b.args[0], xs):
        p = dlin(it, b.args[1], xs)
        if p is None: return None
        out = []
        for M, lo, n in p:
            M = rows_of_matrix(it, M, lo, n)
            out.append((b.args[0] if M.op == 'eye' else mk('matmul', b.args[0], M), z3.IntVal(0), zi(b.args[0].rows)))
        return out
    if b.op == 'vcat':
        segs = [s.val for s in b.args[0] if s.kind == 'e']
        if len(segs) != len(b.args[0]): return None
        segs = [s for s in segs if not (isinstance(s.rows, int) and s.rows == 0)]
        ds = [dlin(it, s, xs) for s in segs]
        if any(d is None for d in ds) or len({len(d) for d in ds}) != 1: return None
        out = []
        for col in zip(*ds):
            M, lo, n = col[0]
            for (M2, lo2, n2) in col[1:]:
                if key(M2) != key(M) or not it.prove(zi(lo2) == zi(lo) + zi(n)): return None
                n = z3.simplify(zi(n) + zi(n2))
            out.append((M, lo, n))
        return out
    return None

class LCfg:
    def __init__(self, x, u=(), p=(), tvp=(), aux=(), mt='discrete'): self.v = {'_x': x, '_u': u, '_p': p, '_tvp': tvp, '_z': ()}; self.aux = aux; self.mt = mt
    def __repr__(self): return '%s x=%s u=%s p=%s tvp=%s aux=%s' % (self.mt, *[list(self.v[t]) for t in ('_x', '_u', '_p', '_tvp')], list(self.aux))

def linear(ctx, g, mt=None):
    it = ctx.it; w = LinWorld(it)
    w.me = it.call(it.find(LM), [mt or g.mt], {}); w.dec = {}; w.expr = {}
    for t in ('_u', '_x', '_tvp', '_p'):
        for n in g.v[t]:
            r = R(t + n); it.base_facts.append(r >= 1); w.dec[(t, n)] = it.call(it.getattr(w.me, 'set_variable'), [t, n, SInt(r)], {})
    for n in g.aux:
        r = R('aux' + n); it.base_facts.append(r >= 1)
        w.expr[n] = Term('call', ('faux' + n,) + tuple(w.dec[k] for k in sorted(w.dec)), r, 1, 'SX'); it.call(it.getattr(w.me, 'set_expression'), [n, w.expr[n]], {})
    w.n = size(*[R('_x' + n) for n in g.v['_x']]); w.m = size(*[R('_u' + n) for n in g.v['_u']])
    return w

def values(me):
    V = {}
    for t in ('_x', '_u', '_z', '_p', '_tvp', '_w', '_v'):
        L = me.attrs[t].layout
        V[t] = PStruct(L, 'num', content=lambda n, q, t=t, L=L: val(t, n, base_rows(L.entries[n][1])), name='VAL' + t)
    return V
def whole_val(it, V, t): return vcat(it, [E(val(t, n, base_rows(d[1]))) for n, d in V[t].layout.entries.items() if n != 'default'])
def rowsof(it, t, lo, n): return it.getitem(t, Slice(mkint(z3.simplify(lo)), mkint(z3.simplify(lo + n))))

def represents(ctx, w, g, me, A, B, C, D, tag=''):
    """the object is the linear system with these matrices; C None: the states are measured"""
    it = ctx.it; V = values(me)
    for k, want in (('sys_A', A), ('sys_B', B), ('sys_C', C if C is not None else Term('eye', (w.n,), w.n, w.n)), ('sys_D', D if D is not None else zer(w.n if C is None else C.rows, w.m))):
        got = it.getattr(me, k)
        ctx.eq('%s%s' % (k, tag), vec2(got), want)
        ctx.oblige('rows of %s%s' % (k, tag), zi(got.rows) == zi(want.rows)); ctx.oblige('columns of %s%s' % (k, tag), zi(got.cols) == zi(want.cols))
        ctx.true('%s is an array%s' % (k, tag), got.ty == 'ndarray', '%s' % got.ty)
    X, U = whole_val(it, V, '_x'), whole_val(it, V, '_u')
    full = mk('matmul', A, X)
    if B is not None and g.v['_u']: full = mk('add', full, mk('matmul', B, U))
    call = lambda f, last: vec(it.call(it.getattr(me, f), [V[k] for k in ('_x', '_u', '_z', '_tvp', '_p')] + [V[last]], {}))
    off = z3.IntVal(0); rows = []
    for n in g.v['_x']:
        r = R('_x' + n); rows.append(mk('add', rowsof(it, Term(full.op, full.args, w.n, 1), off, r), val('_w', n + '_noise', r))); off = off + r
    return V, call, rows

def cat(it, xs): return vcat(it, [E(x) for x in xs])
def check_fun(ctx, w, g, me, A, B, C, D, tag=''):
    it = ctx.it
    V, call, rows = represents(ctx, w, g, me, A, B, C, D, tag)
    ctx.eq('right-hand side' + tag, call('_rhs_fun', '_w'), cat(it, rows))
    if C is None: y = cat(it, [mk('add', val('_x', n, R('_x' + n)), val('_v', n + '_noise', R('_x' + n))) for n in g.v['_x']])
    else:
        y = mk('matmul', C, whole_val(it, V, '_x'))
        if D is not None and g.v['_u']: y = mk('add', y, mk('matmul', D, whole_val(it, V, '_u')))
        y = mk('add', y, val('_v', 'y_noise', C.rows))
    ctx.eq('measurement' + tag, call('_meas_fun', '_v'), y)
    for t in ('_x', '_u', '_tvp', '_p'): ctx.true('names of %s%s' % (t, tag), [n for n in me.attrs[t].layout.entries if n != 'default'] == list(g.v[t]), '%s' % list(me.attrs[t].layout.entries))
    for t in ('_x', '_u', '_tvp', '_p'):
        for n in g.v[t]: ctx.oblige('size of %s%s' % (n, tag), zi(base_rows(me.attrs[t].layout.entries[n][1])) == R(t + n))
    if g.aux:
        a = vec(it.call(it.getattr(me, '_aux_expression_fun'), [V[k] for k in ('_x', '_u', '_z', '_tvp', '_p')], {}))
        ctx.eq('expressions' + tag, a, cat(it, [C_(0)] + [replace(w.expr[n], [(w.dec[k], val(k[0], k[1], w.dec[k].rows)) for k in w.dec]) for n in g.aux]))
C_ = lambda v: Term('c', (v,), 1, 1)

def given(w, hasB, hasC, hasD):
    ny = z3.Int('n_y'); w.it.base_facts.append(ny >= 1)
    A, B, C, D = mat('A', w.n, w.n), mat('B', w.n, w.m) if hasB else None, mat('C', ny, w.n) if hasC else None, mat('D', ny, w.m) if hasD else None
    return A, B, C, D

def setup_mats(g, hasB, hasC, hasD):
    def run(ctx):
        w = linear(ctx, g); it, me = w.it, w.me
        M = given(w, hasB, hasC, hasD)
        for k in ('sys_A', 'sys_B', 'sys_C', 'sys_D'): reject(ctx, w, k + ' before setup', lambda: it.getattr(me, k))
        it.call(it.getattr(me, 'setup'), list(M), {})
        A, B, C, D = M
        check_fun(ctx, w, g, me, A, B if B is not None else zer(w.n, w.m), C, D)
    return run


def rejections(g, what):
    """matrices of wrong shape or type"""
    def run(ctx):
        w = linear(ctx, g); it, me = w.it, w.me
        A, B, C, D = given(w, True, True, True)
        k = z3.Int('k_bad'); l = z3.Int('l_bad'); it.base_facts += [k >= 1, l >= 1]
        bad = mat('bad', k, l); n, m = w.n, w.m
        no = {'A': z3.Or(k != n, l != n), 'B': z3.Or(k != n, l != m), 'C': l != n, 'D': z3.Or(l != m, k != C.rows)}
        a = dict(A=A, B=B, C=C, D=D)
        if what in no: it.base_facts.append(no[what]); a[what] = bad
        elif what.startswith('type '):
            a[what[5]] = {'list': PList(elems=[1]), 'DM': mat(what[5], a[what[5]].rows, a[what[5]].cols, 'DM'), 'number': 1.0}[what[7:]]
        reject(ctx, w, 'matrix %s of wrong %s' % (what[-1] if what in no else what[5], 'shape' if what in no else 'type'), lambda: it.call(it.getattr(me, 'setup'), [a[q] for q in 'ABCD'], {}))
        ctx.true('not set up', it.getitem(me.attrs['flags'], 'setup') is False, 'flag')
    return run

def expressions(g, meth):
    """declared expressions: accepted exactly if the derivative with respect to all states and inputs is constant"""
    def run(ctx):
        w = linear(ctx, g); it, me = w.it, w.me
        n = g.v['_x'][0]; r = R('_x' + n)
        e = Term('call', ('fe',) + tuple(w.dec[k] for k in sorted(w.dec)), r, 1, 'SX')
        xs = [w.dec[('_x', q)] for q in g.v['_x']] + [w.dec[('_u', q)] for q in g.v['_u']]
        j = w.jacobian(e, vcat(it, [E(x) for x in xs]))
        w.named['the declared expression'] = j; lin = z3.Bool('constant: the declared expression')
        lst = me.attrs['rhs_list' if meth == 'set_rhs' else '_y_expression']
        n0 = len(lst.elems()); seen = Rec(it)
        base = 'do_mpc.model._model:Model.' + meth
        def h(it, args, kw): seen.add((args, kw)); return None
        it.contracts[base] = h
        try: it.call(it.getattr(me, meth), [n, e], {})
        except PyEx as ex:
            ctx.oblige('only a nonlinear expression is rejected', z3.Not(lin)); return ctx.true('a rejected expression is not declared', not seen.all(), 'declared')
        ctx.oblige('nonlinear expressions are rejected', lin)
        s = seen.all(); ctx.true('declared once', len(s) == 1, '%d' % len(s))
        args, kw = s[0]; args = [a for a in args if a is not me]
        ctx.true('name of the expression', args[0] == n, '%s' % (args[0],)); ctx.eq('expression', vec(args[1] if len(args) > 1 else kw['expr']), e)
        flag = args[2] if len(args) > 2 else kw.get('process_noise' if meth == 'set_rhs' else 'meas_noise', meth == 'set_meas')
        ctx.true('with additive noise', flag is True, '%s' % flag)
    return run

def noalg(ctx):
    g = CFGL[1]; w = linear(ctx, g); it = w.it
    reject(ctx, w, 'algebraic equations', lambda: it.call(it.getattr(w.me, 'set_alg'), ['n', Term('sym', ('e',), 1, 1, 'SX')], {}))
    reject(ctx, w, 'MX symbols', lambda: it.call(it.find(LM), ['discrete', 'MX'], {}))

def ready(ctx, g, mt=None, hasC=True):
    """linear model after setup with given matrices"""
    w = linear(ctx, g, mt); it = w.it
    w.mats = given(w, True, hasC, hasC); it.call(it.getattr(w.me, 'setup'), list(w.mats), {})
    if not hasC: w.mats = w.mats[:2] + (Term('eye', (w.n,), w.n, w.n), zer(w.n, w.m))
    return w

def discretize(g, hasC, args):
    def run(ctx):
        w = ready(ctx, g, 'continuous', hasC); it, me = w.it, w.me
        seen = Rec(it); A, B, C, D = w.mats; ny = C.rows
        new = (mat('Ad', w.n, w.n), mat('Bd', w.n, w.m), mat('Cd', ny, w.n), mat('Dd', ny, w.m))
        def c2d(it, a, k): seen.add((a, k)); return new + (Term('sym', ('dt',), 1, 1),)
        it.lib.hooks['call:scipy.signal.cont2discrete'] = c2d
        before = dict(me.attrs)
        h = Term('sym', ('h',), 1, 1)
        d = it.call(it.getattr(me, 'discretize'), [h] + (['foh'] if 'pos' in args else []), {'conv_method': 'foh'} if 'kw' in args else {})
        s = seen.all(); ctx.true('discretized once', len(s) == 1, '%d' % len(s))
        a, k = s[0]
        sysm = a[0].elems() if isinstance(a[0], PList) else list(a[0])
        for nm, x, y in zip('ABCD', sysm, w.mats): ctx.eq('discretized matrix ' + nm, vec2(x), y)
        ctx.eq('time step', vec(a[1] if len(a) > 1 else k['dt']), h)
        ctx.true('method', (a[2] if len(a) > 2 else k.get('method', 'zoh')) == ('foh' if args else 'zoh'), '%s' % (a,))
        ctx.true('linear model', d.cls is it.find(LM) and d is not me, ''); ctx.true('discrete', d.attrs['model_type'] == 'discrete', '')
        w2 = w; check_fun(ctx, w2, g, d, *new, tag=' of the discretized model')
        ctx.true('the continuous model is unchanged', set(before) == set(me.attrs) and all(before[k] is me.attrs[k] for k in before), '')
    return run

def guards(ctx):
    w = ready(ctx, CFGL[1], 'discrete'); it, me = w.it, w.me
    reject(ctx, w, 'discretization of a discrete model', lambda: it.call(it.getattr(me, 'discretize'), [0.1], {}))
    w = linear(ctx, CFGL[1], 'continuous')
    for k, a in (('discretize', [0.1]), ('get_steady_state', [None, mat('u', w.m, 1)])): reject(ctx, w, k + ' before setup', lambda: it.call(it.getattr(w.me, k), list(a), {}))
    w = ready(ctx, CFGL[0], 'continuous'); reject(ctx, w, 'steady state of a continuous model', lambda: it.call(it.getattr(w.me, 'get_steady_state'), [], {'uss': mat('u', w.m, 1)}))

def steady(what, square=False):
    """x = inv(I - A) B u if I - A has full rank; u from B u = (I - A) x"""
    def run(ctx):
        g = LCfg(('xa', 'xb'), ('ua',)); w = linear(ctx, g); it, me = w.it, w.me
        A, B, C, D = given(w, True, True, True); n, m = w.n, w.m
        it.base_facts.append(n == m if square else n != m)
        me.attrs.update(_A=A, _B=B, _C=C, _D=D); it.call(it.getattr(me, 'setup'), [A, B, C, D], {})
        IA = mk('sub', Term('eye', (n,), n, n), A)
        rk = z3.Int('rank')
        def rank(it, a, k):
            ctx.eq('rank of I - A is examined', vec2(a[0]), IA); return SInt(rk)
        it.lib.hooks['numpy.linalg.matrix_rank'] = LibFn('matrix_rank', rank)
        it.base_facts += [rk >= 0, rk <= n]
        u, x = mat('uss', m, 1), mat('xss', n, 1)
        f = lambda **k: it.call(it.getattr(me, 'get_steady_state'), [], k)
        if what == 'input':
            try: r = f(uss=u)
            except PyEx: return ctx.oblige('only an ambiguous steady state is rejected', rk != n)
            ctx.oblige('an ambiguous steady state is rejected', rk == n)
            ctx.eq('steady state', vec2(r), mm(inv(IA), B, u)); ctx.eq('stored state', vec2(me.attrs['xss']), mm(inv(IA), B, u)); ctx.eq('stored input', vec2(me.attrs['uss']), u)
        elif what == 'state':
            r = f(xss=x)
            Bi = inv(B) if square else Term('call', ('linalg.pinv', B), m, n)
            ctx.eq('steady input', vec2(r), mm(Bi, IA, x)); ctx.eq('stored input', vec2(me.attrs['uss']), mm(Bi, IA, x)); ctx.eq('stored state', vec2(me.attrs['xss']), x)
        else: reject(ctx, w, 'neither state nor input', f); reject(ctx, w, 'input as list', lambda: f(uss=PList(elems=[1.0])))
    return run

def matrices(g, z, miss):
    """get_linear_system_matrices of a general model: the derivatives at the given values; symbolic where values are missing"""
    def run(ctx):
        w = general(ctx, g); it, me = w.it, w.me
        X, U, T, P = point(w, g)
        kw = {}
        if g.v['_tvp'] and 'tvp' not in miss: kw['tvp'] = T
        if g.v['_p'] and 'p' not in miss: kw['p'] = P
        r = it.call(it.getattr(me, 'get_linear_system_matrices'), [X, U], dict(kw))
        for nm, got, want in zip('ABCD', r, derivatives(ctx, w, g, me, {**{'xss': X, 'uss': U}, **kw})):
            ctx.eq('matrix %s' % nm, vec2(got), want); ctx.true('matrix %s is numeric exactly if no symbol is left' % nm, (got.ty == 'ndarray') == w.constant(want), '%s' % got.ty)
    return run

def general(ctx, g):
    import pyvc.specs.c15 as c15
    old = c15.MdlWorld; c15.MdlWorld = LinWorld
    try: w = build(ctx, g)
    finally: c15.MdlWorld = old
    w.it.call(w.it.getattr(w.me, 'setup'), [], {})
    w.n = size(*[R('_x' + n) for n in g.v['_x']]); w.m = size(*[R('_u' + n) for n in g.v['_u']])
    return w
def point(w, g):
    tot = lambda t: size(*[R(t + n) for n in g.v[t]])
    return [mat(nm, tot(t), 1) for nm, t in (('xss', '_x'), ('uss', '_u'), ('tvp0', '_tvp'), ('p0', '_p'))]
def derivatives(ctx, w, g, me, given_):
    """derivatives of right-hand side and measurement, taken at the given values, zero noise, own symbols elsewhere"""
    it = ctx.it
    own = {t: sfn(it, me.attrs[t]) for t in KIND}
    V = {}
    src = {'_x': 'xss', '_u': 'uss', '_tvp': 'tvp', '_p': 'p'}
    for t in KIND:
        L = me.attrs[t].layout; v = given_.get(src.get(t)); off = z3.IntVal(0)
        for n, (d, b) in L.entries.items():
            r = base_rows(b)
            if t in ('_w', '_v'): V[(t, n)] = Term('zeros', (), r, 1)
            elif v is None: V[(t, n)] = own[t](n, [])
            else: V[(t, n)] = part(L, n, [], v)
    def jac(body, t):
        names = list(me.attrs[t].layout.entries)
        pr = [(own[q](n, []), Term('sym', ('$j%d' % names.index(n),), base_rows(me.attrs[q].layout.entries[n][1]), 1) if q == t and n in names else V[(q, n)]) for q in KIND for n in me.attrs[q].layout.entries]
        return Term('jac', (replace(body, pr), tuple(V[(t, n)] for n in names)), None, None)
    at = lambda e: replace(e, [(w.dec[k], own[k[0]](k[1], [])) for k in w.dec])
    rhs = [mk('add', at(w.expr[('rhs', n)]), own['_w'](n + '_noise', [])) if n in g.noise else at(w.expr[('rhs', n)]) for n in g.v['_x']]
    ys = [mk('add', at(w.expr[('meas', n)]), own['_v'](n + '_noise', [])) if noisy else at(w.expr[('meas', n)]) for n, noisy in g.meas]
    return [jac(cat(it, rhs), '_x'), jac(cat(it, rhs), '_u'), jac(cat(it, ys), '_x'), jac(cat(it, ys), '_u')]

def linearized(g):
    def run(ctx):
        w = general(ctx, g); it, me = w.it, w.me
        X, U, T, P = point(w, g)
        ny = size(*[R('y' + n) for n, _ in g.meas])
        M = (mat('Aj', w.n, w.n), mat('Bj', w.n, w.m), mat('Cj', ny, w.n), mat('Dj', ny, w.m))
        seen = Rec(it)
        def h(it, args, kw): seen.add((args, kw)); return M
        it.contracts['do_mpc.model._model:Model.get_linear_system_matrices'] = lambda it, args, kw: h(it, args, kw) if args[0] is me else None
        kw = {}
        if g.v['_tvp']: kw['tvp0'] = T
        if g.v['_p']: kw['p0'] = P
        own = it.contracts['do_mpc.model._model:Model.get_linear_system_matrices']
        eye = z3.Bool('C is the identity'); zero = z3.Bool('D is zero')
        def cmp(it, op, a, b):
            if isinstance(op, ast.Eq) and isinstance(a, Term) and a.args == ('Cj',) and isinstance(b, Term) and b.op == 'eye': return Flagged(eye)
            if isinstance(op, ast.Eq) and isinstance(a, Term) and a.args == ('Dj',) and b == 0: return Flagged(zero)
            return NotImplemented
        it.lib.hooks['compare'] = cmp
        g0 = it.lib.hooks['getattr']
        it.lib.hooks['getattr'] = lambda it, o, name: LibFn('all', lambda it, a, k: SBool(o.b)) if isinstance(o, Flagged) and name == 'all' else g0(it, o, name)
        # the new model evaluates its own matrices by the body
        def dispatch(it, args, kw):
            if args[0] is me: return h(it, args[1:], kw)
            saved = it.contracts.pop('do_mpc.model._model:Model.get_linear_system_matrices')
            try: return it.call(it.getattr(args[0], 'get_linear_system_matrices'), list(args[1:]), kw)
            finally: it.contracts['do_mpc.model._model:Model.get_linear_system_matrices'] = saved
        it.contracts['do_mpc.model._model:Model.get_linear_system_matrices'] = dispatch
        before = dict(me.attrs)
        l = it.call(it.find('do_mpc.model._linearize:linearize'), [me, X, U], kw)
        s = seen.all(); ctx.true('matrices are evaluated once', len(s) == 1, '%d' % len(s))
        a, k = s[0]; names = ('xss', 'uss', 'z', 'tvp', 'p'); got = {**dict(zip(names, a)), **k}
        for nm, v in (('xss', X), ('uss', U), ('tvp', T if g.v['_tvp'] else None), ('p', P if g.v['_p'] else None)):
            if v is None: ctx.true('value of ' + nm, got.get(nm) is None, '%s' % got.get(nm))
            else: ctx.eq('linearization at the given ' + nm, vec(got.get(nm)), v)
        ctx.true('value of z', got.get('z') is None, '')
        ctx.true('linear model', l.cls is it.find(LM), ''); ctx.true('type of the model', l.attrs['model_type'] == g.mt, '')
        full = l.attrs['_y'].layout.entries.keys() != {'default', 'y'} and 'y' not in l.attrs['_y'].layout.entries
        if full:
            ctx.oblige('states are measured only if C is the identity and D is zero', z3.And(eye, zero, ny == w.n))
            check_fun(ctx, w, LV(g), l, M[0], M[1], None, None, ' of the linearized model')
        else: check_fun(ctx, w, LV(g), l, *M, tag=' of the linearized model')
        if g.aux:
            V = values(l); e = vec(it.call(it.getattr(l, '_aux_expression_fun'), [V[k] for k in ('_x', '_u', '_z', '_tvp', '_p')], {}))
            ctx.eq('expressions of the linearized model', e, cat(it, [C_(0)] + [replace(w.expr[('aux', n)], [(w.dec[k], val(k[0], k[1], w.dec[k].rows)) for k in w.dec]) for n in g.aux]))
        ctx.true('the original model is unchanged', set(before) == set(me.attrs) and all(before[k] is me.attrs[k] for k in before), '')
    return run
class Flagged:
    def __init__(self, b): self.b = b
def LV(g):
    q = LCfg(g.v['_x'], g.v['_u'], g.v['_p'], g.v['_tvp'], (), g.mt); return q

def linguard(ctx):
    g = Cfg(('xa',), ('ua',), ('za',), (), (), (), [('ya', True)]); w = general(ctx, g); it = w.it; f = it.find('do_mpc.model._linearize:linearize')
    reject(ctx, w, 'linearization of a model with algebraic states', lambda: it.call(f, [w.me, mat('x', w.n, 1), mat('u', w.m, 1)], {}))
    g = Cfg(('xa',), ('ua',)); w = build(ctx, g); reject(ctx, w, 'linearization before setup', lambda: it.call(f, [w.me, mat('x', R('_xxa'), 1), mat('u', R('_uua'), 1)], {}))

refuter = Refuter({}, dom=3)
LEVEL = 'proof'
CFGL = [LCfg(('xa',), ('ua',)), LCfg(('xb', 'xa'), ('ua', 'ub'), ('pa',), ('ta',), ('ea',), 'continuous'), LCfg(('xa', 'xc', 'xb'), ('xa',)), LCfg(('xa', 'xb'), ())]
CFGG = [Cfg(('xa', 'xb'), ('ua',), (), ('pa',), ('ta',), ('ea',), [('ya', True), ('yb', False)], ('xb', 'xa'), ('xb',)), Cfg(('xb', 'xa'), ('ua', 'ub'), (), (), (), (), [('ya', True)], None, ('xa', 'xb'), mt='discrete'), Cfg(('xa',), ('ub', 'ua'), (), ('pb', 'pa'), (), ('eb', 'ea'), [('ya', False)])]
CONTRACTS = [('LinearModel.setup (%r, B %s, C %s, D %s)' % (g, b, c, d), setup_mats(g, b, c, d), refuter) for g in CFGL for b, c, d in ((True, False, False), (True, True, False), (True, True, True), (False, True, False)) if g.v['_u'] or not (b or d)]
CONTRACTS += [('LinearModel.setup rejects %s (%r)' % (k, g), rejections(g, k), refuter) for g in CFGL[1:3] for k in ['A', 'B', 'C', 'D'] + ['type %s %s' % (q, t) for q in 'ABCD' for t in ('list', 'DM', 'number')]]
CONTRACTS += [('LinearModel.%s (%r)' % (k, g), expressions(g, k), refuter) for g in CFGL[:3] for k in ('set_rhs', 'set_meas')]
CONTRACTS += [('LinearModel rejects algebraic equations and MX', noalg, refuter), ('LinearModel guards', guards, refuter)]
CONTRACTS += [('LinearModel.discretize (%r, C %s, %s)' % (g, c, a), discretize(g, c, a), refuter) for g in CFGL[:3] for c in (True, False) for a in ('', 'pos', 'kw')]
CONTRACTS += [('LinearModel.get_steady_state (%s, %s)' % (k, 'square' if q else 'general'), steady(k, q), refuter) for k in ('input', 'state', 'neither') for q in (True, False)]
CONTRACTS += [('Model.get_linear_system_matrices (%r, without %s)' % (g, miss), matrices(g, False, miss), refuter) for g in CFGG for miss in ((), ('tvp',), ('p',))]
CONTRACTS += [('linearize (%r)' % g, linearized(g), refuter) for g in CFGG] + [('linearize guards', linguard, refuter)]

BOUNDED = {k: 'bounded in the number of named variables of each kind (at most three); all matrices, dimensions, functions and points are symbolic' for k in ('LinearModel.setup', 'LinearModel.set_', 'LinearModel.discretize', 'LinearModel guards', 'LinearModel rejects', 'linearize', 'Model.get_linear')}
TRUSTED = ['casadi symbols, structures, substitute, jacobian, evalf and Function construction by their documented contracts (pyvc/specs/mdl.py, c13.py); the derivative of a matrix product with constant matrix is that matrix',
           'scipy.signal.cont2discrete, numpy.linalg.inv, pinv, matrix_rank: assumed external functions whose arguments and use of the results are specified', 'numpy.all(None) is None']
