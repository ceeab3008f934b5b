"""C21: every ONNX operation for tensors of any size and any elements, the conversion of graphs with any number of nodes and operands."""
import itertools
from .files import *
from ..interp import Star, Entry, newid
from ..harness import Refuter
from .. import smt
M = 'do_mpc.sysid._onnxconversion'
I, R = z3.IntSort(), z3.RealSort()
BOUNDED = {'ONNXOperations.Sum': 'sums of up to four operands', 'inputs': 'networks of up to two inputs', 'rejected graph': 'graphs of up to three nodes'}
OPS = ('Tanh', 'Sigmoid', 'Relu', 'Elu', 'MatMul', 'Add', 'Mul', 'Sub', 'Gemm', 'Sum')

# ------------------------------------------------------------------ tensors
class Ten:
    """kind 'K': CasADi matrix, 'N': numpy array; dims: sizes (0, 1 or 2); el: indices -> element"""
    def __init__(self, kind, dims, el, ty=None): self.kind = kind; self.dims = tuple(dims); self.el = el; self.ty = ty or ('SX' if kind == 'K' else 'ndarray')
    def __repr__(self): return 'Ten(%s,%s)' % (self.kind, self.dims)
def el(name, *ix): return Term('el', (name,) + tuple(zi(i) for i in ix), 1, 1)
def sym(kind, name, *dims): return Ten(kind, dims, lambda *ix: el(name, *ix))
def one(x): return isinstance(x, int) and x == 1

def cas2(it, t):
    """a CasADi matrix of numpy values: vectors are columns"""
    if t.kind == 'K' or len(t.dims) == 2: return t.dims, t.el
    if len(t.dims) == 1: return (t.dims[0], 1), lambda i, j: t.el(i)
    return (1, 1), lambda i, j: t.el()
def same(it, a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    return it.decide(mkbool(zi(a) == zi(b)))
def elementwise(it, f, a, b):
    for x in (a, b):
        if not isinstance(x, (Ten, int, float, SInt, Term)): raise Unsupported('operand %s' % type(x).__name__)
    tens = lambda x: x if isinstance(x, Ten) else Ten('N', (), lambda: C(x))
    a, b = tens(a), tens(b)
    if 'K' in (a.kind, b.kind):
        (da, ea), (db, eb) = cas2(it, a), cas2(it, b)
        sa = lambda d: same(it, d[0], 1) and same(it, d[1], 1)
        if sa(da): return Ten('K', db, lambda i, j: f(ea(0, 0), eb(i, j)))
        if sa(db): return Ten('K', da, lambda i, j: f(ea(i, j), eb(0, 0)))
        if same(it, da[0], db[0]):
            if same(it, da[1], db[1]): return Ten('K', da, lambda i, j: f(ea(i, j), eb(i, j)))
            if same(it, da[1], 1): return Ten('K', db, lambda i, j: f(ea(i, 0), eb(i, j)))
            if same(it, db[1], 1): return Ten('K', da, lambda i, j: f(ea(i, j), eb(i, 0)))
        raise PyEx('RuntimeError', ('Dimension mismatch',))
    n = max(len(a.dims), len(b.dims))
    pad = lambda d: (1,) * (n - len(d)) + tuple(d)
    A, B_ = pad(a.dims), pad(b.dims); dims = []; ka, kb = [], []
    for x, y in zip(A, B_):
        if same(it, x, y): dims.append(x); ka.append(True); kb.append(True)
        elif same(it, x, 1): dims.append(y); ka.append(False); kb.append(True)
        elif same(it, y, 1): dims.append(x); ka.append(True); kb.append(False)
        else: raise PyEx('ValueError', ('operands could not be broadcast',))
    pick = lambda t, keep: (lambda ix: t.el(*[i if k else 0 for i, k in zip(ix, keep)][n - len(t.dims):]))
    return Ten('N', dims, lambda *ix: f(pick(a, ka)(ix), pick(b, kb)(ix)))
def mapped(it, f, a):
    if not isinstance(a, Ten): raise Unsupported('operand %s' % type(a).__name__)
    d, e = cas2(it, a)
    return Ten('K', d, lambda i, j: f(e(i, j)))
def transpose(it, a):
    if a.kind == 'N' and len(a.dims) < 2: return a
    return Ten(a.kind, a.dims[::-1], lambda i, j: a.el(j, i))
def matmul(it, a, b, kind='K'):
    (da, ea), (db, eb) = cas2(it, a), cas2(it, b)
    sa = lambda d: same(it, d[0], 1) and same(it, d[1], 1)
    if not same(it, da[1], db[0]):
        if sa(da) or sa(db): return elementwise(it, lambda x, y: mk('mul', x, y), Ten('K', da, ea), Ten('K', db, eb))
        raise PyEx('RuntimeError', ('Matrix product with incompatible dimensions',))
    def e(i, j):
        k = fresh_int('k')
        return Term('bigsum', (Big(Binder(k, 0, da[1]), TRUE, mk('mul', ea(i, k), eb(k, j))),), 1, 1)
    return Ten(kind, (da[0], db[1]), e)

def install(it):
    H = it.lib.hooks
    ops = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div'}
    def binop(it, op, a, b):
        if not (isinstance(a, Ten) or isinstance(b, Ten)): return NotImplemented
        if type(op) in ops: return elementwise(it, lambda x, y: mk(ops[type(op)], x, y), a, b)
        if isinstance(op, ast.MatMult): return matmul(it, a, b, 'N' if a.kind == b.kind == 'N' else 'K')
        raise Unsupported('operator')
    H['binop'] = binop
    un = lambda nm: LibFn(nm, lambda it, a, k: mapped(it, lambda x: Term('call', (nm, x), 1, 1), a[0]))
    for mod in ('casadi', 'numpy'):
        for nm, cn in (('tanh', 'tanh'), ('exp', 'exp'), ('fabs', 'fabs'), ('sign', 'sign')): H['%s.%s' % (mod, nm)] = un(cn)
    for nm in ('fmax', 'fmin'): H['casadi.' + nm] = LibFn(nm, lambda it, a, k, nm=nm: elementwise_k(it, nm, a))
    def elementwise_k(it, nm, a):
        r = elementwise(it, lambda x, y: Term('call', (nm, x, y), 1, 1), a[0], a[1])
        return Ten('K', *cas2(it, r))
    def ifelse(it, a, k):
        c = elementwise(it, lambda x, y: (x, y), a[0], a[1])
        r = elementwise(it, lambda p, y: (p[0], p[1], y), c, a[2]) if len(a) > 2 else elementwise(it, lambda p, y: (p[0], p[1], C(0)), c, 0)
        return Ten('K', r.dims, lambda i, j: Term('call', ('if_else',) + tuple(r.el(i, j)), 1, 1))
    H['casadi.if_else'] = LibFn('if_else', ifelse)
    def mtimes(it, a, k):
        if len(a) == 1 and isinstance(a[0], (PList, tuple)): a = a[0].elems() if isinstance(a[0], PList) else list(a[0])
        r = a[0]
        for x in a[1:]: r = matmul(it, r, x)
        return r
    H['casadi.mtimes'] = LibFn('mtimes', mtimes)
    H['numpy.matmul'] = LibFn('matmul', lambda it, a, k: matmul(it, a[0], a[1], 'N' if a[0].kind == a[1].kind == 'N' else 'K'))
    H['casadi.transpose'] = LibFn('transpose', lambda it, a, k: (lambda t: Ten('K', *cas2(it, t)))(transpose(it, a[0])))
    H['casadi.repmat'] = LibFn('repmat', lambda it, a, k: repmat(it, a))
    def repmat(it, a):
        d, e = cas2(it, a[0]); n, m = a[1], a[2] if len(a) > 2 else 1
        if not (one(n) or same(it, d[0], 1)) or not (one(m) or same(it, d[1], 1)): raise Unsupported('repmat')
        return Ten('K', (d[0] if one(n) else n, d[1] if one(m) else m), lambda i, j: e(i if one(n) else 0, j if one(m) else 0))
    def getattr_(it, o, name):
        if isinstance(o, Ten):
            if name == 'shape': return tuple(x if isinstance(x, int) else mkint(zi(x)) for x in o.dims)
            if name == 'ndim' and o.kind == 'N': return len(o.dims)
            if name == 'T': return transpose(it, o)
            if name == 'reshape' and o.kind == 'N':
                def rs(it, a, k):
                    d = a[0] if len(a) == 1 and isinstance(a[0], tuple) else tuple(a)
                    if d == (1, -1) and len(o.dims) == 1: return Ten('N', (1, o.dims[0]), lambda i, j: o.el(j))
                    if d == (-1, 1) and len(o.dims) == 1: return Ten('N', (o.dims[0], 1), lambda i, j: o.el(i))
                    if d == (1, -1) and len(o.dims) == 0: return Ten('N', (1, 1), lambda i, j: o.el())
                    raise Unsupported('reshape')
                return LibFn('reshape', rs)
            if name in ('ndim', 'reshape'): raise PyEx('AttributeError', (name,)) if name == 'ndim' else Unsupported('reshape')
            raise Unsupported('attribute %s of a tensor' % name)
        return NotImplemented
    H['getattr'] = getattr_
    it.lib.isinst.append(lambda it, v, t: (t.name.split('.')[-1] == v.ty if isinstance(t, LibType) else False) if isinstance(v, Ten) else None)
    truth0 = it.lib.truth
    it.lib.truth = lambda it, v: (_ for _ in ()).throw(Unsupported('truth of a tensor')) if isinstance(v, Ten) else truth0(it, v)

# ------------------------------------------------------------------ elements over the reals
UF = {}
def uf(n, k):
    if (n, k) not in UF: UF[n, k] = z3.Function(n, *([I] * k + [R]))
    return UF[n, k]
def rf(n): 
    if ('r', n) not in UF: UF['r', n] = z3.Function('real_' + n, R, R)
    return UF['r', n]
EXP, TANH = rf('exp'), rf('tanh')
def real(t, ax):
    if t.op == 'c': return z3.RealVal(str(t.args[0]))
    if t.op == 'int': return z3.ToReal(t.args[0])
    if t.op == 'el': return uf('el_' + t.args[0], len(t.args) - 1)(*t.args[1:])
    if t.op == 'sym': return z3.Real(t.args[0])
    if t.op in ('add', 'sub', 'mul', 'div'):
        x = [real(a, ax) for a in t.args]; r = x[0]
        for y in x[1:]: r = {'add': lambda: r + y, 'sub': lambda: r - y, 'mul': lambda: r * y, 'div': lambda: r / y}[t.op]()
        return r
    if t.op == 'neg': return -real(t.args[0], ax)
    if t.op == 'call':
        n = t.args[0]; x = [real(a, ax) for a in t.args[1:]]
        if n == 'fmax': return z3.If(x[0] >= x[1], x[0], x[1])
        if n == 'fmin': return z3.If(x[0] <= x[1], x[0], x[1])
        if n == 'fabs': return z3.If(x[0] >= 0, x[0], -x[0])
        if n in ('exp', 'tanh'):
            y = rf(n)(x[0]); z = z3.simplify(x[0])
            if n == 'exp': ax += [y > 0, EXP(z3.RealVal(0)) == 1, EXP(-x[0]) * y == 1, EXP(z) == y, z3.Implies(x[0] == 0, y == 1)]
            else: ax += [TANH(-x[0]) == -y, TANH(z) == y, z3.Implies(x[0] == 0, y == 0), y < 1, y > -1]
            return y
    raise Unsupported('element %s' % t.op)
def proves(F, goal):
    s = z3.Solver(); s.set('timeout', 6000); s.add(*[f for f in F if not z3.is_quantifier(f)]); s.add(z3.Not(goal))
    t = __import__('time').time(); r = s.check(); smt.STATS.queries += 1; smt.STATS.time += __import__('time').time() - t
    return str(r), s
def equal(ctx, name, got, want):
    """equality of two elements over the reals; a difference is confirmed at rational points with the real functions"""
    ax = []
    try: g, w = real(got, ax), real(want, ax)
    except Unsupported as ex: return ctx.eq(name, got, want)
    r, s = proves(ctx.facts() + ax, g == w)
    if r == 'unsat': return ctx.ok(name)
    d = differ(got, want, ctx)
    if d: ctx.fail(name, 'code: %s\n  spec: %s\n  %s' % (show(got)[:500], show(want)[:500], d))
    else: ctx.unknown(name, 'code: %s\n  spec: %s' % (show(got)[:500], show(want)[:500]))
def differ(a, b, ctx):
    import math, random
    rng = random.Random(1)
    for n in range(12):
        env = {}
        ix = {}
        def iv(e):
            """indices: one value per index expression that is provably distinct"""
            for k, v in ix.items():
                if ctx.it.prove(v[0] == e): return v[1]
            ix[len(ix)] = (e, len(ix)); return len(ix) - 1
        def val(key):
            if key not in env: env[key] = rng.choice([-2.0, -0.75, -0.25, 0.5, 1.25, 2.0])
            return env[key]
        def ev(t):
            if t.op == 'c': return float(t.args[0])
            if t.op == 'int':
                v = z3.simplify(t.args[0])
                return float(v.as_long()) if z3.is_int_value(v) else float(val('int:%s' % v) > 0)
            if t.op == 'el': return val((t.args[0],) + tuple(iv(x) for x in t.args[1:]))
            if t.op == 'sym': return val(t.args[0])
            if t.op == 'neg': return -ev(t.args[0])
            if t.op in ('add', 'sub', 'mul', 'div'):
                x = [ev(q) for q in t.args]; r = x[0]
                for y in x[1:]: r = r + y if t.op == 'add' else r - y if t.op == 'sub' else r * y if t.op == 'mul' else r / y
                return r
            if t.op == 'call':
                f = {'fmax': max, 'fmin': min, 'fabs': abs, 'exp': math.exp, 'tanh': math.tanh, 'if_else': lambda c, x, y: x if c else y}[t.args[0]]
                return f(*[ev(q) for q in t.args[1:]])
            raise ValueError
        try: x, y = ev(a), ev(b)
        except (ValueError, ZeroDivisionError, KeyError, OverflowError): continue
        if abs(x - y) > 1e-9 * (1 + abs(x) + abs(y)): return 'differ at %s: %s, expected %s' % ({str(k): v for k, v in env.items()}, x, y)
    return None

# ------------------------------------------------------------------ operations
def start(ctx, names='rc'):
    it = ctx.it; install(it)
    d = [z3.Int(n) for n in names]; it.base_facts += [x >= 1 for x in d]
    return it, it.call(it.find(M + ':ONNXOperations'), [], {}), [mkint(x) for x in d]
def attrs(**k):
    out = []
    for n, v in k.items():
        o = PObj(LibType('AttributeProto'), {'name': n, 'type': 2 if n.startswith('trans') else 1, 'i': v if n.startswith('trans') else 0, 'f': 0.0 if n.startswith('trans') else v}); o.closed = True
        out.append(o)
    return PList(elems=out)
def run_op(ctx, it, me, op, args, kw):
    try: return it.call(it.getattr(me, op), args, kw)
    except PyEx as ex:
        if ex.tname not in ('RuntimeError', 'ValueError', 'IndexError', 'Exception'): raise
        ctx.fail('the operation is supported', '%s' % ex); raise Infeasible()
def check(ctx, got, dims, want, inner=True):
    it = ctx.it
    if not isinstance(got, Ten) or len(got.dims) != 2: return ctx.fail('the result is a matrix', '%s' % (got,))
    ctx.oblige('shape of the result', z3.And(zi(got.dims[0]) == zi(dims[0]), zi(got.dims[1]) == zi(dims[1])))
    i = ctx.fresh('i', 0, dims[0]); j = ctx.fresh('j', 0, dims[1])
    g = got.el(i, j)
    (ctx.eq if inner else equal)(*((ctx, 'elements of the result', g, want(i, j)) if not inner else ('elements of the result', g, want(i, j))))

x = lambda *ix: el('x', *ix)
def activation(op, kind, att=None):
    def run(ctx):
        it, me, (r, c) = start(ctx)
        a = Term('sym', ('alpha',), 1, 1)
        at = attrs(alpha=a) if att == 'alpha' else PList([]) if att == 'empty' else None
        kw = {'attribute': at} if att is not None else {}
        got = run_op(ctx, it, me, op, [sym(kind, 'x', r, c)], kw)
        def want(i, j):
            v = x(i, j)
            if op == 'Tanh': return Term('call', ('tanh', v), 1, 1)
            if op == 'Sigmoid': return mk('div', 1, mk('add', 1, Term('call', ('exp', mk('neg', v)), 1, 1)))
            if op == 'Relu': return Term('call', ('fmax', v, C(0)), 1, 1)
        if op != 'Elu': return check(ctx, got, (r, c), want, False)
        if not isinstance(got, Ten) or len(got.dims) != 2: return ctx.fail('the result is a matrix', '%s' % (got,))
        ctx.oblige('shape of the result', z3.And(zi(got.dims[0]) == zi(r), zi(got.dims[1]) == zi(c)))
        i = ctx.fresh('i', 0, r); j = ctx.fresh('j', 0, c)
        al = a if att == 'alpha' else C(1); v = x(i, j); g = got.el(i, j)
        pos, neg = v, mk('mul', al, mk('sub', Term('call', ('exp', v), 1, 1), 1))
        ax = []
        try: gr, pr, nr, vr = (real(t, ax) for t in (g, pos, neg, v))
        except Unsupported as ex: return ctx.unknown('elements of the result', '%s: %s' % (ex, show(g)))
        w, s = proves(ctx.facts() + ax, gr == z3.If(vr >= 0, pr, nr))
        if w == 'unsat': return ctx.ok('elements of the result')
        want = Term('call', ('ELU', v, al), 1, 1)
        import math
        d = differ_elu(g, al, ctx)
        ctx.fail('elements of the result', '%s: %s' % (show(g), d)) if d else ctx.unknown('elements of the result', show(g))
    return run
def differ_elu(g, al, ctx):
    import math
    for v in (-2.0, -0.5, 0.5, 2.0):
        for a in (0.5, 1.0, 2.0):
            if al.op == 'c' and a != 1.0: continue
            def ev(t):
                if t.op == 'c': return float(t.args[0])
                if t.op == 'el': return v
                if t.op == 'sym': return a
                if t.op == 'neg': return -ev(t.args[0])
                if t.op == 'call': return {'fmax': max, 'fmin': min, 'fabs': abs, 'exp': math.exp, 'tanh': math.tanh}[t.args[0]](*[ev(q) for q in t.args[1:]])
                y = [ev(q) for q in t.args]; r = y[0]
                for q in y[1:]: r = {'add': r + q, 'sub': r - q, 'mul': r * q, 'div': r / q if q else math.nan}[t.op]
                return r
            try: z = ev(g)
            except (KeyError, OverflowError): return None
            w = v if v >= 0 else a * (math.exp(v) - 1)
            if not abs(z - w) < 1e-9: return 'value %s for x = %s, alpha = %s, expected %s' % (z, v, a, w)
    return None

# operands of element-wise operations next to an r x c matrix
KINDS = {'matrix': (lambda n, k, r, c: sym(k, n, r, c), lambda n, i, j: el(n, i, j)), 'scalar': (lambda n, k, r, c: Ten(k, (), lambda: el(n)) if k == 'N' else sym(k, n, 1, 1), None),
         'one element': (lambda n, k, r, c: sym('N', n, 1), lambda n, i, j: el(n, 0)), 'row': (lambda n, k, r, c: sym('N', n, c), lambda n, i, j: el(n, j))}
def operand(n, what, kind, r, c):
    t = KINDS[what][0](n, kind, r, c)
    if what == 'scalar': return t, (lambda i, j: el(n)) if kind == 'N' else (lambda i, j: el(n, 0, 0))
    return t, lambda i, j: KINDS[what][1](n, i, j)
def arithmetic(op, specs):
    """specs: operand kinds; operands next to a vector along the last axis have one row of more than one element"""
    def run(ctx):
        it, me, (r, c) = start(ctx)
        if any(w == 'row' for w, k in specs):
            it.base_facts += [zi(r) == 1, zi(c) > 1]; r = 1
        ts = [operand('x%d' % n, w, k, r, c) for n, (w, k) in enumerate(specs)]
        dims = (r, c)
        got = run_op(ctx, it, me, op, [t for t, _ in ts], {'attribute': PList([])})
        f = {'Add': 'add', 'Sum': 'add', 'Mul': 'mul', 'Sub': 'sub'}[op]
        def want(i, j):
            v = ts[0][1](i, j)
            for _, e in ts[1:]: v = mk(f, v, e(i, j))
            return v
        check(ctx, got, dims, want, False)
    return run

def product(op, ka, kb):
    def run(ctx):
        it, me, (r, n, c) = start(ctx, 'rnc')
        got = run_op(ctx, it, me, op, [sym(ka, 'a', r, n), sym(kb, 'b', n, c)], {'attribute': PList([])})
        def want(i, j):
            k = fresh_int('k')
            return Term('bigsum', (Big(Binder(k, 0, n), TRUE, mk('mul', el('a', i, k), el('b', k, j))),), 1, 1)
        check(ctx, got, (r, c), want)
    return run

def gemm(ka, kb, kc, present):
    """alpha A' B' + beta C with the attributes that are present in any combination of values"""
    def run(ctx):
        it, me, (r, n, c) = start(ctx, 'rnc')
        at = {}
        for p in present: at[p] = (SInt(z3.Int(p)) if p.startswith('trans') else Term('sym', (p,), 1, 1))
        for p in present:
            if p.startswith('trans'): it.base_facts += [z3.Int(p) >= 0, z3.Int(p) <= 1]
        ta = 'transA' in at and it.decide(mkbool(z3.Int('transA') == 1)); tb = 'transB' in at and it.decide(mkbool(z3.Int('transB') == 1))
        A = sym(ka, 'a', *((n, r) if ta else (r, n))); B_ = sym(kb, 'b', *((c, n) if tb else (n, c)))
        ops = [A, B_]
        if kc == 'vector': it.base_facts.append(zi(r) == 1); r = 1; ops.append(sym('N', 'c', c)); ce = lambda i, j: el('c', j)
        elif kc == 'scalar': ops.append(Ten('N', (), lambda: el('c'))); ce = lambda i, j: el('c')
        elif kc == 'one element': ops.append(sym('N', 'c', 1)); ce = lambda i, j: el('c', 0)
        elif kc is not None: ops.append(sym(kc, 'c', r, c)); ce = lambda i, j: el('c', i, j)
        else: ce = None
        got = run_op(ctx, it, me, 'Gemm', ops, {'attribute': attrs(**at)})
        def want(i, j):
            k = fresh_int('k')
            m = Term('bigsum', (Big(Binder(k, 0, n), TRUE, mk('mul', el('a', *((k, i) if ta else (i, k))), el('b', *((j, k) if tb else (k, j))))),), 1, 1)
            if 'alpha' in at: m = mk('mul', at['alpha'], m)
            if ce is None: return m
            b = ce(i, j)
            return mk('add', m, mk('mul', at['beta'], b) if 'beta' in at else b)
        check(ctx, got, (r, c), want)
    return run

CONTRACTS = []
for op in ('Tanh', 'Sigmoid', 'Relu', 'Elu'):
    for kind in 'KN':
        for att in (None, 'empty') + (('alpha',) if op == 'Elu' else ()): CONTRACTS.append(('ONNXOperations.%s of %s, %s attributes' % (op, 'CasADi matrices' if kind == 'K' else 'numpy arrays', att or 'no'), activation(op, kind, att), None))
OP = [('matrix', 'K'), ('matrix', 'N'), ('scalar', 'N'), ('scalar', 'K'), ('one element', 'N'), ('row', 'N')]
nm = lambda s: ', '.join('%s %s' % ('CasADi' if k == 'K' else 'numpy', w) for w, k in s)
for op in ('Add', 'Mul', 'Sub', 'Sum'):
    for s in itertools.product(OP, repeat=2):
        if not any(w == 'matrix' for w, k in s): continue
        CONTRACTS.append(('ONNXOperations.%s, operands %s' % (op, nm(s)), arithmetic(op, s), None))
for op in ('Sum',):
    for s in ([OP[0]], [OP[1]], [OP[0], OP[5], OP[1]], [OP[2], OP[0], OP[0]], [OP[0], OP[0], OP[5], OP[4]], [OP[5], OP[1], OP[0]]): CONTRACTS.append(('ONNXOperations.%s, operands %s' % (op, nm(s)), arithmetic(op, s), None))
for a in 'KN':
    for b in 'KN': CONTRACTS.append(('ONNXOperations.MatMul, %s%s' % (a, b), product('MatMul', a, b), None))
ATT = [p for n in range(5) for p in itertools.combinations(('alpha', 'beta', 'transA', 'transB'), n)]
for p in ATT + [('transB', 'beta', 'alpha'), ('transB', 'transA', 'beta', 'alpha')]:
    CONTRACTS.append(('ONNXOperations.Gemm, attributes (%s)' % ', '.join(p), gemm('K', 'N', 'vector', p), None))
for ka, kb, kc in (('K', 'N', 'N'), ('N', 'K', 'N'), ('N', 'N', 'vector'), ('K', 'K', 'N'), ('K', 'N', 'scalar'), ('K', 'N', 'one element'), ('K', 'N', 'K'), ('K', 'N', None), ('N', 'K', 'vector')):
    CONTRACTS.append(('ONNXOperations.Gemm of %s, %s, %s' % (ka, kb, kc), gemm(ka, kb, kc, ('alpha', 'beta', 'transA', 'transB')), None))

# ------------------------------------------------------------------ graphs
CV = M + ':ONNXConversion'
B = z3.BoolSort()
OPTYPE, OUT, NIN = (z3.Function(n, I, I) for n in ('op_type', 'output_name', 'n_operands'))
INP = z3.Function('operand_name', I, I, I)
SUPPORTED = z3.Function('is_supported', I, B)
def layer(c): return sstr([('u', 'layer', zi(c))])
def code(s):
    if isinstance(s, SStr) and len(s.parts) == 1 and s.parts[0][0] == 'u': return s.parts[0][2]
    raise Unsupported('layer name %s' % (s,))
def obj(t, **k):
    o = PObj(LibType(t), k); o.closed = True
    return o

class Map:
    """a dictionary of layers with symbolic names: writes are logged, a read returns the value of the layer of that name"""
    def __init__(self, w, base): self.w = w; self.base = dict(base); self.log = []; self.id = newid(); self.consts = None

class Graph:
    def __init__(self, ctx, nin, isarr):
        self.ctx = ctx; self.it = it = ctx.it; install(it)
        self.m = m = z3.Int('n_nodes'); it.base_facts.append(m >= 0)
        k, l = z3.Ints('k! l!')
        it.base_facts += [z3.ForAll([k], NIN(k) >= 0, patterns=[NIN(k)]), z3.ForAll([k], SUPPORTED(k), patterns=[SUPPORTED(k)])]
        b = fresh_int('n')
        self.nodes = PList([Seg('r', b=Binder(b, 0, mkint(m)), guard=TRUE, segs=[E(Term('node', (b,)))])])
        self.names = ['in0', 'in1'][:nin]
        self.shapes = {n: (mkint(z3.Int('d0' + n)), mkint(z3.Int('d1' + n))) for n in self.names}
        self.maps = []; self.reads = []; self.isarr = isarr
        self.consts = PDict({})
        self.ops = obj('operations')
        H = it.lib.hooks
        ten = H['getattr']
        def getattr_(it, o, name):
            if isinstance(o, Term) and o.op == 'node':
                n = o.args[0]
                if name == 'name': return SStr(parts=[('u', 'node', n)])
                if name == 'op_type': return SStr(parts=[('u', 'op', OPTYPE(n))])
                if name == 'attribute': return Term('attribute', (n,))
                if name == 'input':
                    q = fresh_int('l')
                    return PList([Seg('r', b=Binder(q, 0, mkint(NIN(n))), guard=TRUE, segs=[E(layer(INP(n, q)))])])
                if name == 'output': return PList(elems=[layer(OUT(n))])
                raise Unsupported('attribute %s of a node' % name)
            if isinstance(o, PDict) and name == 'copy' and set(o.d) == set(self.names):
                def cp(it, a, k):
                    r = Map(self, o.d); self.maps.append(r); return r
                return LibFn('copy', cp)
            if isinstance(o, Map):
                if name == 'update':
                    def up(it, a, k):
                        if k or a[0] is not self.consts: raise Unsupported('update')
                        o.consts = a[0]
                    return LibFn('update', up)
                raise Unsupported('dictionary method ' + name)
            if isinstance(o, Term) and o.op in ('layer', 'apply') and name in ('shape',): raise Unsupported('shape of a layer')
            return ten(it, o, name)
        H['getattr'] = getattr_
        def opattr(it, o, name):
            if o is self.ops and isinstance(name, SStr):
                t = name.parts[0][2]
                if not it.decide(SBool(SUPPORTED(t))): raise PyEx('AttributeError', ('operation',))
                def ap(it, a, k):
                    segs = []
                    for v in a:
                        segs += [s for s in v.segs] if isinstance(v, Star) else [E(v)]
                    if set(k) - {'attribute'}: raise Unsupported('arguments of an operation')
                    at = k.get('attribute')
                    return Term('apply', (t, segs, at if isinstance(at, Term) else 'missing'))
                return LibFn('operation', ap)
            return NotImplemented
        H['obj_attr'] = opattr
        def getitem(it, o, q):
            if isinstance(o, Map):
                if isinstance(q, str): return o.base[q] if q in o.base else (_ for _ in ()).throw(Unsupported('layer'))
                self.reads.append(o); return Term('layer', (code(q),))
            return NotImplemented
        H['getitem'] = getitem
        def setitem(it, o, q, v):
            if isinstance(o, Map):
                it.log_write(o, Entry('map', [code(q)], [], TRUE, v)); return True
            return NotImplemented
        H['setitem'] = setitem
        it.lib.isinst.append(lambda it, v, t: (self.isarr and isinstance(t, LibType) and t.name.split('.')[-1] == 'ndarray') if isinstance(v, Term) and v.op in ('layer', 'apply') else None)
        self.me = PObj(it.find(CV))
        self.me.attrs.update({'graph': obj('graph'), 'nodes': self.nodes, 'initialized_tensors': self.consts, 'inputshape': PDict(self.shapes), 'operations': self.ops, 'name': 'net', 'output_layers': PList([]), 'layers': PList([])})

def convert(nin, isarr):
    """every node receives the values of its operands in order and its result becomes the value of its output"""
    def run(ctx):
        g = Graph(ctx, nin, isarr); it = ctx.it
        ins = {n: sym('K', n, *g.shapes[n]) for n in g.names}
        for n in g.names: it.base_facts += [zi(d) >= 1 for d in g.shapes[n]]
        before = dict(g.me.attrs)
        it.call(it.getattr(g.me, 'convert'), [], dict(ins))
        nv = g.me.attrs.get('node_values')
        if not isinstance(nv, Map): return ctx.unknown('values of all layers', '%s' % (nv,))
        ctx.true('inputs are layers', set(nv.base) == set(ins) and all(nv.base[n] is ins[n] for n in ins), '%s' % nv.base)
        for r in g.reads:
            ctx.true('operands are inputs, constants or earlier layers', r.consts is g.consts and set(r.base) == set(ins) and all(r.base[n] is ins[n] for n in ins), '')
        k = ctx.fresh('k', 0, g.m)
        def one(mp, what):
            es = [e for e in mp.log]
            if len(es) != 1 or len(es[0].binders) != 1: return ctx.unknown(what, '%s' % es)
            e = es[0]; b = e.binders[0]; p = [(b.var, k)]
            ctx.oblige('every node is processed', z3.And(zi(b.lo) == 0, zi(b.hi) == g.m, subst(SBool(e.guard), p).e))
            ctx.oblige('the result belongs to the output of the node', subst(SInt(e.idx[0]), p).e == OUT(k))
            v = subst(e.value, p)
            if not (isinstance(v, Term) and v.op == 'apply'): return ctx.fail(what, '%s' % (v,))
            ctx.oblige('the operation of the node is applied', v.args[0] == OPTYPE(k))
            q = fresh_int('q')
            ctx.true('the attributes of the node are passed', isinstance(v.args[2], Term) and v.args[2].op == 'attribute' and it.prove(v.args[2].args[0] == k), '%s' % (v.args[2],))
            l = ctx.fresh('l', 0, NIN(k))
            got = PList(list(v.args[1]))
            try: n = it.length(got)
            except Unsupported as ex: return ctx.unknown('operands of the node', '%s' % (v,))
            ctx.oblige('number of operands', zi(n) == NIN(k))
            def at():
                x = it.getitem(got, SInt(l))
                if isinstance(x, Term) and x.op == 'layer': ctx.oblige('operands in order', x.args[0] == INP(k, l))
                else: ctx.fail('operands in order', '%s' % (x,))
            ctx.cases(at)
        one(nv, 'layers can be queried')
        for r in {id(r): r for r in g.reads}.values(): one(r, 'later nodes see earlier layers')
        ctx.true('constants and nodes are kept', not g.consts.d and g.me.attrs['nodes'] is g.nodes and g.me.attrs['initialized_tensors'] is g.consts, '')
        ctx.true('own dictionaries', len({id(x) for x in g.maps}) == len(g.maps) and nv.consts is None, '')
    return run

def shapes(decl, kind):
    """inputs of a wrong shape are rejected before anything is converted"""
    def run(ctx):
        g = Graph(ctx, 1, False); it = ctx.it
        ds = [z3.Int('e%d' % i) for i in range(decl)]
        it.base_facts += [d >= 0 for d in ds]
        if decl == 1: it.base_facts += [ds[0] >= 1]
        g.me.attrs['inputshape'] = PDict({'in0': tuple(SInt(d) for d in ds)}); it.base_facts.append(g.m == 0)
        r, c = z3.Ints('r c'); it.base_facts += [r >= 1, c >= 1]
        t = sym('K', 'x', SInt(r), SInt(c)) if kind == 'matrix' else sym('N', 'x', SInt(r), SInt(c)) if kind == 'array' else sym('N', 'x', SInt(r))
        ok = z3.Or(ds[1] == 0, ds[1] == c) if decl == 2 and kind != 'vector' else z3.BoolVal(False) if decl == 2 else ds[0] == r
        try: it.call(it.getattr(g.me, 'convert'), [], {'in0': t})
        except PyEx: return ctx.oblige('inputs of the declared shape are accepted', z3.Not(ok))
        ctx.oblige('inputs of a wrong shape are rejected', ok)
        nv = g.me.attrs.get('node_values')
        ctx.true('the input is a layer', isinstance(nv, Map) and nv.base.get('in0') is t, '%s' % (nv,))
    return run

def reject(what):
    def run(ctx):
        g = Graph(ctx, 2, False); it = ctx.it
        ins = {n: sym('K', n, *g.shapes[n]) for n in g.names}
        for n in g.names: it.base_facts += [zi(d) >= 1 for d in g.shapes[n]]
        bad = []
        if what == 'names':
            bad = [{}, {'in0': ins['in0']}, {'in0': ins['in0'], 'in2': ins['in1']}, {'a': ins['in0'], 'b': ins['in1']}, dict(ins, extra=ins['in0']), {'in1': ins['in1'], 'IN0': ins['in0']}]
        else:
            for v in (1.0, 2, None, 'text', PList(elems=[1.0]), (1.0,), PDict({}), True):
                bad += [dict(ins, in0=v), dict(ins, in1=v)]
        for kw in bad:
            try: it.call(it.getattr(g.me, 'convert'), [], dict(kw))
            except PyEx: ctx.ok('rejected inputs')
            else: ctx.fail('rejected inputs', '%s' % (kw,))
    return run

def unsupported(n, pos):
    def run(ctx):
        g = Graph(ctx, 1, False); it = ctx.it
        it.base_facts[:] = [f for f in it.base_facts if not (z3.is_quantifier(f) and 'is_supported' in str(f))]
        it.base_facts += [zi(d) >= 1 for d in g.shapes['in0']]
        g.me.attrs['nodes'] = PList(elems=[Term('node', (z3.IntVal(i),)) for i in range(n)])
        for i in range(n): it.base_facts += [NIN(i) == 1, SUPPORTED(OPTYPE(i)) if i != pos else z3.Not(SUPPORTED(OPTYPE(i)))]
        try: it.call(it.getattr(g.me, 'convert'), [], {'in0': sym('K', 'in0', *g.shapes['in0'])})
        except PyEx: return ctx.true('no values of a rejected graph', 'node_values' not in g.me.attrs, '')
        ctx.fail('unsupported operations are rejected', '')
    return run

def query(ctx):
    g = Graph(ctx, 1, False); it = ctx.it
    a, b = Term('layer', (z3.IntVal(0),)), Term('layer', (z3.IntVal(1),))
    g.me.attrs['node_values'] = PDict({'in0': a, 'dense/1:0': b}); g.me.attrs['initialized_tensors'] = PDict({'w0': Term('const', ('w',))})
    ctx.true('the value of the layer is returned', it.getitem(g.me, 'in0') is a and it.getitem(g.me, 'dense/1:0') is b, '')
    for bad in ('w0', 'dense', '', 'Tanh', 'node_values'):
        try: it.getitem(g.me, bad)
        except PyEx: ctx.ok('unknown layers are rejected')
        else: ctx.fail('unknown layers are rejected', bad)

for n in (1, 2):
    for a in (False, True): CONTRACTS.append(('ONNXConversion.convert, network of %d inputs%s' % (n, ', numpy layers' if a else ''), convert(n, a), None))
REF = Refuter({'r': range(1, 4), 'c': range(1, 4)}, dom=4)
for d in (1, 2):
    for k in ('matrix', 'array', 'vector'):
        if (d, k) != (1, 'array'): CONTRACTS.append(('ONNXConversion.convert, declared shape of %d dimensions, %s' % (d, k), shapes(d, k), REF))
for w in ('names', 'types'): CONTRACTS.append(('ONNXConversion.convert, wrong %s of 2 inputs' % w, reject(w), None))
for n in (1, 2, 3):
    for p in range(n): CONTRACTS.append(('ONNXConversion.convert, rejected graph of %d nodes, unsupported node %d' % (n, p), unsupported(n, p), None))
CONTRACTS.append(('ONNXConversion.__getitem__', query, None))
TRUSTED = ['element-wise and matrix operations of CasADi and numpy (broadcasting rules as stated in the contract, confirmed by the bounded check)', 'onnx (graph, attributes, numpy_helper)', 'exp and tanh: exp > 0, exp(0) = 1, exp(-x) exp(x) = 1, tanh odd']
ASSUMPTIONS = ['elements are real numbers (no rounding)', 'operands of element-wise operations have equal shape, one element, or are a vector along the last axis of a one-row matrix']
