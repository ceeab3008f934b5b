"""C20: NLPDifferentiator and DoMPCDifferentiator for problems with any number of variables, constraints and parameters, any unused ones and any active set."""
from .files import *
from ..interp import Rng, Slice
from .. import smt
M = 'do_mpc.differentiator._nlpdifferentiator'
HM = 'do_mpc.differentiator.helper'
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()

# ------------------------------------------------------------------ index vectors
class Block:
    """size, position -> index, index -> is contained, contained index -> position"""
    def __init__(self, size, at, member, rank): self.size = size; self.at = at; self.member = member; self.rank = rank
class Idx:
    def __init__(self, blocks): self.blocks = blocks
    def size(self): return mkint(sum((zi(b.size) for b in self.blocks), z3.IntVal(0)))
    def at(self, it, j):
        j = zi(j)
        for b in self.blocks[:-1]:
            if it.decide(mkbool(j < zi(b.size))): return b.at(j)
            j = z3.simplify(j - zi(b.size))
        return self.blocks[-1].at(j)
    def find(self, it, i):
        """position of index i, None if it is not contained"""
        off = z3.IntVal(0)
        for b in self.blocks:
            if it.decide(mkbool(b.member(zi(i)))): return z3.simplify(off + b.rank(zi(i)))
            off = off + zi(b.size)
        return None
class Axis:
    """idx[:, None] and idx[None, :]"""
    def __init__(self, idx, d): self.idx = idx; self.d = d
def arange(n): return Block(n, lambda j: j, lambda i: z3.And(i >= 0, i < zi(n)), lambda i: i)
def shifted(b, s): return Block(b.size, lambda j: b.at(j) + zi(s), lambda i: b.member(i - zi(s)), lambda i: b.rank(i - zi(s)))

# ------------------------------------------------------------------ matrices
class Mat:
    """a matrix or vector by its elements; kind: symbolic 'SX', numbers 'DM', numpy 'np', scipy sparse 'sp'"""
    def __init__(self, kind, dims, el): self.kind = kind; self.dims = tuple(dims); self.el = el; self.version = 0
    def __repr__(self): return 'Mat(%s,%s)' % (self.kind, self.dims)
class BVec:
    """elementwise condition"""
    def __init__(self, n, at): self.n = n; self.at = at
class Tup:
    """index arrays of np.where of a column: only the first one is a selection"""
    def __init__(self, i): self.i = i
def el(name, *ix): return Term('el', (name,) + tuple(zi(i) for i in ix), 1, 1)
def col(kind, name, n): return Mat(kind, (n, 1), lambda i, j: el(name, i))
class Evals: pass

class World:
    def __init__(self, ctx):
        self.ctx = ctx; self.it = it = ctx.it; self.sels = {}; self.evals = []; self.sols = []; self.n = 0; self.ranks = []; self.selections = []; self.allof = []
        self.raise_in = None       # name of the solver that fails
        self.install()
    def select(self, n, pred):
        """positions at which a condition holds, in increasing order"""
        it = self.it; j = z3.Int('sel!'); key = (str(z3.simplify(zi(n))), str(z3.simplify(pred(j))))
        if key in self.sels: return self.sels[key]
        for n2, p2, x in self.selections:
            if it.prove(z3.And(zi(n2) == zi(n), p2(j) == pred(j))): self.sels[key] = x; return x
        k = len(self.sels); m = z3.Int('m!%d' % k); e = z3.Function('e!%d' % k, I, I); r = z3.Function('r!%d' % k, I, I)
        it.base_facts += [m >= 0, m <= zi(n)]; seen = {}
        def add(key, f):
            # instances for the positions and indices that occur (quantifiers are never needed)
            if key not in seen: seen[key] = True; it.base_facts.append(f())
        def at(j):
            j = z3.simplify(zi(j))
            add(('e', j), lambda: z3.Implies(z3.And(j >= 0, j < m), z3.And(e(j) >= 0, e(j) < zi(n), pred(e(j)), r(e(j)) == j))); return e(j)
        def rk(i):
            i = z3.simplify(zi(i))
            add(('r', i), lambda: z3.Implies(z3.And(i >= 0, i < zi(n), pred(i)), z3.And(r(i) >= 0, r(i) < m, e(r(i)) == i))); return r(i)
        def mem(i): rk(i); return z3.And(i >= 0, i < zi(n), pred(i))
        self.sels[key] = x = Idx([Block(mkint(m), at, mem, rk)]); self.selections.append((n, pred, x))
        return x
    # ---------------------------------------------------------------- numbers
    def real(self, t):
        if isinstance(t, (int, float)): return z3.RealVal(str(t))
        if isinstance(t, SInt): return z3.ToReal(t.e)
        if t.op == 'c': return z3.RealVal(str(t.args[0]))
        if t.op == 'el': return z3.Function('val_' + t.args[0], *([I] * (len(t.args) - 1) + [R]))(*t.args[1:]) if len(t.args) > 1 else z3.Real('val_' + t.args[0])
        if t.op == 'sym': return z3.Real('val_' + t.args[0])
        if t.op == 'neg': return -self.real(t.args[0])
        if t.op in ('add', 'sub', 'mul'):
            x = [self.real(a) for a in t.args]; r = x[0]
            for y in x[1:]: r = r + y if t.op == 'add' else r - y if t.op == 'sub' else r * y
            return r
        if t.op == 'call' and t.args[0] in ('fabs', 'abs'):
            x = self.real(t.args[1]); return z3.If(x >= 0, x, -x)
        raise Unsupported('number %s' % t.op)
    # ---------------------------------------------------------------- operations
    def mat(self, v):
        if isinstance(v, Mat): return v
        if isinstance(v, (int, float)): return Mat('np', (), lambda: C(v))
        if isinstance(v, Term): return Mat('np', (), lambda: v)
        raise Unsupported('operand %s' % type(v).__name__)
    def two(self, m):
        if len(m.dims) == 2: return m.dims, m.el
        if len(m.dims) == 1: return (m.dims[0], 1), lambda i, j: m.el(i)
        return (1, 1), lambda i, j: m.el()
    def same(self, a, b):
        if isinstance(a, int) and isinstance(b, int): return a == b
        return self.it.decide(mkbool(zi(a) == zi(b)))
    def kind(self, *ms):
        ks = {m.kind for m in ms}
        return 'SX' if 'SX' in ks else 'DM' if 'DM' in ks else 'np' if 'np' in ks else 'sp'
    def elementwise(self, f, a, b):
        a, b = self.mat(a), self.mat(b)
        if not a.dims: return Mat(b.kind, b.dims, lambda *ix: f(a.el(), b.el(*ix)))
        if not b.dims: return Mat(a.kind, a.dims, lambda *ix: f(a.el(*ix), b.el()))
        if len(a.dims) != len(b.dims) and self.kind(a, b) in ('np', 'sp'): raise Unsupported('broadcasting')
        (da, ea), (db, eb) = self.two(a), self.two(b)
        if self.same(da[0], db[0]):
            if self.same(da[1], db[1]): return Mat(self.kind(a, b), da, lambda i, j: f(ea(i, j), eb(i, j)))
            if self.same(db[1], 1): return Mat(self.kind(a, b), da, lambda i, j: f(ea(i, j), eb(i, 0)))
            if self.same(da[1], 1): return Mat(self.kind(a, b), db, lambda i, j: f(ea(i, 0), eb(i, j)))
        one = lambda d: self.same(d[0], 1) and self.same(d[1], 1)
        if one(db): return Mat(self.kind(a, b), da, lambda i, j: f(ea(i, j), eb(0, 0)))
        if one(da): return Mat(self.kind(a, b), db, lambda i, j: f(ea(0, 0), eb(i, j)))
        raise PyEx('RuntimeError', ('Dimension mismatch',))
    def matmul(self, a, b):
        (da, ea), (db, eb) = self.two(a), self.two(b)
        if not self.same(da[1], db[0]): raise PyEx('RuntimeError', ('Matrix product with incompatible dimensions',))
        if isinstance(da[1], int) and da[1] == 1: return Mat(self.kind(a, b), (da[0], db[1]), lambda i, j: mk('mul', ea(i, 0), eb(0, j)))
        def e(i, j):
            k = fresh_int('k')
            return Term('bigsum', (Big(Binder(k, 0, da[1]), TRUE, mk('mul', ea(i, k), eb(k, j))),), 1, 1)
        return Mat(self.kind(a, b), (da[0], db[1]), e)
    def vertcat(self, ms):
        ms = [self.mat(m) for m in ms]
        if not ms: return Mat('DM', (0, 1), None)
        ps = [self.two(m) for m in ms]; c = ps[0][0][1]
        for d, _ in ps[1:]:
            if not self.same(d[1], c): raise PyEx('RuntimeError', ('Dimension mismatch in vertcat',))
        def e(i, j):
            i = zi(i)
            for d, f in ps[:-1]:
                if self.it.decide(mkbool(i < zi(d[0]))): return f(i, j)
                i = z3.simplify(i - zi(d[0]))
            return ps[-1][1](i, j)
        return Mat(self.kind(*ms), (mkint(sum((zi(d[0]) for d, _ in ps), z3.IntVal(0))), c), e)
    def index(self, k, n):
        """index object -> Idx, or an integer"""
        if isinstance(k, Slice) and k.step in (None, 1):
            lo, hi = self.it.norm_slice(k, mkint(zi(n)))
            lo, hi = zi(lo), zi(hi); s = z3.simplify(hi - lo)
            if z3.is_true(z3.simplify(lo == 0)) and self.it.prove(hi == zi(n)): return Idx([arange(n)])
            return Idx([Block(mkint(s), lambda j: j + lo, lambda i: z3.And(i >= lo, i < hi), lambda i: i - lo)])
        if isinstance(k, Idx): return k
        if isinstance(k, Axis): return k.idx
        if isinstance(k, BVec): return self.select(k.n, k.at)
        if isinstance(k, PList): return self.of_list(k)
        if isinstance(k, (int, SInt)): return k
        raise Unsupported('index %s' % type(k).__name__)
    def of_list(self, l):
        bs = []
        for s in l.segs:
            if s.kind == 'e':
                if not isinstance(s.val, (int, SInt)): raise Unsupported('index list')
                v = zi(s.val); bs.append(Block(1, lambda j, v=v: v, lambda i, v=v: i == v, lambda i: z3.IntVal(0)))
                continue
            if not (z3.is_true(z3.simplify(s.guard)) and len(s.segs) == 1 and s.segs[0].kind == 'e' and isinstance(s.segs[0].val, (int, SInt))): raise Unsupported('index list')
            v = s.segs[0].val
            tag = self.tags.get(str(z3.simplify(zi(subst(SInt(zi(v)), [(s.b.var, z3.Int('tag!'))])))))
            lo = zi(s.b.lo); f = lambda j, v=v, s=s, lo=lo: zi(subst(SInt(zi(v)), [(s.b.var, z3.simplify(j + lo))]))
            bs.append(Block(mkint(z3.simplify(zi(s.b.hi) - lo)), f, tag.member if tag else None, tag.rank if tag else None))
        return Idx(bs) if bs else Idx([arange(0)])
    def gather(self, m, k):
        """rows and columns of a matrix"""
        ks = k if isinstance(k, tuple) else (k,)
        ks = tuple(Slice(None, None, None) if x is None and False else x for x in ks)
        if len(ks) == 1:
            if len(m.dims) == 2 and m.kind in ('SX', 'DM'):
                if not self.same(m.dims[1], 1): raise Unsupported('linear index of a matrix')
                r = self.index(ks[0], m.dims[0])
                if isinstance(r, Idx): return Mat(m.kind, (r.size(), 1), lambda i, j: m.el(r.at(self.it, i), j))
                self.bound(r, m.dims[0]); return Mat(m.kind, (1, 1), lambda i, j: m.el(zi(r), 0))
            r = self.index(ks[0], m.dims[0])
            if isinstance(r, Idx): return Mat(m.kind, (r.size(),) + m.dims[1:], lambda i, *j: m.el(r.at(self.it, i), *j))
            self.bound(r, m.dims[0])
            return Mat(m.kind, m.dims[1:], lambda *j: m.el(zi(r), *j)) if m.dims[1:] else m.el(zi(r))
        if len(ks) != 2 or len(m.dims) != 2: raise Unsupported('index of a matrix')
        self.mesh(m, ks)
        r, c = (self.index(x, d) for x, d in zip(ks, m.dims))
        if not isinstance(r, Idx): self.bound(r, m.dims[0]); r = Idx([Block(1, lambda j, r=r: zi(r), None, None)])
        if not isinstance(c, Idx): self.bound(c, m.dims[1]); c = Idx([Block(1, lambda j, c=c: zi(c), None, None)])
        if m.kind in ('np', 'sp') and not (isinstance(ks[0], (Idx, PList, Axis, BVec, Slice)) and isinstance(ks[1], (Idx, PList, Axis, BVec, Slice))): raise Unsupported('row of an array')
        return Mat(m.kind, (r.size(), c.size()), lambda i, j: m.el(r.at(self.it, i), c.at(self.it, j)))
    def mesh(self, m, ks):
        adv = [isinstance(x, (Idx, PList, BVec)) for x in ks]
        if m.kind in ('np', 'sp') and all(adv): raise Unsupported('pointwise selection')
        if isinstance(ks[0], Axis) and ks[0].d != 0 or isinstance(ks[1], Axis) and ks[1].d != 1: raise Unsupported('selection')
    def bound(self, i, n):
        ok = z3.And(zi(i) >= -zi(n), zi(i) < zi(n))
        if not self.it.decide(mkbool(ok)): raise PyEx('IndexError')
        if not self.it.prove(zi(i) >= 0): raise Unsupported('negative index')
    def scatter(self, m, k, v):
        it = self.it
        if it.loops: raise Unsupported('assignment to elements in a loop')
        ks = k if isinstance(k, tuple) else (k,)
        old = m.el; v = self.mat(v)
        if len(ks) == 1:
            if len(m.dims) == 2 and not self.same(m.dims[1], 1): raise Unsupported('linear index of a matrix')
            r = self.index(ks[0], m.dims[0]); r = r if isinstance(r, Idx) else Idx([Block(1, lambda j: zi(r), lambda i: i == zi(r), lambda i: z3.IntVal(0))])
            c = Idx([arange(1)])
            if m.kind == 'np' and len(v.dims) == 2 and len(m.dims) == 1: raise Unsupported('broadcasting')
        else:
            if len(ks) != 2 or len(m.dims) != 2: raise Unsupported('index of a matrix')
            self.mesh(m, ks)
            r, c = (self.index(x, d) for x, d in zip(ks, m.dims))
            if not (isinstance(r, Idx) and isinstance(c, Idx)): raise Unsupported('assignment to a row')
        for b in r.blocks + c.blocks:
            if b.member is None: raise Unsupported('assignment at computed positions')
        (dv, ev) = self.two(v)
        if v.dims:
            for d, s in zip(dv, (r.size(), c.size())):
                if not self.it.decide(mkbool(zi(d) == zi(s))): raise PyEx('ValueError', ('shape mismatch',))
        def e(i, j=z3.IntVal(0)):
            a = r.find(it, i)
            if a is not None:
                b = c.find(it, j)
                if b is not None: return ev(a, b)
            return old(i, j) if len(m.dims) == 2 else old(i)
        m.el = e; m.version += 1
    # ---------------------------------------------------------------- library
    def install(self):
        it = self.it; H = it.lib.hooks; W = self; W.tags = {}
        ops = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul'}
        def binop(it, op, a, b):
            t = type(op)
            if isinstance(a, BVec) or isinstance(b, BVec):
                if not (isinstance(a, BVec) and isinstance(b, BVec)): raise Unsupported('conditions')
                if t in (ast.BitAnd, ast.Mult): return BVec(a.n, lambda i: z3.And(a.at(i), b.at(i)))
                if t in (ast.BitOr, ast.Add): return BVec(a.n, lambda i: z3.Or(a.at(i), b.at(i)))
                raise Unsupported('conditions')
            if isinstance(a, Idx) or isinstance(b, Idx):
                if t is ast.Add and isinstance(b, Idx): a, b = b, a
                if not isinstance(b, (int, SInt)) or t not in (ast.Add, ast.Sub): raise Unsupported('operation on indices')
                return Idx([shifted(x, b if t is ast.Add else mkint(-zi(b))) for x in a.blocks])
            if not (isinstance(a, Mat) or isinstance(b, Mat)): return NotImplemented
            if t in ops: return W.elementwise(lambda x, y: mk(ops[t], x, y), a, b)
            if t is ast.MatMult: return W.matmul(W.mat(a), W.mat(b))
            raise Unsupported('operator')
        H['binop'] = binop
        def compare(it, op, a, b):
            if isinstance(a, Mat) or isinstance(b, Mat):
                r = W.elementwise(lambda x, y: (x, y), a, b)
                f = {ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y, ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Eq: lambda x, y: x == y, ast.NotEq: lambda x, y: x != y}.get(type(op))
                if f is None or len(r.dims) == 2 and not W.same(r.dims[1], 1): raise Unsupported('comparison of matrices')
                def at(i):
                    with_ = r.el(i, 0) if len(r.dims) == 2 else r.el(i)
                    return f(W.real(with_[0]), W.real(with_[1]))
                return BVec(r.dims[0], at)
            return NotImplemented
        H['compare'] = compare
        def getitem(it, o, k):
            if isinstance(o, Mat): return W.gather(o, k)
            if isinstance(o, Tup):
                if k == 0: return o.i
                raise Unsupported('column indices')
            if isinstance(o, Idx):
                if isinstance(k, tuple) and len(k) == 2 and any(x is None for x in k):
                    d = 0 if k[1] is None else 1; s = k[d]
                    if isinstance(s, Slice) and s.lo is None and s.hi is None and s.step is None: return Axis(o, d)
                raise Unsupported('index of an index array')
            return NotImplemented
        H['getitem'] = getitem
        def setitem(it, o, k, v):
            if isinstance(o, Mat): W.scatter(o, k, v); return True
            return NotImplemented
        H['setitem'] = setitem
        def length(it, o):
            if isinstance(o, Idx): return o.size()
            if isinstance(o, Mat) and o.kind == 'np' and o.dims: return o.dims[0]
            return NotImplemented
        H['length'] = length
        ch0 = it.lib.iter_chunks
        def chunks(it, o):
            if isinstance(o, Idx):
                out = []
                for b in o.blocks:
                    W.tags[str(z3.simplify(b.at(z3.Int('tag!'))))] = b
                    out.append(('gen', 0, b.size, lambda i, b=b: mkint(b.at(zi(i)))))
                return out
            if isinstance(o, Mat) and o.kind in ('np', 'DM') and len(o.dims) == 1: return [('gen', 0, o.dims[0], lambda i: o.el(zi(i)))]
            return ch0(it, o)
        it.lib.iter_chunks = chunks
        def getattr_(it, o, name):
            if isinstance(o, Mat):
                if name == 'shape': return tuple(mkint(zi(d)) for d in o.dims)
                if name == 'ndim' and o.kind in ('np', 'sp'): return len(o.dims)
                if name == 'T': return o if len(o.dims) < 2 else Mat(o.kind, o.dims[::-1], lambda i, j: o.el(j, i))
                if name in ('tocsc', 'tocsr', 'tolil'): return LibFn(name, lambda it, a, k: Mat('sp', *W.two(o)))
                if name in ('toarray', 'todense', 'full') and o.kind in ('sp', 'DM'): return LibFn(name, lambda it, a, k: Mat('np', *W.two(o)))
                if name == 'sparsity': return LibFn(name, lambda it, a, k: Term('sparsity', (id(o),)))
                if name == 'copy': return LibFn(name, lambda it, a, k: Mat(o.kind, o.dims, o.el))
                if name == 'size1' and len(o.dims) == 2: return LibFn(name, lambda it, a, k: mkint(zi(o.dims[0])))
                if name == 'size2' and len(o.dims) == 2: return LibFn(name, lambda it, a, k: mkint(zi(o.dims[1])))
                if name == 'numel' and len(o.dims) == 2 and W.same(o.dims[1], 1): return LibFn(name, lambda it, a, k: mkint(zi(o.dims[0])))
                if name == 'reshape' and o.kind == 'np':
                    def rs(it, a, k):
                        d = a[0] if len(a) == 1 and isinstance(a[0], tuple) else tuple(a)
                        if d == (-1, 1) and len(o.dims) == 1: return Mat('np', (o.dims[0], 1), lambda i, j: o.el(i))
                        if d == (-1, 1) and len(o.dims) == 2 and W.same(o.dims[1], 1): return o
                        if len(d) == 2 and len(o.dims) == 1 and isinstance(d[0], SInt) and isinstance(d[1], int) and d[1] == -1: return Mat('np', (o.dims[0], 1), lambda i, j: o.el(i)) if it.prove(zi(d[0]) == zi(o.dims[0])) else unsup('reshape')
                        raise Unsupported('reshape')
                    return LibFn(name, rs)
                raise Unsupported('attribute %s of a matrix' % name)
            if isinstance(o, Idx):
                if name == 'size': return o.size()
                if name == 'shape': return (o.size(),)
                if name in ('astype', 'copy', 'flatten', 'ravel'): return LibFn(name, lambda it, a, k: o)
                if name == 'reshape': return LibFn(name, lambda it, a, k: Axis(o, 0) if tuple(a) == (-1, 1) or a == [(-1, 1)] else unsup('reshape'))
                raise Unsupported('attribute %s of an index array' % name)
            return NotImplemented
        H['getattr'] = getattr_
        TY = {'SX': 'casadi.SX', 'DM': 'casadi.DM', 'np': 'numpy.ndarray', 'sp': 'scipy.sparse'}
        it.lib.isinst.append(lambda it, v, t: (isinstance(t, LibType) and t.name.split('.')[-1] == TY[v.kind].split('.')[-1]) if isinstance(v, Mat) else None)
        F = lambda n, f: H.__setitem__(n, LibFn(n, f))
        for ca in ('casadi',):
            F(ca + '.vertcat', lambda it, a, k: W.vertcat(a))
            F(ca + '.vertsplit', lambda it, a, k: W.split(a))
            F(ca + '.depends_on', lambda it, a, k: W.depends(a))
            F(ca + '.hessian', lambda it, a, k: (W.jac(W.grad(a[0], a[1]), a[1]), W.grad(a[0], a[1])))
            F(ca + '.gradient', lambda it, a, k: W.grad(a[0], a[1]))
            F(ca + '.jacobian', lambda it, a, k: W.jac(a[0], a[1]))
            F(ca + '.transpose', lambda it, a, k: getattr_(it, a[0], 'T'))
            F(ca + '.mtimes', lambda it, a, k: W.matmul(a[0], a[1]) if len(a) == 2 else unsup('product'))
            F(ca + '.dot', lambda it, a, k: W.matmul(getattr_(it, a[0], 'T'), a[1]))
            F(ca + '.times', lambda it, a, k: W.elementwise(lambda x, y: mk('mul', x, y), a[0], a[1]))
            F(ca + '.norm_fro', lambda it, a, k: Term('norm', (a[0],)))
        H['SX.sym'] = H['casadi.SX.sym'] = LibFn('sym', lambda it, a, k: W.symvar(a))
        it.lib.ctor = dict(it.lib.ctor, DM=lambda it, a, k: W.dm(a))
        for m in ('abs', 'fabs', 'absolute'):
            F('numpy.' + m, lambda it, a, k: W.elementwise(lambda x, y: Term('call', ('fabs', x), 1, 1), a[0], 0))
        F('casadi.fabs', lambda it, a, k: W.elementwise(lambda x, y: Term('call', ('fabs', x), 1, 1), a[0], 0))
        F('numpy.where', lambda it, a, k: Tup(W.sel(a[0])) if len(a) == 1 else unsup('where'))
        F('numpy.nonzero', lambda it, a, k: Tup(W.sel(a[0])))
        F('numpy.flatnonzero', lambda it, a, k: W.sel(a[0]))
        def lnot(it, a, k):
            v = W.bvec(a[0]); return BVec(v.n, lambda i: z3.Not(v.at(i)))
        F('numpy.logical_not', lnot)
        F('numpy.logical_and', lambda it, a, k: binop(it, ast.BitAnd(), W.bvec(a[0]), W.bvec(a[1])))
        F('numpy.logical_or', lambda it, a, k: binop(it, ast.BitOr(), W.bvec(a[0]), W.bvec(a[1])))
        F('numpy.array', lambda it, a, k: a[0] if isinstance(a[0], Idx) else W.bvec(a[0]) if isinstance(a[0], PList) and W.isbools(a[0]) else W.mat_np(a[0]) if isinstance(a[0], Mat) else W.of_list(a[0]) if isinstance(a[0], PList) else unsup('array'))
        F('numpy.asarray', H['numpy.array'].f)
        def cat(it, a, k):
            out = []
            for x in (a[0].elems() if isinstance(a[0], PList) else a[0]):
                x = x if isinstance(x, Idx) else W.of_list(x) if isinstance(x, PList) else unsup('concatenation')
                out += x.blocks
            return Idx(out)
        for m in ('concatenate', 'hstack', 'append'): F('numpy.' + m, cat if m != 'append' else (lambda it, a, k: cat(it, [tuple(a)], k)))
        def ar(it, a, k):
            lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
            if len(a) > 2: raise Unsupported('arange')
            b = arange(mkint(zi(hi) - zi(lo)))
            return Idx([b if lo == 0 and isinstance(lo, int) else shifted(b, lo)])
        F('numpy.arange', ar)
        F('numpy.ix_', lambda it, a, k: (Axis(W.index(a[0], 0), 0), Axis(W.index(a[1], 0), 1)) if len(a) == 2 else unsup('ix_'))
        def const(v, kind='np'):
            def f(it, a, k):
                d = a[0] if a else k['shape']
                return Mat(kind, d if isinstance(d, tuple) else (d,), lambda *ix: C(v))
            return f
        F('numpy.zeros', const(0.0)); H['casadi.DM.zeros'] = LibFn('zeros', lambda it, a, k: Mat('DM', a if len(a) == 2 else (a[0], 1), lambda *ix: C(0.0)))
        def full(it, a, k):
            d = k.get('shape', a[0] if a else None); v = k.get('fill_value', a[1] if len(a) > 1 else None)
            return Mat('np', d, lambda *ix: v if isinstance(v, Term) else Term('nan', (), 1, 1) if isinstance(v, float) and v != v else C(v))
        F('numpy.full', full); H['numpy.nan'] = float('nan')
        H['call:scipy.sparse.lil_matrix'] = lambda it, a, k: Mat('sp', a[0], lambda *ix: C(0.0)) if isinstance(a[0], tuple) else unsup('lil_matrix')
        H['call:scipy.sparse.issparse'] = lambda it, a, k: isinstance(a[0], Mat) and a[0].kind == 'sp'
        H['call:scipy.sparse.linalg.spsolve'] = lambda it, a, k: W.solve('scipy', a[0], a[1])
        F('scipy.sparse.lil_matrix', H['call:scipy.sparse.lil_matrix']); F('scipy.sparse.issparse', H['call:scipy.sparse.issparse']); F('scipy.sparse.linalg.spsolve', H['call:scipy.sparse.linalg.spsolve'])
        F('numpy.linalg.lstsq', lambda it, a, k: (W.solve('lstsq', a[0], a[1]), None, None, None))
        F('numpy.linalg.matrix_rank', lambda it, a, k: W.rank(a[0]))
        F('numpy.all', lambda it, a, k: SBool(W.all(a[0])))
        F('numpy.logical_not', lnot); F('logging.exception', lambda it, a, k: None)
        F('casadi.Function', lambda it, a, k: W.function(a)); F('casadi.Linsol', lambda it, a, k: W.linsol(a))
        co0 = H.get('call_obj')
        def call_obj(it, f, a, k):
            if isinstance(f, Fn): return f.call(a)
            return co0(it, f, a, k) if co0 else NotImplemented
        H['call_obj'] = call_obj
    def mat_np(self, m): return Mat('np', m.dims, m.el)
    def isbools(self, l): return len(l.segs) == 1 and l.segs[0].kind != 'e' and self.alternatives(l.segs[0]) is not None
    def bvec(self, v):
        if isinstance(v, BVec): return v
        if isinstance(v, PList) and len(v.segs) == 1 and v.segs[0].kind != 'e':
            s = v.segs[0]
            alts = self.alternatives(s)
            if z3.is_true(z3.simplify(s.guard)) and alts is not None:
                lo = zi(s.b.lo); e = z3.Or(*[z3.And(g, zb(v)) for g, v in alts])
                return BVec(mkint(z3.simplify(zi(s.b.hi) - lo)), lambda i: z3.substitute(e, (s.b.var, z3.simplify(zi(i) + lo))))
        raise Unsupported('condition %s' % (v,))
    def alternatives(self, s):
        """exactly one element per position, chosen by exclusive conditions"""
        out = []
        for x in s.segs:
            if x.kind == 'e': out.append((TRUE, x.val)); continue
            if len(x.segs) != 1 or x.segs[0].kind != 'e' or not self.it.prove(z3.And(zi(x.b.lo) == 0, zi(x.b.hi) == 1)): return None
            out.append((x.guard, x.segs[0].val))
        if not all(isinstance(v, (bool, SBool)) for _, v in out): return None
        gs = [g for g, _ in out]
        if not self.it.prove(z3.Or(*gs)) or any(not self.it.prove(z3.Not(z3.And(a, b))) for n, a in enumerate(gs) for b in gs[:n]): return None
        return out
    def sel(self, v):
        v = self.bvec(v); return self.select(v.n, v.at)
    def all(self, v):
        v = self.bvec(v); b = z3.Bool('all!%d' % len(self.allof)); self.allof.append((b, v))
        return b
    def alls(self, i):
        """instance: if all elements satisfy the condition, so does the i-th"""
        out = []
        for b, v in self.allof:
            if self.it.prove(b): out.append(z3.Implies(z3.And(i >= 0, i < zi(v.n)), self.cased(v, i)))
        return out
    def cased(self, v, i):
        """the condition at an arbitrary position (without case distinctions on the position)"""
        d = self.it.decide; self.it.decide = lambda c: self.choose(c)
        try:
            conds = []; work = [[]]
            while work:
                pre = work.pop(); tr = []
                def dec(c):
                    e = zb(c)
                    if self.it.prove(e): return True
                    if self.it.prove(z3.Not(e)): return False
                    k = len(tr); r = pre[k] if k < len(pre) else True
                    tr.append((e, r)); return r
                self.it.decide = dec
                x = v.at(i); conds.append(z3.Implies(z3.And(*[e if r else z3.Not(e) for e, r in tr]), x))
                for k in range(len(pre), len(tr)): work.append([r for _, r in tr[:k]] + [False])
            return z3.And(*conds)
        finally: self.it.decide = d
    def rank(self, m):
        self.ranks.append(m); return SInt(z3.Int('rank!%d' % len(self.ranks)))
    def symvar(self, a):
        if not isinstance(a[0], str): raise Unsupported('name')
        n = a[0]; self.it.base_facts.append(zi(a[1]) >= 0) if len(a) > 1 else None
        return Mat('SX', (a[1] if len(a) > 1 else 1, a[2] if len(a) > 2 else 1), lambda i, j: el(n, i))
    def split(self, a):
        m = a[0]
        if len(a) > 1 or not self.same(m.dims[1], 1): raise Unsupported('vertsplit')
        b = fresh_int('v'); return PList([Seg('r', b=Binder(b, 0, m.dims[0]), guard=TRUE, segs=[E(m.el(b, 0))])])
    def depends(self, a):
        e, v = a
        v = v.el(0, 0) if isinstance(v, Mat) else v
        if not (isinstance(e, Mat) and isinstance(v, Term) and v.op == 'el'): raise Unsupported('depends_on')
        return SBool(z3.Function('%s_uses_%s' % (e.name, v.args[0]), I, B)(v.args[1]))
    def grad(self, f, x):
        return Mat('SX', (x.dims[0], 1), lambda i, j: Term('dd', (f.el(0, 0), x.el(i, 0)), 1, 1))
    def jac(self, m, x):
        if not (self.same(m.dims[1], 1) and self.same(x.dims[1], 1)): raise Unsupported('jacobian')
        return Mat('SX', (m.dims[0], x.dims[0]), lambda i, j: Term('dd', (m.el(i, 0), x.el(j, 0)), 1, 1))
    def function(self, a):
        ins, outs = a[1], a[2]
        return Fn(self, ins.elems() if isinstance(ins, PList) else ins, outs.elems() if isinstance(outs, PList) else outs)
    def dm(self, a):
        if len(a) == 2 and all(isinstance(x, (int, SInt)) for x in a): return Mat('DM', tuple(a), lambda i, j: C(0.0))
        m = self.mat(a[0]); return Mat('DM', *self.two(m))
    def linsol(self, a):
        o = PObj(LibType('Linsol'), {'solve': LibFn('solve', lambda it, b, k: self.solve('casadi', b[0], b[1]))}); o.closed = True
        return o
    def solve(self, how, A, b):
        if self.raise_in == how: raise PyEx('RuntimeError', ('singular',))
        A, b = self.mat(A), self.mat(b)
        (da, ea), (db, eb) = self.two(A), self.two(b)
        if not (self.same(da[0], da[1]) and self.same(da[0], db[0])): raise PyEx('ValueError', ('shape',))
        s = len(self.sols); self.sols.append((da[0], ea, db[1], eb, how))
        if how == 'scipy' and self.same(db[1], 1): return Mat('np', (da[1],), lambda i: Term('sol', (s, zi(i), z3.IntVal(0)), 1, 1))
        return Mat({'scipy': 'sp', 'casadi': 'DM', 'lstsq': 'np'}[how], (da[1], db[1]), lambda i, j: Term('sol', (s, zi(i), zi(j)), 1, 1))
def unsup(w): raise Unsupported(w)
class Fn:
    def __init__(self, W, ins, outs): self.W = W; self.ins = ins; self.outs = outs
    def call(self, a):
        W = self.W
        if len(a) != len(self.ins): raise PyEx('RuntimeError', ('arguments',))
        for x, y in zip(self.ins, a):
            (dx, _), (dy, _) = W.two(x), W.two(W.mat(y))
            for p, q in zip(dx, dy):
                if not W.same(p, q): raise PyEx('RuntimeError', ('arguments',))
        k = len(W.evals); W.evals.append((self.ins, [W.two(W.mat(y))[1] for y in a]))
        out = self.outs[0]
        return Mat('DM', out.dims, lambda i, j: Term('ev', (k, out.el(i, j)), 1, 1))

# ------------------------------------------------------------------ contracts
nX, nG, nP = z3.Ints('n_opt_x n_cons n_opt_p')
uses = lambda e, v: z3.Function('%s_uses_%s' % (e, v), I, B)
used = lambda v, i: z3.Or(uses('f', v)(i), uses('g', v)(i))
val = lambda n, i: z3.Function('val_' + n, I, R)(i)
def hints(W, ixs):
    """instances of the facts about selections"""
    out = []; it = W.it
    for n, p, x in W.selections:
        b = x.blocks[0]; m = zi(b.size)
        for i in ixs:
            i = zi(i); r = b.rank(i)
            out += [z3.Implies(b.member(i), z3.And(r >= 0, r < m, b.at(r) == i))]
    return out

def world(ctx):
    W = World(ctx); it = W.it
    it.base_facts += [nX >= 1, nG >= 0, nP >= 0]
    W.tol = z3.Real('val_tol'); it.base_facts += [W.tol > 0]
    W.f = Mat('SX', (1, 1), lambda i, j: el('f')); W.f.name = 'f'
    W.g = col('SX', 'g', mkint(nG)); W.g.name = 'g'
    W.nlp = {'f': W.f, 'g': W.g, 'x': col('SX', 'x', mkint(nX)), 'p': col('SX', 'p', mkint(nP))}
    W.bounds = {k: col('DM', k, mkint(nX if k[-1] == 'x' else nG)) for k in ('lbx', 'ubx', 'lbg', 'ubg')}
    return W
def settings(W, lin, checks, zero, fallback):
    it = W.it
    st = PObj(LibType('settings'), {'lin_solver': lin, 'set_lam_zero': zero, 'lstsq_fallback': fallback, 'active_set_tol': Term('sym', ('tol',), 1, 1)}); st.closed = True
    for k in ('check_LICQ', 'check_SC', 'check_rank', 'track_residuals'): st.attrs[k] = checks
    W.status = PObj(LibType('status'), {k: None for k in ('LICQ', 'SC', 'residuals', 'full_rank')}); W.status.attrs.update(lse_solved=False, sym_KKT=False, reduced_nlp=False)
    ns = it.module(M).ns
    ns['NLPDifferentiatorSettings'] = LibFn('settings', lambda it, a, k: st); ns['NLPDifferentiatorStatus'] = LibFn('status', lambda it, a, k: W.status)
    return st
def solution(pre=''):
    return {k: col('DM', pre + k, mkint({'x': nX, 'lam_x': nX}.get(k, nG))) for k in ('x', 'g', 'lam_g', 'lam_x')}
SOL = {'x': 'sol_x', 'lam_g': 'sol_lam_g', 'lam_x': 'sol_lam_x', 'g': 'sol_g'}
def active(W, what, i):
    v, lo, hi = val('sol_' + what, i), val('lb' + what, i), val('ub' + what, i)
    ab = lambda x: z3.If(x >= 0, x, -x)
    return z3.Or(ab(v - lo) <= W.tol, ab(v - hi) <= W.tol)
def parse(t):
    """second derivative of an evaluated expression: (evaluation, expression, symbol, symbol)"""
    if not (isinstance(t, Term) and t.op == 'ev'): raise Unsupported('entry %s' % show(t)[:80])
    k, e = t.args
    if not (e.op == 'dd' and e.args[0].op == 'dd' and e.args[1].op == 'el' and e.args[0].args[1].op == 'el'): raise Unsupported('entry %s' % show(e)[:80])
    return k, e.args[0].args[0], e.args[0].args[1], e.args[1]
def factors(t):
    """sign and non-constant factors of a product"""
    if t.op == 'neg': s, f = factors(t.args[0]); return -s, f
    if t.op == 'mul':
        s, f = 1, []
        for a in t.args:
            q, g = factors(a); s *= q; f += g
        return s, f
    if t.op == 'c': return t.args[0], []
    return 1, [t]

class Check:
    def ob(self, name, goal, ixs):
        if self.W.it.prove(goal): return self.ctx.ok(name)
        self.ctx.oblige(name, goal, hints(self.W, ixs))
    def __init__(self, ctx, W, zero, pname): self.ctx = ctx; self.W = W; self.zero = zero; self.pname = pname; self.done = set()
    def atom(self, W, s, q):
        k, L, a, b = parse(W.sols[s][1](q, q))
        if a.args[0] != b.args[0] or not W.it.prove(a.args[1] == b.args[1]): raise Unsupported('system is not symmetric')
        return a
    def match(self, name, a, b, ixs):
        """same symbol"""
        if a.args[0] != b[0]: return self.ctx.fail(name, '%s instead of %s' % (show(a), b[0]))
        self.ob(name, a.args[1] == zi(b[1]), ixs)
    def entry(self, t, sym, par, ixs):
        """t is the sensitivity of the unknown `sym` with respect to parameter par"""
        ctx, W = self.ctx, self.W
        s, a, b = t.args; n, A, nb, rhs, how = W.sols[s]
        at = self.atom(W, s, a)
        k, L, _, _ = parse(A(a, a))
        if sym[0] == 'lam_x': # multipliers are numbered like the variables that occur
            if at.args[0] != 'lam_x': return ctx.fail('the entry belongs to its unknown', show(at))
            self.ob('the entry belongs to its unknown', self.origin(at.args[1]) == zi(sym[1]), ixs)
        else: self.match('the entry belongs to its unknown', at, sym, ixs)
        r = ctx.fresh('row', 0, n)
        def row():
            ar = self.atom(W, s, r)
            k1, L1, x1, y1 = parse(A(r, a))
            e = lambda p, q: p.args[0] == q.args[0] and W.it.prove(p.args[1] == q.args[1])
            ok = e(x1, ar) and e(y1, at) or e(y1, ar) and e(x1, at)
            ctx.true('entries of the system are second derivatives of the Lagrangian', ok, '%s %s for %s %s' % (show(x1), show(y1), show(ar), show(at)))
            sg, f = factors(rhs(r, b))
            if len(f) != 1: raise Unsupported('right-hand side')
            k2, L2, x2, y2 = parse(f[0])
            if x2.args[0] == 'p': x2, y2 = y2, x2
            if sg * self.sign != -1: ctx.fail('sign of the right-hand side', '%s' % (sg,))
            else: ctx.ok('sign of the right-hand side')
            ctx.true('rows of the right-hand side belong to rows of the system', e(x2, ar), '%s for %s' % (show(x2), show(ar)))
            self.match('the column belongs to its parameter', y2, ('p', par), ixs)
            self.kkt(L); self.kkt(L2)
            self.env(k, r); self.env(k2, r)
            return
        ctx.cases(row)
    def origin(self, t): return self.det.blocks[0].at(zi(t)) if self.det else zi(t)
    def kkt(self, L):
        """Lagrangian"""
        key = show(L)
        if key in self.done: return
        self.done.add(key)
        i, q = fresh_int('i'), fresh_int('q')
        W = self.W
        nx = W.me.attrs['n_x']
        want = mk('add', el('f'), Term('bigsum', (Big(Binder(i, 0, mkint(nG)), TRUE, mk('mul', el('lam_g', i), el('g', i))),), 1, 1),
                  Term('bigsum', (Big(Binder(q, 0, nx), TRUE, mk('mul', el('lam_x', q), el('x', self.origin(q)))),), 1, 1))
        self.ctx.eq('Lagrangian', L, want)
    def env(self, k, r):
        if ('env', k) in self.done: return
        self.done.add(('env', k))
        ctx, W = self.ctx, self.W
        for x, a in zip(*W.evals[k]):
            t = ctx.fresh('pos', 0, x.dims[0])
            def one():
                at = x.el(t, 0); v = a(t, 0); n, q = at.args[0], at.args[1]
                if n == 'x': self.value(v, ('sol_x', q))
                elif n == 'p': self.value(v, (self.pname, q))
                elif n in ('lam_g', 'lam_x'):
                    o = self.origin(q) if n == 'lam_x' else q
                    if self.zero and isinstance(v, Term) and v.op == 'c':
                        ctx.true('multipliers of inactive constraints are zero', v.args[0] == 0, '%s' % (v,))
                        return ctx.oblige('multipliers of active constraints are kept', z3.Not(active(W, n[-1], o)))
                    if self.zero: ctx.oblige('multipliers of inactive constraints are set to zero', active(W, n[-1], o))
                    self.value(v, ('sol_' + n, o))
                else: ctx.fail('symbols of the system', show(at))
            ctx.cases(one)
    def value(self, v, want):
        if not (isinstance(v, Term) and v.op == 'el' and v.args[0] == want[0]): return self.ctx.fail('the system is evaluated at the solution', '%s instead of %s' % (v, want[0]))
        self.ctx.oblige('the system is evaluated at the solution', v.args[1] == zi(want[1]))

def differentiate(lin, ptype, checks=False, zero=False, twice=False, fail=None, fallback=False, mpc=False):
    def run(ctx):
        W = world(ctx); it = W.it
        settings(W, lin, checks, zero, fallback)
        cls = it.find(M + (':DoMPCDifferentiator' if mpc else ':NLPDifferentiator'))
        names = {k: 'sol_' + k for k in ('x', 'g', 'lam_g', 'lam_x')}
        if mpc:
            o, st = optimizer(W)
            me = it.call(cls, [o], {})
        else:
            nlp, bounds = PDict(dict(W.nlp)), PDict(dict(W.bounds))
            me = it.call(cls, [nlp, bounds], {})
            ctx.true('the problem passed in is left as it was', nlp.d == W.nlp and bounds.d == W.bounds and not any(m.version for m in list(W.nlp.values()) + list(W.bounds.values())), '')
        W.me = me
        mkp = lambda n: {'DM': lambda: col('DM', n, mkint(nP)), 'column': lambda: col('np', n, mkint(nP)), 'vector': lambda: Mat('np', (mkint(nP),), lambda i: el(n, i))}[ptype]()
        if twice and not mpc: it.call(it.getattr(me, 'differentiate'), [PDict(solution('old_')), mkp('old_p')], {}); W.sols_before = len(W.sols)
        W.raise_in = fail
        sol = solution('sol_'); keep = dict(sol); ps = mkp('num_p')
        if mpc:
            if twice:
                it.call(it.getattr(me, 'differentiate'), [], {})
            o.attrs.update(opt_x_num=sol['x'], opt_x_num_unscaled=col('DM', 'unscaled', mkint(nX)), opt_g_num=sol['g'], lam_g_num=sol['lam_g'], lam_x_num=sol['lam_x'], opt_p_num=col('DM', 'num_p', mkint(nP)))
            out = it.call(it.getattr(me, 'differentiate'), [], {})
        else:
            d = PDict(sol)
            out = it.call(it.getattr(me, 'differentiate'), [d, ps], {})
            ctx.true('the solution passed in is left as it was', d.d == keep, '%s' % d.d)
        ctx.true('the solution is left as it was', not any(m.version for m in keep.values()) and not ps.version, '')
        if not (isinstance(out, tuple) and len(out) == 2 and all(isinstance(m, Mat) and len(m.dims) == 2 for m in out)): return ctx.fail('sensitivities of variables and multipliers', '%s' % (out,))
        dx, dl = out
        ctx.oblige('shape of the sensitivities of the variables', z3.And(zi(dx.dims[0]) == nX, zi(dx.dims[1]) == nP))
        ctx.oblige('shape of the sensitivities of the multipliers', z3.And(zi(dl.dims[0]) == nG + nX, zi(dl.dims[1]) == nP))
        red = W.status.attrs['reduced_nlp']
        ch = Check(ctx, W, zero, 'num_p'); ch.det = None
        if red is True:
            det = it.getattr(me, 'det_sym_idx_dict')
            ch.det = W.select(nX, lambda i: used('x', i))
            ctx.true('numbering of the variables that occur', isinstance(det, PDict) and det.d.get('opt_x') is ch.det, '')
        gone = fail is not None and not (fallback and fail != 'lstsq')
        ctx.true('a failed solution is reported', W.status.attrs['lse_solved'] is (not gone), '%s' % W.status.attrs['lse_solved'])
        # number of unknowns of the last system
        if W.sols and not gone:
            n = W.sols[-1][0]; nx = me.attrs['n_x']
            xo = lambda t: ch.origin(t)
            ga = W.select(nG, lambda i: active(W, 'g', i)); xa = W.select(nx, lambda t: active(W, 'x', xo(t)))
            ctx.oblige('unknowns of the system', zi(n) == zi(nx) + zi(ga.size()) + zi(xa.size()))
            if ch.det: ctx.oblige('variables of the system', zi(nx) == zi(ch.det.size()))
            else: ctx.oblige('variables of the system', zi(nx) == nX)
        j = ctx.fresh('j', 0, nP)
        def entry(m, i, row, sym, inside):
            ixs = [i, j] + ([W.select(nX, lambda q: used('x', q)).blocks[0].rank(i)] if red is True else [])
            def at():
                v = m.el(row, j)
                sg, f = factors(v) if isinstance(v, Term) else (v, [])
                ch.sign = 1 if sg in (1, -1) and sg == 1 else sg
                if sg == 0: f = []
                if m is dx and mpc:
                    sc = [x for x in f if x.op == 'el' and x.args[0] == 'scaling']
                    if f and (len(sc) != 1 or len(f) != 2): return ctx.fail('sensitivities of physical variables', show(v))
                    if f: ctx.oblige('sensitivities of physical variables', sc[0].args[1] == i); f = [x for x in f if x is not sc[0]]
                if not f:
                    if sg != 0: return ctx.fail('entries', show(v))
                    return ch.ob('only unused entries and inactive constraints have no sensitivity', z3.Not(inside), ixs)
                ch.ob('unused entries and inactive constraints have no sensitivity', inside, ixs)
                if len(f) != 1 or f[0].op not in ('sol', 'nan'): raise Unsupported('entry %s' % show(v)[:100])
                if f[0].op == 'nan': return ctx.true('the system was solved', gone, '')
                if gone: return ctx.fail('a system that could not be solved', show(v))
                ctx.true('system of this solution', f[0].args[0] == len(W.sols) - 1, '')
                ch.entry(f[0], sym, j, ixs)
            ctx.cases(at)
        i = ctx.fresh('i', 0, nX)
        entry(dx, i, i, ('x', i), z3.And(used('x', i), used('p', j)))
        entry(dl, i, z3.simplify(nG + i), ('lam_x', i), z3.And(used('x', i), used('p', j), active(W, 'x', i)))
        g = ctx.fresh('g', 0, nG)
        entry(dl, g, g, ('lam_g', g), z3.And(used('p', j), active(W, 'g', g)))
        if mpc: ctx.true('stored sensitivities', W.stored.d.get('dxdp') is dx, '')
    return run

def optimizer(W):
    it = W.it
    o = PObj(LibType('MPC'), {}); o.closed = True; st = PObj(LibType('master'), {'master': col('DM', 'scaling', mkint(nX))}); st.closed = True
    old = solution('old_')
    o.attrs.update(opt_x_scaling=st, opt_x=W.nlp['x'], opt_p=W.nlp['p'], _opt_x=W.nlp['x'], _opt_p=W.nlp['p'], nlp_obj=W.f, nlp_cons=W.g, nlp_cons_lb=W.bounds['lbg'], nlp_cons_ub=W.bounds['ubg'], _lb_opt_x=W.bounds['lbx'], _ub_opt_x=W.bounds['ubx'],
        opt_x_num=old['x'], opt_x_num_unscaled=col('DM', 'unscaled', mkint(nX)), opt_g_num=old['g'], lam_g_num=old['lam_g'], lam_x_num=old['lam_x'], opt_p_num=col('DM', 'old_p', mkint(nP)))
    H = it.lib.hooks; W.stored = PDict({})
    H['casadi.tools.entry'] = LibFn('entry', lambda it, a, k: (a[0], k))
    H['casadi.tools.struct_symSX'] = LibFn('struct', lambda it, a, k: LibFn('struct', lambda it, b, kk: W.stored))
    return o, st


def scalar(ctx):
    """one parameter given as a number"""
    W = world(ctx); it = W.it; it.base_facts += [nP == 1]
    settings(W, 'casadi', False, False, False)
    me = it.call(it.find(M + ':NLPDifferentiator'), [PDict(dict(W.nlp)), PDict(dict(W.bounds))], {})
    if W.status.attrs['reduced_nlp'] is not True: it.base_facts.append(used('p', 0))
    got = []
    it.contracts[M + ':NLPDifferentiator._extract_active_primal_dual_solution'] = lambda it, a, k: (_ for _ in ()).throw(Stop())
    for v in (2.5, 3):
        pn = []
        def red(it, a, k): pn.append(a[2] if len(a) > 2 else k['p_num']); raise Stop()
        it.contracts[M + ':NLPDifferentiator._reduce_nlp_solution_to_determined'] = red
        old = it.contracts[M + ':NLPDifferentiator._extract_active_primal_dual_solution']
        try: it.call(it.getattr(me, 'differentiate'), [PDict(solution('sol_')), v], {})
        except Stop: ctx.ok('numbers are accepted')
        except PyEx as ex: ctx.fail('numbers are accepted', '%s' % ex)
        for p in pn: ctx.true('the number is the parameter', isinstance(p, Mat) and p.kind == 'DM' and same_c(p.el(z3.IntVal(0), z3.IntVal(0)), v), '%s' % p)
class Stop(Exception): pass
def same_c(t, v): return isinstance(t, Term) and t.op == 'c' and float(t.args[0]) == v

def reject(what):
    def run(ctx):
        W = world(ctx); it = W.it
        settings(W, 'casadi', False, False, False)
        new = lambda n, b: it.call(it.find(M + ':NLPDifferentiator'), [n, b], {})
        bad = []
        if what == 'problems':
            for k in W.nlp: bad.append(lambda k=k: new(PDict({q: v for q, v in W.nlp.items() if q != k}), PDict(dict(W.bounds))))
            for k in W.bounds: bad.append(lambda k=k: new(PDict(dict(W.nlp)), PDict({q: v for q, v in W.bounds.items() if q != k})))
            bad += [lambda: new(None, PDict(dict(W.bounds))), lambda: new(PDict(dict(W.nlp)), (1, 2)), lambda: new(PList([]), PDict(dict(W.bounds)))]
        else:
            me = new(PDict(dict(W.nlp)), PDict(dict(W.bounds)))
            call = lambda s, p: it.call(it.getattr(me, 'differentiate'), [s, p], {})
            ok = lambda: solution('sol_')
            for k in ok(): bad.append(lambda k=k: call(PDict({q: v for q, v in ok().items() if q != k}), col('DM', 'num_p', mkint(nP))))
            for v in (None, 'text', PList([]), (1.0,), PDict({})): bad.append(lambda v=v: call(PDict(ok()), v))
            for v in (None, 'text', PList([]), (1.0,), 1.0): bad.append(lambda v=v: call(v, col('DM', 'num_p', mkint(nP))))
            if W.status.attrs['reduced_nlp'] is not True:
                q = z3.Int('given'); it.base_facts += [q >= 0, q != nP]
                bad.append(lambda: call(PDict(ok()), col('DM', 'num_p', mkint(q)))); bad.append(lambda: call(PDict(ok()), Mat('np', (mkint(q),), lambda i: el('num_p', i))))
        for f in bad:
            try: f()
            except PyEx: ctx.ok('rejected')
            else: ctx.fail('rejected', what)
    return run

def diagnostics(ctx):
    """reported constraint qualification, complementarity and rank belong to the active constraints and the reduced system"""
    W = world(ctx); it = W.it
    settings(W, 'casadi', True, False, False)
    me = it.call(it.find(M + ':NLPDifferentiator'), [PDict(dict(W.nlp)), PDict(dict(W.bounds))], {}); W.me = me
    it.contracts[M + ':NLPDifferentiator._map_param_sens'] = lambda it, a, k: (_ for _ in ()).throw(Stop())
    try: it.call(it.getattr(me, 'differentiate'), [PDict(solution('sol_')), col('DM', 'num_p', mkint(nP))], {})
    except Stop: pass
    st = W.status.attrs; red = st['reduced_nlp']
    ch = Check(ctx, W, False, 'num_p'); ch.det = W.select(nX, lambda i: used('x', i)) if red is True else None
    nx = me.attrs['n_x']
    ga = W.select(nG, lambda i: active(W, 'g', i)); xa = W.select(nx, lambda t: active(W, 'x', ch.origin(t)))
    na = zi(ga.size()) + zi(xa.size())
    rk = [z3.Int('rank!%d' % (k + 1)) for k in range(len(W.ranks))]
    # rank of the reduced system
    full = st['full_rank']; r = W.ranks[-1] if W.ranks else None
    if r is None or not isinstance(full, (bool, SBool)): ctx.unknown('rank of the system', '%s' % (full,))
    else: ctx.oblige('rank of the system', zb(full) == (rk[-1] == zi(nx) + na)); ctx.oblige('the rank is that of the reduced system', zi(r.dims[0]) == zi(nx) + na)
    licq = st['LICQ']
    if licq not in (True, False) and not isinstance(licq, SBool): return ctx.unknown('constraint qualification', '%s' % (licq,))
    if len(W.ranks) == 1: ctx.true('constraint qualification without active constraints', it.prove(na == 0) and licq is True, '%s' % licq)
    else:
        g = W.ranks[0]; ctx.oblige('constraint qualification', zb(licq) == (rk[0] >= na))
        ctx.oblige('gradients of the active constraints', z3.And(zi(g.dims[0]) == na, zi(g.dims[1]) == zi(nx)))
        a = ctx.fresh('a', 0, na); q = ctx.fresh('q', 0, nx)
        def at():
            t = g.el(a, q)
            if not (t.op == 'ev' and t.args[1].op == 'dd'): raise Unsupported('gradient')
            k, e = t.args; what, v = e.args
            ctx.true('gradients with respect to the variables', v.op == 'el' and v.args[0] == 'x' and it.prove(v.args[1] == ch.origin(q)), show(v))
            if it.decide(mkbool(a < zi(ga.size()))): ctx.true('gradients of constraints', what.op == 'el' and what.args[0] == 'g' and it.prove(what.args[1] == ga.blocks[0].at(a)), show(what))
            else: ctx.true('gradients of bounds', what.op == 'el' and what.args[0] == 'x' and it.prove(what.args[1] == ch.origin(xa.blocks[0].at(a - zi(ga.size())))), show(what))
            ch.env(k, a)
        ctx.cases(at)
    sc = st['SC']
    if sc is not True and sc is not False: return ctx.unknown('strict complementarity', '%s' % (sc,))
    c = ctx.fresh('c', 0, nG); t = ctx.fresh('t', 0, nx)
    big = lambda n, i: z3.Or(val('sol_' + n, i) >= W.tol, val('sol_' + n, i) <= -W.tol)
    if sc is True:
        p1, p2 = ga.blocks[0].rank(c), xa.blocks[0].rank(t)
        H = hints(W, [c, t]) + W.alls(p1) + W.alls(zi(ga.size()) + p2)
        ctx.oblige('strict complementarity', z3.Implies(active(W, 'g', c), big('lam_g', c)), H)
        ctx.oblige('strict complementarity of bounds', z3.Implies(active(W, 'x', ch.origin(t)), big('lam_x', ch.origin(t))), H)

CONTRACTS = []
for lin in ('casadi', 'scipy', 'lstsq'):
    for p in ('DM', 'column', 'vector') if lin == 'casadi' else ('DM',): CONTRACTS.append(('NLPDifferentiator, solver %s, parameters %s' % (lin, p), differentiate(lin, p), None))
    CONTRACTS.append(('NLPDifferentiator, solver %s fails' % lin, differentiate(lin, 'DM', fail=lin), None))
CONTRACTS.append(('NLPDifferentiator, solver scipy fails, least squares', differentiate('scipy', 'DM', fail='scipy', fallback=True), None))
CONTRACTS.append(('NLPDifferentiator, solver casadi fails, least squares', differentiate('casadi', 'DM', fail='casadi', fallback=True), None))
CONTRACTS.append(('NLPDifferentiator, multipliers of inactive constraints set to zero', differentiate('casadi', 'DM', zero=True), None))
CONTRACTS.append(('NLPDifferentiator, all checks', differentiate('casadi', 'DM', checks=True), None))
CONTRACTS.append(('NLPDifferentiator, a second solution', differentiate('casadi', 'DM', twice=True), None))
for lin in ('casadi', 'scipy', 'lstsq'): CONTRACTS.append(('DoMPCDifferentiator, solver %s' % lin, differentiate(lin, 'DM', mpc=True), None))
CONTRACTS.append(('DoMPCDifferentiator, a second solution', differentiate('casadi', 'DM', mpc=True, twice=True), None))
CONTRACTS.append(('NLPDifferentiator, a number as parameter', scalar, None))
CONTRACTS.append(('NLPDifferentiator, reported checks', diagnostics, None))
for w in ('problems', 'solutions'): CONTRACTS.append(('NLPDifferentiator, rejected %s' % w, reject(w), None))
TRUSTED = ['CasADi derivatives (gradient, jacobian, hessian), depends_on, Function evaluation, vertcat/vertsplit and element selection', 'numpy/scipy selection and assignment by index vectors (np.where gives the positions in increasing order)', 'spsolve, Linsol and lstsq return the solution of a regular system', 'matrix_rank', 'castools.struct_symSX (storage of the controller sensitivities)']
ASSUMPTIONS = ['numbers are real numbers (infinite bounds are numbers further than the tolerance away)', 'the reduced system is regular']
