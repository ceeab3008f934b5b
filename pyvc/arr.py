"""n-dimensional arrays given by their elements (numpy indexing rules: basic, advanced and mixed)"""
from .lib import *

class Lam:
    """array of shape dims whose element at q (z3 integers) is fn(q)"""
    def __init__(self, dims, fn): self.dims = list(dims); self.fn = fn
    def __repr__(self): return '<array %s>' % (self.dims,)

def at(v, *q):
    """element of an array value"""
    q = [z3.IntVal(x) if isinstance(x, int) else zi(x) for x in q]
    if isinstance(v, Lam):
        if len(q) != len(v.dims): raise Unsupported('array rank')
        return v.fn(q)
    if isinstance(v, PArr): return arr_read(CUR[0], v, q)
    if isinstance(v, (int, float, SInt)) : return v
    if isinstance(v, Term): return Term('at', (v,) + tuple(q), 1, 1)
    raise Unsupported('array element')

def lam(it, v):
    """value -> Lam"""
    if isinstance(v, Lam): return v
    if isinstance(v, PArr) : return Lam(v.dims, lambda q: arr_read(it, v, q))
    if isinstance(v, PView): return Lam(v.arr.dims[len(v.prefix):], lambda q: arr_read(it, v.arr, list(v.prefix) + list(q)))
    if isinstance(v, (int, SInt, float)): return Lam([], lambda q: v)
    if isinstance(v, Rng):
        if v.step != 1: raise Unsupported('range step')
        return Lam([it.length(v)], lambda q: mkint(zi(v.lo) + q[0]))
    if isinstance(v, Term):
        if v.op == 'hcat': return hcat_arr(it, v)
        if v.rows is None: raise Unsupported('array of unknown shape')
        w = lambda x: x if isinstance(x, int) else mkint(x)
        if v.ty == 'intvec': return Lam([w(v.rows)], lambda q: elem(v, q))
        return Lam([w(v.rows), w(v.cols if v.cols is not None else 1)], lambda q: elem(v, q))
    if isinstance(v, PList) or isinstance(v, tuple):
        segs = it.segs_of(v)
        if len(segs) == 1 and segs[0].kind == 'r':
            s = segs[0]
            if len(s.segs) != 1 or s.segs[0].kind != 'e' or not it.prove(s.guard): raise Unsupported('array of a filtered list')
            x = s.segs[0].val
            pr = lambda i: [(s.b.var, z3.simplify(zi(i) + zi(s.b.lo)))]
            it.loops.append(NoFork(s.b))
            try: inner = lam(it, x)
            finally: it.loops.pop()
            n = mkint(z3.simplify(zi(s.b.hi) - zi(s.b.lo)))
            for d in inner.dims:
                if is_z(zi(d)) and occurs(zi(d), s.b.var): raise Unsupported('ragged array')
            return Lam([n] + inner.dims, lambda q: instv(it, inner.fn(q[1:]), pr(q[0])))
        if all(s.kind == 'e' for s in segs):
            xs = [lam(it, s.val) for s in segs]
            if not xs: return Lam([0], lambda q: C(0))
            def f(q):
                r = xs[-1].fn(q[1:])
                for i in reversed(range(len(xs) - 1)): r = choose(it, q[0] == i, xs[i].fn(q[1:]), r)
                return r
            return Lam([len(xs)] + xs[0].dims, f)
    raise Unsupported('array of %s' % type(v).__name__)

def elem(v, q):
    if v.op == 'T': return elem(v.args[0], list(reversed(q)) if len(q) == 2 else q)
    h = CUR[0].lib.hooks.get('elem')
    if h is not None:
        r = h(v, q)
        if r is not None: return r
    if len(q) == 2 and isinstance(v.cols, int) and v.cols == 1: q = q[:1]
    return Term('at', (v,) + tuple(q), 1, 1)

def occurs(e, v):
    if e.eq(v): return True
    return any(occurs(c, v) for c in e.children())

def instv(it, v, pr):
    if isinstance(v, (Term, SInt, SBool)): return subst(v, pr)
    if isinstance(v, (int, float)): return v
    raise Unsupported('instance of %s' % type(v).__name__)

def choose(it, cond, a, b):
    c = z3.simplify(cond)
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)): return mkint(z3.If(c, zi(a), zi(b)))
    return Term('ite', (c, vec(a), vec(b)), 1, 1)

def hcat_arr(it, t):
    segs = t.args[0]
    cols = []
    if len(segs) == 1 and segs[0].kind == 'r' and len(segs[0].segs) == 1 and segs[0].segs[0].kind == 'e':
        s = segs[0]; x = s.segs[0].val
        if not it.prove(s.guard): raise Unsupported('filtered columns')
        it.loops.append(NoFork(s.b))
        try: inner = lam(it, x)
        finally: it.loops.pop()
        n = mkint(z3.simplify(zi(s.b.hi) - zi(s.b.lo)))
        f = lambda q: instv(it, inner.fn([q[0]] + ([z3.IntVal(0)] if len(inner.dims) == 2 else [])), [(s.b.var, z3.simplify(q[1] + zi(s.b.lo)))])
        return Lam([inner.dims[0], n], f)
    raise Unsupported('columns')

def same(it, a, b):
    return it.prove(zi(a) == zi(b))

def index(it, o, k):
    """numpy indexing of a Lam"""
    ks = list(k) if isinstance(k, tuple) else [k]
    if any(x is Ellipsis for x in ks): raise Unsupported('ellipsis')
    nd = len([x for x in ks if x is not None])
    if nd > len(o.dims): raise PyEx('IndexError', ('too many indices',))
    ks = ks + [Slice(None, None)] * (len(o.dims) - nd)
    items = []          # (kind, dim, data)
    adv = []
    d = 0
    for p, x in enumerate(ks):
        if x is None: items.append(('new',)); continue
        n = o.dims[d]
        if isinstance(x, Slice):
            if x.step not in (None, 1): raise Unsupported('slice step')
            lo, hi = it.norm_slice(x, n)
            items.append(('sl', lo, hi))
        elif isinstance(x, (int, SInt)) and not isinstance(x, bool):
            items.append(('int', it.norm_index(x, n, 'array dim %d' % d)))
        else:
            a = lam(it, x)
            adv.append(len(items)); items.append(('adv', a, n, d))
        d += 1
    if adv and any(i[0] == 'int' for i in items):
        # integers take part in the broadcast of advanced indices
        for j, i in enumerate(items):
            if i[0] == 'int': items[j] = ('adv', Lam([], lambda q, v=i[1]: mkint(v)), None, None); adv.append(j)
        adv.sort()
    bd = []
    if adv:
        r = max(len(items[j][1].dims) for j in adv)
        for t in range(r):
            dd = None
            for j in adv:
                ds = items[j][1].dims
                p = t - (r - len(ds))
                if p < 0: continue
                x = ds[p]
                if isinstance(x, int) and x == 1: continue
                if dd is None: dd = x
                elif not same(it, dd, x): 
                    if it.prove(zi(dd) != zi(x)): raise PyEx('IndexError', ('shape mismatch',))
                    raise Unsupported('broadcast of indices')
            bd.append(1 if dd is None else dd)
        contiguous = adv == list(range(adv[0], adv[-1] + 1))
    dims, plan = [], []
    pos = None
    if adv and not contiguous: dims += bd; pos = 0
    where = {}
    for j, i in enumerate(items):
        if i[0] == 'adv':
            if contiguous and j == adv[0]: pos = len(dims); dims += bd
        elif i[0] == 'sl': where[j] = len(dims); dims.append(mkint(z3.simplify(i[2] - i[1])))
        elif i[0] == 'new': dims.append(1)
    def fn(q):
        out = []
        for j, i in enumerate(items):
            if i[0] == 'new': continue
            if i[0] == 'sl': out.append(z3.simplify(i[1] + q[where[j]]))
            elif i[0] == 'int': out.append(zi(i[1]))
            else:
                ds = i[1].dims; qq = []
                for t in range(len(ds)):
                    p = len(bd) - len(ds) + t
                    qq.append(z3.IntVal(0) if isinstance(ds[t], int) and ds[t] == 1 else q[pos + p])
                v = i[1].fn(qq)
                if not isinstance(v, (int, SInt)): v = fidx(v)
                e = zi(v)
                if i[2] is not None:
                    if z3.is_int_value(e) and e.as_long() < 0: e = z3.simplify(zi(i[2]) + e)
                    if it.inbounds and not it.quiet:
                        it.oblige('in-bounds', 'array dim %s' % i[3], smt.prove(it.facts(), z3.And(e >= 0, e < zi(i[2]))), '%s < %s' % (e, i[2]))
                out.append(e)
        return o.fn(out)
    if not dims: return fn([])
    return Lam(dims, fn)

from . import smt
def fidx(v):
    raise Unsupported('index value')

def reshape(it, o, sh):
    if len(sh) == 1 and isinstance(sh[0], (tuple, PList)): sh = list(sh[0]) if isinstance(sh[0], tuple) else sh[0].elems()
    sh = list(sh)
    if isinstance(o, Term):
        if o.rows is None: raise Unsupported('reshape of unknown shape')
        n = mkint(zi(o.rows) * zi(o.cols if o.cols is not None else 1))
        one = lambda x: isinstance(x, int) and x == 1
        r, c = o.rows, (o.cols if o.cols is not None else 1)
        col = o if isinstance(c, int) and c == 1 else mk('T', o) if isinstance(r, int) and r == 1 else Term('flat', (o,), n if isinstance(n, int) else n.e, 1, o.ty)
        if len(sh) == 1: return col
        if len(sh) == 2:
            a, b = sh
            if one(a) and (isinstance(b, int) and b == -1 or same(it, b, n)): return mk('T', col)
            if one(b) and (isinstance(a, int) and a == -1 or same(it, a, n)): return col
            if not (isinstance(a, int) and a == -1) and not (isinstance(b, int) and b == -1) and same(it, a, r) and same(it, b, c): return o
        o = lam(it, o)
    keep = []
    src = [x for x in o.dims if not (isinstance(x, int) and x == 1)]
    # only dimensions of size one may be added or dropped
    tgt = []; neg = None
    for j, x in enumerate(sh):
        if isinstance(x, int) and x == -1: neg = j
    nontriv = [j for j, x in enumerate(sh) if not (isinstance(x, int) and x in (1, -1))]
    if neg is not None: nontriv = sorted(nontriv + [neg])
    if len(nontriv) == len(src) + 1 and neg is not None: nontriv.remove(neg)
    if len(nontriv) != len(src): raise Unsupported('reshape')
    dims = [1] * len(sh)
    for j, s in zip(nontriv, src):
        if j != neg and not same(it, sh[j], s): raise Unsupported('reshape')
        dims[j] = s
    srcpos = [i for i, x in enumerate(o.dims) if not (isinstance(x, int) and x == 1)]
    def fn(q):
        qq = [z3.IntVal(0)] * len(o.dims)
        for j, p in zip(nontriv, srcpos): qq[p] = q[j]
        return o.fn(qq)
    return Lam(dims, fn)

def install(it):
    H = it.lib.hooks
    pg, pa = H.get('getitem'), H.get('getattr')
    def gi(it, o, k):
        if isinstance(o, Lam): return index(it, o, k)
        if isinstance(o, (PArr, PView)):
            ks = list(k) if isinstance(k, tuple) else [k]
            if any(not isinstance(x, (int, SInt)) for x in ks): return index(it, lam(it, o), k)
        return pg(it, o, k) if pg else NotImplemented
    def ga(it, o, name):
        if isinstance(o, Lam):
            if name == 'shape': return tuple(o.dims)
            if name == 'ndim': return len(o.dims)
            if name == 'T': return Lam(o.dims[::-1], lambda q: o.fn(list(q)[::-1]))
            if name in ('copy', 'astype'): return LibFn(name, lambda it, a, k: o)
            if name == 'size':
                n = 1
                for d in o.dims: n = it.binop(ast.Mult(), n, d)
                return n
            if name == 'transpose':
                def tr(it, a, k):
                    p = list(a[0]) if len(a) == 1 and isinstance(a[0], tuple) else list(a) if a else list(range(len(o.dims)))[::-1]
                    def fn(q):
                        qq = [None] * len(o.dims)
                        for j, x in enumerate(p): qq[x] = q[j]
                        return o.fn(qq)
                    return Lam([o.dims[x] for x in p], fn)
                return LibFn('transpose', tr)
            if name == 'reshape': return LibFn('reshape', lambda it, a, k: reshape(it, o, a))
        if isinstance(o, (PArr, PView)) and name in ('T', 'transpose', 'reshape') and not (name == 'T' and len(lam(it, o).dims) == 1): return ga(it, lam(it, o), name)
        if isinstance(o, Term) and name == 'reshape' and o.rows is not None: return LibFn('reshape', lambda it, a, k: reshape(it, o, a))
        return pa(it, o, name) if pa else NotImplemented
    H['getitem'], H['getattr'] = gi, ga
    old = it.lib.np['array']
    def nparray(it, a, k):
        v = a[0]
        if isinstance(v, Lam): return v
        if isinstance(v, PList) and v.segs: return lam(it, v)
        return it.lib.call(it, old, a, {}) if not isinstance(old, LibFn) else old.f(it, a, k)
    for n in ('array', 'asarray'): H['numpy.' + n] = LibFn(n, nparray)
