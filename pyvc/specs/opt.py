"""shared prestates of the optimizer contracts: symbolic model, structures, settings"""
from ..harness import *
from ..lib import *
import re

def I(n): return z3.Int(n)
DIMS = {'_x': I('n_x'), '_u': I('n_u'), '_z': I('n_z'), '_p': I('n_p'), '_tvp': I('n_tvp'), '_w': I('n_w'), '_v': I('n_v'), '_y': I('n_y'), '_aux': I('n_aux'), '_eps': I('n_epsdim'), '_nl': I('n_nl')}
DIMFACTS = [v >= 0 for v in DIMS.values()] + [DIMS['_x'] >= 1]

class World:
    """layouts of one symbolic model"""
    def __init__(self, it):
        self.it = it
        self.L = {k: Layout(k, None, mkint(v)) for k, v in DIMS.items()}
        self.made = []
    def st(self, k, name=None, kind='sym'):
        """opaque single-level structure of the layout k whose whole vector is the symbol `name`"""
        name = name or k
        return PStruct(self.L[k], kind, whole=Term('sym', (name,), DIMS[k], 1), name=name)

def model(it, W):
    m = PObj(LibType('Model'), name='model')
    a = m.attrs
    for k in ('_x', '_u', '_z', '_p', '_tvp', '_w', '_v', '_y'):
        a[k] = W.st(k)
        a['n' + k] = mkint(DIMS[k])
    a['n_aux'] = mkint(DIMS['_aux'])
    a['_aux'] = W.st('_aux'); a['_aux_expression'] = W.st('_aux', 'aux_expr')
    a['_rhs_fun'] = UFun('rhs', [('', DIMS['_x'])]); a['_alg_fun'] = UFun('alg', [('', DIMS['_z'])])
    a['_aux_expression_fun'] = UFun('aux', [('', DIMS['_aux'])]); a['_meas_fun'] = UFun('meas', [('', DIMS['_y'])])
    a['model_type'] = 'continuous'; a['flags'] = PDict({'setup': True})
    sv = PObj(LibType('sv'), name='sv'); a['sv'] = sv; a['symvar_type'] = 'SX'
    def sym_struct(it, args, kw):
        ents = {}
        for e in args[0].elems():
            kw_ = e.kw
            rep = kw_.get('repeat', [])
            dims = rep.elems() if isinstance(rep, PList) else list(rep) if isinstance(rep, (list, tuple)) else [rep]
            if 'struct' in kw_:
                base = kw_['struct'].layout
            else:
                sh = kw_.get('shape', 1)
                base = sh[0] if isinstance(sh, tuple) else sh
                if isinstance(base, SInt): base = base.e
            ents[e.name] = (dims, base)
        nm = 'S%d' % len(W.made)
        s = PStruct(Layout(nm, ents), 'sym', name=nm)
        s.content = lambda n, q, nm=nm, ents=ents: Term('var', (nm, n) + tuple(zi(x) for x in q), base_rows(ents[n][1]), 1)
        W.made.append(s)
        return s
    def struct(it, args, kw):
        base = args[0]
        if not isinstance(base, PStruct): raise Unsupported('sv.struct')
        return PStruct(base.layout, 'expr', content=lambda n, q: Term('undef', (), base_rows(base.layout.entries[n][1]), 1))
    sv.attrs = {'sym_struct': LibFn('sym_struct', sym_struct), 'struct': LibFn('struct', struct),
                'sym': LibFn('sym', lambda it, a, k: sym(a[0], (a[1].e if isinstance(a[1], SInt) else a[1]) if len(a) > 1 else 1)), 'dtype': LibType('svdtype')}
    prev = it.lib.hooks.get('getitem')
    def gi(it, o, k):
        if o is m:
            ks = k if isinstance(k, tuple) else (k,)
            out = [a['_' + x.lstrip('_')] for x in ks]
            return PList(elems=out) if isinstance(k, tuple) else out[0]
        return prev(it, o, k) if prev else NotImplemented
    it.lib.hooks['getitem'] = gi
    return m

def split_var(v):
    """('var', layout, entry, idx...)"""
    return v.args

# --------------------------------------------------------------- constraint rows as one bag
def rows_zip(it, ctx, cons, lb, ub):
    """walk three parallel sequences: list of (binders, guard, expr, lb, ub); None if their shapes differ"""
    out = []
    def walk(A, B, D, bs, g):
        if not (len(A) == len(B) == len(D)):
            # a sequence may be split differently although lengths agree; not supported
            return False
        for a, b, d in zip(A, B, D):
            if a.kind == b.kind == d.kind == 'e':
                out.append((bs, g, a.val, b.val, d.val)); continue
            if not (a.kind == b.kind == d.kind == 'r'): return False
            def ren(x):
                pr = [(x.b.var, a.b.var)]
                return Binder(a.b.var, subst(zi(x.b.lo), pr), subst(zi(x.b.hi), pr)), subst(x.guard, pr), [subst_seg_(s, pr) for s in x.segs]
            b2, bg, bsegs = ren(b); d2, dg, dsegs = ren(d)
            for q, qg in ((b2, bg), (d2, dg)):
                if not (z3.simplify(zi(q.lo) == zi(a.b.lo)) and ctx.it.prove(zi(q.lo) == zi(a.b.lo)) and ctx.it.prove(zi(q.hi) == zi(a.b.hi))): return False
                if not ctx.it.prove(qg == a.guard): return False
            if not walk(a.segs, bsegs, dsegs, bs + [a.b], z3.And(g, a.guard)): return False
        return True
    ok = walk(cons.segs, lb.segs, ub.segs, [], TRUE)
    return out if ok else None

def subst_seg_(s, pr):
    if s.kind == 'e':
        v = s.val
        if isinstance(v, (Term, SInt, SBool)): v = subst(v, pr)
        return Seg('e', val=v)
    return Seg('r', b=Binder(s.b.var, subst(zi(s.b.lo), pr), subst(zi(s.b.hi), pr)), guard=subst(s.guard, pr), segs=[subst_seg_(x, pr) for x in s.segs])

def zeros(n): return Term('zeros', (), n, 1)

def bnd(v):
    """bound value as comparable term: a constant vector is represented by its constant"""
    if isinstance(v, PArr) and not v.log: return C(v.default([z3.IntVal(0)] * len(v.dims)))
    t = vec(v)
    if t.op in ('zeros',): return C(0)
    if t.op == 'ones': return C(1)
    return t

def family(binders, guard, term):
    t = term
    g = guard
    for b in reversed(binders):
        t = Term('bigsum', (Big(b, g, t),), 1, 1); g = TRUE
    if not binders and not z3.is_true(z3.simplify(g)):
        t = Term('ite', (g, t, C(0)), 1, 1)
    return t

def bag(rows, sign=False):
    """sum of row atoms: equality of two bags is equality of the two multisets of rows; with sign=True a row that must be zero
    stands for itself and its negative (it may be written with either sign)"""
    tot = C(0)
    for bs, g, e, lb, ub in rows:
        e, lb, ub = vec(e), bnd(lb), bnd(ub)
        tot = mk('add', tot, family(bs, g, Term('row', (e, lb, ub), 1, 1)))
        if sign and all(b.op == 'c' and b.args[0] == 0 for b in (lb, ub)): tot = mk('add', tot, family(bs, g, Term('row', (mk('neg', e), lb, ub), 1, 1)))
    return tot

def eq_bags(ctx, name, f):
    """f(sign) -> (code, specification): equal as they are, or up to the sign of rows that must be zero"""
    if nf.Eq(ctx.facts()).eq(*f(False), []): return ctx.ok(name)
    return ctx.eq(name, *f(True))
