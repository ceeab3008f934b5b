"""world of the model class: casadi symbols, structures, substitution, jacobian and Function by assumed contracts

Symbols are atoms with a fresh identity (two variables may share a name); entries are column vectors of symbolic size."""
from .opt import *

KIND = ('_x', '_w', '_v', '_u', '_z', '_p', '_tvp')
def size(*d):
    return z3.simplify(sum([zi(x) for x in d], z3.IntVal(0)))

def zr(sh):
    """rows of a shape given as integer or tuple; only column vectors"""
    if isinstance(sh, PList): sh = tuple(sh.elems())
    if isinstance(sh, tuple):
        r = sh[0]
        c_ = sh[1] if len(sh) > 1 else 1
        if not (isinstance(c_, int) and c_ in (0, 1)) and not (isinstance(c_, SInt) and False): raise Unsupported('matrix valued variable')
    else: r = sh
    return r if isinstance(r, int) else zi(r)

def flat(t):
    """nested concatenations as one, without empty parts"""
    def parts(v):
        if v.op == 'vcat' and all(x.kind == 'e' for x in v.args[0]): return [q for x in v.args[0] for q in parts(vec(x.val))]
        return [] if isinstance(v.rows, int) and v.rows == 0 else [v]
    if t.op != 'vcat' or not all(x.kind == 'e' for x in t.args[0]): return t
    return Term('vcat', ([E(v) for v in parts(t)],), t.rows, t.cols, t.ty)

class MdlWorld:
    def __init__(self, it):
        self.it = it; self.nsym = 0; self.syms = []; self.exported = {}; self.structs = 0
        H = it.lib.hooks
        for t in ('SX', 'MX'): H[t + '.sym'] = LibFn(t + '.sym', lambda it, a, k, t=t: self.sym(t, *a, **k))
        for t in ('struct_symSX', 'struct_symMX'): H['casadi.tools.' + t] = LibFn(t, lambda it, a, k: self.sym_struct(it, a[0]))
        for t in ('struct_SX', 'struct_MX'): H['casadi.tools.' + t] = LibType(t)
        ns = it.module('do_mpc.tools._casstructure').ns
        for t in ('_struct_SX', '_struct_MX'): ns[t] = LibFn(t, lambda it, a, k: self.struct(it, a[0]))
        for mod in ('casadi', 'casadi.tools'):
            H[mod + '.substitute'] = LibFn('substitute', lambda it, a, k: self.substitute(*a))
            H[mod + '.jacobian'] = LibFn('jacobian', lambda it, a, k: self.jacobian(*a))
        H['getattr'] = self.getattr
        it.lib.isinst.append(self.isinst)
    def sym(self, ty, name, shape=1, *rest):
        if rest: raise Unsupported('matrix valued variable')
        self.nsym += 1
        r = zr(shape)
        t = Term('sym', ('%s~%d' % (name if isinstance(name, str) else key_atom(name), self.nsym),), r, 0 if isinstance(r, int) and r == 0 else 1, ty)
        self.syms.append(t)
        return t
    def isinst(self, it, v, t):
        if isinstance(v, Term) and isinstance(t, LibType) and t.name in ('SX', 'MX', 'DM') and v.ty is None: return t.name == self.ty
        return None
    ty = 'SX'
    def sym_struct(self, it, entries):
        ents = {}
        for e in entries.elems():
            if set(e.kw) - {'shape'}: raise Unsupported('structure entry')
            if e.name in ents: raise Unsupported('two entries of one name')
            ents[e.name] = ([], zr(e.kw.get('shape', 1)))
        nm = 'S%d' % self.structs; self.structs += 1
        s = PStruct(Layout(nm, ents), 'sym', name=nm)
        s.content = lambda n, q: Term('var', (nm, n), base_rows(ents[n][1]), 1, self.ty)
        return s
    def struct(self, it, x):
        if isinstance(x, PStruct):
            L = x.layout
            return PStruct(L, 'expr', content=lambda n, q: Term('undef', (), base_rows(L.entries[n][1]), 1), name='E%d' % self.structs)
        ents, val = {}, {}
        for e in x.elems():
            if set(e.kw) != {'expr'}: raise Unsupported('structure entry')
            if e.name in ents: raise Unsupported('two entries of one name')
            v = e.kw['expr']
            v = Term('zeros', (), 0, 0) if isinstance(v, PList) and not v.segs else vec(v)
            if v.rows is None: raise Unsupported('size of an expression')
            ents[e.name] = ([], v.rows); val[e.name] = v
        self.structs += 1
        return PStruct(Layout('E%d' % self.structs, ents), 'expr', content=lambda n, q: val[n], name='E%d' % self.structs)
    def substitute(self, e, a, b):
        if isinstance(a, (PStruct, SVec)):
            g = sfn(self.it, a) if isinstance(a, PStruct) else a.fn
            a = Term('vcat', ([E(g(n, [])) for n in a.layout.entries],), zi(a.layout.size()), 1)
        if isinstance(a, Term) and (a.op == 'vcat' or a.op == 'zeros'): 
            # a concatenation of symbols is replaced entry by entry
            A = [s.val for s in a.args[0]] if a.op == 'vcat' else []
            pos, pr = z3.IntVal(0), []
            b = flat(vec(b))
            # a concatenation of equally split parts is matched part by part
            B = [x.val for x in b.args[0]] if b.op == 'vcat' and all(x.kind == 'e' for x in b.args[0]) else None
            nz = lambda v: not (isinstance(v.rows, int) and v.rows == 0)
            A1 = [v for v in A if nz(v)]
            if B is not None and len(B) == len(A1) and all(v.rows is not None and self.it.prove(zi(v.rows) == zi(u.rows)) for u, v in zip(A1, B)):
                pr += list(zip(A1, B)) + [(v, Term('zeros', (), 0, 1)) for v in A if not nz(v)]; A = []
            for s in A:
                if b.op == 'zeros': v = Term('zeros', (), s.rows, 1)
                else: v = self.it.getitem(b, Slice(mkint(pos), mkint(pos + zi(s.rows)))) if not (isinstance(s.rows, int) and s.rows == 0) else Term('zeros', (), 0, 1)
                pr.append((s, v)); pos = pos + zi(s.rows)
        else: pr = [(a, vec(b))]
        for x, _ in pr:
            if not (isinstance(x, Term) and x.op in ('sym', 'var')): raise Unsupported('substitution of an expression')
        f = lambda t: replace(t, pr)
        if isinstance(e, PStruct): e = SVec(e.layout, sfn(self.it, e))
        if isinstance(e, SVec): return SVec(e.layout, lambda n, q, g=e.fn: f(g(n, q)))
        return f(vec(e))
    def jacobian(self, e, x):
        """jac(body, at): derivative of the body with respect to the bound symbols $j, taken at `at`"""
        rows = None
        if isinstance(e, (PStruct, SVec)):
            L = e.layout; g = sfn(self.it, e) if isinstance(e, PStruct) else e.fn
            body = Term('vcat', ([E(g(n, [])) for n in L.entries],), zi(L.size()), 1)
        else: body = vec(e)
        rows = body.rows
        def leaves(v):
            v = vec(v)
            if v.op == 'vcat': return [t for s in v.args[0] for t in leaves(s.val)]
            if v.op == 'zeros' and isinstance(v.rows, int) and v.rows == 0: return []
            return [v]
        xs = [x] if not isinstance(x, (PStruct, SVec)) else [sfn(self.it, x)(n, []) if isinstance(x, PStruct) else x.fn(n, []) for n in x.layout.entries]
        xs = [t for v in xs for t in leaves(v)]
        for s in xs:
            if s.op not in ('sym', 'var'): raise Unsupported("derivative with respect to an expression %s" % show(s))
        pr = [(s, Term('sym', ('$j%d' % i,), s.rows, 1)) for i, s in enumerate(xs)]
        return Term('jac', (replace(body, pr), tuple(xs)), rows, size(*[s.rows for s in xs]), self.ty)
    def getattr(self, it, o, name):
        if isinstance(o, Term) and name == '__dict__': return self.exported.setdefault(o.args, Handle(self, o))
        if isinstance(o, PStruct) and name == 'cat' and o.layout.entries is not None and all(not d for d, b in o.layout.entries.values()):
            return struct_whole(o)
        return NotImplemented

class Handle(PDict):
    """__dict__ of a symbol: copying 'this' makes the symbol an alias of another one"""
    def __init__(self, w, t): PDict.__init__(self, {'this': ('this', t)}); self.w = w; self.t = t

def replace(t, pr):
    m = {}
    for a, b in pr: m[a.args] = b
    def tf(x):
        if x.op in ('sym', 'var') and x.args in m: return m[x.args]
        return None
    return tmap(t, lambda e: e, tf)
