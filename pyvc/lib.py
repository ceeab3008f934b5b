"""Trusted models of the libraries used by do-mpc: python builtins, numpy, casadi.tools.

Every function here is an assumption about a dependency (listed in the evidence as trusted base).
Numerical arrays and casadi expressions are Terms over the reals with elementwise arithmetic;
casadi structures are PStruct: a layout (entries with repeat dimensions) and a content function.
"""
import ast, functools, z3
from .core import *
from .interp import *
from . import smt

INF = float('inf')

# ------------------------------------------------------------------ casadi structures
class Layout:
    def __init__(self, name, entries=None, rows=None):
        """entries: {name: (dims, base)}; base is a Layout or a number of rows;  entries None: opaque single-level structure"""
        self.name = name; self.entries = entries; self.rows = rows
    def __repr__(self): return '<layout %s>' % self.name
    def size(self):
        if self.rows is not None: return self.rows
        n = z3.IntVal(0)
        for dims, base in self.entries.values():
            w = zi(base.size()) if isinstance(base, Layout) else zi(base)
            for d in dims: w = w * zi(d)
            n = n + w
        return mkint(n)

def base_rows(base):
    r = base.size() if isinstance(base, Layout) else base
    return r if isinstance(r, int) else zi(r)

class PStruct:
    """kind: 'sym' (symbolic), 'num' (numeric DM), 'expr' (mutable symbolic)"""
    def __init__(self, layout, kind, content=None, whole=None, name=None):
        self.layout = layout; self.kind = kind; self.content = content; self.log = []; self.whole = whole
        self.name = name; self.id = newid()
    def __repr__(self): return '<struct %s %s>' % (self.layout.name, self.name or self.kind)

class SVec:
    """the full vector of a composite structure, as function of entry name and indices"""
    def __init__(self, layout, fn):
        self.layout = layout; self.fn = fn

class VSel:
    """master[canonical index] of a structure: function of the selected positions"""
    def __init__(self, layout, key, fn):
        self.layout = layout; self.key = key; self.fn = fn

class CIdx:
    def __init__(self, layout, key): self.layout = layout; self.key = key
class Master:
    def __init__(self, st): self.st = st
class FIdx:
    def __init__(self, st): self.st = st

class StEntry:
    def __init__(self, name, kw): self.name = name; self.kw = kw

class PArr:
    """numpy array with symbolic dimensions"""
    def __init__(self, dims, default, dtype='float'):
        self.dims = list(dims); self.default = default; self.log = []; self.id = newid(); self.dtype = dtype
    def __repr__(self): return '<array %s>' % (self.dims,)
class PView:
    def __init__(self, arr, prefix): self.arr = arr; self.prefix = prefix

class SeqTerm: pass

class CFun:
    """casadi Function: named outputs over symbolic inputs"""
    def __init__(self, name, ins, outs):
        self.name = name; self.ins = ins; self.outs = outs; self.id = newid()
    def __repr__(self): return '<Function %s>' % self.name

class UFun:
    """uninterpreted function with known number/rows of outputs.  outs: list of (tag, rows)"""
    def __init__(self, name, outs, single=True):
        self.name = name; self.outs = outs; self.single = single

class SVType: pass

def vec(v):
    """value -> Term (structures become their whole vector)"""
    if isinstance(v, Term): return v
    if isinstance(v, PStruct):
        return struct_whole(v)
    if isinstance(v, (int, float, SInt, bool)): return C(v)
    if isinstance(v, PArr):
        if not v.log and len(v.dims) in (1, 2):
            d = v.default([fresh_int('q') for _ in v.dims])
            t = C(d)
            if t.op == 'c':
                r = v.dims[0]
                if t.args[0] == 0: return Term('zeros', (), zi(r) if not isinstance(r, int) else r, 1)
                if t.args[0] == 1: return Term('ones', (), zi(r) if not isinstance(r, int) else r, 1)
        w = fresh_int('a')
    if isinstance(v, PList) and v.concrete():
        return Term('vcat', ([E(vec(x)) for x in v.elems()],), len(v.segs), 1)
    raise Unsupported('cannot use %s as vector' % type(v).__name__)

def vec2(v):
    """matrix value -> Term with both dimensions"""
    if isinstance(v, PArr) and len(v.dims) == 2 and not v.log:
        z = lambda d: d if isinstance(d, int) else zi(d)
        t = C(v.default([fresh_int('q'), fresh_int('q')]))
        if t.op == 'c' and t.args[0] in (0, 1): return Term('zeros' if t.args[0] == 0 else 'ones', (), z(v.dims[0]), z(v.dims[1]))
    return vec(v)

def block(it, v):
    """np.block of a nested list: rows of blocks; a single column of blocks is a concatenation"""
    rows = [[vec2(x) for x in r.elems()] if isinstance(r, PList) else [vec2(r)] for r in v.elems()]
    if not all(isinstance(r, PList) for r in v.elems()): rows = [[x for r in rows for x in r]]
    if all(len(r) == 1 for r in rows): return vcat(it, [E(r[0]) for r in rows])
    z = lambda xs: None if any(x is None for x in xs) else xs[0] if len(xs) == 1 else z3.simplify(sum([zi(x) for x in xs[1:]], zi(xs[0])))
    return Term('block', (tuple(tuple(r) for r in rows),), z([r[0].rows for r in rows]), z([x.cols for x in rows[0]]))

def struct_whole(s):
    """whole vector of a structure as a Term"""
    if s.layout.entries is None:
        t = s.whole
        for e in s.log:
            t = Term('upd', (t, key_atom(e.name), e.value), s.layout_rows() if hasattr(s, 'layout_rows') else t.rows, 1)
        return t
    if not s.log and isinstance(getattr(s, 'vector', None), Term): return s.vector
    if s.content is not None and all(not d for d, b in s.layout.entries.values()):
        # a structure without repeated entries is the concatenation of its entries
        f = sfn(CUR[0], s)
        return Term('vcat', ([E(f(n, [])) for n, (d, b) in s.layout.entries.items() if not (isinstance(b, int) and b == 0)],), z3.simplify(zi(s.layout.size())), 1)
    if s.kind == 'sym':
        return Term('sym', (s.name,), zi(s.layout.size()), 1)
    raise Unsupported('whole vector of %r' % s)

CUR = [None]
def key_atom(k):
    if isinstance(k, (str, int)): return str(k)
    if isinstance(k, SStr): return k.name
    if isinstance(k, tuple): return '(' + ','.join(key_atom(x) for x in k) + ')'
    if isinstance(k, SInt): return str(k.e)
    if isinstance(k, Slice): return 'slice(%s,%s)' % (k.lo, k.hi)
    raise Unsupported('structure key')

class Lib:
    def __init__(self):
        self.np = {}
        self.ca = {}
        self.other = {}
        self.hooks = {}       # 'module.attr' -> value
        self.printed = 0
        self.isinst = []      # extra isinstance handlers
        self.define()

    def install(self, it):
        self.it = it; CUR[0] = it

    # --------------------------------------------------------------- definitions
    def define(self):
        np, ca = self.np, self.ca
        def reg(d, name):
            def f(fn):
                d[name] = LibFn(name, fn); return fn
            return f
        np['inf'] = INF
        ca['inf'] = INF
        np['pi'] = Term('const', ('pi',), 1, 1)
        np['newaxis'] = None
        for t in ('ndarray', 'float64', 'int64', 'number', 'floating', 'integer'): np[t] = LibType(t)
        for t in ('DM', 'SX', 'MX'): pass
        @reg(np, 'zeros')
        def _(it, a, k): return mkarr(a[0] if a else k['shape'], 0)
        @reg(np, 'ones')
        def _(it, a, k): return mkarr(a[0] if a else k['shape'], 1)
        @reg(np, 'full')
        def _(it, a, k):
            v = a[1] if len(a) > 1 else k['fill_value']
            return mkarr(a[0], v)
        @reg(np, 'arange')
        def _(it, a, k):
            lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
            n = mkint(zi(hi) - zi(lo))
            return PArr([n], lambda q: mkint(zi(lo) + q[0]), 'int')
        @reg(np, 'any')
        def _(it, a, k):
            if isinstance(a[0], (bool, SBool)): return a[0]
            if isinstance(a[0], PList): return it.lib.bi_any(it, a, k)
            raise Unsupported('np.any')
        @reg(np, 'size')
        def _(it, a, k):
            if isinstance(a[0], PList): return it.call(LibFn('len', lambda it, x, k: it.lib.bi_len(it, x, k)), [a[0]], {})
            if isinstance(a[0], Term) and len(a) == 1: return mkint(zi(a[0].rows) * zi(a[0].cols if a[0].cols is not None else 1))
            raise Unsupported('np.size')
        @reg(np, 'all')
        def _(it, a, k):
            if isinstance(a[0], (bool, SBool)): return a[0]
            if isinstance(a[0], PList): return it.lib.bi_all(it, a, k)
            if a[0] is None: return None
            if isinstance(a[0], Term): return SBool(z3.Bool('all nonzero ' + show(a[0])))
            raise Unsupported('np.all')
        reg(np, 'alltrue')(_)
        @reg(np, 'prod')
        def _(it, a, k):
            r = 1
            for s in it.segs_of(a[0]):
                if s.kind != 'e' or not isinstance(s.val, (int, SInt)): raise Unsupported('np.prod')
                r = it.binop(ast.Mult(), r, s.val)
            return r
        @reg(np, 'eye')
        def _(it, a, k):
            n = a[0] if isinstance(a[0], int) else zi(a[0])
            return Term('eye', (n,), n, n)
        np['identity'] = np['eye']
        @reg(np, 'array')
        def _(it, a, k):
            v = a[0]
            if isinstance(v, PList) and not v.segs:
                return PArr([0], lambda q: Term('undef', (), 1, 1), 'obj')
            if isinstance(v, (Term, int, float)): return arrty(C(v))
            if isinstance(v, PList) and v.concrete() and len(v.segs) == 1 and isinstance(v.elems()[0], (int, float, SInt, Term)):
                return arrty(C(v.elems()[0]))
            if isinstance(v, PArr): return v
            if isinstance(v, PStruct): return vec(v)
            raise Unsupported('np.array')
        np['asarray'] = np['array']
        @reg(np, 'resize')
        def _(it, a, k):
            arr, sh = a
            return PArr(list(sh), lambda q: Term('undef', (), 1, 1), 'obj')
        @reg(np, 'empty')
        def _(it, a, k):
            sh = a[0] if isinstance(a[0], tuple) else (a[0],)
            return PArr(list(sh), lambda q: Term('undef', (), 1, 1), 'obj')
        def cat(it, a, k):
            v = a[0]
            ax = k.get('axis', a[1] if len(a) > 1 else 0)
            if ax not in (0,): raise Unsupported('concatenate axis')
            return vcat(it, it.segs_of(v))
        np['concatenate'] = LibFn('concatenate', cat)
        np['vstack'] = LibFn('vstack', cat)
        for nm in ('vertcat', 'vcat'):
            def vc(it, a, k, nm=nm):
                if nm == 'vcat': return vcat(it, it.segs_of(a[0]))
                segs = []
                for x in a:
                    if isinstance(x, Star): segs += x.segs
                    else: segs.append(E(x))
                return vcat(it, segs)
            ca[nm] = LibFn(nm, vc)
        def hcat(it, a, k):
            segs = []
            for x in a:
                if isinstance(x, Star): segs += x.segs
                else: segs.append(E(vec(x)))
            segs = [s for s in segs]
            return Term('hcat', (segs,), vec(segs[0].val).rows if segs and segs[0].kind == 'e' else None, None)
        ca['horzcat'] = LibFn('horzcat', hcat)
        def sum1(it, a, k):
            t = vec(a[0]); return Term('sum1', (t,), 1, 1)
        ca['sum1'] = LibFn('sum1', sum1)
        def sum2(it, a, k):
            t = vec(a[0])
            if t.cols == 1: return t
            raise Unsupported('sum2 of a matrix')
        ca['sum2'] = LibFn('sum2', sum2)
        def dm(it, a, k):
            if not a: return Term('zeros', (), 0, 0)
            v = a[0]
            if isinstance(v, PList) and not v.segs: return Term('zeros', (), 0, 0)
            if len(a) == 2: return Term('zeros', (), a[0] if isinstance(a[0], int) else zi(a[0]), a[1] if isinstance(a[1], int) else zi(a[1]))
            return vec(v)
        for t in ('DM', 'SX', 'MX'): self.ca[t] = LibType(t)
        self.ctor = {'DM': dm, 'SX': dm, 'MX': dm}
        @reg(ca, 'entry')
        def _(it, a, k): return StEntry(a[0], k)
        @reg(ca, 'Function')
        def _(it, a, k): return CFun(a[0], it_list(it, a[1]), it_list(it, a[2]))
        @reg(ca, 'collocation_points')
        def _(it, a, k):
            deg, sch = a[0], (a[1] if len(a) > 1 else 'radau')
            w = fresh_int('c')
            s = sch if isinstance(sch, str) else key_atom(sch)
            return PList([Seg('r', b=Binder(w, 0, deg), guard=TRUE, segs=[E(Term('colloc', (s, zi(deg), w), 1, 1))])])
        @reg(ca, 'tangent')
        def _(it, a, k):
            return deriv(a[0], a[1])
        @reg(ca, 'mtimes')
        def _(it, a, k):
            r = vec(a[0])
            for x in a[1:]: r = mk('matmul', r, vec(x))
            return r
        np['transpose'] = LibFn('transpose', lambda it, a, k: mk('T', vec2(a[0])))
        np['shape'] = LibFn('shape', lambda it, a, k: it.getattr(a[0], 'shape'))
        np['matmul'] = LibFn('matmul', lambda it, a, k: mk('matmul', vec2(a[0]), vec2(a[1])))
        np['dot'] = np['matmul']
        np['block'] = LibFn('block', lambda it, a, k: block(it, a[0]))
        np['hstack'] = LibFn('hstack', lambda it, a, k: block(it, PList(elems=[PList(list(it.segs_of(a[0])))])))
        @reg(np, 'ceil')
        def _(it, a, k): return call('ceil', [C(a[0])], 1, 1)
        for nm in ('exp', 'log', 'sqrt', 'tanh', 'abs', 'sin', 'cos', 'maximum', 'minimum', 'max', 'min', 'floor', 'log10', 'sign'):
            def f(it, a, k, nm=nm):
                ts = [vec(x) for x in a]
                return call(nm, ts, ts[0].rows, ts[0].cols)
            np.setdefault(nm, LibFn(nm, f))
        for nm in ('exp', 'log', 'sqrt', 'tanh', 'fmax', 'fmin', 'fabs', 'sign'):
            def f(it, a, k, nm=nm):
                ts = [vec(x) for x in a]
                return call(nm, ts, ts[0].rows, ts[0].cols)
            ca.setdefault(nm, LibFn(nm, f))
        minv = lambda t: Term('minv', (t,), t.rows, t.cols)
        ca.setdefault('inv', LibFn('inv', lambda it, a, k: minv(vec2(a[0]))))
        ca.setdefault('solve', LibFn('solve', lambda it, a, k: mk('matmul', minv(vec2(a[0])), vec2(a[1]))))
        for nm in ('jacobian', 'gradient', 'hessian', 'substitute', 'depends_on', 'pinv'):
            def f(it, a, k, nm=nm):
                return call(nm, [vec(x) for x in a])
            ca.setdefault(nm, LibFn(nm, f))

    # --------------------------------------------------------------- modules
    def mod_attr(self, it, full, name):
        key = full + '.' + name
        if key in self.hooks: return self.hooks[key]
        if full == 'numpy':
            if name in self.np: return self.np[name]
            if name in ('linalg', 'random'): return LibMod('numpy.' + name)
        if full in ('casadi', 'casadi.tools'):
            if name == 'tools': return LibMod('casadi.tools')
            if name == 'structure3': return LibMod('casadi.tools.structure3')
            if name in self.ca: return self.ca[name]
            if name == 'sys': return LibMod('sys')
        if full == 'casadi.tools.structure3':
            return LibType('structure3.' + name)
        if full == 'numpy.linalg':
            if name == 'inv': return LibFn('inv', lambda it, a, k: Term('minv', (vec2(a[0]),), vec2(a[0]).rows, vec2(a[0]).cols))
            if name == 'solve': return LibFn('solve', lambda it, a, k: mk('matmul', Term('minv', (vec2(a[0]),), vec2(a[0]).rows, vec2(a[0]).cols), vec2(a[1])))
            return LibFn(name, lambda it, a, k: call('linalg.' + name, [vec(x) for x in a]))
        if full == 'scipy': return LibMod('scipy.' + name)
        if full == 'logging' and name in ('warning', 'info', 'debug', 'error'): return LibFn(name, lambda it, a, k: None)
        if full == 'warnings' and name == 'warn': return LibFn('warn', lambda it, a, k: None)
        if full == 'time': return LibFn(name, lambda it, a, k: Term('sym', ('time',), 1, 1))
        if full == 'functools' and name == 'wraps':
            return LibFn('wraps', lambda it, a, k: LibFn('wr', lambda it2, a2, k2: a2[0]))
        if full == 'dataclasses':
            if name == 'asdict':
                return LibFn('asdict', lambda it, a, k: PDict(dict(a[0].attrs)))
            return LibFn(name, lambda it, a, k: a[0] if a else None)
        if full == 'typing': return LibType('typing.' + name)
        if full == 'copy': 
            return LibFn(name, lambda it, a, k: self.copy(it, a[0], name == 'deepcopy'))
        if full == 'itertools' and name == 'product':
            return LibFn('product', self.product)
        if full == 'types': return LibType(name)
        if full in ('os', 'os.path', 'pathlib', 'pickle', 'sys', 'subprocess', 're', 'scipy.io', 'scipy.linalg', 'scipy.signal', 'scipy.integrate', 'importlib', 'string'):
            if full == 'os' and name == 'path': return LibMod('os.path')
            return LibFn(full + '.' + name, lambda it, a, k, n=full + '.' + name: self.ext_call(it, n, a, k))
        return LibType(full + '.' + name)

    def ext_call(self, it, n, a, k):
        h = self.hooks.get('call:' + n)
        if h is not None: return h(it, a, k)
        raise Unsupported('external call ' + n)

    def product(self, it, a, k):
        import itertools
        if k: raise Unsupported('product with repeat')
        if any(isinstance(x, PList) and not x.concrete() for x in a):
            def nest(i, pre, pairs):
                if i == len(a): return [E(tuple(it.inst(v, pairs) for v in pre))]
                out = []
                for s in it.segs_of(a[i]):
                    if s.kind == 'e': out += nest(i + 1, pre + [s.val], pairs)
                    else:
                        if len(s.segs) != 1 or s.segs[0].kind != 'e' or not z3.is_true(z3.simplify(s.guard)): raise Unsupported('product of irregular sequences')
                        v = fresh_int('p')
                        out.append(Seg('r', b=Binder(v, s.b.lo, s.b.hi), guard=TRUE, segs=nest(i + 1, pre + [it.inst(s.segs[0].val, [(s.b.var, v)])], pairs)))
                return out
            return PList(nest(0, [], []))
        ls = [x.elems() if isinstance(x, PList) else list(x) for x in a]
        return PList(elems=[tuple(t) for t in itertools.product(*ls)])

    def copy(self, it, v, deep):
        h = self.hooks.get('copy')
        if h is not None:
            r = h(it, v, deep)
            if r is not NotImplemented: return r
        if isinstance(v, PDict):
            return PDict({k: (self.copy(it, x, deep) if deep else x) for k, x in v.d.items()})
        if isinstance(v, PList):
            return PList([E(self.copy(it, s.val, deep)) if deep and s.kind == 'e' else s for s in v.segs])
        if isinstance(v, tuple): return tuple(self.copy(it, x, deep) for x in v) if deep else v
        if isinstance(v, PStruct):
            n = PStruct(v.layout, v.kind, v.content, v.whole, v.name); n.log = list(v.log); return n
        if isinstance(v, (Term, SInt, SBool, int, float, str, bool, SStr)) or v is None: return v
        raise Unsupported('copy of %s' % type(v).__name__)

    # --------------------------------------------------------------- builtins
    def builtin(self, it, name):
        b = getattr(self, 'bi_' + name, None)
        if b is not None: return LibFn(name, b)
        if name in ('int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'object', 'type', 'slice', 'complex', 'bytes'): return LibType(name)
        if name in ('True', 'False', 'None'): return {'True': True, 'False': False, 'None': None}[name]
        if name in EXC_BASES: return LibType(name)
        return NotImplemented
    def bi_print(self, it, a, k): return None
    def bi_range(self, it, a, k):
        a = [x if not isinstance(x, float) else int(x) for x in a]
        for x in a:
            if not isinstance(x, (int, SInt)): raise Unsupported('range argument')
        if len(a) == 1: return Rng(0, a[0])
        if len(a) == 2: return Rng(a[0], a[1])
        return Rng(a[0], a[1], a[2])
    def bi_len(self, it, a, k): return it.length(a[0])
    def bi_enumerate(self, it, a, k):
        start = a[1] if len(a) > 1 else k.get('start', 0)
        out = []
        off = zi(start)
        for c in it.chunks(a[0]):
            if c[0] == 'one':
                out.append(('one', (mkint(off), c[1]))); off = off + 1
            elif c[0] == 'gg':
                if len(it.chunks(a[0])) != 1 or not z3.is_int_value(z3.simplify(off)) or z3.simplify(off).as_long() != 0: raise Unsupported('positions of a partly filtered sequence')
                out.append(('gg', c[1], c[2], lambda i, c=c: (SInt(c[5].decl()(zi(i))), c[3](i)), c[4], c[5]))
            else:
                def fn(i, c=c, off=off):
                    return (mkint(zi(i) - zi(c[1]) + off), c[3](i))
                out.append(('gen', c[1], c[2], fn))
                w = zi(c[2]) - zi(c[1])
                if not it.prove(w >= 0): w = z3.If(w > 0, w, z3.IntVal(0))
                off = z3.simplify(off + w)
        return out
    def bi_zip(self, it, a, k):
        cs = [list(it.chunks(x)) for x in a]
        if all(all(c[0] == 'one' for c in x) for x in cs):
            n = min(len(x) for x in cs) if cs else 0
            return [('one', tuple(x[i][1] for x in cs)) for i in range(n)]
        if all(len(x) == 1 and x[0][0] == 'gg' for x in cs) and len({x[0][5].decl().name() for x in cs}) == 1:
            c0 = cs[0][0]
            return [('gg', c0[1], c0[2], lambda i: tuple(x[0][3](i) for x in cs), c0[4], c0[5])]
        if all(len(x) == 1 and x[0][0] == 'gen' for x in cs):
            lo, hi = cs[0][0][1], cs[0][0][2]
            n0 = zi(hi) - zi(lo)
            mn = n0
            for x in cs[1:]:
                nx = zi(x[0][2]) - zi(x[0][1])
                if it.prove(nx == mn): continue
                if it.prove(nx <= mn): mn = nx
                elif it.prove(nx >= mn): continue
                else: mn = z3.If(nx < mn, nx, mn)
            def fn(i):
                return tuple(x[0][3](mkint(zi(i) + zi(x[0][1]))) for x in cs)
            return [('gen', 0, mkint(mn), fn)]
        # align a mixture of single elements and ranges
        raise Unsupported('zip of irregular sequences')
    def bi_reversed(self, it, a, k):
        v = a[0]
        if isinstance(v, Rng) and v.step == 1:
            return [('gen', 0, mkint(zi(v.hi) - zi(v.lo)), lambda i: mkint(zi(v.hi) - 1 - zi(i)))]
        if isinstance(v, PList) and v.concrete(): return PList(elems=list(reversed(v.elems())))
        if isinstance(v, tuple): return tuple(reversed(v))
        raise Unsupported('reversed')
    def bi_sorted(self, it, a, k):
        xs = it.segs_of(a[0])
        if all(s.kind == 'e' and isinstance(s.val, (int, str, float)) for s in xs) and not k:
            return PList(elems=sorted(s.val for s in xs))
        raise Unsupported('sorted')
    def minmax(self, it, a, k, op):
        if len(a) == 1: a = [s.val for s in it.segs_of(a[0])] if all(s.kind == 'e' for s in it.segs_of(a[0])) else None
        if a is None: raise Unsupported('min/max of symbolic sequence')
        if all(isinstance(x, (int, float)) for x in a): return min(a) if op == 'min' else max(a)
        if all(isinstance(x, (int, SInt)) for x in a):
            r = zi(a[0])
            for x in a[1:]:
                y = zi(x)
                c = (r <= y) if op == 'min' else (r >= y)
                F = it.facts()
                if smt.prove(F, c) is True: continue
                if smt.prove(F, (y <= r) if op == 'min' else (y >= r)) is True: r = y; continue
                r = z3.If(c, r, y)
            return mkint(r)
        raise Unsupported('min/max')
    def bi_min(self, it, a, k): return self.minmax(it, a, k, 'min')
    def bi_max(self, it, a, k): return self.minmax(it, a, k, 'max')
    def bi_sum(self, it, a, k):
        start = a[1] if len(a) > 1 else k.get('start', 0)
        env = Env(None, None); env.vars['acc'] = start
        def body(v): env.vars['acc'] = it.binop(ast.Add(), it.lookup_local(env, 'acc'), v)
        it.iterate(it.chunks(a[0]), body, env, {'acc'})
        return env.vars['acc']
    def bi_abs(self, it, a, k):
        v = a[0]
        if isinstance(v, (int, float)): return abs(v)
        if isinstance(v, SInt): return mkint(z3.If(v.e >= 0, v.e, -v.e))
        return call('abs', [vec(v)], vec(v).rows, vec(v).cols)
    def bi_all(self, it, a, k):
        r = True
        for s in it.segs_of(a[0]):
            if s.kind != 'e':
                if not (len(s.segs) == 1 and s.segs[0].kind == 'e'): raise Unsupported('all')
                b = it.truth(s.segs[0].val)
                q = z3.ForAll([s.b.var], z3.Implies(z3.And(s.b.rng(), s.guard), zb(b)))
                r = mkbool(z3.And(zb(r), q)); continue
            b = it.truth(s.val)
            if b is False: return False
            if not isinstance(b, bool): r = mkbool(z3.And(zb(r), b.e))
        return r
    def bi_any(self, it, a, k):
        r = False
        for s in it.segs_of(a[0]):
            if s.kind != 'e': raise Unsupported('any')
            b = it.truth(s.val)
            if b is True: return True
            if not isinstance(b, bool): r = mkbool(z3.Or(zb(r), b.e))
        return r
    def bi_isinstance(self, it, a, k):
        v, ts = a
        ts = list(ts) if isinstance(ts, tuple) else [ts]
        res = False
        for t in ts:
            r = self.isinstance1(it, v, t)
            if r is True: return True
            if isinstance(r, SBool): res = mkbool(z3.Or(zb(res), r.e))
        return res
    def isinstance1(self, it, v, t):
        for h in self.isinst:
            r = h(it, v, t)
            if r is not None: return r
        if isinstance(t, PClass): return isinstance(v, PObj) and isinstance(v.cls, PClass) and v.cls.isa(t)
        if isinstance(t, LibType):
            n = t.name
            if n in ('NoneType',): return v is None
            if isinstance(v, bool) or isinstance(v, SBool): return n in ('bool', 'int', 'object')
            if isinstance(v, (int, SInt)): return n in ('int', 'object', 'number')
            if isinstance(v, float): return n in ('float', 'object', 'number')
            if isinstance(v, (str, SStr)): return n == 'str'
            if isinstance(v, tuple): return n == 'tuple'
            if isinstance(v, PList): return n == 'list'
            if isinstance(v, PDict): return n == 'dict'
            if isinstance(v, PSet): return n == 'set'
            if v is None: return False
            if isinstance(v, Slice): return n == 'slice'
            if isinstance(v, (PFunc, PBound)): return n in ('FunctionType',) and isinstance(v, PFunc) or n == 'MethodType' and isinstance(v, PBound)
            if isinstance(v, (PArr, PView)): return n == 'ndarray'
            if isinstance(v, PStruct):
                k = {'num': ('structure3.DMStruct',), 'sym': ('structure3.ssymStruct', 'structure3.SXStruct', 'structure3.msymStruct', 'structure3.Structured')}.get(v.kind, ())
                return n in k
            if isinstance(v, Term):
                if v.ty is not None:
                    tys = v.ty if isinstance(v.ty, tuple) else (v.ty,)
                    return n in tys
                if v.op == 'c': return n in ('float', 'number')
                raise Unsupported('isinstance of untyped term')
            if isinstance(v, PObj) and isinstance(v.cls, LibType): return v.cls.name == n
            if isinstance(v, PObj): return False
        if t is None: return v is None
        raise Unsupported('isinstance %r' % (t,))
    def bi_hasattr(self, it, a, k):
        try:
            it.getattr(a[0], a[1])
            return True
        except PyEx as ex:
            if ex.tname == 'AttributeError': return False
            raise
    def bi_getattr(self, it, a, k):
        if not isinstance(a[1], (str, SStr)): raise Unsupported('getattr with symbolic name')
        try:
            return it.getattr(a[0], a[1])
        except PyEx as ex:
            if ex.tname == 'AttributeError' and len(a) > 2: return a[2]
            raise
    def bi_setattr(self, it, a, k):
        if not isinstance(a[1], str): raise Unsupported('setattr with symbolic name')
        it.setattr(a[0], a[1], a[2])
    def bi_delattr(self, it, a, k):
        o, n = a
        if not (isinstance(o, PObj) and isinstance(n, str)): raise Unsupported('delattr')
        if n not in o.attrs: raise PyEx('AttributeError', (n,))
        old = dict(o.attrs)
        def undo(): o.attrs.clear(); o.attrs.update(old)
        it.journal.append(('attr', o, n, undo))
        del o.attrs[n]
    def bi_callable(self, it, a, k): return isinstance(a[0], (PFunc, PBound, LibFn, PClass, CFun, UFun))
    def bi_id(self, it, a, k): return id(a[0])
    def bi_super(self, it, a, k): return Super(a[0], a[1])
    def bi_map(self, it, a, k):
        f = a[0]
        out = PList([])
        env = Env(None, None)
        def body(v): it.append_seg(out, E(it.call(f, [v], {})))
        it.iterate(it.chunks(a[1]), body, env, set())
        return out
    def bi_filter(self, it, a, k):
        out = PList([])
        env = Env(None, None)
        def body(v):
            if it.decide(it.call(a[0], [v], {}) if a[0] is not None else v): it.append_seg(out, E(v))
        it.iterate(it.chunks(a[1]), body, env, set())
        return out
    def bi_iter(self, it, a, k): return a[0]
    def bi_next(self, it, a, k): raise Unsupported('next')
    def bi_open(self, it, a, k): return self.ext_call(it, 'open', a, k)
    def bi_quit(self, it, a, k): raise Unsupported('quit')
    def bi_locals(self, it, a, k): raise Unsupported('locals')
    def bi_vars(self, it, a, k):
        if isinstance(a[0], PObj): return PDict(a[0].attrs)
        raise Unsupported('vars')
    def bi_repr(self, it, a, k): return SStr('repr')
    def bi_format(self, it, a, k): return SStr('fmt')
    def bi_round(self, it, a, k): return call('round', [C(x) for x in a], 1, 1)
    def bi_divmod(self, it, a, k): return (it.binop(ast.FloorDiv(), a[0], a[1]), it.binop(ast.Mod(), a[0], a[1]))
    def bi_pow(self, it, a, k): return it.binop(ast.Pow(), a[0], a[1])

    def call(self, it, f, a, k):
        if isinstance(f, LibType):
            n = f.name
            if n in self.ctor: return self.ctor[n](it, a, k)
            if n == 'list': return PList(list(it.segs_of(a[0]))) if a else PList([])
            if n == 'tuple': return tuple(s.val for s in it.segs_of(a[0])) if a else ()
            if n == 'dict':
                d = PDict()
                if a:
                    if isinstance(a[0], PDict): d.d.update(a[0].d)
                    else:
                        for s in it.segs_of(a[0]):
                            kk, vv = it.unpack(s.val, 2, [False, False]); d.d[it.hashable(kk)] = vv
                d.d.update(k)
                return d
            if n == 'set':
                o = PSet([])
                for s in it.segs_of(a[0]) if a else []:
                    if s.kind != 'e': raise Unsupported('set of symbolic length')
                    if not it.decide(it.contains(o, s.val)): o.s.append(s.val)
                return o
            if n == 'int':
                if isinstance(a[0], (int, SInt)): return a[0]
                if isinstance(a[0], float): return int(a[0])
                if isinstance(a[0], Term) and a[0].op == 'int': return mkint(a[0].args[0])
                if isinstance(a[0], str): return int(a[0])
                raise Unsupported('int()')
            if n == 'float':
                if isinstance(a[0], (int, float)): return float(a[0])
                return vec(a[0])
            if n == 'str':
                if isinstance(a[0], (str, int, float)): return str(a[0])
                return sstr(str_parts(a[0]))
            if n == 'bool': return it.truth(a[0])
            if n == 'slice': return Slice(*([None, a[0], None] if len(a) == 1 else list(a) + [None] * (3 - len(a))))
            if n == 'type':
                v = a[0]
                h = self.hooks.get('type')
                if h is not None:
                    r = h(it, v)
                    if r is not NotImplemented: return r
                if v is None: return LibType('NoneType')
                if isinstance(v, PObj): return v.cls
                if isinstance(v, PStruct) and v.kind == 'num': return LibType('structure3.DMStruct')
                if isinstance(v, Term) and v.ty in ('DM', 'ndarray', 'SX', 'MX'): return LibType(v.ty)
                for ty, nm in ((bool, 'bool'), (int, 'int'), (float, 'float'), (str, 'str'), (SBool, 'bool'), (SInt, 'int'), (SStr, 'str'), (PList, 'list'), (tuple, 'tuple'), (PDict, 'dict'), (PSet, 'set')):
                    if isinstance(v, ty): return LibType(nm)
                raise Unsupported('type()')
            if exc_isa(n, 'BaseException'): return PObj(LibType(n))
            h = self.hooks.get('new:' + n)
            if h is not None: return h(it, a, k)
            raise Unsupported('constructor of %s' % n)
        if isinstance(f, CFun): return self.call_cfun(it, f, a, k)
        if isinstance(f, UFun): return self.call_ufun(it, f, a, k)
        if isinstance(f, PStruct): return self.call_struct(it, f, a, k)
        h = self.hooks.get('call_obj')
        if h is not None: return h(it, f, a, k)
        return NotImplemented

    def call_ufun(self, it, f, a, k):
        if k: raise Unsupported('keyword call of %s' % f.name)
        args = [vec(x) for x in a]
        outs = [Term('call', (f.name + (('.' + tag) if tag else ''),) + tuple(args), r, 1) for tag, r in f.outs]
        if f.single and len(outs) == 1: return outs[0]
        return tuple(outs)

    def call_cfun(self, it, f, a, k):
        if k: raise Unsupported('keyword call of casadi function')
        if len(a) != len(f.ins): raise PyEx('RuntimeError', ('wrong number of arguments for %s' % f.name,))
        pairs, structs, vars_ = [], {}, {}
        for x, v in zip(f.ins, a):
            if isinstance(x, PStruct):
                if x.kind != 'sym': raise Unsupported('function input')
                if x.layout.entries is not None:
                    structs[x.name] = content_of(it, x.layout, v); continue
                x = struct_whole(x)
            if isinstance(x, Term) and x.op == 'var':
                vars_[repr(x)] = vec(v); continue
            if not (isinstance(x, Term) and x.op == 'sym'): raise Unsupported('function input is not a symbol')
            pairs.append((x, vec(v)))
        outs = [subst_inputs(vec(o), pairs, structs, vars_) for o in f.outs]
        return outs[0] if len(outs) == 1 else tuple(outs)

    # --------------------------------------------------------------- structures
    def call_struct(self, it, s, a, k):
        """struct(value): new numerical / expression structure with the same layout"""
        if k or len(a) > 1: raise Unsupported('structure call')
        v = a[0] if a else 0
        L = s.layout
        if isinstance(v, (int, float)):
            t = C(float(v)) if isinstance(v, float) else C(v)
            if L.entries is None:
                return PStruct(L, 'num', whole=Term(t.op, t.args, L.rows, 1))
            return PStruct(L, 'num', content=lambda n, q: Term(t.op, t.args, base_rows(L.entries[n][1]), 1))
        if isinstance(v, SVec) and v.layout is L:
            return PStruct(L, 'expr', content=v.fn)
        if isinstance(v, PStruct) and v.layout is L:
            fn = sfn(it, v)
            return PStruct(L, v.kind if v.kind == 'num' else 'expr', content=fn, whole=struct_whole(v) if L.entries is None else None)
        if isinstance(v, (Term, PArr, PStruct, PList)):
            t = vec(v)
            if L.entries is None: return PStruct(L, 'num' if t.ty == 'DM' else 'num', whole=t)
            return PStruct(L, 'num', content=lambda n, q: part(L, n, q, t))
        raise Unsupported('structure call')

    def key_split(self, it, s, key):
        if not isinstance(key, tuple): key = (key,)
        name = key[0]
        if not isinstance(name, str): raise Unsupported('structure key')
        if name not in s.layout.entries: raise PyEx('KeyError', (name,))
        dims, base = s.layout.entries[name]
        idx = list(key[1:])
        sub = idx[len(dims):]
        idx = idx[:len(dims)]
        return name, dims, base, idx, sub

    def struct_get(self, it, s, key):
        if s.layout.entries is None:
            return self.opaque_get(it, s, key)
        if isinstance(key, PList) and all(x.kind == 'e' and isinstance(x.val, str) for x in key.segs): return PList(elems=[self.struct_get(it, s, x.val) for x in key.segs])
        name, dims, base, idx, sub = self.key_split(it, s, key)
        full = idx + [Slice(None, None)] * (len(dims) - len(idx))
        def build(i, q):
            if i == len(dims):
                t = it.resolve(s, name, q, lambda qq: s.content(name, qq)) if s.log else s.content(name, q)
                if sub: 
                    if not isinstance(base, Layout): raise Unsupported('sub-index')
                    return Term('ent', (t, key_atom(tuple(sub) if len(sub) > 1 else sub[0])))
                return t
            x = full[i]
            if isinstance(x, Slice):
                lo, hi = it.norm_slice(x, dims[i])
                w = fresh_int('q')
                b = Binder(w, lo, hi)
                n = z3.simplify(hi - lo)
                if z3.is_int_value(n) and n.as_long() <= 4:
                    return PList(elems=[build(i + 1, q + [z3.simplify(lo + j)]) for j in range(n.as_long())])
                # element reads must not fork on the slice variable
                it.loops.append(NoFork(b))
                try:
                    return PList([Seg('r', b=b, guard=TRUE, segs=[E(build(i + 1, q + [w]))])])
                finally:
                    it.loops.pop()
            if isinstance(x, PList): raise Unsupported('list index on structure')
            z = it.norm_index(x, dims[i], '%s.%s dim %d' % (s.layout.name, name, i))
            return build(i + 1, q + [z])
        return build(0, [])

    def struct_set(self, it, s, key, v):
        if s.layout.entries is None:
            return self.opaque_set(it, s, key, v)
        name, dims, base, idx, sub = self.key_split(it, s, key)
        if sub: raise Unsupported('assignment to a sub-entry')
        full = idx + [Slice(None, None)] * (len(dims) - len(idx))
        binders, pat = [], []
        for i, x in enumerate(full):
            if isinstance(x, Slice):
                lo, hi = it.norm_slice(x, dims[i])
                w = fresh_int('q')
                binders.append(Binder(w, lo, hi)); pat.append(w)
            else:
                pat.append(it.norm_index(x, dims[i], '%s.%s dim %d' % (s.layout.name, name, i)))
        r = base_rows(base)
        if isinstance(v, VSel):
            for b in binders: it.loops.append(NoFork(b))
            try: val = v.fn(name, pat)
            finally:
                for b in binders: it.loops.pop()
        elif isinstance(v, PList):
            # a list assigned to a repeated entry: element i goes to slot i (surplus elements are ignored)
            if len(binders) != 1 or not isinstance(full[0], Slice): raise Unsupported('list assignment to structure')
            b = binders[0]
            if v.concrete() and z3.is_int_value(z3.simplify(zi(b.hi) - zi(b.lo))):
                xs = v.elems(); lo_ = z3.simplify(zi(b.lo)).as_long(); n = z3.simplify(zi(b.hi) - zi(b.lo)).as_long()
                if len(xs) < n: raise Unsupported('list assignment: too few elements')
                for i in range(n):
                    it.log_write(s, Entry(name, [z3.IntVal(lo_ + i) if x is b.var else x for x in pat], [], TRUE, vec(xs[i])))
                return
            if len(v.segs) != 1 or v.segs[0].kind != 'r' or len(v.segs[0].segs) != 1 or v.segs[0].segs[0].kind != 'e' or not z3.is_true(z3.simplify(v.segs[0].guard)): raise Unsupported('list assignment to structure')
            sb = v.segs[0].b
            if not it.prove(zi(sb.hi) - zi(sb.lo) >= zi(b.hi) - zi(b.lo)): raise Unsupported('list assignment: too few elements')
            val = vec(it.inst(v.segs[0].segs[0].val, [(sb.var, z3.simplify(b.var - zi(b.lo) + zi(sb.lo)))]))
        else:
            t = vec(v)
            val = Term(t.op, t.args, r, 1, t.ty)
        it.log_write(s, Entry(name, pat, binders, TRUE, val))

    def opaque_get(self, it, s, key):
        for e in reversed(s.log):
            c = self.key_eq(it, e.name, key)
            if c is True: return e.value
            if c is False: continue
            if it.decide(c): return e.value
        return Term('ent', (s.whole, key_atom(key)))
    def opaque_set(self, it, s, key, v):
        it.log_write(s, Entry(key, [], [], TRUE, vec(v)))
    def key_eq(self, it, a, b):
        if not isinstance(a, tuple): a = (a,)
        if not isinstance(b, tuple): b = (b,)
        r = True
        if len(a) != len(b): 
            raise Unsupported('structure keys of different depth')
        for x, y in zip(a, b):
            if isinstance(x, (str, SStr)) and isinstance(y, (str, SStr)):
                e = it.equal(x, y) if isinstance(x, SStr) or isinstance(y, SStr) else x == y
            elif isinstance(x, (int, SInt)) and isinstance(y, (int, SInt)):
                e = mkbool(zi(x) == zi(y))
            elif isinstance(x, Slice) and isinstance(y, Slice) and key_atom(x) == key_atom(y):
                e = True
            else:
                raise Unsupported('structure key')
            if e is False: return False
            if e is not True: r = mkbool(z3.And(zb(r), e.e))
        return r

    # --------------------------------------------------------------- attributes of library values
    def getattr(self, it, o, name):
        h = self.hooks.get('getattr')
        if h is not None:
            r = h(it, o, name)
            if r is not NotImplemented: return r
        if isinstance(o, PStruct):
            L = o.layout
            if name in ('cat', 'master') and L.entries is None:
                if name == 'cat': return struct_whole(o)
            if name == 'cat':
                return SVec(L, sfn(it, o))
            if name == 'master': return Master(o)
            if name == 'f': return FIdx(o)
            if name == 'shape': return (L.size(), 1)
            if name == 'size': return L.size()
            if name == 'keys':
                return LibFn('keys', lambda it, a, k: AllKeys(L) if L.entries is None else PList(elems=list(L.entries)))
            if name == 'labels': return LibFn('labels', lambda it, a, k: Labels(L))
            if name == 'T': return Term('T', (vec(o),), 1, vec(o).rows)
        if isinstance(o, Term):
            if name == 'shape':
                if o.rows is None: raise Unsupported('shape of a term')
                w = lambda x: x if isinstance(x, int) else mkint(x)
                return (w(o.rows), w(o.cols) if o.cols is not None else 1)
            if name == 'T': return mk('T', o)
            if name == 'size' and o.rows is not None:
                if o.ty in ('SX', 'MX', 'DM'):
                    sh = (mkint(o.rows) if is_z(o.rows) else o.rows, 1 if o.cols is None else mkint(o.cols) if is_z(o.cols) else o.cols)
                    return LibFn('size', lambda it, a, k: sh[a[0] - 1] if a else sh)
                return mkint(zi(o.rows) * zi(o.cols if o.cols is not None else 1))
            if name == 'ndim': return 2
            if name == 'numel' and o.rows is not None: return LibFn('numel', lambda it, a, k: mkint(zi(o.rows) * zi(o.cols if o.cols is not None else 1)))
            if name == 'full': return LibFn('full', lambda it, a, k: arrty(o))
            if name == 'size1': return LibFn('size1', lambda it, a, k: o.rows if isinstance(o.rows, int) else mkint(o.rows))
            if name in ('reshape',):
                def rsh(it, a, k):
                    a = tuple(a[0]) if len(a) == 1 and isinstance(a[0], tuple) else tuple(a)
                    # a symbolic column stays a column
                    if a == (-1, 1) and o.op == 'vcat' and isinstance(o.cols, int) and o.cols == 1: return o
                    return Term('reshape', (o,) + a, None, None, o.ty)
                return LibFn('reshape', rsh)
            if name in ('flatten', 'ravel', 'copy', 'item'):
                return LibFn(name, lambda it, a, k: o)
            if name == 'astype': return LibFn('astype', lambda it, a, k: o)
        if isinstance(o, (PArr,)):
            if name == 'shape': return tuple(o.dims)
            if name == 'astype': return LibFn('astype', lambda it, a, k: o)
            if name == 'size':
                n = 1
                for d in o.dims: n = it.binop(ast.Mult(), n, d)
                return n
            if name == 'T' and len(o.dims) == 1: return o
            if name == 'copy': return LibFn('copy', lambda it, a, k: arr_copy(o))
            if name == 'reshape':
                def rs(it, a, k):
                    sh = list(a[0]) if len(a) == 1 and isinstance(a[0], tuple) else list(a)
                    t = C(o.default([fresh_int('q') for _ in o.dims]))
                    if k or o.log or t.op != 'c' or not all(isinstance(x, SInt) or isinstance(x, int) and x >= 0 for x in sh): raise Unsupported('reshape of an array')
                    n = lambda xs: functools.reduce(lambda p, q: p * q, [zi(x) for x in xs], z3.IntVal(1))
                    if not it.prove(n(sh) == n(o.dims)): raise Unsupported('reshape of an array')
                    v = o.default([z3.IntVal(0) for _ in o.dims])
                    return PArr(sh, lambda q: v)
                return LibFn('reshape', rs)
        if isinstance(o, PView):
            if name == 'shape': return tuple(o.arr.dims[len(o.prefix):])
        if isinstance(o, PList):
            if name == 'append': return LibFn('append', lambda it, a, k: it.append_seg(o, E(a[0])))
            if name == 'extend':
                def ext(it, a, k):
                    for s in it.segs_of(a[0]): it.append_seg(o, s)
                return LibFn('extend', ext)
            if name == 'copy': return LibFn('copy', lambda it, a, k: PList(list(o.segs)))
            if name == 'index':
                def index(it, a, k):
                    if not o.concrete() and 'index' in it.lib.hooks: return it.lib.hooks['index'](it, o, a[0])
                    for i, v in enumerate(o.elems()):
                        if it.decide(it.compare(ast.Eq(), v, a[0])): return i
                    raise PyEx('ValueError')
                return LibFn('index', index)
            if name == 'count':
                def count(it, a, k):
                    n = 0
                    for v in o.elems():
                        if it.decide(it.compare(ast.Eq(), v, a[0])): n += 1
                    return n
                return LibFn('count', count)
            if name == 'pop':
                def pop(it, a, k):
                    i = a[0] if a else -1
                    xs = o.elems()
                    if it.loops: raise Unsupported('pop in a loop')
                    v = xs[i]; del o.segs[i]; return v
                return LibFn('pop', pop)
            if name == 'insert':
                def ins(it, a, k):
                    if it.loops: raise Unsupported('insert in a loop')
                    o.segs.insert(a[0], E(a[1]))
                return LibFn('insert', ins)
        if isinstance(o, PDict):
            if name == 'keys': return LibFn('keys', lambda it, a, k: PList(elems=list(o.d)))
            if name == 'values': return LibFn('values', lambda it, a, k: PList(elems=list(o.d.values())))
            if name == 'items': return LibFn('items', lambda it, a, k: PList(elems=[(x, y) for x, y in o.d.items()]))
            if name == 'get': return LibFn('get', lambda it, a, k: it.getitem(o, a[0]) if it.decide(it.contains(o, a[0])) else (a[1] if len(a) > 1 else None))
            if name == 'update':
                def upd(it, a, k):
                    if a:
                        if not isinstance(a[0], PDict): raise Unsupported('dict.update')
                        for x, y in a[0].d.items(): it.jset_dict(o, x, y)
                    for x, y in k.items(): it.jset_dict(o, x, y)
                return LibFn('update', upd)
            if name == 'pop':
                def pop(it, a, k):
                    if a[0] in o.d:
                        v = o.d[a[0]]; it.jset_dict(o, a[0], None, delete=True); return v
                    if len(a) > 1: return a[1]
                    raise PyEx('KeyError')
                return LibFn('pop', pop)
            if name == 'copy': return LibFn('copy', lambda it, a, k: PDict(o.d))
            if name == 'setdefault':
                def sd(it, a, k):
                    if a[0] not in o.d: it.jset_dict(o, a[0], a[1] if len(a) > 1 else None)
                    return o.d[a[0]]
                return LibFn('setdefault', sd)
        if isinstance(o, (str, SStr)):
            if name == 'format':
                def fmt(it, a, k):
                    if isinstance(o, str) and all(isinstance(x, (str, int, float)) for x in list(a) + list(k.values())): return o.format(*a, **k)
                    return fmt_str(it, o, a, k)
                return LibFn('format', fmt)
            if isinstance(o, SStr) and name == 'zfill' and len(o.parts) == 1 and o.parts[0][0] == 'n':
                return LibFn(name, lambda it, a, k: sstr([('z', o.parts[0][1], a[0] if isinstance(a[0], int) else zi(a[0]))]))
            if isinstance(o, SStr) and name in ('endswith', 'startswith'):
                def ew(it, a, k):
                    i = 0 if name == 'startswith' else -1
                    p = o.parts[i]
                    if isinstance(a[0], str) and p[0] == 'c' and len(p[1]) >= len(a[0]): return getattr(p[1], name)(a[0])
                    return SBool(z3.Bool('%s:%s:%s' % (name, o.name, a[0])))
                return LibFn(name, ew)
            if isinstance(o, str) and name in ('split', 'join', 'startswith', 'endswith', 'lower', 'upper', 'strip', 'replace', 'zfill', 'rstrip', 'lstrip', 'find', 'count'):
                def sm(it, a, k):
                    aa = [x.elems() if isinstance(x, PList) else x for x in a]
                    if any(isinstance(x, SStr) or (isinstance(x, list) and any(not isinstance(y, str) for y in x)) for x in aa): return SStr('%s.%s:%r' % (o, name, aa))
                    r = getattr(o, name)(*aa, **k)
                    return PList(elems=r) if isinstance(r, list) else r
                return LibFn(name, sm)
        if isinstance(o, LibType):
            h = self.hooks.get(o.name + '.' + name)
            if h is not None: return h
            if o.name in ('SX', 'MX') and name in ('sym',):
                return LibFn('sym', lambda it, a, k: sym(a[0] if isinstance(a[0], str) else key_atom(a[0]), (a[1] if len(a) > 1 else 1) if isinstance(a[1] if len(a) > 1 else 1, int) else zi(a[1])))
            if name == '__name__': return o.name
        if isinstance(o, PSet):
            if name == 'add':
                def add(it, a, k):
                    if it.loops: raise Unsupported('set.add in loop')
                    if not it.decide(it.contains(o, a[0])): o.s.append(a[0])
                return LibFn('add', add)
            def other(it, x):
                return list(x.s) if isinstance(x, PSet) else list(x.d) if isinstance(x, PDict) else list(x) if isinstance(x, tuple) else x.elems()
            if name == 'issubset': return LibFn(name, lambda it, a, k: all(it.decide(it.contains(tuple(other(it, a[0])), x)) for x in o.s))
            if name == 'issuperset': return LibFn(name, lambda it, a, k: all(it.decide(it.contains(o, x)) for x in other(it, a[0])))
            if name == 'isdisjoint': return LibFn(name, lambda it, a, k: not any(it.decide(it.contains(o, x)) for x in other(it, a[0])))
            if name == 'difference': return LibFn(name, lambda it, a, k: PSet([x for x in o.s if not it.decide(it.contains(tuple(other(it, a[0])), x))]))
            if name == 'intersection': return LibFn(name, lambda it, a, k: PSet([x for x in o.s if it.decide(it.contains(tuple(other(it, a[0])), x))]))
            if name == 'union': return LibFn(name, lambda it, a, k: PSet(list(o.s) + [x for x in other(it, a[0]) if not it.decide(it.contains(o, x))]))
        return NotImplemented

    def obj_attr(self, it, o, name):
        h = self.hooks.get('obj_attr')
        if h is not None: return h(it, o, name)
        return NotImplemented

    def setattr(self, it, o, name, v):
        if isinstance(o, PStruct) and name == 'master':
            it.log_write(o, Entry('#master', [], [], TRUE, v)) if False else None
            L = o.layout
            t = vec(v) if not isinstance(v, SVec) else None
            old = (o.content, o.whole, list(o.log))
            def undo(): o.content, o.whole, o.log = old
            it.journal.append(('attr', o, 'master', undo))
            if not hasattr(o, 'attrs'): o.attrs = {}
            o.attrs['master'] = v
            o.log = []
            if L.entries is None: o.whole = t
            elif t is None: o.content = v.fn
            else: o.content = lambda n, q: part(L, n, q, t)
            o.vector = v
            return
        return NotImplemented

    # --------------------------------------------------------------- items
    def getitem(self, it, o, k):
        h = self.hooks.get('getitem')
        if h is not None:
            r = h(it, o, k)
            if r is not NotImplemented: return r
        if isinstance(o, PStruct): return self.struct_get(it, o, k)
        if isinstance(o, FIdx): return CIdx(o.st.layout, k)
        if isinstance(o, Term) and isinstance(k, CIdx) and isinstance(k.key, str) and all(not d for d, b in k.layout.entries.values()):
            # rows of a named entry
            if k.key not in k.layout.entries: raise PyEx('KeyError')
            off = z3.IntVal(0)
            for n, (d, b) in k.layout.entries.items():
                if n == k.key: return it.getitem(o, Slice(mkint(z3.simplify(off)), mkint(z3.simplify(off + zi(base_rows(b))))))
                off = off + zi(base_rows(b))
        if isinstance(o, Master):
            if isinstance(k, CIdx) and k.layout is o.st.layout:
                return VSel(k.layout, k.key, sfn(it, o.st))
            raise Unsupported('master index')
        if isinstance(o, (PArr, PView)):
            arr, pre = (o, []) if isinstance(o, PArr) else (o.arr, o.prefix)
            ks = list(k) if isinstance(k, tuple) else [k]
            q = list(pre)
            for x in ks:
                if isinstance(x, (int, SInt)):
                    q.append(it.norm_index(x, arr.dims[len(q)], 'array dim %d' % len(q)))
                else:
                    raise Unsupported('array slice')
            if len(q) == len(arr.dims): return arr_read(it, arr, q)
            return PView(arr, q)
        if isinstance(o, Term):
            if isinstance(k, Slice) and k.step in (None, 1) and o.rows is not None:
                lo, hi = it.norm_slice(k, o.rows if isinstance(o.rows, int) else mkint(o.rows))
                if z3.is_int_value(lo) and lo.as_long() == 0 and it.prove(hi == zi(o.rows)): return o
                n = z3.simplify(hi - lo, som=True)
                if o.op == 'vcat' and all(s.kind == 'e' and s.val.rows is not None for s in o.args[0]):
                    # a slice along the boundaries of a concatenation
                    off, i0, i1 = z3.IntVal(0), None, None
                    for i in range(len(o.args[0]) + 1):
                        if i0 is None and it.prove(off == lo): i0 = i
                        if i0 is not None and it.prove(off == hi): i1 = i; break
                        if i < len(o.args[0]): off = off + zi(o.args[0][i].val.rows)
                    if i1 is not None and i1 > i0:
                        ss = o.args[0][i0:i1]
                        return ss[0].val if len(ss) == 1 else vcat(it, ss)
                return Term('slice', (o, lo, n), n.as_long() if z3.is_int_value(n) else n, 1)
            if isinstance(k, (int, SInt)):
                return Term('at', (o, zi(k)), 1, 1)
            if isinstance(k, tuple) and all(isinstance(x, (int, SInt)) for x in k):
                return Term('at', (o,) + tuple(zi(x) for x in k), 1, 1)
            if isinstance(k, (str, SStr)):
                return Term('ent', (o, key_atom(k)))
            if isinstance(k, Term): return Term('at', (o, k))
        return NotImplemented
    def setitem(self, it, o, k, v):
        h = self.hooks.get('setitem')
        if h is not None:
            r = h(it, o, k, v)
            if r is not NotImplemented: return r
        if isinstance(o, PStruct): return self.struct_set(it, o, k, v)
        if isinstance(o, Master):
            if isinstance(k, CIdx) and k.layout is o.st.layout:
                return self.struct_set(it, o.st, k.key, v)
            raise Unsupported('master index')
        if isinstance(o, (PArr, PView)):
            arr, pre = (o, []) if isinstance(o, PArr) else (o.arr, o.prefix)
            ks = list(k) if isinstance(k, tuple) else [k]
            q = list(pre)
            binders = []
            for x in ks:
                d = arr.dims[len(q)]
                if isinstance(x, (int, SInt)): q.append(it.norm_index(x, d, 'array dim %d' % len(q)))
                elif isinstance(x, Slice):
                    lo, hi = it.norm_slice(x, d)
                    w = fresh_int('q'); binders.append(Binder(w, lo, hi)); q.append(w)
                else: raise Unsupported('array index')
            while len(q) < len(arr.dims):
                w = fresh_int('q'); binders.append(Binder(w, 0, arr.dims[len(q)])); q.append(w)
            val = v
            if binders:
                if isinstance(v, (PArr, PView)):
                    va, vp = (v, []) if isinstance(v, PArr) else (v.arr, v.prefix)
                    vd = va.dims[len(vp):]
                    if len(vd) != len(binders): raise Unsupported('array broadcast')
                    for b, d in zip(binders, vd):
                        if not it.prove(zi(b.hi) - zi(b.lo) == zi(d)):
                            raise Unsupported('array assignment of different length')
                    for b in binders: it.loops.append(NoFork(b))
                    try:
                        val = arr_read(it, va, list(vp) + [z3.simplify(b.var - zi(b.lo)) for b in binders])
                    finally:
                        for b in binders: it.loops.pop()
                elif not isinstance(v, (int, float, SInt, Term)): raise Unsupported('array assignment')
            it.log_write(arr, Entry('', q, binders, TRUE, val))
            return
        return NotImplemented

    # --------------------------------------------------------------- operators
    def binop(self, it, op, a, b):
        o = type(op)
        h = self.hooks.get('binop')
        if h is not None:
            r = h(it, op, a, b)
            if r is not NotImplemented: return r
        if isinstance(a, PSet) and isinstance(b, PSet):
            if isinstance(op, ast.Sub): return PSet([x for x in a.s if not it.decide(it.contains(b, x))])
            if isinstance(op, ast.BitOr): return PSet(a.s + [x for x in b.s if not it.decide(it.contains(a, x))])
            if isinstance(op, ast.BitAnd): return PSet([x for x in a.s if it.decide(it.contains(b, x))])
            raise Unsupported('set operation')
        if isinstance(a, (SVec, VSel)) or isinstance(b, (SVec, VSel)):
            return self.vecop(it, op, a, b)
        if isinstance(a, PStruct) or isinstance(b, PStruct):
            for x in (a, b):
                if isinstance(x, PStruct) and x.layout.entries is not None:
                    f = lambda y: SVec(y.layout, sfn(it, y)) if isinstance(y, PStruct) and y.layout.entries is not None else y
                    return self.vecop(it, op, f(a), f(b))
            return it.binop(op, vec(a) if isinstance(a, PStruct) else a, vec(b) if isinstance(b, PStruct) else b)
        if isinstance(a, (PArr, PView)) or isinstance(b, (PArr, PView)):
            arrs = [x for x in (a, b) if isinstance(x, (PArr, PView))]
            ref = arrs[0]
            dims = ref.dims if isinstance(ref, PArr) else ref.arr.dims[len(ref.prefix):]
            other = [x for x in (a, b) if not isinstance(x, (PArr, PView))]
            if other and isinstance(other[0], Term) and len(dims) <= 2:
                try:
                    return it.binop(op, vec(a) if isinstance(a, PArr) else a, vec(b) if isinstance(b, PArr) else b)
                except Unsupported:
                    pass
            def elem(x, q):
                if isinstance(x, PArr): return arr_read(it, x, q)
                if isinstance(x, PView): return arr_read(it, x.arr, list(x.prefix) + list(q))
                return x
            if len(arrs) == 2:
                d2 = [x.dims if isinstance(x, PArr) else x.arr.dims[len(x.prefix):] for x in arrs]
                if len(d2[0]) != len(d2[1]): raise Unsupported('array broadcast')
            if any(isinstance(x, PArr) and x.log or isinstance(x, PView) for x in arrs):
                snap = {id(x): x for x in arrs}
            return PArr(dims, lambda q: it.binop(op, elem(a, q), elem(b, q)))
        return NotImplemented
    def vecop(self, it, op, a, b):
        if isinstance(a, VSel) or isinstance(b, VSel):
            r = a if isinstance(a, VSel) else b
            for x in (a, b):
                if isinstance(x, VSel) and key_atom(x.key) != key_atom(r.key): raise Unsupported('selection mismatch')
            f = lambda x, n, q: x.fn(n, q) if isinstance(x, VSel) else x
            return VSel(r.layout, r.key, lambda n, q: it.binop(op, f(a, n, q), f(b, n, q)))
        f = lambda x: SVec(x.layout, sfn(it, x)) if isinstance(x, PStruct) else x
        a, b = f(a), f(b)
        r = a if isinstance(a, SVec) else b
        for x in (a, b):
            if isinstance(x, SVec):
                if x.layout is not r.layout: raise Unsupported('structure mismatch')
            elif not isinstance(x, (int, float, Term)):
                raise Unsupported('structure arithmetic')
        def g(x, n, q):
            if isinstance(x, SVec): return x.fn(n, q)
            if isinstance(x, Term) and x.op != 'c' and not (isinstance(x.rows, int) and x.rows == 1): return part(r.layout, n, q, x)
            return x
        return SVec(r.layout, lambda n, q: it.binop(op, g(a, n, q), g(b, n, q)))
    def svec_term(self, x):
        if isinstance(x, SVec): 
            if getattr(x, 'term', None) is not None: return x.term
            raise Unsupported('structure arithmetic')
        return x

    def compare(self, it, op, a, b):
        if isinstance(a, Labels) and isinstance(b, Labels): 
            if a.layout is b.layout: return isinstance(op, ast.Eq)
            return SBool(z3.Bool('labels:%s=%s' % tuple(sorted([a.layout.name, b.layout.name])))) if isinstance(op, ast.Eq) else NotImplemented
        h = self.hooks.get('compare')
        if h is not None: return h(it, op, a, b)
        return NotImplemented
    def contains(self, it, c, x):
        if isinstance(c, AllKeys):
            return SBool(z3.Bool('key:%s in %s' % (key_atom(x), c.layout.name)))
        return NotImplemented
    def truth(self, it, v):
        raise Unsupported('truth value of %s' % type(v).__name__)
    def length(self, it, v):
        h = self.hooks.get('length')
        if h is not None:
            r = h(it, v)
            if r is not NotImplemented: return r
        if isinstance(v, (PArr,)): return v.dims[0]
        if isinstance(v, PView): return v.arr.dims[len(v.prefix)]
        if isinstance(v, list):
            n = z3.IntVal(0)
            for c in v:
                if c[0] not in ('one', 'gen'): raise Unsupported('length of irregular sequence')
                n = n + (1 if c[0] == 'one' else zi(c[2]) - zi(c[1]))
            return mkint(n)
        raise Unsupported('len of %s' % type(v).__name__)
    def iter_chunks(self, it, v):
        if isinstance(v, (PArr, PView)):
            arr, pre = (v, []) if isinstance(v, PArr) else (v.arr, v.prefix)
            return [('gen', 0, arr.dims[len(pre)], lambda i: self.getitem(it, v, i))]
        return None
    def segs_of(self, it, v):
        c = self.iter_chunks(it, v)
        return it.segs_of(c) if c is not None else None
    def unpack(self, it, v, n):
        h = self.hooks.get('unpack')
        if h is not None:
            r = h(it, v, n)
            if r is not None: return r
        raise Unsupported('unpack')
    def inst(self, it, v, pairs):
        if isinstance(v, (PStruct, PObj, PDict, PArr)): return v
        if isinstance(v, PView): return PView(v.arr, [subst(zi(x), pairs) for x in v.prefix])
        raise Unsupported('cannot instantiate %s' % type(v).__name__)
    def ipow(self, it, x, y):
        e = POW(x, y)
        it.assume(z3.Implies(x >= 1, e >= 1))
        it.assume(z3.Implies(y == 0, e == 1))
        return mkint(e)
    def nonlinear_hints(self, it, e, q, ren, inst):
        """instances of:  0<=b<n, 0<=b'<n, n*s+b == n*s'+b'  ->  s==s' and b==b'  (proved as lemma 'divmod-unique')"""
        out = []
        h = self.hooks.get('hints')
        if h is not None: out += h(it, e, q, ren, inst)
        return out
    def recurrence(self, it, lo, hi, L, fn, body, env, keys, ph, allph, cls, res, saved):
        h = self.hooks.get('recurrence')
        if h is not None:
            return h(it, lo, hi, L, fn, body, env, keys, ph, allph, cls, res, saved)
        raise Unsupported('general recurrence in a loop')

def fmt_str(it, o, a, k):
    """str.format with symbolic arguments; fields with a format specification become opaque strings"""
    import string
    if not isinstance(o, str): return SStr('fmt:%r' % (o,))
    out = (); n = 0
    for text, field, spec, conv in string.Formatter().parse(o):
        out += str_parts(text)
        if field is None: continue
        if field == '': v = a[n]; n += 1
        elif field.isdigit(): v = a[int(field)]
        elif field in k: v = k[field]
        else: return SStr('fmt:%s:%s' % (o, ','.join(map(repr, a))))
        if isinstance(v, (str, int, float)) and not conv: v = format(v, spec or '')
        elif isinstance(v, SInt) and re.fullmatch('0[0-9]+d', spec or '') and not conv: out += (('z', v.e, int(spec[1:-1])),); continue
        elif isinstance(v, SInt) and spec == 'd' and not conv: pass
        elif spec or conv: v = SStr('fmt:%s%s:%r' % (spec, conv, v))
        out += str_parts(v)
    return sstr(out)

def content_of(it, L, v):
    """a value given for a composite structure, as function of entry and indices"""
    if isinstance(v, PStruct) and v.layout.entries is not None:
        if v.layout is not L and {n: len(d) for n, (d, b) in v.layout.entries.items()} != {n: len(d) for n, (d, b) in L.entries.items()}: raise Unsupported('structure of another layout')
        return sfn(it, v)
    if isinstance(v, SVec): return v.fn
    t = vec(v)
    return lambda n, q: part(L, n, q, t)

def subst_inputs(o, pairs, structs, vars_):
    """replace function inputs: symbols, whole structures and single entries of structures"""
    m = {s.args[0]: v for s, v in pairs}
    def tf(t):
        if t.op == 'sym' and t.args[0] in m: return m[t.args[0]]
        if t.op == 'var':
            r = vars_.get(repr(t))
            if r is not None: return r
            if t.args[0] in structs: return structs[t.args[0]](t.args[1], list(t.args[2:]))
        return None
    return tmap(o, lambda e: e, tf)

def part(L, n, q, t):
    if len(L.entries) == 1 and not L.entries[n][0]: return t
    if t.op == 'vcat' and all(not d for d, b in L.entries.values()) and all(s.kind == 'e' and isinstance(s.val, Term) and s.val.rows is not None for s in t.args[0]):
        # the entry of a concatenation along the boundaries of the entries
        off = z3.IntVal(0)
        for m, (d, b) in L.entries.items():
            w = zi(base_rows(b))
            if m == n:
                r = CUR[0].lib.getitem(CUR[0], t, Slice(mkint(off), mkint(z3.simplify(off + w))))
                if isinstance(r, Term) and r.op != 'slice': return r
                break
            off = z3.simplify(off + w)
    if t.op in ('zeros', 'ones') : return Term(t.op, (), base_rows(L.entries[n][1]), 1, t.ty)
    return Term('part', (L.name, n) + tuple(zi(x) for x in q) + (t,), base_rows(L.entries[n][1]), 1)

class Labels:
    def __init__(self, L): self.layout = L
class AllKeys:
    def __init__(self, L): self.layout = L

class NoFork(Loop):
    """pseudo loop: range facts of a slice variable; conditions on it may not fork"""
    nofork = True
    def __init__(self, b):
        Loop.__init__(self, b)

def sfn(it, s):
    """content of a structure as a function (name, indices)"""
    log = list(s.log)
    if not log: return s.content
    snap = PStruct(s.layout, s.kind, s.content, s.whole, s.name)
    snap.log = log; snap.id = s.id
    return lambda n, q: it.resolve(snap, n, list(q), lambda qq: s.content(n, qq))

def arr_read(it, arr, q):
    if not arr.log: return arr.default([zi(x) for x in q])
    return it.resolve(arr, '', q, lambda qq: arr.default(qq))

def arr_copy(o):
    c = PArr(o.dims, o.default)
    for k, v in vars(o).items():
        if k not in ('id',): setattr(c, k, v)
    c.log = list(o.log)
    return c

def mkarr(sh, v):
    dims = list(sh) if isinstance(sh, tuple) else sh.elems() if isinstance(sh, PList) else [sh]
    return PArr(dims, lambda q: v)

def arrty(t):
    """the same value as a numpy array"""
    return Term(t.op, t.args, t.rows, t.cols, 'ndarray')

def it_list(it, v):
    if isinstance(v, PList): return v.elems()
    if isinstance(v, tuple): return list(v)
    raise Unsupported('list expected')

def vcat(it, segs):
    out = []
    def conv(s):
        if s.kind == 'e':
            v = s.val
            if isinstance(v, PList):
                return [x for y in v.segs for x in conv(y)]
            return [E(vec(v))]
        return [Seg('r', b=s.b, guard=s.guard, segs=[x for y in s.segs for x in conv(y)])]
    for s in segs: out += conv(s)
    out = [s for s in out if not (s.kind == 'e' and isinstance(s.val.rows, int) and s.val.rows == 0)]
    rows = z3.IntVal(0)
    try:
        rows = sum_rows(it, out)
        rows = z3.simplify(rows)
        rows = rows.as_long() if z3.is_int_value(rows) else rows
    except Unsupported:
        rows = None
    return Term('vcat', (out,), rows, 1)

def sum_rows(it, segs):
    n = z3.IntVal(0)
    gs = []
    for s in segs:
        if s.kind == 'r' and not z3.is_true(z3.simplify(s.guard)) and z3.is_int_value(zi(s.b.lo)) and z3.is_int_value(zi(s.b.hi)) and zi(s.b.hi).as_long() - zi(s.b.lo).as_long() == 1:
            # conditional parts: exactly one of them is present, all of the same size
            gs.append((s.guard, z3.simplify(sum_rows(it, s.segs)))); continue
        if s.kind == 'e':
            if s.val.rows is None: raise Unsupported('rows')
            n = n + zi(s.val.rows)
        else:
            it.loops.append(NoFork(s.b))
            try: inner = z3.simplify(sum_rows(it, s.segs))
            finally: it.loops.pop()
            if not z3.is_true(z3.simplify(s.guard)): raise Unsupported('rows of guarded sequence')
            if s.b.name in zvars(inner): raise Unsupported('rows vary')
            w = zi(s.b.hi) - zi(s.b.lo)
            if not it.prove(w >= 0): w = z3.If(w > 0, w, z3.IntVal(0))
            n = n + w * inner
    if gs:
        if not all(it.prove(x == gs[0][1]) for _, x in gs): raise Unsupported('rows of guarded sequence')
        if not (it.prove(z3.Or(*[g for g, _ in gs])) and all(it.prove(z3.Not(z3.And(gs[i][0], gs[j][0]))) for i in range(len(gs)) for j in range(i))): raise Unsupported('rows of guarded sequence')
        n = n + gs[0][1]
    return n

def deriv(e, x):
    """d e / d x as Term with bound variable: deriv(Lam(x', e'), at x)"""
    if not (isinstance(x, Term) and x.op == 'sym'): raise Unsupported('derivative with respect to expression')
    body = subst_term(C(e), [(x, Term('sym', ('$t',), 1, 1))])
    return Term('deriv', (body, x), C(e).rows, 1)
