"""Value domain and SMT interface of the verifier.

Integers are mathematical (z3 Int); everything that is a number, vector, matrix or
CasADi expression in the program is an immutable Term over the reals.
"""
import re
import z3
import itertools

class Unsupported(Exception):
    """The verifier cannot interpret a construct: the obligation stays undecided."""

class EngineLimit(Unsupported):
    pass

# ----------------------------------------------------------------- integers
def is_z(x):
    return isinstance(x, z3.ExprRef)

class SInt:
    __slots__ = ('e',)
    def __init__(self, e):
        self.e = e
    def __repr__(self):
        return 'SInt(%s)' % self.e

class SBool:
    __slots__ = ('e',)
    def __init__(self, e):
        self.e = e
    def __repr__(self):
        return 'SBool(%s)' % self.e

def zi(x):
    """python int / SInt / z3 -> z3 int expression"""
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float) and x == int(x):
        return z3.IntVal(int(x))
    if is_z(x):
        return x
    raise Unsupported('not an integer: %r' % (x,))

def mkint(e):
    """z3 int expr -> python int if constant else SInt"""
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)

def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)

def zb(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if is_z(x) and z3.is_bool(x):
        return x
    raise Unsupported('not a boolean: %r' % (x,))

_fresh = itertools.count()
def fresh_int(name):
    return z3.Int('%s!%d' % (name, next(_fresh)))

_vcache = {}
def zvars(e):
    """set of ids of uninterpreted constants in a z3 expression"""
    i = e.get_id()
    r = _vcache.get(i)
    if r is not None and r[0].eq(e):
        return r[1]
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        st.extend(x.children())
    out = frozenset(out)
    _vcache[i] = (e, out)
    return out

# power function over integers --------------------------------------------
POW = z3.Function('ipow', z3.IntSort(), z3.IntSort(), z3.IntSort())

# ----------------------------------------------------------------- terms
class Term:
    """Immutable real-valued (scalar/vector/matrix) expression.
    op: string;  args: tuple of Term | z3 expr | str | int | float | Lam | Seq...
    rows: number of rows if known (int or z3), else None."""
    __slots__ = ('op', 'args', 'rows', 'cols', 'ty')
    def __init__(self, op, args=(), rows=None, cols=None, ty=None):
        self.op = op
        self.args = tuple(args)
        self.rows = rows
        self.cols = cols
        self.ty = ty
    def __repr__(self):
        return show(self)

class Binder:
    """bound integer variable lo <= var < hi"""
    __slots__ = ('var', 'lo', 'hi', 'name')
    def __init__(self, var, lo, hi):
        self.var = var
        self.lo = lo
        self.hi = hi
        self.name = var.decl().name()
    def rng(self):
        return z3.And(zi(self.lo) <= self.var, self.var < zi(self.hi))
    def __repr__(self):
        return '%s in [%s,%s)' % (self.var, self.lo, self.hi)

class Big:
    """argument container for bigsum/bigprod: binder, guard, body"""
    __slots__ = ('b', 'guard', 'body')
    def __init__(self, b, guard, body):
        self.b = b
        self.guard = guard
        self.body = body
    def __repr__(self):
        return '{%r | %s : %r}' % (self.b, self.guard, self.body)

class Seg:
    """sequence segment.  kind 'e': val ;  kind 'r': binder, guard, segs"""
    __slots__ = ('kind', 'val', 'b', 'guard', 'segs')
    def __init__(self, kind, val=None, b=None, guard=None, segs=None):
        self.kind = kind; self.val = val; self.b = b; self.guard = guard; self.segs = segs
    def __repr__(self):
        if self.kind == 'e':
            return repr(self.val)
        return 'rep{%r | %s : %r}' % (self.b, self.guard, self.segs)

def E(v):
    return Seg('e', val=v)

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)

def show(t, d=0):
    if d > 40:
        return '...'
    if isinstance(t, Term):
        if t.op == 'c':
            return str(t.args[0])
        if t.op in ('add', 'mul', 'sub', 'div', 'matmul', 'pow'):
            s = {'add': '+', 'mul': '*', 'sub': '-', 'div': '/', 'matmul': '@', 'pow': '**'}[t.op]
            return '(' + (' ' + s + ' ').join(show(a, d+1) for a in t.args) + ')'
        return t.op + '(' + ', '.join(show(a, d+1) for a in t.args) + ')'
    if isinstance(t, (list, tuple)):
        return '[' + ', '.join(show(x, d+1) for x in t) + ']'
    if is_z(t):
        return str(z3.simplify(t)).replace('\n', ' ')
    return str(t)

# generic traversal ---------------------------------------------------------
class SStr:
    """symbolic string: concatenation of constants ('c', text), opaque strings ('v', name), decimal integers ('n', expr) and
    zero-filled decimal integers ('z', expr, width), and members of a family of distinct strings ('u', family, expr)"""
    __slots__ = ('parts', 'name')
    def __init__(self, name=None, parts=None):
        self.parts = (('v', name),) if parts is None else tuple(parts)
        self.name = ''.join(p[1] if p[0] == 'c' else str(p[1]) if p[0] == 'v' else '<%s:%s>' % (p[0], ','.join(map(str, p[1:]))) for p in self.parts)
    def __repr__(self): return 'SStr(%s)' % self.name
    def __eq__(self, o): return isinstance(o, SStr) and o.name == self.name
    def __hash__(self): return hash(('SStr', self.name))

def str_parts(x):
    if isinstance(x, str): return (('c', x),) if x else ()
    if isinstance(x, SStr): return x.parts
    if isinstance(x, (bool, float)): return (('c', str(x)),)
    if isinstance(x, int): return (('c', str(x)),)
    if isinstance(x, SInt): return (('n', x.e),)
    if isinstance(x, Term): return (('v', 'str(%s)' % show(x)),)
    return (('v', 'str:%r' % (x,)),)

def sstr(parts):
    """string from parts, constants merged"""
    out = []
    for p in parts:
        if p[0] in 'nz':
            e = z3.simplify(p[1])
            if z3.is_int_value(e) and (p[0] == 'n' or isinstance(p[2], int)):
                t = str(e.as_long())
                p = ('c', t.zfill(p[2]) if p[0] == 'z' else t)
        if p[0] == 'c' and not p[1]: continue
        if p[0] == 'c' and out and out[-1][0] == 'c': out[-1] = ('c', out[-1][1] + p[1])
        else: out.append(p)
    if not out: return ''
    if len(out) == 1 and out[0][0] == 'c': return out[0][1]
    return SStr(parts=out)

def str_eq(a, b, prove):
    """equality of two strings: bool, z3 formula, or None when undetermined"""
    a, b = list(str_parts(a)), list(str_parts(b))
    def same(p, q):
        if p[0] != q[0] or p[0] == 'c': return p == q
        if p[0] == 'v': return p[1] == q[1]
        if p[0] == 'u': return p[1] == q[1] and prove(p[2] == q[2])
        return prove(p[1] == q[1]) and (p[0] == 'n' or p[2] is q[2] or (isinstance(p[2], int) and isinstance(q[2], int) and p[2] == q[2]) or (not isinstance(p[2], int) and not isinstance(q[2], int) and prove(zi(p[2]) == zi(q[2]))))
    def strip(a, b, i):
        while a and b:
            p, q = a[i], b[i]
            if p[0] == 'c' and q[0] == 'c':
                s, t = p[1], q[1]
                n = 0
                while n < min(len(s), len(t)) and (s[n] == t[n] if i == 0 else s[-1 - n] == t[-1 - n]): n += 1
                if n == 0: return False
                cut = (lambda x: x[n:]) if i == 0 else (lambda x: x[:len(x) - n])
                s, t = cut(s), cut(t)
                for l, r in ((a, s), (b, t)):
                    if r: l[i] = ('c', r)
                    else: del l[i]
                if s and t: return False
            elif same(p, q):
                del a[i]; del b[i]
            else: break
        return True
    if not strip(a, b, 0): return False
    if not strip(a, b, -1): return False
    if not a and not b: return True
    if not a or not b:
        rest = a or b
        return False if any(p[0] in 'cnz' for p in rest) else None
    if len(a) == len(b) == 1:
        p, q = a[0], b[0]
        if p[0] == 'c': p, q = q, p
        if p[0] == q[0] == 'n': return p[1] == q[1]
        if p[0] == q[0] == 'u': return p[2] == q[2] if p[1] == q[1] else None
        if p[0] == q[0] == 'z' and (p[2] is q[2] or (isinstance(p[2], int) and p[2] == q[2]) or (is_z(p[2]) and is_z(q[2]) and p[2].eq(q[2]))): return p[1] == q[1]
        if q[0] == 'c' and p[0] == 'n': return p[1] == int(q[1]) if re.fullmatch(r'0|-?[1-9][0-9]*', q[1]) else False
        if q[0] == 'c' and p[0] == 'z' and isinstance(p[2], int):
            return p[1] == int(q[1]) if re.fullmatch('[0-9]+', q[1]) and str(int(q[1])).zfill(p[2]) == q[1] else (False if not q[1].startswith('-') else None)
        return None
    # numbers consist of digits only: a constant without digits at one end cannot match a number
    def first(l, i):
        p = l[i]
        return p[1][i] if p[0] == 'c' else ('#' if p[0] in 'nz' else None)
    for i in (0, -1):
        x, y = first(a, i), first(b, i)
        if x == '#' and y not in (None, '#') and not (y.isdigit() or y == '-'): return False
        if y == '#' and x not in (None, '#') and not (x.isdigit() or x == '-'): return False
    return None

def tmap(x, zf, tf=None):
    """rebuild a term applying zf to z3 holes; tf(Term)->Term|None pre-hook.
    Binder variables must not be captured by zf (all binders are globally fresh)."""
    if isinstance(x, Term):
        if tf is not None:
            r = tf(x)
            if r is not None:
                return r
        na = tuple(tmap(a, zf, tf) for a in x.args)
        rows = zf(x.rows) if is_z(x.rows) else x.rows
        cols = zf(x.cols) if is_z(x.cols) else x.cols
        if all(p is q for p, q in zip(na, x.args)) and rows is x.rows:
            return x
        return Term(x.op, na, rows, cols, x.ty)
    if is_z(x):
        return zf(x)
    if isinstance(x, Big):
        b = Binder(x.b.var, tmap(x.b.lo, zf, tf), tmap(x.b.hi, zf, tf))
        return Big(b, zf(x.guard), tmap(x.body, zf, tf))
    if isinstance(x, Seg):
        if x.kind == 'e':
            return Seg('e', val=tmap(x.val, zf, tf))
        b = Binder(x.b.var, tmap(x.b.lo, zf, tf), tmap(x.b.hi, zf, tf))
        return Seg('r', b=b, guard=zf(x.guard), segs=[tmap(s, zf, tf) for s in x.segs])
    if isinstance(x, SInt):
        return SInt(zf(x.e))
    if isinstance(x, SStr):
        return sstr([tuple(zf(q) if is_z(q) else q for q in p) for p in x.parts])
    if isinstance(x, SBool):
        return SBool(zf(x.e))
    if isinstance(x, tuple):
        return tuple(tmap(a, zf, tf) for a in x)
    if isinstance(x, list):
        return [tmap(a, zf, tf) for a in x]
    return x

def subst(x, pairs):
    """substitute z3 constants: pairs [(var, expr)]"""
    if not pairs:
        return x
    names = {v.decl().name() for v, _ in pairs}
    ps = [(v, zi(e)) for v, e in pairs]
    def zf(e):
        if zvars(e) & names:
            return z3.substitute(e, *ps)
        return e
    return tmap(x, zf)

def subst_term(x, pairs):
    """substitute symbol atoms: pairs [(Term sym, Term)]"""
    m = {s.args[0]: v for s, v in pairs}
    def tf(t):
        if t.op == 'sym' and t.args[0] in m:
            return m[t.args[0]]
        return None
    return tmap(x, lambda e: e, tf)

def tvars(x, acc=None):
    """names of z3 constants free in holes of x (binders removed)"""
    if acc is None:
        acc = set()
    if isinstance(x, Term):
        for a in x.args:
            tvars(a, acc)
    elif is_z(x):
        acc |= zvars(x)
    elif isinstance(x, (SInt, SBool)):
        acc |= zvars(x.e)
    elif isinstance(x, SStr):
        for p in x.parts:
            for q in p:
                if is_z(q): acc |= zvars(q)
    elif isinstance(x, Big):
        inner = set()
        tvars(x.body, inner); inner |= zvars(x.guard)
        inner.discard(x.b.name)
        acc |= inner
        tvars(x.b.lo, acc); tvars(x.b.hi, acc)
    elif isinstance(x, Seg):
        if x.kind == 'e':
            tvars(x.val, acc)
        else:
            inner = set()
            for s in x.segs:
                tvars(s, inner)
            inner |= zvars(x.guard)
            inner.discard(x.b.name)
            acc |= inner
            tvars(x.b.lo, acc); tvars(x.b.hi, acc)
    elif isinstance(x, (list, tuple)):
        for a in x:
            tvars(a, acc)
    return acc

def has_sym(x, name):
    """does the term contain symbol atom `name`"""
    if isinstance(x, Term):
        if x.op == 'sym' and x.args[0] == name:
            return True
        return any(has_sym(a, name) for a in x.args)
    if isinstance(x, Big):
        return has_sym(x.body, name)
    if isinstance(x, Seg):
        return has_sym(x.val, name) if x.kind == 'e' else any(has_sym(s, name) for s in x.segs)
    if isinstance(x, (list, tuple)):
        return any(has_sym(a, name) for a in x)
    return False

# constructors ----------------------------------------------------------------
from fractions import Fraction
def C(v):
    if isinstance(v, Term):
        return v
    if isinstance(v, SInt):
        return Term('int', (v.e,), 1, 1)
    if isinstance(v, bool):
        return Term('c', (Fraction(int(v)),), 1, 1)
    if isinstance(v, int):
        return Term('c', (Fraction(v),), 1, 1)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return Term('const', (str(v),), 1, 1)
        return Term('c', (Fraction(v),), 1, 1)
    if is_z(v):
        return Term('int', (v,), 1, 1)
    raise Unsupported('cannot make a term of %r' % (v,))

def rows_of(t):
    return t.rows

def _bc(a, b):
    """result rows of an elementwise op"""
    ra, rb = a.rows, b.rows
    if isinstance(ra, int) and ra == 1 and not (isinstance(rb, int) and rb == 1):
        return rb, b.cols
    return ra, a.cols

def mk(op, *args):
    ts = [C(a) for a in args]
    r, c = (None, None)
    if op in ('add', 'sub', 'mul', 'div', 'pow'):
        r, c = _bc(ts[0], ts[1])
        if op == 'mul':
            if ts[0].op == 'c' and ts[0].args[0] == 1: return ts[1]
            if ts[1].op == 'c' and ts[1].args[0] == 1: return ts[0]
        elif op == 'div' and ts[1].op == 'c' and ts[1].args[0] == 1: return ts[0]
    elif op == 'neg':
        r, c = ts[0].rows, ts[0].cols
    elif op == 'matmul':
        r, c = ts[0].rows, ts[1].cols
    elif op == 'T':
        if ts[0].op == 'T':
            return ts[0].args[0]
        r, c = ts[0].cols, ts[0].rows
    return Term(op, ts, r, c)

def call(fname, args, rows=None, cols=None):
    return Term('call', (fname,) + tuple(args), rows, cols)

def sym(name, rows=None, cols=1):
    return Term('sym', (name,), rows, cols)

def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)
