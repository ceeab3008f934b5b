"""Symbolic interpreter / verification-condition generator over the real Python source in /repo.

Nothing of the program is transcribed: modules are parsed from the repository on every run and
their ASTs are interpreted.  What is dropped: docstrings, type annotations, print output,
warnings.warn and time measurement (see lib.py for the library models).
"""
import ast, os, z3
from .core import *
from . import smt

REPO = os.environ.get('PYVC_REPO', '/repo')

class ReturnEx(Exception):
    def __init__(self, v): self.v = v
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class Infeasible(Exception):
    """the current decision prefix is contradictory"""
class PyEx(Exception):
    """an exception raised by the interpreted program"""
    def __init__(self, tname, args=()):
        self.tname = tname; self.args_ = args
    def __str__(self):
        return '%s(%s)' % (self.tname, ', '.join(map(str, self.args_)))

EXC_BASES = {'AssertionError': 'Exception', 'ValueError': 'Exception', 'KeyError': 'LookupError', 'IndexError': 'LookupError',
             'LookupError': 'Exception', 'TypeError': 'Exception', 'AttributeError': 'Exception', 'NotImplementedError': 'RuntimeError',
             'RuntimeError': 'Exception', 'FileNotFoundError': 'OSError', 'OSError': 'Exception', 'ZeroDivisionError': 'Exception',
             'Exception': 'BaseException', 'StopIteration': 'Exception', 'NameError': 'Exception', 'ImportError': 'Exception',
             'ModuleNotFoundError': 'ImportError', 'FileExistsError': 'OSError', 'UnicodeError': 'ValueError', 'DeprecationWarning': 'Exception', 'UserWarning': 'Exception'}
def exc_isa(t, base):
    while t is not None:
        if t == base:
            return True
        t = EXC_BASES.get(t)
    return False

class Poison:
    def __init__(self, why): self.why = why

class EarlyExit(Unsupported):
    """a loop of symbolic length is left by break or return"""

class PClass:
    def __init__(self, name, bases, ns, module, decorators=()):
        self.name = name; self.bases = bases; self.ns = ns; self.module = module
        self.dataclass = 'dataclass' in decorators
        self.fields = []
    def mro(self):
        out = [self]
        # C3 is not needed: depth-first, left-to-right with duplicates removed from the front
        for b in self.bases:
            if isinstance(b, PClass):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out
    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name]
        return None
    def isa(self, other):
        return other in self.mro()
    def __repr__(self):
        return '<class %s>' % self.name

class PFunc:
    def __init__(self, node, env, module, qual, defaults=(), kwdefaults=None, cls=None):
        self.node = node; self.env = env; self.module = module; self.qual = qual
        self.defaults = defaults; self.kwdefaults = kwdefaults or {}; self.cls = cls
    def __repr__(self):
        return '<function %s>' % self.qual

class PProp:
    def __init__(self, fget, fset=None):
        self.fget = fget; self.fset = fset

class PBound:
    def __init__(self, fn, obj):
        self.fn = fn; self.obj = obj

class LibFn:
    """python-level callable of the library model: f(interp, args, kwargs)"""
    def __init__(self, name, f):
        self.name = name; self.f = f
    def __repr__(self):
        return '<lib %s>' % self.name

class LibMod:
    def __init__(self, name): self.name = name
    def __repr__(self): return '<libmod %s>' % self.name

class LibType:
    def __init__(self, name): self.name = name
    def __repr__(self): return '<libtype %s>' % self.name

class Super:
    def __init__(self, cls, obj): self.cls = cls; self.obj = obj

_ids = [0]
def newid():
    _ids[0] += 1
    return _ids[0]

class PObj:
    def __init__(self, cls, attrs=None, name=None):
        self.cls = cls; self.attrs = attrs if attrs is not None else {}; self.name = name; self.id = newid()
    def __repr__(self):
        return '<%s %s>' % (self.cls.name if isinstance(self.cls, PClass) else self.cls, self.name or self.id)

class PList:
    def __init__(self, segs=None, elems=None):
        self.segs = segs if segs is not None else [E(v) for v in (elems or [])]
        self.id = newid()
    def concrete(self):
        return all(s.kind == 'e' for s in self.segs)
    def elems(self):
        if not self.concrete():
            raise Unsupported('list of symbolic length')
        return [s.val for s in self.segs]
    def __repr__(self):
        return 'PList%r' % (self.segs,)

class PDict:
    def __init__(self, items=None):
        self.d = dict(items or {}); self.id = newid()
    def __repr__(self):
        return 'PDict%r' % (self.d,)

class PSet:
    def __init__(self, items=()):
        self.s = list(items); self.id = newid()

class Slice:
    def __init__(self, lo, hi, step=None):
        self.lo = lo; self.hi = hi; self.step = step
    def __repr__(self):
        return 'Slice(%r,%r)' % (self.lo, self.hi)

class Star:
    """a symbolic-length positional argument pack"""
    def __init__(self, segs): self.segs = segs

class Rng:
    def __init__(self, lo, hi, step=1):
        self.lo = lo; self.hi = hi; self.step = step

class Entry:
    """write-log entry: name/idx pattern, quantified over binders under guard"""
    __slots__ = ('name', 'idx', 'binders', 'guard', 'value', 'birth')
    def __init__(self, name, idx, binders, guard, value):
        self.birth = newid()
        self.name = name; self.idx = list(idx); self.binders = list(binders); self.guard = guard; self.value = value
    def __repr__(self):
        return 'Entry(%s%r := %r | %r if %s)' % (self.name, self.idx, self.value, self.binders, z3.simplify(self.guard))

class Loop:
    nofork = False
    guard = None
    def __init__(self, binder):
        self.binder = binder
        self.names = {binder.name} if binder is not None else None
        self.conds = []
        self.prefix = []
        self.pos = 0
        self.pending = []
        self.ph = {}          # placeholder name -> key
        self.lsets = []       # list elements assigned in the body
        self.disc_entries = {}
        self.disc_appends = set()
        self.born = _ids[0]
    def facts(self):
        return ([self.binder.rng()] if self.binder is not None else []) + self.conds

class Env:
    __slots__ = ('vars', 'parent', 'module', 'cls', 'selfobj')
    def __init__(self, parent, module, cls=None):
        self.vars = {}; self.parent = parent; self.module = module; self.cls = cls; self.selfobj = None

class Module:
    def __init__(self, name, path):
        self.name = name; self.path = path; self.ns = {}; self.tree = None; self.pending = {}

class Interp:
    def __init__(self, lib, facts=()):
        self.lib = lib
        self.modules = {}
        self.base_facts = list(facts)
        self.loops = []
        self.top = Loop(None)
        self.journal = []
        self.contracts = {}
        self.obligations = []      # (name, proved?, detail)
        self.ph_read = set()
        self.ph_ids = {}
        self.quiet = 0             # >0: discovery run (no obligations recorded)
        self.functions_seen = {}
        self.inst_facts = []
        self.trace = []
        self.depth = 0
        self.inbounds = True
        lib.install(self)

    # ------------------------------------------------------------- facts
    def facts(self):
        f = self.base_facts + self.inst_facts + self.top.conds
        for L in self.loops:
            f = f + L.facts()
        return f

    def assume(self, e):
        self.inst_facts.append(e)

    def prove(self, goal):
        return smt.prove(self.facts(), goal) is True

    def decide(self, v):
        """truth value of a condition, forking when undetermined"""
        v = self.truth(v)
        if isinstance(v, bool):
            return v
        e = z3.simplify(v.e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        F = self.facts()
        r1 = smt.check(F + [e])
        if r1 == 'unsat':
            return False
        r2 = smt.check(F + [z3.Not(e)])
        if r2 == 'unsat':
            return True
        vs = zvars(e)
        target = self.top
        for L in reversed(self.loops):
            if L.names is None or vs & L.names:
                target = L
                break
        return self.choose(target, e)

    def lookup_local(self, env, n):
        v = env.vars[n]
        if isinstance(v, Poison): raise Unsupported(v.why)
        if id(v) in self.ph_ids: self.ph_read.add(id(v))
        return v

    def choose(self, L, e):
        if L.nofork:
            raise Unsupported('case distinction on a slice index')
        if L.pos < len(L.prefix):
            d = L.prefix[L.pos]
        else:
            d = True
            L.pending.append(L.prefix[:L.pos] + [False])
            L.prefix = L.prefix + [True]
        L.pos += 1
        L.conds.append(e if d else z3.Not(e))
        if len(L.conds) > 60:
            raise EngineLimit('too many case distinctions')
        return d

    def truth(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, SBool): return mkbool(v.e)
        if v is None: return False
        if isinstance(v, (int, float)): return bool(v)
        if isinstance(v, SInt): return mkbool(v.e != 0)
        if isinstance(v, str): return bool(v)
        if isinstance(v, tuple): return bool(v)
        if isinstance(v, PList):
            n = self.length(v)
            return n > 0 if isinstance(n, int) else mkbool(zi(n) > 0)
        if isinstance(v, PDict): return bool(v.d)
        if isinstance(v, PSet): return bool(v.s)
        if isinstance(v, (PFunc, PBound, LibFn, PClass, LibType)): return True
        if isinstance(v, Term):
            if v.op == 'c': return v.args[0] != 0
            return SBool(z3.Bool('truth:' + show(v)))
        if isinstance(v, PObj):
            return True
        r = self.lib.truth(self, v)
        return r

    # ------------------------------------------------------------- modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        rel = name.replace('.', '/')
        for p in (os.path.join(REPO, rel + '.py'), os.path.join(REPO, rel, '__init__.py')):
            if os.path.exists(p):
                m = Module(name, p)
                break
        else:
            raise Unsupported('module %s not found' % name)
        self.modules[name] = m
        src = open(m.path).read()
        m.tree = ast.parse(src, m.path)
        m.ns['__name__'] = name
        env = Env(None, m)
        env.vars = m.ns
        # imports first resolve lazily; definitions are executed in order, failures are lazy
        for st in m.tree.body:
            self.exec_toplevel(st, env, m)
        return m

    def exec_toplevel(self, st, env, m):
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            return
        if isinstance(st, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef, ast.Assign)):
            try:
                self.exec_stmt(st, env)
            except (Unsupported, PyEx) as ex:
                for n in stored_names([st]):
                    m.ns[n] = Poison('module-level: %s' % ex)
            return
        if isinstance(st, ast.Try):
            for s in st.body:
                self.exec_toplevel(s, env, m)
            return
        if isinstance(st, (ast.If, ast.Expr, ast.With, ast.For)):
            return

    def find(self, qual):
        """'do_mpc.controller._mpc:MPC._prepare_nlp' -> (PFunc)"""
        mod, path = qual.split(':')
        m = self.module(mod)
        cur = None
        for i, p in enumerate(path.split('.')):
            if i == 0:
                cur = m.ns[p]
            else:
                cur = cur.lookup(p)
            if isinstance(cur, Poison):
                raise Unsupported(cur.why)
            if cur is None:
                raise Unsupported('%s not found' % qual)
        return cur

    # ------------------------------------------------------------- statements
    def exec_body(self, body, env):
        for st in body:
            self.exec_stmt(st, env)

    def exec_stmt(self, st, env):
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s (line %s)' % (type(st).__name__, getattr(st, 'lineno', '?')))
        try:
            return m(st, env)
        except Unsupported as ex:
            if not getattr(ex, 'loc', None):
                ex.loc = '%s:%s' % (os.path.relpath(env.module.path, REPO), st.lineno)
            raise

    def st_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, env)

    def st_Pass(self, st, env): pass
    def st_Import(self, st, env):
        for a in st.names:
            full = a.name
            if a.asname:
                env.vars[a.asname] = self.import_mod(full)
            else:
                root = full.split('.')[0]
                env.vars[root] = self.import_mod(root)
    def import_mod(self, full):
        if full.split('.')[0] == 'do_mpc':
            return LibMod(full)   # resolved lazily by attribute access
        return LibMod(full)
    def st_ImportFrom(self, st, env):
        mod = st.module or ''
        if st.level:
            base = env.module.name.split('.')
            is_pkg = env.module.path.endswith('__init__.py')
            cut = st.level - (1 if is_pkg else 0)
            base = base[:len(base) - cut] if cut else base
            mod = '.'.join(base + ([mod] if mod else []))
        for a in st.names:
            if a.name == '*':
                if mod.split('.')[0] == 'do_mpc':
                    m = self.module(mod)
                    for k, v in m.ns.items():
                        if not k.startswith('_'):
                            env.vars.setdefault(k, v)
                continue
            env.vars[a.asname or a.name] = self.mod_attr(LibMod(mod), a.name)
    def mod_attr(self, m, name):
        full = m.name
        if full.split('.')[0] == 'do_mpc':
            sub = full + '.' + name
            rel = sub.replace('.', '/')
            pm = self.module(full)
            if name in pm.ns:
                v = pm.ns[name]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            if os.path.exists(os.path.join(REPO, rel + '.py')) or os.path.exists(os.path.join(REPO, rel, '__init__.py')):
                return LibMod(sub)
            raise PyEx('AttributeError', (sub,))
        return self.lib.mod_attr(self, full, name)

    def st_FunctionDef(self, st, env):
        f = self.make_func(st, env)
        for d in reversed(st.decorator_list):
            f = self.decorate(d, f, env)
        env.vars[st.name] = f
    def make_func(self, node, env):
        a = node.args
        defaults = [self.ev(x, env) for x in a.defaults]
        kwd = {k.arg: self.ev(v, env) for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None}
        name = getattr(node, 'name', '<lambda>')
        cls = env.cls
        qual = '%s:%s%s' % (env.module.name, (cls + '.') if cls else '', name)
        return PFunc(node, env, env.module, qual, defaults, kwd)
    def decorate(self, d, f, env):
        if isinstance(d, ast.Name) and d.id == 'property':
            return PProp(f)
        if isinstance(d, ast.Attribute) and d.attr == 'setter' and isinstance(d.value, ast.Name):
            cur = env.vars.get(d.value.id)
            if isinstance(cur, PProp):
                return PProp(cur.fget, f)
        if isinstance(d, ast.Name) and d.id == 'staticmethod':
            return ('static', f)
        if isinstance(d, ast.Name) and d.id == 'classmethod':
            return ('classm', f)
        dec = self.ev(d, env)
        return self.call(dec, [f], {})
    def st_ClassDef(self, st, env):
        bases = []
        for b in st.bases:
            try:
                bases.append(self.ev(b, env))
            except (Unsupported, PyEx):
                bases.append(None)
        cenv = Env(env, env.module, cls=st.name)
        decs = []
        for d in st.decorator_list:
            x = d.func if isinstance(d, ast.Call) else d
            decs.append(x.id if isinstance(x, ast.Name) else getattr(x, 'attr', '?'))
        c = PClass(st.name, bases, cenv.vars, env.module, decs)
        for s in st.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.fields.append((s.target.id, s.value, cenv))
                if s.value is not None and not c.dataclass:
                    cenv.vars[s.target.id] = self.ev(s.value, cenv)
                continue
            try:
                self.exec_stmt(s, cenv)
            except (Unsupported, PyEx) as ex:
                for n in stored_names([s]):
                    cenv.vars[n] = Poison('class-level: %s' % ex)
        for v in c.ns.values():
            for f in ([v] if isinstance(v, PFunc) else [v.fget, v.fset] if isinstance(v, PProp) else [v[1]] if isinstance(v, tuple) else []):
                if isinstance(f, PFunc):
                    f.cls = c
            if isinstance(v, PObj):
                for f in v.attrs.values():
                    if isinstance(f, PFunc):
                        f.cls = c
        env.vars[st.name] = c

    def st_Return(self, st, env):
        raise ReturnEx(self.ev(st.value, env) if st.value is not None else None)
    def st_Break(self, st, env): raise BreakEx()
    def st_Continue(self, st, env): raise ContinueEx()
    def st_If(self, st, env):
        if self.decide(self.ev(st.test, env)):
            self.exec_body(st.body, env)
        else:
            self.exec_body(st.orelse, env)
    def st_Assert(self, st, env):
        if not self.decide(self.ev(st.test, env)):
            raise PyEx('AssertionError', ())
    def st_Raise(self, st, env):
        if st.exc is None:
            raise PyEx(getattr(self, 'cur_exc', 'Exception'))
        n = st.exc
        name = None
        f = n.func if isinstance(n, ast.Call) else n
        if isinstance(f, ast.Name):
            name = f.id
            if name in EXC_BASES:
                raise PyEx(name, ())
        v = self.ev(n, env)
        if isinstance(v, PObj) and isinstance(v.cls, LibType):
            raise PyEx(v.cls.name, ())
        if isinstance(v, LibType):
            raise PyEx(v.name, ())
        raise PyEx('Exception', ())
    def st_Try(self, st, env):
        mark = len(self.journal)
        try:
            try:
                self.exec_body(st.body, env)
            except PyEx as ex:
                for h in st.handlers:
                    names = []
                    if h.type is None:
                        names = ['BaseException']
                    else:
                        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                        names = [t.id if isinstance(t, ast.Name) else t.attr for t in ts]
                    if any(exc_isa(ex.tname, n) for n in names):
                        if h.name:
                            env.vars[h.name] = SStr('exc')
                        old = getattr(self, 'cur_exc', None)
                        self.cur_exc = ex.tname
                        self.exec_body(h.body, env)
                        self.cur_exc = old
                        break
                else:
                    raise
            else:
                self.exec_body(st.orelse, env)
        finally:
            if st.finalbody:
                self.exec_body(st.finalbody, env)
    def st_With(self, st, env):
        for it in st.items:
            v = self.ev(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.exec_body(st.body, env)
    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev(t.slice, env)
                if isinstance(o, PDict):
                    self.jset_dict(o, k, None, delete=True)
                else:
                    raise Unsupported('del')
            else:
                raise Unsupported('del')
    def st_Global(self, st, env):
        raise Unsupported('global')
    def st_Nonlocal(self, st, env):
        raise Unsupported('nonlocal')
    def st_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)
    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)
    def st_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            v = self.ev(st.value, env)
            env.vars[t.id] = self.inplace(st.op, cur, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            v = self.ev(st.value, env)
            self.setattr(o, t.attr, self.inplace(st.op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_slice(t.slice, env)
            cur = self.getitem(o, k)
            v = self.ev(st.value, env)
            self.setitem(o, k, self.inplace(st.op, cur, v))
        else:
            raise Unsupported('augassign')
    def inplace(self, op, cur, v):
        if isinstance(cur, PList) and isinstance(op, ast.Add):
            for s in self.segs_of(v):
                self.append_seg(cur, s)
            return cur
        return self.binop(op, cur, v)
    def st_While(self, st, env):
        n = 0
        while True:
            c = self.truth(self.ev(st.test, env))
            if not isinstance(c, bool):
                d = None
                F = self.facts()
                if smt.check(F + [c.e]) == 'unsat':
                    d = False
                elif smt.check(F + [z3.Not(c.e)]) == 'unsat':
                    d = True
                if d is None:
                    return self.sym_while(st, env)
                c = d
            if not c:
                self.exec_body(st.orelse, env)
                return
            n += 1
            if n > 64:
                raise EngineLimit('while loop without bound')
            try:
                self.exec_body(st.body, env)
            except BreakEx:
                return
            except ContinueEx:
                continue
    def sym_while(self, st, env):
        """while <counter> < <bound>: recognised as a counted loop when one local is incremented by one per iteration"""
        t = st.test
        simple = isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.NotEq))
        if not simple and not self.loops: return self.unfold_while(st, env)
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.NotEq))):
            raise Unsupported('while loop with symbolic condition')
        v = t.left.id
        lo = self.lookup(v, env)
        hi = self.ev(t.comparators[0], env)
        if isinstance(t.ops[0], ast.LtE):
            hi = mkint(zi(hi) + 1)
        if isinstance(t.ops[0], ast.NotEq) and not self.prove(zi(lo) <= zi(hi)):
            raise Unsupported('while loop with !=')
        assigned = stored_names(st.body)
        bound_names = {n.id for n in ast.walk(t.comparators[0]) if isinstance(n, ast.Name)}
        if bound_names & assigned:
            raise Unsupported('while bound changes')
        # v must be incremented exactly once, as a top-level statement
        incs = [s for s in ast.walk(ast.Module(body=st.body, type_ignores=[])) if isinstance(s, (ast.AugAssign, ast.Assign)) and v in stored_names([s])]
        ok = len(incs) == 1 and incs[0] in st.body and isinstance(incs[0], ast.AugAssign) and isinstance(incs[0].op, ast.Add) and isinstance(incs[0].value, ast.Constant) and incs[0].value.value == 1
        if ok and any(isinstance(x, ast.Continue) for x in ast.walk(ast.Module(body=st.body, type_ignores=[]))):
            ok = False
        if not ok:
            raise Unsupported('while loop with symbolic condition')
        def body(val):
            env.vars[v] = val
            self.exec_body(st.body, env)
        self.iterate([('gen', lo, hi, lambda i: i)], body, env, stored_names(st.body) - {v})
        env.vars[v] = mkint(z3.If(zi(hi) >= zi(lo), zi(hi), zi(lo)))

    def st_For(self, st, env):
        it = self.ev(st.iter, env)
        chunks = self.chunks(it)
        names = stored_names(st.body) | stored_names([st.target])
        def body(val):
            self.assign(st.target, val, env)
            self.exec_body(st.body, env)
        broke = self.iterate(chunks, body, env, names)
        if not broke:
            self.exec_body(st.orelse, env)

    # ------------------------------------------------------------- iteration
    def chunks(self, it):
        """iteration source -> list of ('one', v) | ('gen', lo, hi, fn)"""
        if isinstance(it, Rng):
            lo, hi = it.lo, it.hi
            if it.step == 1:
                if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 8:
                    return [('one', i) for i in range(lo, hi)]
                return [('gen', lo, hi, lambda i: i)]
            if it.step == -1:
                # range(a, b, -1): i' = a - i
                n = mkint(zi(lo) - zi(hi))
                if isinstance(n, int) and n <= 8:
                    return [('one', mkint(zi(lo) - i)) for i in range(max(n, 0))]
                return [('gen', 0, n, lambda i: mkint(zi(lo) - zi(i)))]
            raise Unsupported('range step')
        if isinstance(it, (tuple,)):
            return [('one', v) for v in it]
        if isinstance(it, PList):
            return self.seg_chunks(it.segs)
        if isinstance(it, PDict):
            return [('one', k) for k in it.d]
        if isinstance(it, PSet):
            return [('one', k) for k in it.s]
        if isinstance(it, str):
            return [('one', c) for c in it]
        if isinstance(it, list):           # chunk list prepared by the library (enumerate, zip)
            return it
        r = self.lib.iter_chunks(self, it)
        if r is not None:
            return r
        raise Unsupported('cannot iterate over %r' % (type(it).__name__,))

    def seg_chunks(self, segs):
        out = []
        for s in segs:
            if s.kind == 'e':
                if isinstance(s.val, Poison): raise Unsupported(s.val.why)
                out.append(('one', s.val))
            else:
                f = filtered(s)
                if f is not None:
                    # the elements of a filtered range: position tokens stand for the number of earlier members
                    b, g, val = f
                    out.append(('gg', b.lo, b.hi, lambda i, b=b, val=val: self.inst(val, [(b.var, zi(i))]),
                                lambda i, b=b, g=g: z3.substitute(g, (b.var, zi(i))), position(b, g)))
                    continue
                if not z3.is_true(z3.simplify(s.guard)): raise Unsupported('iteration over guarded sequence')
                if len(s.segs) != 1 or s.segs[0].kind != 'e':
                    out.append(('nest', s)); continue
                def fn(i, s=s):
                    return self.inst(s.segs[0].val, [(s.b.var, zi(i))])
                out.append(('gen', s.b.lo, s.b.hi, fn))
        return out

    def inst(self, v, pairs):
        """instantiate binder variables inside an arbitrary value"""
        if isinstance(v, (Term, SInt, SBool)) or is_z(v):
            r = subst(v, pairs)
            if isinstance(r, SInt):
                return mkint(r.e)
            return r
        if isinstance(v, tuple):
            return tuple(self.inst(x, pairs) for x in v)
        if isinstance(v, PList):
            return PList([subst_seg(self, s, pairs) for s in v.segs])
        if isinstance(v, (int, float, str, bool, PFunc, LibFn, PClass)) or v is None:
            return v
        if isinstance(v, SStr): return subst(v, pairs)
        return self.lib.inst(self, v, pairs)

    def iterate(self, chunks, body, env, names):
        """returns True if left by break (concrete iterations only)"""
        for c in chunks:
            if c[0] == 'one':
                try:
                    body(c[1])
                except ContinueEx:
                    continue
                except BreakEx:
                    return True
            elif c[0] == 'nest':
                s = c[1]
                def inner(i, s=s):
                    if self.iterate(self.seg_chunks([subst_seg(self, x, [(s.b.var, zi(i))]) for x in s.segs]), body, env, names): raise EarlyExit('break in a nested sequence')
                if self.iterate([('gen', s.b.lo, s.b.hi, lambda i: i)], inner, env, names): return True
            elif c[0] == 'gg':
                try: self.generic(c[1], c[2], c[3], body, env, names, guard=c[4])
                except EarlyExit: raise Unsupported('a filtered sequence is left early')
            else:
                _, lo, hi, fn = c
                w = z3.simplify(zi(hi) - zi(lo))
                if z3.is_int_value(w) and w.as_long() <= 8:
                    n = w.as_long()
                    for i in range(n):
                        try:
                            body(fn(mkint(zi(lo) + i)))
                        except ContinueEx:
                            continue
                        except BreakEx:
                            return True
                    continue
                try: self.generic(lo, hi, fn, body, env, names)
                except EarlyExit:
                    if self.loops: raise
                    if self.search(lo, hi, fn, body, env, names): return True
        return False

    def search(self, lo, hi, fn, body, env, names):
        """loop left by break or return: iterations that do not leave must have no effect beyond locals assigned in the body;
        the leaving iteration is executed at an arbitrary index"""
        saved = dict(env.vars)
        zlo, zhi = zi(lo), zi(hi)
        if smt.check(self.facts() + [zlo < zhi]) == 'unsat': return False
        forget = {n: Poison('%s after an unknown number of iterations' % n) for n in names}
        env.vars.update(forget)
        v = fresh_int('i'); L = Loop(Binder(v, lo, hi))
        env0 = dict(env.vars); work = [[]]; n = 0; leaves = False
        self.quiet += 1
        try:
            while work:
                L.prefix = work.pop(); L.pos = 0; L.pending = []; L.conds = []
                env.vars.clear(); env.vars.update(env0)
                mark = len(self.journal)
                self.loops.append(L)
                out = False
                try:
                    try: body(fn(SInt(v)))
                    except ContinueEx: pass
                    except (BreakEx, ReturnEx): out = True
                    except PyEx:
                        if smt.check(self.facts()) != 'unsat': out = True
                finally: self.loops.pop()
                work += L.pending
                recs = self.journal[mark:]
                if not out and any(r[1].id < L.born for r in recs): raise Unsupported('effects before a loop is left')
                leaves = leaves or out
                self.undo(mark)
                n += 1
                if n > 40: raise EngineLimit('too many variants of a loop body')
        finally: self.quiet -= 1
        env.vars.clear(); env.vars.update(env0)
        k = fresh_int('exit')
        if self.decide(SBool(z3.Bool('leaves:%s' % k))):
            self.assume(zlo <= k); self.assume(k < zhi)
            try: body(fn(SInt(k)))
            except BreakEx: return True
            except ContinueEx: pass
            raise Infeasible()
        return False

    # ---- generic iteration ------------------------------------------------
    def unfold_while(self, st, env):
        """while with a general condition and a body without effects beyond its locals: the state after the loop is the initial one
        or the one after an iteration from an arbitrary (type preserving) state of the assigned locals; termination is not shown"""
        if not self.decide(self.ev(st.test, env)):
            self.exec_body(st.orelse, env); return
        names = stored_names(st.body) | stored_names([ast.Expr(st.test)])
        for n in names:
            v = env.vars.get(n)
            if n not in env.vars: continue
            if isinstance(v, (bool, SBool)): env.vars[n] = SBool(z3.Bool(str(fresh_int('any'))))
            elif isinstance(v, (int, SInt)): env.vars[n] = SInt(fresh_int('any'))
            elif isinstance(v, (str, SStr)): env.vars[n] = SStr('any %s %s' % (n, fresh_int('s')))
            else: env.vars[n] = Poison('%s after an unknown number of iterations' % n)
        born = newid()
        if not self.decide(self.ev(st.test, env)): raise Infeasible()
        env0 = dict(env.vars)
        mark = len(self.journal)
        try: self.exec_body(st.body, env)
        except ContinueEx: pass
        except BreakEx: return
        if any(r[1].id < born for r in self.journal[mark:]): raise Unsupported('while loop with effects')
        # the state before must be one the havoc covers: same kinds of values
        for n in names:
            if n in env0 and not isinstance(env0[n], Poison):
                a, b = env0[n], env.vars.get(n)
                if not any(isinstance(a, t) and isinstance(b, t) for t in ((bool, SBool), (int, SInt), (str, SStr))): raise Unsupported('while loop changes the kind of a variable')
        if self.decide(self.ev(st.test, env)): raise Infeasible()
        self.exec_body(st.orelse, env)

    def run_variants(self, L, body, fn, env, saved, wrap):
        """execute the loop body for every decision combination.
        returns list of (conds, endvars, endattrs) ; effects generalised when wrap"""
        results = []
        work = [[]]
        env0 = dict(env.vars)
        while work:
            pre = work.pop()
            L.prefix = pre; L.pos = 0; L.pending = []; L.conds = [L.guard(L.binder.var)] if L.guard is not None else []
            env.vars.clear(); env.vars.update(env0)
            mark = len(self.journal)
            born = newid()
            self.loops.append(L)
            raised = None
            attr0 = {}
            try:
                try:
                    body(fn(SInt(L.binder.var)))
                except ContinueEx:
                    pass
                except (BreakEx, ReturnEx):
                    raise EarlyExit('break or return in a loop of symbolic length')
                except PyEx as ex:
                    # only an error if this iteration is reachable
                    if smt.check(self.facts()) != 'unsat':
                        if self.quiet and not wrap:
                            raised = ex
                        else:
                            raise Unsupported('%s raised inside a loop of symbolic length' % ex)
                    else:
                        raised = ex
            finally:
                self.loops.pop()
            work += L.pending
            if len(results) > 40:
                raise EngineLimit('too many variants of a loop body')
            conds = list(L.conds)
            recs = self.journal[mark:]
            ends = dict(env.vars)
            attrs = {}
            for r in recs:
                if r[0] == 'attr' and r[1].id < L.born:
                    attrs[('attr', r[1], r[2])] = r[1].attrs.get(r[2])
                elif r[0] == 'dict' and r[1].id < L.born:
                    attrs[('dict', r[1], r[2])] = r[1].d.get(r[2])
            if raised is None:
                results.append((conds, ends, attrs, recs))
            if wrap:
                self.generalise(L, conds, recs, mark)
                # restore carried attributes for the next variant
                for r in reversed(recs):
                    if r[0] in ('attr', 'dict') and r[1].id < L.born:
                        r[3]()
            else:
                self.note_effects(L, conds, recs)
                self.undo(mark)
        env.vars.clear(); env.vars.update(env0)
        return results

    def note_effects(self, L, conds, recs):
        g = z3.And(*conds) if conds else TRUE
        for r in recs:
            if r[0] == 'append' and r[1].id < L.born:
                L.disc_appends.add(r[1].id)
            elif r[0] == 'wr' and r[1].id < L.born:
                e = r[2]
                L.disc_entries.setdefault(r[1].id, []).append(
                    Entry(e.name, e.idx, [L.binder] + e.binders, z3.And(g, e.guard), e.value))
            elif r[0] == 'lset' and r[1].id < L.born:
                if not isinstance(r[2], int): raise Unsupported('list element assignment inside a loop of symbolic length')
                L.lsets.append((r[1], r[2]))

    def generalise(self, L, conds, recs, mark):
        g = z3.And(*conds) if conds else TRUE
        per_list = {}
        for r in recs:
            if r[0] == 'append' and r[1].id < L.born:
                per_list.setdefault(r[1].id, [r[1], 0])[1] += 1
            elif r[0] == 'wr' and r[1].id < L.born:
                e = r[2]
                e.binders.insert(0, L.binder)
                e.guard = z3.And(g, e.guard)
        for lst, n in per_list.values():
            items = lst.segs[len(lst.segs) - n:]
            del lst.segs[len(lst.segs) - n:]
            if z3.is_true(g):
                segs = items
            else:
                d = fresh_int('u')
                segs = [Seg('r', b=Binder(d, 0, 1), guard=g, segs=items)]
            prev = lst.segs[-1] if lst.segs else None
            if prev is not None and prev.kind == 'r' and prev.b is L.binder:
                prev.segs.extend(segs)
            else:
                lst.segs.append(Seg('r', b=L.binder, guard=TRUE, segs=segs))
        # collapse the append records of this variant into one wrapped record per list
        new = []
        seen = set()
        for r in recs:
            if r[0] == 'append' and r[1].id < L.born:
                if r[1].id in seen:
                    continue
                seen.add(r[1].id)
                lst = r[1]
                if not any(q[0] == 'append' and q[1] is lst and q[2] is L.binder for q in self.journal[:mark] if len(q) > 2):
                    new.append(('append', lst, L.binder, None))
            elif r[0] in ('attr', 'dict') and r[1].id < L.born:
                continue
            else:
                new.append(r)
        self.journal[mark:] = new

    def undo(self, mark):
        while len(self.journal) > mark:
            r = self.journal.pop()
            if r[0] == 'append':
                r[1].segs.pop()
            elif r[0] == 'wr':
                log = r[1].log
                for i in range(len(log) - 1, -1, -1):
                    if log[i] is r[2]:
                        del log[i]
                        break
            elif r[0] in ('attr', 'dict', 'lset'):
                r[3]()

    def generic(self, lo, hi, fn, body, env, names, peeled=0, guard=None, lsets=None):
        lsets = dict(lsets or {})
        zlo, zhi = zi(lo), zi(hi)
        r = smt.check(self.facts() + [zlo < zhi])
        if r == 'unsat':
            return
        saved = dict(env.vars)
        # discovery -----------------------------------------------------------
        keys = {}      # key -> kind of placeholder
        for n in names:
            if n in env.vars:
                v = env.vars[n]
                if isinstance(v, (SInt, int)) and not isinstance(v, bool):
                    keys[('loc', n)] = 'int'
                elif isinstance(v, (Term, float)):
                    keys[('loc', n)] = 'term'
                elif isinstance(v, (bool, SBool)):
                    keys[('loc', n)] = 'bool'
        fixed = getattr(self, '_fixed', None)
        if fixed is not None and fixed[0] is body:
            for k in fixed[1]: keys.pop(k, None)
        info = None
        for attempt in range(6):
            v = fresh_int('i')
            L = Loop(Binder(v, lo, hi)); L.guard = guard
            ph = {}
            phn = {}
            self.put_placeholders(keys, env, ph, phn, L)
            reads0 = set(self.ph_read)
            self.quiet += 1
            mark = len(self.journal)
            for l, n in lsets.values(): self.forget(l, n)
            try:
                res = self.run_variants(L, body, fn, env, saved, wrap=False)
            finally:
                self.quiet -= 1
                self.undo(mark)
                self.remove_placeholders(keys, ph, env, saved)
            redo = False
            for l, n in L.lsets:
                if (l.id, n) not in lsets: lsets[(l.id, n)] = (l, n); redo = True
            for conds, ends, attrs, recs in res:
                for k, val in attrs.items():
                    if k not in keys:
                        cur = self.key_get(k, None)
                        if val is cur:
                            continue
                        if isinstance(cur, (SInt, int)) and not isinstance(cur, bool):
                            keys[k] = 'int'; redo = True
                        elif isinstance(cur, (Term, float)):
                            keys[k] = 'term'; redo = True
                        else:
                            keys[k] = 'obj'; redo = True
                for k in list(keys):
                    e = ends.get(k[1]) if k[0] == 'loc' else attrs.get(k, ph.get(k))
                    if keys[k] == 'int' and isinstance(e, (Term, float)):
                        keys[k] = 'term'; redo = True
            if not redo:
                break
        else:
            raise Unsupported('loop analysis does not converge')
        if not res:
            if not self.decide(mkbool(zlo < zhi)): return
            if guard is None: body(fn(z3.simplify(zlo)))           # the first iteration raises
            raise Unsupported('loop body always raises')
        # classification --------------------------------------------------------
        allph = {}
        for k, p in ph.items():
            if isinstance(p, SInt): allph[k] = p.e.decl().name()
            elif isinstance(p, SBool): allph[k] = p.e.decl().name()
            elif isinstance(p, Term): allph[k] = p.args[0]
        phnames = set(allph.values())
        cls = {}
        need_peel = False
        for k, kind in keys.items():
            v0 = self.key_get(k, saved)
            if kind == 'obj':
                vals = [attrs.get(k, v0) for _, _, attrs, _ in res]
                cls[k] = ('post', vals) 
                continue
            p = ph[k]
            es = []
            for conds, ends, attrs, recs in res:
                es.append((conds, ends.get(k[1], p) if k[0] == 'loc' else attrs.get(k, p)))
            if all(e is p for _, e in es):
                cls[k] = ('same',)
                continue
            read = id(p) in self.ph_read or any(self.mentions(e, {allph[k]}) for _, e in es)
            dep = [self.mentions(e, phnames) for _, e in es]
            if not read:
                cls[k] = ('temp', [e for _, e in es], [c for c, _ in es], [bool(d) for d in dep])
                continue
            if kind == 'int':
                deltas = []
                ok = True
                for c, e in es:
                    if e is p:
                        d = z3.IntVal(0)
                    elif isinstance(e, (int, SInt)):
                        d = z3.simplify(zi(e) - p.e, som=True)
                    else:
                        ok = False; break
                    deltas.append(d)
                if ok and all(not (zvars(d) & (phnames | {L.binder.name})) for d in deltas) and all(d.eq(deltas[0]) or self.prove(d == deltas[0]) for d in deltas):
                    cls[k] = ('counter', deltas[0])
                    continue
                if ok and all(allph[k] not in zvars(d) for d in deltas):
                    cls[k] = ('intsum?', deltas, [c for c, _ in es], dep)
                    continue
            if kind == 'term':
                adds = [split_op('add', C(e), allph[k]) if not (e is p) else C(0) for _, e in es]
                if all(a is not None for a in adds) and not any(self.mentions(a, phnames) for a in adds):
                    cls[k] = ('sum', adds, [c for c, _ in es]); continue
                muls = [split_op('mul', C(e), allph[k]) if not (e is p) else C(1) for _, e in es]
                if all(a is not None for a in muls) and not any(self.mentions(a, phnames) for a in muls):
                    cls[k] = ('prod', muls, [c for c, _ in es]); continue
            if not any(dep) and len(es) >= 1:
                # value is reset every iteration but read before: peel the first iteration
                cls[k] = ('reset', es)
                need_peel = True
                continue
            cls[k] = ('rec', es)
        const = [k for k, c in cls.items() if c[0] == 'reset' and k[0] == 'loc' and self.unchanging(self.key_get(k, saved), c[1])]
        if const:
            # every iteration leaves the value it started with: not carried at all
            old = getattr(self, '_fixed', None)
            self._fixed = (body, set(const) | (old[1] if old is not None and old[0] is body else set()))
            try: return self.generic(lo, hi, fn, body, env, names, peeled, guard, lsets)
            finally: self._fixed = old
        if any(c[0] == 'intsum?' for c in cls.values()):
            # an integer sum whose increment is not constant; may become constant after peeling
            if not need_peel or peeled:
                raise Unsupported('counter with a non-constant step')
        if need_peel:
            if guard is None and not lsets and peeled < 2 and self.prove(zlo < zhi):
                # iteration lo executed on its own, the rest generically
                body_ok = True
                try:
                    body(fn(mkint(zlo)))
                except ContinueEx:
                    pass
                return self.generic(mkint(zlo + 1), hi, fn, body, env, names, peeled + 1)
            # shifted value: i == lo ? v0 : end(i-1)
            for k, c in list(cls.items()):
                if c[0] == 'reset':
                    if len(c[1]) != 1:
                        raise Unsupported('loop-carried value with several cases')
                    cls[k] = ('shift', c[1][0][1])
        recs_ = [k for k, c in cls.items() if c[0] == 'rec']
        if recs_ and (lsets or guard is not None): raise Unsupported('value carried through a loop over a filtered sequence')
        if recs_:
            return self.lib.recurrence(self, lo, hi, L, fn, body, env, keys, ph, allph, cls, res, saved)
        if guard is not None and any(c[0] not in ('same', 'temp') for c in cls.values()): raise Unsupported('value carried through a loop over a filtered sequence')
        # real run ------------------------------------------------------------
        for l, n in lsets.values(): self.forget(l, n)
        v = fresh_int('k')
        L2 = Loop(Binder(v, lo, hi)); L2.guard = guard
        ren = [(L.binder.var, v)]
        L2.disc_appends = L.disc_appends
        L2.disc_entries = L.disc_entries
        L2.disc_binder = L.binder
        vals = {}
        for k, c in cls.items():
            v0 = self.key_get(k, saved)
            if c[0] in ('counter', 'sum', 'prod', 'shift') and id(v0) in self.ph_ids:
                self.ph_read.add(id(v0))
            if c[0] == 'counter':
                d = c[1]
                vals[k] = (mkint(zi(v0) + d * (v - zlo)),
                           mkint(zi(v0) + d * (zhi - zlo)) if self.prove(zhi >= zlo) else mkint(zi(v0) + d * z3.If(zhi > zlo, zhi - zlo, z3.IntVal(0))))
            elif c[0] == 'sum':
                def total(upto):
                    w = fresh_int('j')
                    body_t = merge_ite(c[1], c[2], C(0))
                    return mk('add', v0, Term('bigsum', (Big(Binder(w, lo, upto), TRUE, subst(body_t, [(L.binder.var, w)])),), body_t.rows, body_t.cols))
                vals[k] = (total(v), total(zhi))
            elif c[0] == 'prod':
                def totalp(upto):
                    w = fresh_int('j')
                    nontriv = [(a, cc) for a, cc in zip(c[1], c[2]) if not (a.op == 'c' and a.args[0] == 1)]
                    if len(nontriv) == 1:
                        a, cc = nontriv[0]
                        g = z3.And(*cc) if cc else TRUE
                    else:
                        a = merge_ite(c[1], c[2], C(1)); g = TRUE
                    t = Term('bigprod', (Big(Binder(w, lo, upto), subst(g, [(L.binder.var, w)]), subst(a, [(L.binder.var, w)])),), a.rows, a.cols)
                    if isinstance(v0, (int, float)) and v0 == 1 or isinstance(v0, Term) and v0.op == 'c' and v0.args[0] == 1:
                        return t
                    return mk('mul', v0, t)
                vals[k] = (totalp(v), totalp(zhi))
            elif c[0] == 'shift':
                e = c[1]
                if isinstance(e, (int, SInt)):
                    cur = mkint(z3.If(v == zlo, zi(v0), zi(subst(SInt(zi(e)), [(L.binder.var, v - 1)]))))
                    post = subst(SInt(zi(e)), [(L.binder.var, zhi - 1)])
                    vals[k] = (cur, mkint(post.e))
                elif isinstance(e, Term):
                    vals[k] = (Term('ite', (v == zlo, C(v0), subst(e, [(L.binder.var, v - 1)])), e.rows, e.cols), subst(e, [(L.binder.var, zhi - 1)]))
                else:
                    raise Unsupported('loop-carried value')
            elif c[0] == 'same':
                vals[k] = (v0, v0)
        for k, (cur, post) in vals.items():
            self.key_put(k, cur, env)
        for k, c in cls.items():
            if c[0] == 'temp':
                if k[0] == 'loc':
                    env.vars[k[1]] = Poison('value of %s from a previous iteration' % k[1])
        res2 = self.run_variants(L2, body, fn, env, saved, wrap=True)
        # post state ------------------------------------------------------------
        for l, n in lsets.values(): self.forget(l, n)
        nonempty = guard is None and self.prove(zlo < zhi)
        env.vars.clear(); env.vars.update(saved)
        for k, (cur, post) in vals.items():
            self.key_put(k, post, env)
        last = [(L2.binder.var, z3.simplify(zhi - 1))]
        for n in names:
            k = ('loc', n)
            if k in vals:
                continue
            cand = []
            for conds, ends, attrs, recs in res2:
                if n in ends:
                    cand.append((conds, ends[n]))
            if not cand:
                continue
            if not nonempty:
                if guard is None and n in saved and isinstance(saved[n], (Term, SInt, int, float)) and not isinstance(saved[n], bool):
                    lv = self.last_value(cand, last, n)
                    if isinstance(lv, (int, SInt)) and not isinstance(lv, bool) and isinstance(saved[n], (int, SInt)):
                        env.vars[n] = mkint(z3.If(zlo < zhi, zi(lv), zi(saved[n]))); continue
                    if isinstance(lv, Term) and isinstance(saved[n], Term) or isinstance(lv, (Term, int, float)) and isinstance(saved[n], (int, float)) and not isinstance(lv, bool):
                        lt, st0 = C(lv), C(saved[n])
                        env.vars[n] = Term('ite', (zlo < zhi, lt, st0), lt.rows, lt.cols); continue
                if k in cls and cls[k][0] == 'temp' or n not in saved or n in saved:
                    env.vars[n] = Poison('%s is undefined if the loop does not execute' % n) if n not in saved or (k in cls) else saved[n]
                    if n in saved and k not in cls:
                        # object variable: unchanged?
                        if not all(x is saved[n] for _, x in cand):
                            env.vars[n] = Poison(n)
                continue
            env.vars[n] = self.last_value(cand, last, n)
        for k, c in cls.items():
            if c[0] == 'post':
                cand = []
                for conds, ends, attrs, recs in res2:
                    cand.append((conds, attrs.get(k, self.key_get(k, saved))))
                if not nonempty:
                    raise Unsupported('attribute assigned in a possibly empty loop')
                self.key_put(k, self.last_value(cand, last, str(k[2])), env)
            elif c[0] == 'temp' and k[0] != 'loc':
                cand = [(conds, attrs.get(k, self.key_get(k, saved))) for conds, ends, attrs, recs in res2]
                if not nonempty:
                    raise Unsupported('attribute assigned in a possibly empty loop')
                self.key_put(k, self.last_value(cand, last, str(k[2])), env)

    def forget(self, lst, n):
        """the element assigned by earlier iterations is unknown: reading it stays undecided"""
        old = lst.segs[n]
        def undo(): lst.segs[n] = old
        self.journal.append(('lset', lst, n, undo))
        lst.segs[n] = E(Poison('list element assigned in a previous iteration'))

    def unchanging(self, v0, es):
        if isinstance(v0, bool) or not isinstance(v0, (int, SInt)): return False
        return all(isinstance(e, (int, SInt)) and not isinstance(e, bool) and self.prove(zi(e) == zi(v0)) for _, e in es)
    def last_value(self, cand, last, n):
        live = []
        for conds, val in cand:
            cs = [subst(c, last) for c in conds]
            if smt.check(self.facts() + cs) != 'unsat':
                live.append((cs, val))
        if len(live) == 1 or (live and all(x[1] is live[0][1] for x in live)):
            v = live[0][1]
            if isinstance(v, (Term, SInt, SBool, PList, tuple)):
                try:
                    return self.inst(v, last)
                except Unsupported as ex:
                    return Poison(str(ex))
            if isinstance(v, (int, float, str, bool, PObj, PDict, PFunc, LibFn)) or v is None:
                return v
            try:
                return self.inst(v, last)
            except Unsupported as ex:
                return Poison(str(ex))
        if live and all(isinstance(x[1], (int, SInt)) and not isinstance(x[1], bool) for x in live):
            e = zi(self.inst(live[-1][1], last))
            for cs, val in reversed(live[:-1]):
                e = z3.If(z3.And(*cs) if cs else TRUE, zi(self.inst(val, last)), e)
            return mkint(e)
        if live and all(isinstance(x[1], Term) for x in live):
            e = subst(live[-1][1], last)
            for cs, val in reversed(live[:-1]):
                e = Term('ite', (z3.And(*cs) if cs else TRUE, subst(val, last), e), e.rows, e.cols)
            return e
        return Poison('value of %s after the loop' % n)

    def mentions(self, e, phnames):
        if isinstance(e, (Term, SInt, SBool, tuple, list)) or is_z(e):
            if tvars(e) & phnames:
                return True
            return any(has_sym(e, p) for p in phnames)
        if isinstance(e, PList):
            return self.mentions(e.segs, phnames)
        return False

    def key_get(self, k, saved):
        if k[0] == 'loc': return saved.get(k[1])
        if k[0] == 'attr': return k[1].attrs.get(k[2])
        return k[1].d.get(k[2])
    def key_put(self, k, v, env):
        if k[0] == 'loc': env.vars[k[1]] = v
        elif k[0] == 'attr': self.jset_attr(k[1], k[2], v)
        else: self.jset_dict(k[1], k[2], v)
    def put_placeholders(self, keys, env, ph, phn, L):
        for k, kind in keys.items():
            if kind == 'int':
                p = SInt(fresh_int('ph_' + str(k[-1])))
                L.names.add(p.e.decl().name())
            elif kind == 'term':
                t0 = self.key_get(k, env.vars)
                n = 'ph_%s!%d' % (k[-1], newid())
                r, cc = (t0.rows, t0.cols) if isinstance(t0, Term) else (None, None)
                p = Term('sym', (n,), None, None)
            elif kind == 'bool':
                p = SBool(z3.Bool('ph_%s!%d' % (k[-1], newid())))
                L.names.add(p.e.decl().name())
            else:
                continue
            ph[k] = p
            self.ph_ids[id(p)] = p
            if k[0] == 'loc':
                env.vars[k[1]] = p
            elif k[0] == 'attr':
                phn[k] = k[1].attrs.get(k[2]); k[1].attrs[k[2]] = p
            else:
                phn[k] = k[1].d.get(k[2]); k[1].d[k[2]] = p
        self._phn = phn
        for k, v in phn.items():
            ph[('old', k)] = v
    def remove_placeholders(self, keys, ph, env, saved):
        for k, kind in keys.items():
            o = ('old', k)
            if o in ph:
                v = ph.pop(o)
                if k[0] == 'attr': k[1].attrs[k[2]] = v
                else: k[1].d[k[2]] = v
        env.vars.clear(); env.vars.update(saved)

    # ------------------------------------------------------------- journalled mutation
    def jset_attr(self, o, name, v):
        had = name in o.attrs
        old = o.attrs.get(name)
        def undo():
            if had: o.attrs[name] = old
            else: o.attrs.pop(name, None)
        self.journal.append(('attr', o, name, undo))
        o.attrs[name] = v
    def jset_dict(self, o, k, v, delete=False):
        k = self.hashable(k)
        had = k in o.d
        old = o.d.get(k)
        items = None
        if delete:
            if not had:
                raise PyEx('KeyError', (k,))
            items = dict(o.d)
        def undo():
            if items is not None: o.d.clear(); o.d.update(items)
            elif had: o.d[k] = old
            else: o.d.pop(k, None)
        self.journal.append(('dict', o, k, undo))
        if delete: del o.d[k]
        else: o.d[k] = v
    def append_seg(self, lst, seg):
        self.journal.append(('append', lst, None, None))
        lst.segs.append(seg)
    def log_write(self, obj, entry):
        self.journal.append(('wr', obj, entry, None))
        obj.log.append(entry)
    def hashable(self, k):
        if isinstance(k, (str, int, float, tuple, SStr)) or k is None:
            return k
        if isinstance(k, (PFunc, PObj, PClass, LibType)):
            return k
        raise Unsupported('symbolic dictionary key %r' % (k,))

    def resolve(self, obj, name, q, default):
        """read of a logged object at index q (list of ints/z3)"""
        log = obj.log
        q = [zi(x) for x in q]
        hit = None
        for e in reversed(log):
            if e.name != name or len(e.idx) != len(q):
                continue
            own = not any(b.name == L.binder.name for b in e.binders for L in self.loops if L.binder is not None)
            r = self.match_entry(e, q)
            if r is None:
                continue
            cond, pr, unique = r
            dec = None
            c = z3.simplify(cond)
            if z3.is_false(c):
                continue
            F = self.facts()
            if not own:
                # written by other iterations of an active loop: must not be visible
                if smt.check(F + [c]) == 'unsat':
                    continue
                raise Unsupported('loop-carried read of %s' % name)
            if z3.is_true(c):
                dec = True
            elif smt.check(F + [c]) == 'unsat':
                continue
            elif smt.check(F + [z3.Not(c)]) == 'unsat':
                dec = True
            else:
                dec = self.decide(SBool(c))
            if not dec:
                continue
            if not unique:
                self.check_unique(obj, e, q, pr)
            hit = (e, pr)
            break
        # effects of other iterations that are not in the log yet
        for L in self.loops:
            for e in getattr(L, 'disc_entries', {}).get(obj.id, []):
                if e.name != name or len(e.idx) != len(q):
                    continue
                if hit is not None and not any(b.name == x.binder.name for b in hit[0].binders for x in self.loops if x.binder is not None) and self.written_since(obj, hit[0], L):
                    continue
                if self.quiet and not hasattr(L, 'disc_binder'):
                    continue
                ren = [(b.var, fresh_int('o')) for b in e.binders]
                bs = [Binder(nv, subst(zi(b.lo), ren), subst(zi(b.hi), ren)) for b, (_, nv) in zip(e.binders, ren)]
                conds = [b.rng() for b in bs] + [subst(e.guard, ren)] + [x == subst(zi(y), ren) for x, y in zip(q, e.idx)]
                if hasattr(L, 'disc_binder'):
                    for b, (_, nv) in zip(e.binders, ren):
                        if b.name == L.disc_binder.name:
                            conds.append(nv < L.binder.var)
                if smt.check(self.facts() + conds) != 'unsat':
                    raise Unsupported('loop-carried read of %s' % name)
        if hit is not None:
            e, pr = hit
            v = e.value
            if callable(v):
                return v(pr)
            return self.inst(v, pr)
        return default(q)

    def written_since(self, obj, entry, L):
        """entry was written in the current iteration of L"""
        return entry.birth > L.born and not any(b.name == L.binder.name for b in entry.binders)

    def match_entry(self, e, q):
        """condition under which entry e covers index q, with instantiation of its binders"""
        ren = []
        bs = []
        for b in e.binders:
            nv = fresh_int('m')
            ren.append((b.var, nv))
        for b, (_, nv) in zip(e.binders, ren):
            bs.append(Binder(nv, subst(zi(b.lo), ren), subst(zi(b.hi), ren)))
        idx = [subst(zi(x), ren) for x in e.idx]
        guard = subst(e.guard, ren)
        pairs = []
        solved = set()
        bn = {b.name: b for b in bs}
        unique = True
        prog = True
        used = set()
        while prog and len(solved) < len(bs):
            prog = False
            for i, (p, x) in enumerate(zip(idx, q)):
                p2 = subst(p, pairs) if pairs else p
                vs = [n for n in zvars(p2) if n in bn and n not in solved]
                if len(vs) == 1:
                    from .nf import solve_lin
                    s = solve_lin(p2, bn[vs[0]].var, x)
                    if s is not None:
                        pairs = [(a, subst(b_, [(bn[vs[0]].var, s)])) for a, b_ in pairs] + [(bn[vs[0]].var, s)]
                        solved.add(vs[0]); prog = True
        if len(solved) < len(bs):
            # syntactic matching for products such as n*s + b
            unsolved = {n for n in bn if n not in solved}
            m = {}
            ok = True
            for p, x in zip(idx, q):
                p2 = subst(p, pairs) if pairs else p
                if zvars(p2) & unsolved:
                    mm = ast_match(z3.simplify(p2), z3.simplify(x), unsolved, m)
                    if not mm:
                        ok = False; break
            if not ok or set(m) != unsolved:
                # an entry whose match cannot be decided
                cond = z3.And(*([b.rng() for b in bs] + [guard] + [a == c for a, c in zip(idx, q)]))
                if smt.check(self.facts() + [cond]) == 'unsat':
                    return None
                raise Unsupported('array read cannot be resolved')
            ps2 = [(bn[n].var, ex) for n, ex in m.items()]
            pairs = [(a, subst(b_, ps2)) for a, b_ in pairs] + ps2
            unique = False
        conds = [subst(b.rng(), pairs) for b in bs] + [subst(guard, pairs)] + [x == subst(p, pairs) for p, x in zip(idx, q)]
        back = {nv.decl().name(): ov for ov, nv in ren}
        inst = [(back[v.decl().name()], s) for v, s in pairs]
        return z3.And(*conds), inst, unique

    def check_unique(self, obj, e, q, inst):
        """all instances of e that hit q store the same value"""
        ren = [(b.var, fresh_int('w')) for b in e.binders]
        conds = [subst(b.rng(), ren) for b in e.binders] + [subst(e.guard, ren)] + [x == subst(zi(y), ren) for x, y in zip(q, e.idx)]
        v1 = self.inst(e.value, inst)
        v2 = self.inst(e.value, ren)
        hints = self.lib.nonlinear_hints(self, e, q, ren, inst)
        if isinstance(v1, (int, SInt)):
            goal = zi(v1) == zi(v2)
            if smt.prove(self.facts() + conds + hints, goal) is True:
                return
        raise Unsupported('array value not uniquely determined')

    # ------------------------------------------------------------- assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), [isinstance(x, ast.Starred) for x in t.elts])
            for x, y in zip(t.elts, vals):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev_slice(t.slice, env), v)
        else:
            raise Unsupported('assignment target')
    def unpack(self, v, n, stars):
        if isinstance(v, tuple):
            xs = list(v)
        elif isinstance(v, PList):
            xs = v.elems()
        elif isinstance(v, str):
            xs = list(v)
        else:
            xs = self.lib.unpack(self, v, n)
        if any(stars):
            i = stars.index(True)
            k = len(xs) - (n - 1)
            return xs[:i] + [PList(elems=xs[i:i+k])] + xs[i+k:]
        if len(xs) != n:
            raise PyEx('ValueError', ('unpack',))
        return xs

    # ------------------------------------------------------------- expressions
    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars and not (e.cls is not None and e is not env):
                v = e.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                if id(v) in self.ph_ids:
                    self.ph_read.add(id(v))
                return v
            e = e.parent
        if name in env.module.ns:
            v = env.module.ns[name]
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        v = self.lib.builtin(self, name)
        if v is NotImplemented:
            if name in ('quit',):
                raise Unsupported(name)
            raise PyEx('NameError', (name,))
        return v

    def ev(self, n, env):
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, env)
    def ex_Constant(self, n, env): return n.value
    def ex_Name(self, n, env): return self.lookup(n.id, env)
    def ex_Tuple(self, n, env): return tuple(self.elist(n.elts, env))
    def elist(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                for s in self.segs_of(self.ev(x.value, env)):
                    if s.kind != 'e':
                        raise Unsupported('star of symbolic sequence')
                    out.append(s.val)
            else:
                out.append(self.ev(x, env))
        return out
    def ex_List(self, n, env):
        segs = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                segs += self.segs_of(self.ev(x.value, env))
            else:
                segs.append(E(self.ev(x, env)))
        return PList(segs)
    def ex_Set(self, n, env): return PSet(self.elist(n.elts, env))
    def ex_Dict(self, n, env):
        d = PDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v, env)
                if not isinstance(o, PDict):
                    raise Unsupported('dict unpack')
                d.d.update(o.d)
            else:
                d.d[self.hashable(self.ev(k, env))] = self.ev(v, env)
        return d
    def segs_of(self, v):
        if isinstance(v, PList): return list(v.segs)
        if isinstance(v, tuple): return [E(x) for x in v]
        if isinstance(v, Rng) or isinstance(v, list):
            out = []
            for c in self.chunks(v):
                if c[0] == 'one': out.append(E(c[1]))
                elif c[0] == 'gg':
                    w = fresh_int('l')
                    out.append(Seg('r', b=Binder(w, c[1], c[2]), guard=c[4](SInt(w)), segs=[E(c[3](SInt(w)))]))
                else:
                    w = fresh_int('l')
                    out.append(Seg('r', b=Binder(w, c[1], c[2]), guard=TRUE, segs=[E(c[3](SInt(w)))]))
            return out
        if isinstance(v, PDict): return [E(k) for k in v.d]
        if isinstance(v, PSet): return [E(k) for k in v.s]
        if isinstance(v, str): return [E(k) for k in v]
        r = self.lib.segs_of(self, v)
        if r is None:
            raise Unsupported('not a sequence: %s' % type(v).__name__)
        return r
    def length(self, v):
        if isinstance(v, (tuple, str)): return len(v)
        if isinstance(v, PDict): return len(v.d)
        if isinstance(v, PSet): return len(v.s)
        if isinstance(v, PList):
            for L in self.loops:
                if v.id in L.disc_appends:
                    raise Unsupported('length of a list that grows in the loop')
            return mkint(self.seglen(v.segs))
        if isinstance(v, Rng):
            return mkint(z3.If(zi(v.hi) > zi(v.lo), zi(v.hi) - zi(v.lo), z3.IntVal(0)))
        return self.lib.length(self, v)
    def seglen(self, segs):
        n = z3.IntVal(0)
        for s in segs:
            if s.kind == 'e': n = n + 1
            else:
                inner = z3.simplify(self.seglen(s.segs))
                if s.b.name in zvars(inner) or not z3.is_true(z3.simplify(s.guard)):
                    raise Unsupported('length of irregular sequence')
                w = zi(s.b.hi) - zi(s.b.lo)
                if not self.prove(w >= 0):
                    w = z3.If(w > 0, w, z3.IntVal(0))
                n = n + w * inner
        return n
    def ex_Lambda(self, n, env): return self.make_func(n, env)
    def ex_IfExp(self, n, env):
        t = self.truth(self.ev(n.test, env))
        if isinstance(t, bool):
            return self.ev(n.body if t else n.orelse, env)
        F = self.facts()
        if smt.check(F + [t.e]) == 'unsat': return self.ev(n.orelse, env)
        if smt.check(F + [z3.Not(t.e)]) == 'unsat': return self.ev(n.body, env)
        # integer-valued conditional expressions stay symbolic
        def attempt(x, cond):
            L = Loop(None); L.names = None; L.prefix = []; L.conds = [cond]
            self.loops.append(L); mark = len(self.journal); no = len(self.obligations)
            r = None
            try: r = self.ev(x, env)
            except (PyEx, Unsupported): r = None
            finally: self.loops.pop()
            if L.pending or len(self.journal) != mark or not isinstance(r, (int, SInt)):
                self.undo(mark); del self.obligations[no:]; return None
            return r
        a = attempt(n.body, t.e)
        b = attempt(n.orelse, z3.Not(t.e)) if a is not None else None
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)) and not isinstance(a, bool) and not isinstance(b, bool):
            return mkint(z3.If(t.e, zi(a), zi(b)))
        return self.ev(n.body, env) if self.decide(t) else self.ev(n.orelse, env)
    def ex_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, env)
            if i == len(n.values) - 1:
                return v
            d = self.decide(v)
            if isand and not d: return v if isinstance(v, (bool, int, str)) or v is None else False
            if not isand and d: return v if not isinstance(v, SBool) else True
        return v
    def ex_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else mkbool(z3.Not(t.e))
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)): return -v
            if isinstance(v, SInt): return mkint(-v.e)
            return self.binop(ast.Mult(), -1, v) if not isinstance(v, Term) else mk('neg', v)
        if isinstance(n.op, ast.UAdd): return v
        raise Unsupported('unary op')
    def ex_BinOp(self, n, env):
        return self.binop(n.op, self.ev(n.left, env), self.ev(n.right, env))
    def ex_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        env.vars[n.target.id] = v
        return v
    def ex_JoinedStr(self, n, env):
        out = ''
        for v in n.values:
            if isinstance(v, ast.Constant): out = sstr(str_parts(out) + str_parts(v.value))
            else:
                x = self.ev(v.value, env)
                spec = ''
                if v.format_spec is not None:
                    spec = self.ex_JoinedStr(v.format_spec, env)
                if v.conversion not in (-1, 115): raise Unsupported('conversion in a format string')
                if isinstance(x, (str, int, float)) and isinstance(spec, str): x = format(x, spec)
                elif isinstance(x, SInt) and isinstance(spec, str) and re.fullmatch('0[0-9]+d', spec): x = SStr(parts=[('z', x.e, int(spec[1:-1]))])
                elif isinstance(x, SInt) and spec == 'd': pass
                elif spec: x = SStr('fmt:%s:%r' % (spec, x))
                out = sstr(str_parts(out) + str_parts(x))
        return out
    def ex_FormattedValue(self, n, env):
        return self.ex_JoinedStr(ast.JoinedStr(values=[n]), env)
    def ex_Starred(self, n, env): raise Unsupported('starred')
    def ex_ListComp(self, n, env): return self.comp(n, env, lambda e: self.ev(n.elt, e))
    def ex_GeneratorExp(self, n, env): return self.comp(n, env, lambda e: self.ev(n.elt, e))
    def ex_SetComp(self, n, env):
        l = self.comp(n, env, lambda e: self.ev(n.elt, e))
        return PSet(l.elems())
    def ex_DictComp(self, n, env):
        l = self.comp(n, env, lambda e: (self.ev(n.key, e), self.ev(n.value, e)))
        d = PDict()
        for k, v in l.elems():
            d.d[self.hashable(k)] = v
        return d
    def comp(self, n, env, elt):
        out = PList([])
        cenv = Env(env, env.module)
        def rec(i):
            if i == len(n.generators):
                self.append_seg(out, E(elt(cenv)))
                return
            g = n.generators[i]
            it = self.ev(g.iter, cenv if i else env)
            names = stored_names([g.target])
            for gg in n.generators[i:]:
                names |= stored_names([gg.target])
            def body(val):
                self.assign(g.target, val, cenv)
                for c in g.ifs:
                    if not self.decide(self.ev(c, cenv)):
                        return
                rec(i + 1)
            self.iterate(self.chunks(it), body, cenv, names)
        rec(0)
        return out

    def ex_Compare(self, n, env):
        left = self.ev(n.left, env)
        res = True
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, env)
            v = self.compare(op, left, right)
            if len(n.ops) == 1:
                return v
            if isinstance(v, bool):
                if not v: return False
            else:
                res = mkbool(z3.And(zb(res), zb(v)))
            left = right
        return res
    def compare(self, op, a, b):
        if isinstance(op, ast.Is): return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            r = self.is_(a, b)
            return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.In): return r
            return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))
        for x in (a, b):
            if id(x) in self.ph_ids: self.ph_read.add(id(x))
        if isinstance(a, (int, SInt, bool)) and isinstance(b, (int, SInt, bool)):
            if not isinstance(a, SInt) and not isinstance(b, SInt):
                return pycmp(op, a, b)
            x, y = zi(a), zi(b)
            e = {ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y, ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y,
                 ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()
            return mkbool(e)
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            e = zb(a) == zb(b)
            if isinstance(op, ast.Eq): return mkbool(e)
            if isinstance(op, ast.NotEq): return mkbool(z3.Not(e))
        r = self.lib.compare(self, op, a, b)
        if r is not NotImplemented:
            return r
        plain = (int, float, str, bool, type(None))
        if isinstance(a, plain) and isinstance(b, plain):
            return pycmp(op, a, b)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b)
            if isinstance(op, ast.Eq): return r
            return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))
        if isinstance(a, Term) or isinstance(b, Term):
            return SBool(z3.Bool('cmp:%s:%s:%s' % (type(op).__name__, show(a), show(b))))
        raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))
    def equal(self, a, b):
        if a is b: return True
        if isinstance(a, SStr) or isinstance(b, SStr):
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                e = str_eq(a, b, self.prove)
                if e is not None: return e if isinstance(e, bool) else mkbool(e)
                x, y = sorted([str(a), str(b)])
                return SBool(z3.Bool('streq:%s:%s' % (x, y)))
            return False
        if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)):
            if type(a) != type(b): return False
            xs, ys = (list(v) if isinstance(v, tuple) else v.elems() for v in (a, b))
            if len(xs) != len(ys): return False
            r = True
            for x, y in zip(xs, ys):
                e = self.compare(ast.Eq(), x, y)
                if isinstance(e, bool):
                    if not e: return False
                else:
                    r = mkbool(z3.And(zb(r), e.e))
            return r
        if isinstance(a, Term) or isinstance(b, Term):
            if isinstance(a, Term) and isinstance(b, Term) and a.op == 'c' and b.op == 'c':
                return a.args[0] == b.args[0]
            x, y = sorted([show(a), show(b)])
            if x == y: return True
            return SBool(z3.Bool('eq:%s:%s' % (x, y)))
        if isinstance(a, (PClass, LibType, LibMod, PObj, PFunc)) or isinstance(b, (PClass, LibType, LibMod, PObj, PFunc)):
            if isinstance(a, LibType) and isinstance(b, LibType): return a.name == b.name
            return a is b
        if a is None or b is None: return False
        if type(a) != type(b): return False
        if type(a).__name__ == 'LibFn' and (a is b or a.name != b.name): return a is b
        raise Unsupported('equality of %s' % type(a).__name__)
    def is_(self, a, b):
        if a is None or b is None:
            for x in (a, b):
                if isinstance(x, SMaybe): return mkbool(z3.Not(x.present))
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)): return mkbool(zb(a) == zb(b))
            return False
        if isinstance(a, LibType) and isinstance(b, LibType): return a.name == b.name
        return a is b
    def contains(self, c, x):
        h = self.lib.hooks.get('contains')
        if h is not None:
            r = h(self, c, x)
            if r is not NotImplemented: return r
        if isinstance(c, PList) and not c.concrete() and 'members' in self.lib.hooks:
            return self.lib.hooks['members'](self, c, x)
        if isinstance(c, (tuple, PList, PSet)):
            xs = list(c) if isinstance(c, tuple) else c.s if isinstance(c, PSet) else c.elems()
            r = False
            for y in xs:
                e = self.compare(ast.Eq(), x, y)
                if e is True: return True
                if not isinstance(e, bool):
                    r = mkbool(z3.Or(zb(r), e.e))
            return r
        if isinstance(c, PDict):
            if isinstance(x, SStr) or isinstance(x, str) and x not in c.d and any(isinstance(y, SStr) for y in c.d):
                return self.contains(tuple(c.d), x)
            try:
                return x in c.d
            except TypeError:
                raise Unsupported('in')
        if isinstance(c, str) and isinstance(x, str): return x in c
        r = self.lib.contains(self, c, x)
        if r is NotImplemented:
            raise Unsupported('in %s' % type(c).__name__)
        return r

    def binop(self, op, a, b):
        for x in (a, b):
            if id(x) in self.ph_ids: self.ph_read.add(id(x))
            if isinstance(x, Poison): raise Unsupported(x.why)
        r = self.lib.binop(self, op, a, b)
        if r is not NotImplemented:
            return r
        o = type(op)
        if isinstance(a, (int, SInt, bool)) and isinstance(b, (int, SInt, bool)) and (isinstance(a, SInt) or isinstance(b, SInt)):
            x, y = zi(a), zi(b)
            if o is ast.Add: return mkint(x + y)
            if o is ast.Sub: return mkint(x - y)
            if o is ast.Mult: return mkint(x * y)
            if o in (ast.FloorDiv, ast.Mod):
                self.pow_lemma(x, y)
                if not self.prove(y > 0):
                    if not self.quiet:
                        raise Unsupported('division by a possibly non-positive integer')
                return mkint(x / y) if o is ast.FloorDiv else mkint(x % y)
            if o is ast.Pow: return self.ipow(x, y)
            if o is ast.Div: return mk('div', C(a), C(b))
            raise Unsupported('int op')
        if isinstance(a, Term) or isinstance(b, Term):
            return self.termop(o, a, b)
        if isinstance(a, (int, float, bool)) and isinstance(b, (int, float, bool)):
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
                    ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b}[o]()
        if isinstance(a, (SInt,)) and isinstance(b, float) or isinstance(b, SInt) and isinstance(a, float):
            return self.termop(o, a, b)
        if isinstance(a, str) and isinstance(b, str) and o is ast.Add: return a + b
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and o is ast.Add: return sstr(str_parts(a) + str_parts(b))
        if isinstance(a, str) and o is ast.Mod: return SStr('fmt') if not isinstance(b, (str, int)) else a % b
        if isinstance(a, str) and o is ast.Mult: return a * b
        if isinstance(a, tuple) and isinstance(b, tuple) and o is ast.Add: return a + b
        if isinstance(a, PList) and isinstance(b, PList) and o is ast.Add: return PList(list(a.segs) + list(b.segs))
        if isinstance(a, PList) and o is ast.Mult or isinstance(b, PList) and o is ast.Mult:
            l, n = (a, b) if isinstance(a, PList) else (b, a)
            if isinstance(n, int): return PList(list(l.segs) * n)
            w = fresh_int('l')
            return PList([Seg('r', b=Binder(w, 0, n), guard=TRUE, segs=list(l.segs))])
        if isinstance(a, tuple) and o is ast.Mult and isinstance(b, int): return a * b
        raise Unsupported('operator %s on %s and %s' % (o.__name__, type(a).__name__, type(b).__name__))

    def termop(self, o, a, b):
        m = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.Pow: 'pow', ast.MatMult: 'matmul'}.get(o)
        if m is None:
            raise Unsupported('operator %s on terms' % o.__name__)
        return mk(m, C(a), C(b))

    def pow_lemma(self, x, y):
        """powers of one base: x**a == x**b * x**(a-b) for a >= b >= 0, x >= 1 (lemma 'pow-add'), so the quotient is exact"""
        P = [p for e in (x, y) for p in pow_apps(e)]
        for p in P:
            for q in P:
                if p is q or not p.arg(0).eq(q.arg(0)) or p.eq(q): continue
                b, e1, e2 = p.arg(0), p.arg(1), q.arg(1)
                d = POW(b, e1 - e2)
                self.assume(z3.Implies(z3.And(b >= 1, e2 >= 0, e1 >= e2), z3.And(p == q * d, d >= 1, p / q == d, p >= 1, q >= 1)))
        for p in P:
            self.assume(z3.Implies(p.arg(0) >= 1, p >= 1))

    def ipow(self, x, y):
        """integer power: uninterpreted with the facts 0 <= y -> x**0 = 1, x >= 1 -> x**y >= 1"""
        y = z3.simplify(y)
        if z3.is_int_value(y):
            n = y.as_long()
            r = z3.IntVal(1)
            for _ in range(n): r = r * x
            return mkint(r)
        if not self.prove(y >= 0):
            raise Unsupported('integer power with possibly negative exponent')
        return self.lib.ipow(self, x, y)

    # ------------------------------------------------------------- attributes
    def ex_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr)
    def getattr(self, o, name, default=NotImplemented):
        if isinstance(o, Poison): raise Unsupported(o.why)
        if isinstance(o, PObj) and isinstance(o.cls, PClass):
            c = o.cls.lookup(name)
            if isinstance(c, PProp):
                return self.call(PBound(c.fget, o), [], {})
            if isinstance(c, PObj) and isinstance(c.cls, PClass) and c.cls.lookup('__get__') is not None:
                return self.call(PBound(c.cls.lookup('__get__'), c), [o, o.cls], {})
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison): raise Unsupported(v.why)
                if id(v) in self.ph_ids: self.ph_read.add(id(v))
                return v
            if name == '__dict__':
                d = PDict(); d.d = o.attrs
                return d
            if name == '__class__': return o.cls
            if c is not None:
                return self.bind(c, o)
            r = self.lib.obj_attr(self, o, name)
            if r is not NotImplemented: return r
            if default is not NotImplemented: return default
            raise PyEx('AttributeError', ('%s.%s' % (o.cls.name, name),))
        if isinstance(o, PObj):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison): raise Unsupported(v.why)
                if id(v) in self.ph_ids: self.ph_read.add(id(v))
                return v
            r = self.lib.obj_attr(self, o, name)
            if r is not NotImplemented: return r
            if default is not NotImplemented: return default
            if getattr(o, 'closed', False): raise PyEx('AttributeError', (name,))
            raise Unsupported('attribute %s of %r' % (name, o))
        if isinstance(o, PClass):
            c = o.lookup(name)
            if name == '__name__': return o.name
            if c is None:
                raise PyEx('AttributeError', (name,))
            if isinstance(c, tuple) and c[0] == 'static': return c[1]
            return c
        if isinstance(o, LibMod):
            return self.mod_attr(o, name)
        if isinstance(o, Super):
            mro = o.obj.cls.mro()
            i = mro.index(o.cls)
            for c in mro[i+1:]:
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, PProp): return self.call(PBound(v.fget, o.obj), [], {})
                    return self.bind(v, o.obj)
            if name in ('__init__', '__init_subclass__'): return LibFn('object.__init__', lambda it, a, k: None)
            raise PyEx('AttributeError', (name,))
        if isinstance(o, PFunc):
            if name == '__doc__': return None
            if name == '__name__': return o.node.name
            if name == '__code__':
                ob = PObj(LibType('code'))
                a = o.node.args
                ob.attrs = {'co_argcount': len(a.args) + len(getattr(a, 'posonlyargs', [])), 'co_varnames': tuple(x.arg for x in a.args)}
                return ob
        r = self.lib.getattr(self, o, name)
        if r is NotImplemented:
            if default is not NotImplemented: return default
            real = list if isinstance(o, PList) else type(o) if type(o) in (str, int, float, bool, tuple, type(None)) else None
            if real is not None and not hasattr(real, name): raise PyEx('AttributeError', (name,))
            raise Unsupported('attribute %s of %s' % (name, type(o).__name__))
        return r
    def bind(self, c, o):
        if isinstance(c, PFunc): return PBound(c, o)
        if isinstance(c, tuple) and c[0] == 'static': return c[1]
        if isinstance(c, tuple) and c[0] == 'classm': return PBound(c[1], o.cls)
        if isinstance(c, Poison): raise Unsupported(c.why)
        return c
    def setattr(self, o, name, v):
        if isinstance(o, PObj):
            if isinstance(o.cls, PClass):
                c = o.cls.lookup(name)
                if isinstance(c, PProp):
                    if c.fset is None: raise PyEx('AttributeError', (name,))
                    return self.call(PBound(c.fset, o), [v], {})
                sa = o.cls.lookup('__setattr__')
                if sa is not None:
                    return self.call(PBound(sa, o), [name, v], {})
            self.jset_attr(o, name, v)
            return
        if self.lib.setattr(self, o, name, v) is NotImplemented:
            raise Unsupported('attribute assignment on %s' % type(o).__name__)

    # ------------------------------------------------------------- subscripts
    def ev_slice(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, env)
            return Slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_slice(x, env) for x in s.elts)
        return self.ev(s, env)
    def ex_Slice(self, s, env): return self.ev_slice(s, env)
    def ex_Subscript(self, n, env):
        o = self.ev(n.value, env)
        return self.getitem(o, self.ev_slice(n.slice, env))
    def getitem(self, o, k):
        if isinstance(o, Poison): raise Unsupported(o.why)
        if isinstance(o, PDict):
            if isinstance(k, SStr):
                for kk in o.d:
                    if kk == k: return o.d[kk]
                for kk in list(o.d):
                    if self.decide(self.equal(k, kk)): return o.d[kk]
                raise PyEx('KeyError', (k,))
            k = self.hashable(k)
            if k not in o.d:
                if isinstance(k, str):
                    for kk in list(o.d):
                        if isinstance(kk, SStr) and self.decide(self.equal(k, kk)): return o.d[kk]
                raise PyEx('KeyError', (k,))
            v = o.d[k]
            if isinstance(v, Poison): raise Unsupported(v.why)
            if id(v) in self.ph_ids: self.ph_read.add(id(v))
            return v
        if isinstance(o, tuple):
            if isinstance(k, int):
                if not -len(o) <= k < len(o): raise PyEx('IndexError')
                return o[k]
            if isinstance(k, Slice) and all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
                return o[slice(k.lo, k.hi, k.step)]
        if isinstance(o, str):
            if isinstance(k, int): return o[k]
            if isinstance(k, Slice): return o[slice(k.lo, k.hi, k.step)]
        if isinstance(o, PList):
            for L in self.loops:
                if o.id in L.disc_appends: raise Unsupported('read of a list that grows in the loop')
            return self.list_get(o, k)
        if isinstance(o, PObj) and isinstance(o.cls, PClass):
            f = o.cls.lookup('__getitem__')
            if f is not None: return self.call(PBound(f, o), [k], {})
        r = self.lib.getitem(self, o, k)
        if r is NotImplemented:
            raise Unsupported('subscript of %s' % type(o).__name__)
        return r
    def norm_slice(self, k, n):
        """slice bounds normalised against length n -> (lo, hi) z3/ints, python semantics"""
        zn = zi(n)
        def nrm(x, d):
            if x is None: return zi(d)
            x = zi(x)
            if z3.is_int_value(x):
                c = x.as_long()
                if c < 0:
                    e = zn + c
                    return e if self.prove(e >= 0) else z3.If(e < 0, z3.IntVal(0), e)
                return x if self.prove(x <= zn) else z3.If(x > zn, zn, x)
            if self.prove(z3.And(0 <= x, x <= zn)): return x
            e = z3.If(x < 0, z3.If(zn + x < 0, z3.IntVal(0), zn + x), z3.If(x > zn, zn, x))
            return e
        lo, hi = nrm(k.lo, 0), nrm(k.hi, n)
        if not self.prove(lo <= hi):
            hi = z3.If(hi < lo, lo, hi)
        return z3.simplify(lo), z3.simplify(hi)
    def norm_index(self, k, n, what='index'):
        """python index against length n, with in-bounds obligation"""
        zk, zn = zi(k), zi(n)
        if z3.is_int_value(zk) and zk.as_long() < 0:
            zk = z3.simplify(zn + zk)
        elif not z3.is_int_value(zk) and not self.prove(zk >= 0):
            if self.prove(zk < 0): zk = z3.simplify(zn + zk)
        if self.inbounds and not self.quiet:
            ok = smt.prove(self.facts(), z3.And(zk >= 0, zk < zn))
            if ok is not True and self.lib.hooks.get('bounds') is not None:
                ok = smt.prove(self.facts() + self.lib.hooks['bounds'](self, zk, zn), z3.And(zk >= 0, zk < zn))
            self.oblige('in-bounds', what, ok, '%s < %s' % (zk, zn))
        return zk
    def oblige(self, kind, what, ok, detail=''):
        self.obligations.append((kind, what, ok, detail))
    def list_get(self, o, k):
        if isinstance(k, Slice):
            if k.step not in (None, 1):
                if o.concrete(): return PList(elems=o.elems()[slice(k.lo, k.hi, k.step)])
                raise Unsupported('slice step')
            if o.concrete() and all(x is None or isinstance(x, int) for x in (k.lo, k.hi)):
                return PList(elems=o.elems()[slice(k.lo, k.hi)])
            n = self.length(o)
            lo, hi = self.norm_slice(k, n)
            return PList(self.take(o.segs, lo, hi))
        if isinstance(k, int) and o.concrete():
            xs = o.elems()
            if not -len(xs) <= k < len(xs): raise PyEx('IndexError')
            v = xs[k]
            if isinstance(v, Poison): raise Unsupported(v.why)
            return v
        if not isinstance(k, (int, SInt)): raise Unsupported('list index')
        if isinstance(k, SInt) and z3.is_app(k.e) and k.e.decl().name() in POSITIONS:
            b, g = POSITIONS[k.e.decl().name()]
            f = filtered(o.segs[0]) if len(o.segs) == 1 and o.segs[0].kind == 'r' else None
            if f is None or position(f[0], f[1]).decl().name() != k.e.decl().name(): raise Unsupported('position in another sequence')
            if not self.prove(z3.And(subst(SBool(g), [(b.var, k.e.arg(0))]).e, zi(b.lo) <= k.e.arg(0), k.e.arg(0) < zi(b.hi))): raise Unsupported('position of an excluded element')
            return self.inst(f[2], [(f[0].var, k.e.arg(0))])
        n = self.length(o)
        if 'index_error' in self.lib.hooks:      # rejection of wrong positions is part of the contract
            if not self.decide(mkbool(z3.And(zi(k) >= -zi(n), zi(k) < zi(n)))): raise PyEx('IndexError')
            if self.decide(mkbool(zi(k) < 0)): k = mkint(zi(k) + zi(n))
        zk = self.norm_index(k, n, 'list index')
        off = z3.IntVal(0)
        for i, s in enumerate(o.segs):
            if s.kind == 'e':
                last = i == len(o.segs) - 1
                if last or self.decide(SBool(zk == off)): return s.val
                off = off + 1
            else:
                w = zi(s.b.hi) - zi(s.b.lo)
                if not (len(s.segs) == 1 and s.segs[0].kind == 'e' and z3.is_true(z3.simplify(s.guard))):
                    raise Unsupported('index into irregular sequence')
                last = i == len(o.segs) - 1
                if last or self.decide(SBool(zk < off + w)):
                    return self.inst(s.segs[0].val, [(s.b.var, z3.simplify(zk - off + zi(s.b.lo)))])
                off = off + w
        raise PyEx('IndexError')
    def take(self, segs, lo, hi):
        """sub-sequence [lo, hi) of a regular sequence"""
        out = []
        off = z3.IntVal(0)
        for s in segs:
            if s.kind == 'e':
                c = z3.simplify(z3.And(lo <= off, off < hi))
                if self.decide(SBool(c)): out.append(s)
                off = z3.simplify(off + 1)
            else:
                if not (len(s.segs) == 1 and s.segs[0].kind == 'e' and z3.is_true(z3.simplify(s.guard))):
                    raise Unsupported('slice of irregular sequence')
                w = zi(s.b.hi) - zi(s.b.lo)
                a = lo - off; b = hi - off
                if not self.prove(a >= 0): a = z3.If(a < 0, z3.IntVal(0), a)
                if not self.prove(b <= w): b = z3.If(b > w, w, b)
                v = fresh_int('l')
                out.append(Seg('r', b=Binder(v, z3.simplify(zi(s.b.lo) + a), z3.simplify(zi(s.b.lo) + b)), guard=TRUE,
                               segs=[E(self.inst(s.segs[0].val, [(s.b.var, v)]))]))
                off = z3.simplify(off + w)
        return out
    def setitem(self, o, k, v):
        if isinstance(o, PDict):
            if isinstance(k, SStr) or isinstance(k, str) and k not in o.d and any(isinstance(x, SStr) for x in o.d):
                if k not in o.d:
                    for kk in list(o.d):
                        if isinstance(kk, (str, SStr)) and self.decide(self.equal(k, kk)): k = kk; break
            self.jset_dict(o, k, v); return
        if isinstance(o, PList):
            if isinstance(k, int) and o.concrete():
                old = o.segs[k]
                def undo(): o.segs[k] = old
                self.journal.append(('lset', o, k, undo))
                o.segs[k] = E(v)
                return
            if isinstance(k, (int, SInt)):
                n = self.length(o); zk = self.norm_index(k, n, 'list element assignment')
                old = list(o.segs)
                def undo(): o.segs[:] = old
                new = self.take(old, z3.IntVal(0), zk) + [E(v)] + self.take(old, z3.simplify(zk + 1), zi(n))
                self.journal.append(('lset', o, None, undo))
                o.segs[:] = new
                return
            raise Unsupported('list element assignment')
        if isinstance(o, PObj) and isinstance(o.cls, PClass):
            f = o.cls.lookup('__setitem__')
            if f is not None:
                self.call(PBound(f, o), [k, v], {}); return
        if self.lib.setitem(self, o, k, v) is NotImplemented:
            raise Unsupported('item assignment on %s' % type(o).__name__)

    # ------------------------------------------------------------- calls
    def ex_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            e = env
            while e is not None and e.selfobj is None: e = e.parent
            return Super(e.selfobj[0], e.selfobj[1])
        f = self.ev(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                segs = self.segs_of(self.ev(a.value, env))
                if all(s.kind == 'e' for s in segs):
                    args += [s.val for s in segs]
                else:
                    args.append(Star(segs))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if 'mapping' in self.lib.hooks: d = self.lib.hooks['mapping'](self, d)
                if not isinstance(d, PDict): raise Unsupported('**kwargs')
                for kk, vv in d.d.items(): kw[kk] = vv
            else:
                kw[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise EngineLimit('call depth')
        try:
            return self.call_(f, args, kw)
        finally:
            self.depth -= 1
    def call_(self, f, args, kw):
        if isinstance(f, PBound):
            return self.call_(f.fn, [f.obj] + list(args), kw)
        if isinstance(f, LibFn):
            return f.f(self, list(args), dict(kw))
        if isinstance(f, PFunc):
            h = self.contracts.get(f.qual) or (self.contracts.get('*.' + f.qual.split('.')[-1]) if '.' in f.qual.split(':')[1] else None)
            if h is not None:
                r = h(self, list(args), dict(kw))
                if r is not NotImplemented: return r
            return self.invoke(f, args, kw)
        if isinstance(f, tuple) and f and f[0] == 'static':
            return self.call_(f[1], args, kw)
        if isinstance(f, PClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, PObj) and isinstance(f.cls, PClass):
            m = f.cls.lookup('__call__')
            if m is not None: return self.call_(PBound(m, f), args, kw)
        if isinstance(f, Poison): raise Unsupported(f.why)
        r = self.lib.call(self, f, list(args), dict(kw))
        if r is NotImplemented:
            # casadi expressions are not callable
            if isinstance(f, Term) and f.ty in ('SX', 'MX', 'DM', 'ndarray'): raise PyEx('TypeError')
            raise Unsupported('call of %s' % type(f).__name__)
        return r
    def instantiate(self, c, args, kw):
        if any(isinstance(b, LibType) and exc_isa(b.name, 'BaseException') for b in c.bases):
            return PObj(LibType('Exception'))
        o = PObj(c)
        h = self.contracts.get('%s:%s' % (c.module.name, c.name))
        if h is not None:
            return h(self, [o] + list(args), kw)
        init = c.lookup('__init__')
        if c.dataclass and init is None:
            fields = []
            for cc in reversed(c.mro()):
                for (n, d, e) in getattr(cc, 'fields', []):
                    fields = [x for x in fields if x[0] != n] + [(n, d, e)] if not any(x[0] == n for x in fields) else [(n, d, e) if x[0] == n else x for x in fields]
            for i, (n, d, e) in enumerate(fields):
                if i < len(args): v = args[i]
                elif n in kw: v = kw[n]
                elif d is not None: v = self.field_default(d, e)
                else: raise PyEx('TypeError')
                o.attrs[n] = v
            for k in kw:
                if k not in [x[0] for x in fields]: raise PyEx('TypeError')
            pi = c.lookup('__post_init__')
            if pi is not None: self.call(PBound(pi, o), [], {})
            return o
        if init is not None:
            self.call(PBound(init, o), args, kw)
        return o
    def field_default(self, d, e):
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'field':
            for k in d.keywords:
                if k.arg == 'default_factory': return self.call(self.ev(k.value, e), [], {})
                if k.arg == 'default': return self.ev(k.value, e)
        return self.ev(d, e)
    def invoke(self, f, args, kw):
        a = f.node.args
        env = Env(f.env, f.module)
        if f.cls is not None and args:
            env.selfobj = (f.cls, args[0])
        if any(isinstance(x, Star) for x in args):
            raise Unsupported('symbolic argument list for %s' % f.qual)
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        nd = len(f.defaults)
        vals = {}
        for i, nme in enumerate(names):
            if i < len(args): vals[nme] = args[i]
            elif nme in kw: vals[nme] = kw.pop(nme) if isinstance(kw, dict) else kw[nme]
            elif i >= len(names) - nd: vals[nme] = f.defaults[i - (len(names) - nd)]
            else: raise PyEx('TypeError', ('missing argument %s of %s' % (nme, f.qual),))
        if len(args) > len(names):
            if a.vararg is None: raise PyEx('TypeError', ('too many arguments for %s' % f.qual,))
            vals[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for x in a.kwonlyargs:
            if x.arg in kw: vals[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults: vals[x.arg] = f.kwdefaults[x.arg]
            else: raise PyEx('TypeError')
        rest = {k: v for k, v in kw.items() if k not in vals}
        if a.kwarg is not None: vals[a.kwarg.arg] = PDict(rest)
        elif rest: raise PyEx('TypeError', ('unexpected keyword %s' % list(rest),))
        env.vars.update(vals)
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, env)
        if not self.quiet:
            self.functions_seen[f.qual] = self.functions_seen.get(f.qual, 0) + 1
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
            raise Unsupported('generator function')
        try:
            self.exec_body(f.node.body, env)
        except ReturnEx as r:
            return r.v
        return None

def pow_apps(e, out=None):
    out = [] if out is None else out
    if z3.is_app(e) and e.decl().eq(POW): out.append(e)
    for c in e.children(): pow_apps(c, out)
    return out

class SMaybe:
    """a value that may be None: present (z3 bool), val"""
    def __init__(self, present, val): self.present = present; self.val = val

def pycmp(op, a, b):
    try:
        return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
                ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
    except TypeError:
        raise PyEx('TypeError')

POSITIONS = {}
def position(b, g):
    """position of member i of the filtered range: an uninterpreted function per range and condition"""
    v = z3.Int('pos!')
    key = '%s|%s|%s' % (z3.simplify(zi(b.lo)).sexpr(), z3.simplify(zi(b.hi)).sexpr(), z3.simplify(z3.substitute(g, (b.var, v))).sexpr())
    name = 'position:' + key
    if name not in POSITIONS: POSITIONS[name] = (Binder(b.var, b.lo, b.hi), g)
    return z3.Function(name, z3.IntSort(), z3.IntSort())(b.var)

def filtered(s):
    """range filtered by a condition, one element each: (binder, condition, element); None for other sequences"""
    if s.kind != 'r': return None
    g = [s.guard]; x = s
    while len(x.segs) == 1 and x.segs[0].kind == 'r':
        x = x.segs[0]
        w = z3.simplify(zi(x.b.hi) - zi(x.b.lo))
        if not (z3.is_int_value(w) and w.as_long() == 1): return None
        g.append(x.guard)
    if len(x.segs) != 1 or x.segs[0].kind != 'e': return None
    g = z3.simplify(z3.And(*g))
    if z3.is_true(g): return None
    return s.b, g, x.segs[0].val

def subst_seg(it, s, pairs):
    if s.kind == 'e': return E(it.inst(s.val, pairs))
    return Seg('r', b=Binder(s.b.var, subst(zi(s.b.lo), pairs), subst(zi(s.b.hi), pairs)), guard=subst(s.guard, pairs),
               segs=[subst_seg(it, x, pairs) for x in s.segs])

def merge_ite(vals, conds, neutral):
    live = [(v, c) for v, c in zip(vals, conds)]
    if len(live) == 1: return live[0][0]
    t = neutral
    for v, c in live:
        if v.op == 'c' and neutral.op == 'c' and v.args[0] == neutral.args[0]: continue
        t = Term('ite', (z3.And(*c) if c else TRUE, v, t), v.rows, v.cols)
    return t

def split_op(op, e, ph):
    """e == ph (op) rest with ph occurring exactly once at the top of an op-chain"""
    if e.op == 'sym' and e.args[0] == ph:
        return C(0) if op == 'add' else C(1)
    inv = 'sub' if op == 'add' else 'div'
    if e.op == op:
        a, b = e.args
        ha, hb = has_sym(a, ph), has_sym(b, ph)
        if ha and not hb:
            r = split_op(op, a, ph)
            if r is None: return None
            return b if (r.op == 'c' and r.args[0] == (0 if op == 'add' else 1)) else mk(op, r, b)
        if hb and not ha:
            r = split_op(op, b, ph)
            if r is None: return None
            return a if (r.op == 'c' and r.args[0] == (0 if op == 'add' else 1)) else mk(op, a, r)
        return None
    if e.op == inv:
        a, b = e.args
        if has_sym(a, ph) and not has_sym(b, ph):
            r = split_op(op, a, ph)
            return None if r is None else mk(inv, r, b)
    return None

def ast_match(p, x, vars_, m):
    """match z3 pattern p (pattern variables vars_) against x"""
    if z3.is_const(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED and p.decl().name() in vars_:
        n = p.decl().name()
        if n in m: return m[n].eq(x)
        m[n] = x
        return True
    if not (zvars(p) & vars_): return p.eq(x)
    if p.decl().kind() != x.decl().kind() or p.num_args() != x.num_args() or p.decl() != x.decl(): 
        return False
    import itertools
    if p.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
        for perm in itertools.permutations(x.children()):
            m2 = dict(m)
            if all(ast_match(a, b, vars_, m2) for a, b in zip(p.children(), perm)):
                m.update(m2); return True
        return False
    return all(ast_match(a, b, vars_, m) for a, b in zip(p.children(), x.children()))

def stored_names(stmts):
    out = set()
    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
        def visit_FunctionDef(self, n): out.add(n.name)
        def visit_ClassDef(self, n): out.add(n.name)
        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n): pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
        def visit_Import(self, n):
            for a in n.names: out.add((a.asname or a.name).split('.')[0])
        def visit_ImportFrom(self, n):
            for a in n.names: out.add(a.asname or a.name)
    v = V()
    for s in stmts: v.visit(s)
    return out
