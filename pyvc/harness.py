"""Contract harness: path exploration, obligations, refutation on concrete instances."""
import z3, time, traceback, os, itertools
from .core import *
from .interp import *
from .lib import *
from . import smt, nf

class Result:
    def __init__(self):
        self.obs = []          # dict(name, status, path, detail)
        self.functions = {}
        self.paths = 0
        self.undecided = []    # engine limits
    def add(self, name, status, path='', detail=''):
        self.obs.append({'name': name, 'status': status, 'path': path, 'detail': detail})
    def merge(self, o):
        self.obs += o.obs; self.paths += o.paths; self.undecided += o.undecided
        for k, v in o.functions.items(): self.functions[k] = self.functions.get(k, 0) + v

class Ctx:
    """passed to a contract: the interpreter of the current path plus obligation interface"""
    def __init__(self, it, res, path, refuter):
        self.it = it; self.res = res; self.path = path; self.refuter = refuter
        self.extra = []
    def facts(self):
        return self.it.facts() + self.extra
    def oblige(self, name, goal, hints=()):
        """z3 goal"""
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if isinstance(goal, SBool): goal = goal.e
        F = self.facts() + list(hints)
        r = smt.prove(F, goal)
        if r is True:
            self.res.add(name, 'proved', self.path); return True
        w = self.refuter.refute(self.facts(), goal) if self.refuter else None
        if w is not None:
            self.res.add(name, 'refuted', self.path, 'goal %s fails for %s' % (show(goal)[:300], w)); return False
        self.res.add(name, 'unknown', self.path, 'goal %s: %s' % (show(goal)[:300], 'counter-model not confirmed' if r is False else 'solver gave no answer'))
        return None
    def eq(self, name, got, want, extra=()):
        """terms equal"""
        e = nf.Eq(self.facts())
        ok = e.eq(got, want, list(extra))
        if ok:
            self.res.add(name, 'proved', self.path); return True
        w = self.refuter.refute_eq(self.facts() + list(extra), got, want) if self.refuter else None
        if w is not None:
            self.res.add(name, 'refuted', self.path, 'code: %s\n  spec: %s\n  differ for %s' % (show(got)[:700], show(want)[:700], w)); return False
        self.res.add(name, 'unknown', self.path, 'code: %s\n  spec: %s' % (show(got)[:700], show(want)[:700]))
        return None
    def fail(self, name, detail):
        self.res.add(name, 'refuted', self.path, detail)
    def ok(self, name):
        self.res.add(name, 'proved', self.path)
    def unknown(self, name, detail):
        self.res.add(name, 'unknown', self.path, detail)
    def true(self, name, cond, detail=''):
        """structural postcondition, decided by the interpreter"""
        self.res.add(name, 'proved' if cond else 'refuted', self.path, '' if cond else detail)
    def cases(self, fn):
        """run fn once per local case distinction (conditions decided inside fn do not fork the whole path)"""
        work = [[]]
        n = 0
        while work:
            pre = work.pop()
            L = Loop(None); L.names = None; L.prefix = pre
            self.it.loops.append(L)
            mark = len(self.it.journal)
            try:
                if smt.check(self.it.facts()) != 'unsat':
                    fn()
            finally:
                self.it.loops.pop()
                self.it.undo(mark)
            work += L.pending
            n += 1
            if n > 64: raise EngineLimit('too many specification cases')
    def declared(self, *objs, extra=()):
        """the attributes these objects have now (and extra) are all the state the contract knows of: an operation that leaves further
        attributes behind may let later operations depend on them, so that the contract of a single operation says nothing about histories"""
        self.closed_state = [(o, set(o.attrs) | set(extra)) if isinstance(o, PObj) else (o, set(o.d) | set(extra)) for o in objs]
    def check_declared(self):
        for o, names in getattr(self, 'closed_state', ()):
            new = sorted(str(k) for k in set(o.attrs if isinstance(o, PObj) else o.d) - names)
            if new: self.unknown('the operation leaves no state behind that the contract does not know', 'new: %s of %s' % (new, o))
            else: self.ok('the operation leaves no state behind that the contract does not know')
    def fresh(self, name, lo=None, hi=None):
        v = fresh_int(name)
        if lo is not None: self.extra.append(v >= zi(lo)); self.it.assume(v >= zi(lo))
        if hi is not None: self.extra.append(v < zi(hi)); self.it.assume(v < zi(hi))
        return v

def explore(name, fn, refuter=None, limit=1500, verbose=False):
    """symbolically execute fn(ctx) on every path"""
    res = Result()
    work = [[]]
    while work:
        pre = work.pop()
        t0 = time.time()
        it = Interp(Lib())
        it.top.prefix = pre
        ctx = Ctx(it, res, name + ':' + ''.join('T' if d else 'F' for d in pre), refuter or Refuter({}, dom=2))
        res.paths += 1
        n0 = len(res.obs)
        try:
            fn(ctx)
            ctx.check_declared()
        except Unsupported as ex:
            res.undecided.append('%s [%s] %s at %s' % (name, ctx.path, ex, getattr(ex, 'loc', '?')))
            if verbose: traceback.print_exc()
        except PyEx as ex:
            res.undecided.append('%s [%s] unexpected exception %s' % (name, ctx.path, ex))
            if verbose: traceback.print_exc()
        except (RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, z3.Z3Exception) as ex:
            res.undecided.append('%s [%s] engine error %r' % (name, ctx.path, ex))
            if verbose: traceback.print_exc()
        except Infeasible:
            pass
        # vacuity: the path condition must be satisfiable
        if smt.check(it.facts()) == 'unsat':
            del res.obs[n0:]
        else:
            for kind, what, ok, detail in it.obligations:
                if ok is True: res.add('%s: %s' % (kind, what), 'proved', ctx.path)
                else:
                    F = it.facts()
                    res.add('%s: %s' % (kind, what), 'unknown', ctx.path, detail)
        for k, v in it.functions_seen.items(): res.functions[k] = res.functions.get(k, 0) + v
        work += it.top.pending
        if verbose: print('path', ctx.path[-40:], '%.1fs' % (time.time() - t0), [(o['status'], o['name'][:60]) for o in res.obs[n0:] if o['status'] != 'proved'], 'smt', smt.STATS.queries, '%.1fs' % smt.STATS.time, flush=True)
        if res.paths > limit:
            res.undecided.append('%s: more than %d paths' % (name, limit)); break
    return res

# ------------------------------------------------------------------ concrete evaluation
class NoVal(Exception): pass

def zev(e, env, ufs):
    """evaluate a z3 expression under an assignment of constants and function interpretations"""
    if z3.is_quantifier(e): raise NoVal('quantifier')
    k = e.decl().kind()
    if z3.is_int_value(e): return e.as_long()
    if k == z3.Z3_OP_TRUE: return True
    if k == z3.Z3_OP_FALSE: return False
    if k == z3.Z3_OP_UNINTERPRETED:
        n = e.decl().name()
        if e.num_args() == 0:
            if n in env: return env[n]
            raise NoVal(n)
        if n in ufs:
            r = ufs[n](*[zev(c, env, ufs) for c in e.children()])
            if r is None: raise NoVal(n)
            return r
        raise NoVal(n)
    ch = e.children()
    if k == z3.Z3_OP_ITE: return zev(ch[1], env, ufs) if zev(ch[0], env, ufs) else zev(ch[2], env, ufs)
    if k == z3.Z3_OP_AND: return all(zev(c, env, ufs) for c in ch)
    if k == z3.Z3_OP_OR: return any(zev(c, env, ufs) for c in ch)
    if k == z3.Z3_OP_IMPLIES: return (not zev(ch[0], env, ufs)) or zev(ch[1], env, ufs)
    if k == z3.Z3_OP_NOT: return not zev(ch[0], env, ufs)
    v = [zev(c, env, ufs) for c in ch]
    if k == z3.Z3_OP_ADD: return sum(v)
    if k == z3.Z3_OP_SUB: return v[0] - sum(v[1:])
    if k == z3.Z3_OP_UMINUS: return -v[0]
    if k == z3.Z3_OP_MUL:
        r = 1
        for x in v: r *= x
        return r
    if k in (z3.Z3_OP_IDIV, z3.Z3_OP_DIV):
        if v[1] == 0: raise NoVal('div0')
        return v[0] // v[1] if v[1] > 0 else -(v[0] // -v[1])
    if k == z3.Z3_OP_MOD:
        if v[1] == 0: raise NoVal('mod0')
        return v[0] % abs(v[1])
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF): return v[0] == v[1]
    if k == z3.Z3_OP_DISTINCT: return len(set(v)) == len(v)
    if k == z3.Z3_OP_LE: return v[0] <= v[1]
    if k == z3.Z3_OP_LT: return v[0] < v[1]
    if k == z3.Z3_OP_GE: return v[0] >= v[1]
    if k == z3.Z3_OP_GT: return v[0] > v[1]
    if k == z3.Z3_OP_POWER: return v[0] ** v[1]
    raise NoVal(str(e.decl()))

P = (1 << 61) - 1
def hsh(*xs):
    import hashlib
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), 'big') % P

class TermEval:
    """evaluate terms modulo a prime with uninterpreted atoms hashed: differing values prove inequality"""
    def __init__(self, env, ufs):
        self.env = dict(env); self.ufs = ufs
    def z(self, e): return zev(zi(e) if not is_z(e) else e, self.env, self.ufs)
    def ev(self, t):
        """scalarised value mod P of the polynomial normal form"""
        tot = 0
        for m in nf.norm(t):
            tot = (tot + self.mono(m, list(m.binders))) % P
        return tot
    def mono(self, m, bs):
        if bs:
            b = bs[0]
            lo, hi = self.z(b.lo), self.z(b.hi)
            if hi - lo > 60: raise NoVal('range')
            tot = 0
            for i in range(lo, hi):
                self.env[b.name] = i
                tot += self.mono(m, bs[1:])
            self.env.pop(b.name, None)
            return tot % P
        if not self.z(m.guard): return 0
        r = m.coef.numerator % P * pow(m.coef.denominator % P, P - 2, P) % P
        for f in m.factors: r = r * self.atom(f) % P
        return r
    def atom(self, t):
        if t.op == 'int': return self.z(t.args[0]) % P
        if t.op == 'inv':
            v = self.ev(t.args[0])
            return pow(v, P - 2, P)
        if t.op == 'bigprod':
            g = t.args[0]
            lo, hi = self.z(g.b.lo), self.z(g.b.hi)
            r = 1
            for i in range(lo, hi):
                self.env[g.b.name] = i
                if self.z(g.guard): r = r * self.ev(g.body) % P
            self.env.pop(g.b.name, None)
            return r
        if t.op in ('vcat', 'hcat'):
            xs = self.seq(t.args[0])
            xs = [x for x in xs if x != ('empty',)]
            return xs[0][1] if len(xs) == 1 else hsh(t.op, tuple(x[1] for x in xs))
        return hsh(t.op, tuple(self.arg(a) for a in t.args))
    def seq(self, segs):
        out = []
        for s in segs:
            if s.kind == 'e':
                if isinstance(s.val, Term) and s.val.op == 'vcat': out += self.seq(s.val.args[0])
                else: out.append(('v', self.arg(s.val)))
            else:
                lo, hi = self.z(s.b.lo), self.z(s.b.hi)
                if hi - lo > 60: raise NoVal('range')
                for i in range(lo, hi):
                    self.env[s.b.name] = i
                    if self.z(s.guard): out += self.seq(s.segs)
                self.env.pop(s.b.name, None)
        return out
    def arg(self, a):
        if isinstance(a, Term): return self.ev(a)
        if is_z(a): return self.z(a)
        if isinstance(a, SInt): return self.z(a.e)
        if isinstance(a, (tuple, list)):
            if any(isinstance(x, Seg) for x in a): return tuple(self.seq(a))
            return tuple(self.arg(x) for x in a)
        if isinstance(a, (str, int, float)) or a is None: return a
        if isinstance(a, Big):
            lo, hi = self.z(a.b.lo), self.z(a.b.hi)
            out = []
            for i in range(lo, hi):
                self.env[a.b.name] = i
                if self.z(a.guard): out.append(self.ev(a.body))
            self.env.pop(a.b.name, None)
            return tuple(out)
        raise NoVal('arg')

class Refuter:
    """searches small concrete instances.  params: {z3 const name: values};  other integer constants range over
    0..dom-1;  ufs(params) -> {function name: python function}"""
    def __init__(self, params, ufs=lambda p: {}, dom=6, bools=True, cap=6000, where=lambda p: True, limit=12):
        self.limit = limit; self.params = params; self.ufs = ufs; self.dom = dom; self.cap = cap; self.where = where
    def search(self, facts, test, exprs):
        """enumerate small values for the parameters and the constants of the goal; facts over other constants are checked for
        satisfiability by z3 once a candidate is found"""
        names = {}
        def scan(e, seen):
            if e.get_id() in seen: return
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names[e.decl().name()] = z3.is_bool(e)
            for c in e.children(): scan(c, seen)
        seen = set()
        for e in exprs: scan(e, seen)
        free = sorted(n for n in names if n not in self.params)
        t0 = time.time()
        facts = list({f.get_id(): f for f in facts}.values())
        fs = [(f, zvars(f)) for f in facts if not z3.is_quantifier(f)]
        limit = self.limit
        tried = [0]
        for pv in itertools.product(*self.params.values()):
            p = dict(zip(self.params, pv))
            if not self.where(p): continue
            ufs = dict(self.ufs(p)); ufs.setdefault('ipow', lambda a, b: a ** b if b >= 0 and abs(a) < 1000 and b < 30 else None)
            def holds(env, n):
                for f, vs in fs:
                    if (n is None or n in vs) and vs <= env.keys():
                        try:
                            if not zev(f, env, ufs): return False
                        except NoVal: pass
                return True
            def confirm(env):
                eqs = []
                def note(f, sn):
                    if f.get_id() in sn: return
                    sn.add(f.get_id())
                    for c in f.children(): note(c, sn)
                    if z3.is_app(f) and f.num_args() and f.decl().kind() == z3.Z3_OP_UNINTERPRETED and f.decl().name() in ufs:
                        try: eqs.append(f == zev(f, env, ufs))
                        except NoVal: pass
                sn = set()
                for f, vs in fs:
                    if vs <= env.keys(): note(f, sn)
                for n, v in env.items(): eqs.append((z3.Bool(n) == v) if isinstance(v, bool) else (z3.Int(n) == v))
                s = z3.Solver(); s.set('timeout', 3000)
                s.add(*[f for f, vs in fs if not vs <= env.keys()]); s.add(*eqs)
                return str(s.check()) == 'sat'
            def rec(i, env):
                if time.time() - t0 > limit: return None
                if i == len(free):
                    try:
                        if not test(env, ufs): return None
                    except NoVal:
                        return None
                    tried[0] += 1
                    if tried[0] > 20: return None
                    return dict(env) if confirm(env) else None
                n = free[i]
                for v in ((True, False) if names[n] else range(self.dom)):
                    env[n] = v
                    if holds(env, n):
                        r = rec(i + 1, env)
                        if r is not None: return r
                    del env[n]
                return None
            if not holds(dict(p), None): continue
            r = rec(0, dict(p))
            if r is not None: return r
            if time.time() - t0 > limit: return None
        return None
    def refute(self, facts, goal):
        try:
            r = self.search(facts, lambda env, ufs: not zev(goal, env, ufs), [goal])
            return r if r is not None else self.models(facts, z3.Not(goal))
        except RecursionError:
            return None
    def models(self, facts, neg, test=None):
        """ask the solver for a model; interpreted functions are corrected lazily until the model agrees with them everywhere.
        A model that uses an uninterpreted function which is neither interpreted nor free is not accepted"""
        facts = list({f.get_id(): f for f in facts}.values())
        apps, consts, seen, work, inner = [], {}, set(), list(facts) + [neg], []
        while work:
            e = work.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if z3.is_quantifier(e): inner.append(e.body()); continue
            work += e.children()
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if e.num_args() == 0: consts[e.decl().name()] = e
                else: apps.append(e)
        # quantified facts are left to the solver; the functions in them must be free
        while inner:
            e = inner.pop(); inner += e.children() if not z3.is_quantifier(e) else [e.body()]
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if e.num_args() == 0: consts.setdefault(e.decl().name(), e)
                elif not FREE(e.decl().name()): return None
        t0 = time.time()
        for pv in itertools.product(*self.params.values()):
            p = dict(zip(self.params, pv))
            if not self.where(p): continue
            ufs = dict(self.ufs(p)); ufs.setdefault('ipow', lambda a, b: a ** b if b >= 0 and abs(a) < 1000 and b < 30 else None)
            bad = [e for e in apps if e.decl().name() not in ufs and not FREE(e.decl().name())]
            if bad and DBG: print('   not free:', {e.decl().name() for e in bad})
            if bad: return None
            s = z3.Solver(); s.set('timeout', 2000); s.add(*facts); s.add(neg)
            for n, v in p.items():
                if n in consts: s.add(consts[n] == v)
            for _ in range(12):
                if time.time() - t0 > self.limit: return None
                if str(s.check()) != 'sat': break
                m = s.model(); wrong = []; bad = False
                for e in apps:
                    if e.decl().name() not in ufs: continue
                    ar = [m.eval(c, True) for c in e.children()]
                    try: v = ufs[e.decl().name()](*[x.as_long() if z3.is_int(x) else z3.is_true(x) for x in ar])
                    except (AttributeError, TypeError, ValueError): v = None
                    if v is None: wrong.append(z3.Or(*[c != x for c, x in zip(e.children(), ar)])); continue      # outside the interpreted range: look elsewhere
                    w = z3.BoolVal(v) if isinstance(v, bool) else z3.IntVal(v)
                    if not z3.is_true(z3.simplify(m.eval(e, True) == w)): wrong.append(z3.Implies(z3.And(*[c == x for c, x in zip(e.children(), ar)]), e == w))
                if wrong: s.add(*wrong); continue
                env = {n: (z3.is_true(m.eval(c, True)) if z3.is_bool(c) else m.eval(c, True).as_long()) for n, c in consts.items() if z3.is_bool(c) or z3.is_int(c)}
                if test is not None:
                    try:
                        def interp(d):
                            def f(*xs):
                                v = m.eval(d(*[z3.BoolVal(x) if isinstance(x, bool) else z3.IntVal(x) for x in xs]), True)
                                return z3.is_true(v) if z3.is_bool(v) else v.as_long()
                            return f
                        u2 = dict(ufs)
                        for e in apps: u2.setdefault(e.decl().name(), interp(e.decl()))
                        for d in m.decls():
                            if d.arity(): u2.setdefault(d.name(), interp(d))
                        u2 = FreeUfs(u2)
                        if not test(env, u2):
                            if DBG: print('   same value', env)
                            return None
                    except NoVal as e:
                        if DBG: print('   no value', e)
                        return None
                return {n: v for n, v in env.items() if n in zvars(neg) or n in p} or {'model': 'any'}
        return None
    def refute_eq(self, facts, a, b):
        def test(env, ufs):
            try:
                ev = TermEval(env, ufs)
                x = ev.arg(a); 
                y = TermEval(env, ufs).arg(b)
            except Unsupported:
                raise NoVal('u')
            return x != y
        holes = []
        collect_z(a, holes); collect_z(b, holes)
        r = self.search(facts, test, holes)
        if r is None:
            d = [x for x in difference(a, b) if not z3.is_false(z3.simplify(x))]
            if d: r = self.models(facts, z3.Or(*d), test)
        return r

DBG = os.environ.get('PYVC_DBG')
class FreeUfs(dict):
    '''free functions that occur in no fact take any value'''
    def __contains__(self, n): return dict.__contains__(self, n) or FREE(n)
    def __missing__(self, n): return lambda *xs: hsh(n, xs) % 5
# functions that stand for arbitrary inputs (a model may choose them)
FREE_NAMES = ['file:', 'element_', 'scenario', 'input_ok', 'output_ok', 'cached_id', 'is_loaded', 'ind', 'is_supported', 'op_type', 'operand_name', 'output_name', 'n_operands', 'len_of_index', 'key_of_index', 'feature', 'placeholder_', 'val_', 'e!', 'r!']
def FREE(n): return any(n.startswith(p) if p[-1] in ':_!' else n == p for p in FREE_NAMES)

def difference(a, b):
    """integer arguments at the same place of two terms of the same shape, as disequalities"""
    if isinstance(a, SInt): a = a.e
    if isinstance(b, SInt): b = b.e
    if is_z(a) or is_z(b):
        try: return [zi(a) != zi(b)]
        except Exception: return []
    if isinstance(a, Term) and isinstance(b, Term):
        if a.op != b.op or len(a.args) != len(b.args): return []
        return [d for x, y in zip(a.args, b.args) for d in difference(x, y)]
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b): return [d for x, y in zip(a, b) for d in difference(x, y)]
    return []

def collect_z(x, out, bound=()):
    """z3 holes (without bound variables) for determining the free constants"""
    vs = set()
    tvars(x, vs)
    for n in vs: out.append(z3.Int(n) if True else None)
