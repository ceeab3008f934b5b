"""Normal forms and equality of terms, families of terms and sequences."""
import z3, itertools
from fractions import Fraction
from .core import *
from . import smt

LINEAR_OPS = ('sum1', 'T', 'neg')

class Mono:
    __slots__ = ('coef', 'binders', 'guard', 'factors')
    def __init__(self, coef, binders, guard, factors):
        self.coef = coef; self.binders = list(binders); self.guard = guard; self.factors = list(factors)
    def __repr__(self):
        return '%s*%s  over %s if %s' % (self.coef, show(self.factors), self.binders, z3.simplify(self.guard))
    def cond(self):
        return z3.And(*([b.rng() for b in self.binders] + [self.guard]))

def AND(a, b):
    if z3.is_true(a): return b
    if z3.is_true(b): return a
    return z3.And(a, b)

def const(c):
    return [Mono(Fraction(c), [], TRUE, [])] if c else []

def mulm(a, b):
    return Mono(a.coef * b.coef, a.binders + b.binders, AND(a.guard, b.guard), a.factors + b.factors)

def rename_binders(m):
    if not m.binders:
        return m
    pairs, nb = [], []
    for b in m.binders:
        v = fresh_int(b.name.split('!')[0])
        lo, hi = subst(b.lo, pairs), subst(b.hi, pairs)
        pairs.append((b.var, v))
        nb.append(Binder(v, lo, hi))
    return Mono(m.coef, nb, subst(m.guard, pairs), [subst(f, pairs) for f in m.factors])

def mulp(p, q):
    out = []
    for a in p:
        for b in q:
            if a.binders and b.binders:
                an = {x.name for x in a.binders}
                if an & {x.name for x in b.binders}:
                    b = rename_binders(b)
            out.append(mulm(a, b))
    if len(out) > 4000:
        raise EngineLimit('polynomial too large')
    return out

def zpoly(e):
    """z3 integer expression as polynomial of integer atoms"""
    e = z3.simplify(e, som=True)
    return _zpoly(e)

def _zpoly(e):
    if z3.is_int_value(e):
        return const(e.as_long())
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = []
        for c in e.children():
            r += _zpoly(c)
        return r
    if k == z3.Z3_OP_MUL:
        r = const(1)
        for c in e.children():
            r = mulp(r, _zpoly(c))
        return r
    if k == z3.Z3_OP_UMINUS:
        return [Mono(-m.coef, m.binders, m.guard, m.factors) for m in _zpoly(e.children()[0])]
    if k == z3.Z3_OP_SUB:
        cs = e.children()
        r = list(_zpoly(cs[0]))
        for c in cs[1:]:
            r += [Mono(-m.coef, m.binders, m.guard, m.factors) for m in _zpoly(c)]
        return r
    if k == z3.Z3_OP_ITE:
        c, a, b = e.children()
        return ([Mono(m.coef, m.binders, AND(m.guard, c), m.factors) for m in _zpoly(a)] +
                [Mono(m.coef, m.binders, AND(m.guard, z3.Not(c)), m.factors) for m in _zpoly(b)])
    return [Mono(Fraction(1), [], TRUE, [Term('int', (e,), 1, 1)])]

def mono_term(m):
    """factors -> a term (elementwise product), coefficient dropped"""
    if not m.factors:
        return C(1)
    if len(m.factors) == 1:
        return m.factors[0]
    return Term('prod', tuple(m.factors))

def is_scalar(t):
    return isinstance(t.rows, int) and t.rows == 1 and (t.cols is None or (isinstance(t.cols, int) and t.cols == 1))

def norm(t):
    t = C(t)
    op = t.op
    if op == 'c':
        return const(t.args[0])
    if op == 'zeros':
        return []
    if op == 'ones':
        return const(1)
    if op == 'int':
        return zpoly(t.args[0])
    if op == 'add':
        return [m for a in t.args for m in norm(a)]
    if op == 'sub':
        return norm(t.args[0]) + [Mono(-m.coef, m.binders, m.guard, m.factors) for m in norm(t.args[1])]
    if op == 'neg':
        return [Mono(-m.coef, m.binders, m.guard, m.factors) for m in norm(t.args[0])]
    if op == 'mul':
        r = norm(t.args[0])
        for a in t.args[1:]: r = mulp(r, norm(a))
        return r
    if op == 'prod':
        r = const(1)
        for a in t.args:
            r = mulp(r, norm(a))
        return r
    if op == 'div':
        den = norm(t.args[1])
        if len(den) == 1 and not den[0].binders and z3.is_true(z3.simplify(den[0].guard)):
            d = den[0]
            inv = Mono(1 / d.coef, [], TRUE, [f.args[0] if f.op == 'inv' else Term('inv', (f,), f.rows, f.cols) for f in d.factors])
            return cancel(mulp(norm(t.args[0]), [inv]))
        inv = Mono(Fraction(1), [], TRUE, [Term('inv', (t.args[1],), t.args[1].rows, t.args[1].cols)])
        return mulp(norm(t.args[0]), [inv])
    if op == 'inv':
        return norm(Term('div', (C(1), t.args[0]))) if t.args[0].op in ('c', 'int', 'mul', 'div') else [Mono(Fraction(1), [], TRUE, [t])]
    if op == 'pow':
        e = norm(t.args[1])
        if len(e) == 1 and not e[0].factors and e[0].coef in (1, 2, 3):
            r = const(1)
            for _ in range(int(e[0].coef)):
                r = mulp(r, norm(t.args[0]))
            return r
        if not e:
            return const(1)
        return [Mono(Fraction(1), [], TRUE, [t])]
    if op == 'bigsum':
        g = t.args[0]
        return [Mono(m.coef, [g.b] + m.binders, AND(g.guard, m.guard), m.factors) for m in norm(g.body)]
    if op == 'ite':
        c, a, b = t.args
        return ([Mono(m.coef, m.binders, AND(m.guard, c), m.factors) for m in norm(a)] +
                [Mono(m.coef, m.binders, AND(m.guard, z3.Not(c)), m.factors) for m in norm(b)])
    if op == 'sum1' or op == 'T':
        a = t.args[0]
        out = []
        for m in norm(a):
            if not m.factors:
                if op == 'T':
                    out.append(m); continue
                f = [Term('sum1', (C(1),), 1, 1)] if not is_scalar(a) else []
                out.append(Mono(m.coef, m.binders, m.guard, f)); continue
            sc = [f for f in m.factors if is_scalar(f)]
            vc = [f for f in m.factors if not is_scalar(f)]
            if not vc:
                out.append(m); continue
            w = mono_term(Mono(1, [], TRUE, vc))
            if op == 'T':
                if w.op == 'mm':
                    nw = Term('mm', tuple(tr(x) for x in reversed(w.args)))
                else:
                    nw = tr(w)
            else:
                nw = Term('sum1', (w,), 1, 1)
            out.append(Mono(m.coef, m.binders, m.guard, sc + [nw]))
        return out
    if op == 'matmul':
        out = []
        for a in norm(t.args[0]):
            for b in norm(t.args[1]):
                if a.binders and b.binders and {x.name for x in a.binders} & {x.name for x in b.binders}:
                    b = rename_binders(b)
                fa, fb = split_scalar(a.factors), split_scalar(b.factors)
                wa, wb = fa[1], fb[1]
                sc = fa[0] + fb[0]
                if not wa or not wb:
                    # matrix times a (broadcast) constant: keep the constant as a word
                    wa = wa or [C(1)]
                    wb = wb or [C(1)]
                ws = words(wa) + words(wb)
                ws = mmsimp(ws)
                fac = [Term('mm', tuple(ws))] if len(ws) > 1 else ([] if (len(ws) == 1 and ws[0].op == 'eye') else list(ws))
                out.append(Mono(a.coef * b.coef, a.binders + b.binders, AND(a.guard, b.guard), sc + fac))
        return out
    if op == 'reshape' and is_scalar(t.args[0]):
        return norm(t.args[0])
    if op == 'vcat':
        # a vcat with exactly one element is that element
        s = t.args[0]
        if isinstance(s, (list, tuple)) and len(s) == 1 and s[0].kind == 'e' and isinstance(s[0].val, Term):
            return norm(s[0].val)
    return [Mono(Fraction(1), [], TRUE, [t])]

def mmsimp(ws):
    """word simplifications: inv(A) A = I, eye removed"""
    ch = True
    ws = list(ws)
    while ch:
        ch = False
        for i in range(len(ws)):
            if ws[i].op == 'eye' and len(ws) > 1:
                del ws[i]; ch = True; break
            if i + 1 < len(ws):
                a, b = ws[i], ws[i+1]
                if (a.op == 'minv' and show(a.args[0]) == show(b)) or (b.op == 'minv' and show(b.args[0]) == show(a)):
                    ws[i:i+2] = [Term('eye', ())]; ch = True; break
    return ws

def tr(w):
    if w.op == 'T':
        return w.args[0]
    if is_scalar(w):
        return w
    if w.op == 'eye':
        return w
    return Term('T', (w,), w.cols, w.rows)

def words(fs):
    if len(fs) == 1 and fs[0].op == 'mm':
        return list(fs[0].args)
    return [mono_term(Mono(1, [], TRUE, fs))]

def split_scalar(fs):
    return [f for f in fs if is_scalar(f)], [f for f in fs if not is_scalar(f)]

def cancel(p):
    """cancel a * inv(a) pairs (syntactic)"""
    out = []
    for m in p:
        fs = list(m.factors)
        ch = True
        while ch:
            ch = False
            for i, f in enumerate(fs):
                if f.op == 'inv':
                    s = show(f.args[0])
                    for j, g in enumerate(fs):
                        if j != i and show(g) == s:
                            del fs[max(i, j)]; del fs[min(i, j)]
                            ch = True
                            break
                    if ch:
                        break
        out.append(Mono(m.coef, m.binders, m.guard, fs))
    return out

# ------------------------------------------------------------------ skeletons
def skel(x):
    if isinstance(x, Term):
        return x.op + '(' + ','.join(skel(a) for a in x.args) + ')'
    if isinstance(x, Big):
        return 'B'
    if isinstance(x, Seg):
        return 'S'
    if is_z(x) or isinstance(x, (SInt,)):
        return '#'
    if isinstance(x, (list, tuple)):
        return '[]'
    if isinstance(x, int) and not isinstance(x, bool):
        return '#'
    return str(x)

ARITH = ('add', 'sub', 'mul', 'div', 'neg', 'pow', 'bigsum', 'prod', 'matmul', 'mm', 'ite', 'c', 'int', 'zeros', 'sum1', 'T', 'inv')

def head(t):
    """key that must agree for two atoms to be possibly equal"""
    return t.op + ':' + ','.join(a for a in t.args if isinstance(a, str)) + '/%d' % len(t.args)

def drop_ones(x):
    """product family: factors equal to one belong to the guard"""
    def live(t):
        if t.op == 'c' and t.args[0] == 1: return FALSE_
        if t.op == 'ite': return z3.simplify(z3.If(t.args[0], live(C(t.args[1])), live(C(t.args[2]))))
        return TRUE
    g = live(C(x.body))
    return x if z3.is_true(g) else Big(x.b, z3.simplify(z3.And(x.guard, g)), x.body)
FALSE_ = z3.BoolVal(False)

class Eq:
    """equality checker relative to a fact base (list of z3 facts)"""
    def __init__(self, facts):
        self.facts = list(facts)
        self.depth = 0

    def prove(self, goal, extra=()):
        return smt.prove(self.facts + list(extra), goal) is True

    def sat(self, extra):
        return smt.satisfiable(self.facts + list(extra))

    # -- unify two terms: collect hole equations and deferred term equations
    def unify(self, a, b, holes, defer):
        if a is b:
            return True
        if isinstance(a, Term) and isinstance(b, Term):
            if a.op in ARITH or b.op in ARITH:
                if a.op == b.op and len(a.args) == len(b.args) and a.op in ('mm', 'T', 'inv', 'sum1', 'int', 'prod', 'mul', 'add', 'sub', 'div'):
                    h, d = [], []
                    if all(self.unify(x, y, h, d) for x, y in zip(a.args, b.args)):
                        holes += h; defer += d
                        return True
                if a.op == 'c' and b.op == 'c':
                    return a.args[0] == b.args[0]
                defer.append((a, b))
                return True
            if a.op != b.op or len(a.args) != len(b.args):
                if a.op in ('vcat', 'hcat', 'cat', 'reshape', 'slice') or b.op in ('vcat', 'hcat', 'cat', 'reshape', 'slice'):
                    defer.append((a, b)); return True
                return False
            return all(self.unify(x, y, holes, defer) for x, y in zip(a.args, b.args))
        if isinstance(a, Term) or isinstance(b, Term):
            try:
                return self.unify(C(a), C(b), holes, defer)
            except Unsupported:
                return False
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if (is_z(a) or isinstance(a, (int, SInt))) and (is_z(b) or isinstance(b, (int, SInt))):
            if is_z(a) and z3.is_bool(a) or is_z(b) and z3.is_bool(b):
                if is_z(a) and is_z(b) and z3.is_bool(a) and z3.is_bool(b):
                    holes.append((a, b)); return True
                return False
            holes.append((zi(a), zi(b)))
            return True
        if isinstance(a, Big) and isinstance(b, Big):
            defer.append((a, b)); return True
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if any(isinstance(x, Seg) for x in list(a) + list(b)):
                defer.append((list(a), list(b))); return True
            return len(a) == len(b) and all(self.unify(x, y, holes, defer) for x, y in zip(a, b))
        if isinstance(a, Seg) and isinstance(b, Seg):
            defer.append(([a], [b])); return True
        return type(a) == type(b) and a == b

    def eq(self, a, b, extra=()):
        """prove a == b under facts+extra (extra: list of z3)"""
        extra = list(extra)
        if isinstance(a, Big) and isinstance(b, Big):
            return self.eq_big(a, b, extra)
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            return self.eq_seq(list(a), list(b), extra)
        a, b = C(a), C(b)
        if a is b or show(a) == show(b):
            return True
        if a.op not in ARITH and b.op not in ARITH:
            r = self.eq_atom(a, b, extra)
            if r:
                return True
        self.depth += 1
        try:
            if self.depth > 25:
                return False
            if extra: a, b = self.decide(a, extra, {}), self.decide(b, extra, {})
            diff = norm(a) + [Mono(-m.coef, m.binders, m.guard, m.factors) for m in norm(b)]
            return self.zero(diff, extra)
        finally:
            self.depth -= 1

    def decide(self, t, extra, memo):
        """resolve case distinctions below divisions whose condition is settled by the facts"""
        if not isinstance(t, Term) or 'ite(' not in show(t): return t
        if t.op == 'ite':
            k = t.args[0].get_id()
            if k not in memo:
                memo[k] = (t.args[0], True if self.prove(t.args[0], extra) else False if self.prove(z3.Not(t.args[0]), extra) else None)
            r = memo[k][1]
            if r is not None: return self.decide(C(t.args[1] if r else t.args[2]), extra, memo)
        if t.op in ('mm', 'mul', 'add', 'sub', 'div', 'neg', 'inv', 'ite'):
            args = tuple(self.decide(a, extra, memo) if isinstance(a, Term) else a for a in t.args)
            if any(x is not y for x, y in zip(args, t.args)): return Term(t.op, args, t.rows, t.cols)
        return t

    def eq_big(self, a, b, extra):
        """same index family (for products): binder shift allowed"""
        a, b = drop_ones(a), drop_ones(b)
        v = a.b.var
        ren = [(b.b.var, v)]
        rng = a.b.rng()
        c1 = z3.And(rng, a.guard)
        c2 = z3.And(subst(Binder(b.b.var, b.b.lo, b.b.hi).rng(), ren), subst(b.guard, ren))
        if not self.prove(c1 == c2, extra):
            return False
        return self.eq(a.body, subst(b.body, ren), extra + [c1])

    def eq_atom(self, a, b, extra):
        if a.op in ('vcat', 'hcat') and b.op == a.op:
            return self.eq_seq(list(a.args[0]), list(b.args[0]), extra)
        if a.op == 'vcat' or b.op == 'vcat':
            o, v = (b, a) if a.op == 'vcat' else (a, b)
            return self.eq_seq([E(o)], list(v.args[0]), extra)
        if head(a) != head(b):
            return False
        holes, defer = [], []
        if not self.unify(a, b, holes, defer):
            return False
        for x, y in holes:
            if not x.eq(y) and not self.prove(x == y, extra):
                return False
        return all(self.eq(x, y, extra) for x, y in defer)

    # -- a signed bag of monomials sums to zero
    def zero(self, monos, extra):
        todo = []
        for m in monos:
            m = self.simp(m, extra)
            if m is not None:
                todo.append(m)
        rounds = 0; stall = 0
        while todo:
            rounds += 1
            if rounds > 3000:
                return False
            m = todo.pop(0)
            if m.coef == 0:
                continue
            best = None
            hm = sorted(head(f) for f in m.factors)
            for i, o in enumerate(todo):
                if len(o.factors) != len(m.factors) or sorted(head(f) for f in o.factors) != hm:
                    continue
                r = self.match(m, o, extra)
                if r is None:
                    continue
                if best is None or len(r) < len(best[1]): best = (i, r)
                if not r: break
            if best is None:
                self.last = m
                self.todo = todo
                return False
            if len(best[1]) > 1 and stall <= len(todo):
                # only a partial overlap: look for exact partners first
                todo.append(m); stall += 1
                continue
            stall = 0
            i, rest = best
            del todo[i]
            todo += [x for x in (self.simp(y, extra) for y in rest) if x is not None and x.coef != 0]
        return True

    def simp(self, m, extra):
        """drop empty families; eliminate determined binders"""
        m = Mono(m.coef, m.binders, z3.simplify(m.guard), m.factors)
        if m.coef == 0:
            return None
        if not z3.is_true(m.guard) or m.binders:
            if self.sat(list(extra) + [m.cond()]) is False:
                return None
        # eliminate binders
        ch = True
        while ch:
            ch = False
            for i, b in enumerate(m.binders):
                e = None
                lo, hi = zi(b.lo), zi(b.hi)
                w = z3.simplify(hi - lo)
                if z3.is_int_value(w) and w.as_long() == 1:
                    e = lo
                elif z3.is_int_value(w) and 2 <= w.as_long() <= 6:
                    pass
                else:
                    e = solve_eq_in(m.guard, b.var)
                    if e is None and not z3.is_true(m.guard) and b.name in zvars(m.guard):
                        ctx = list(extra) + [x.rng() for x in m.binders] + [m.guard]
                        for cand in (lo, z3.simplify(hi - 1)):
                            if self.prove(b.var == cand, ctx):
                                e = cand; break
                    if e is None and not z3.is_int_value(w):
                        if self.prove(hi == lo + 1, list(extra) + [x.rng() for x in m.binders] + [m.guard]):
                            e = lo
                if e is not None:
                    pr = [(b.var, e)]
                    rest = m.binders[:i] + [Binder(x.var, subst(zi(x.lo), pr), subst(zi(x.hi), pr)) for x in m.binders[i+1:]]
                    g = z3.simplify(z3.And(subst(m.guard, pr), lo <= e, e < hi))
                    m = Mono(m.coef, rest, g, [subst(f, pr) for f in m.factors])
                    ch = True
                    break
        if not m.binders and not z3.is_true(m.guard):
            if self.prove(m.guard, extra):
                m.guard = TRUE
        return m

    def match(self, m, o, extra):
        """try to identify families m and o; return list of residual monos or None"""
        if len(m.binders) > len(o.binders): m, o = o, m
        fs = list(m.factors)
        gs = list(o.factors)
        groups = {}
        for j, g in enumerate(gs):
            groups.setdefault(head(g), []).append(j)
        def assignments(i, used):
            if i == len(fs):
                yield []
                return
            for j in groups.get(head(fs[i]), []):
                if j in used:
                    continue
                for r in assignments(i + 1, used | {j}):
                    yield [j] + r
        count = 0
        for asg in assignments(0, frozenset()):
            count += 1
            if count > 40:
                break
            holes, defer = [], []
            if not all(self.unify(fs[i], gs[j], holes, defer) for i, j in enumerate(asg)):
                continue
            r = self.try_subst(m, o, holes, defer, extra)
            if r is not None:
                return r
        return None

    def try_subst(self, m, o, holes, defer, extra):
        # solve o's binders in terms of m's variables
        ob = {b.name: b for b in o.binders}
        mb = list(m.binders)
        pairs = []
        solved = set()
        # holes inside deferred pairs may help too: collect by structural unify of arith
        hs = list(holes)
        for a, b in defer:
            collect_holes(a, b, hs)
        progress = True
        while progress and len(solved) < len(ob):
            progress = False
            for x, y in hs:
                y2 = subst(y, pairs) if pairs else y
                vs = [n for n in zvars(y2) if n in ob and n not in solved]
                if len(vs) == 1:
                    v = ob[vs[0]].var
                    s = solve_lin(y2, v, x)
                    if s is not None:
                        pairs = [(pv, subst(pe, [(v, s)])) for pv, pe in pairs] + [(v, s)]
                        solved.add(vs[0])
                        progress = True
        unsolved = [b for n, b in ob.items() if n not in solved]
        # every m binder must be determined as well; used binder images:
        cands = [[]]
        if unsolved:
            usedm = set()
            for _, e in pairs:
                usedm |= zvars(e)
            free = [b for b in mb if b.name not in usedm]
            cands = []
            if len(free) >= len(unsolved):
                cands = [[(u, f.var) for u, f in zip(unsolved, p)] for p in itertools.permutations(free, len(unsolved))]
            # binders that do not occur in the body may be pinned to an end of their range
            npin = len(cands)
            if len(free) < len(unsolved):
                opts = [None] * (len(unsolved) - len(free)) + list(free)
                for p in dict.fromkeys(itertools.permutations(opts)):
                    pin = [u for u, f in zip(unsolved, p) if f is None]
                    for ends in itertools.product((0, 1), repeat=len(pin)):
                        ev = {u.name: (zi(u.lo) if e == 0 else z3.simplify(zi(u.hi) - 1)) for u, e in zip(pin, ends)}
                        cands.append([(u, ev[u.name] if f is None else f.var) for u, f in zip(unsolved, p)])
                cands = cands[:24]
        for nc, cand in enumerate(cands):
            ps = [(pv, zi(pe)) for pv, pe in pairs]
            pinned = False
            for u, f in cand:
                e = subst(zi(f), ps)
                pinned = pinned or not z3.is_const(f) or f.decl().kind() != z3.Z3_OP_UNINTERPRETED
                ps = [(pv, subst(pe, [(u.var, e)])) for pv, pe in ps] + [(u.var, e)]
            for _ in range(2): ps = [(pv, subst(pe, ps)) for pv, pe in ps]
            # substitution must be applied simultaneously and bijective: images distinct unit-linear
            c1 = m.cond()
            c2 = subst(o.cond(), ps)
            both = list(extra) + [c1, c2]
            s = self.sat(both)
            if s is False:
                continue
            good = True
            for x, y in holes:
                y2 = subst(y, ps)
                if not x.eq(y2) and not self.prove(x == y2, both):
                    good = False; break
            if not good:
                continue
            for x, y in defer:
                if not self.eq(x, subst(y, ps), both):
                    good = False; break
            if not good:
                continue
            if not self.bij(mb, o.binders, ps):
                continue
            res = []
            co = m.coef + o.coef
            e12 = self.prove(z3.Implies(c1, c2), extra)
            if pinned and not e12: continue
            inv, eqs = self.inverse(mb, o.binders, ps)
            e21 = self.prove(z3.Implies(c2, c1), extra) and not eqs
            if co != 0:
                res.append(Mono(co, m.binders, z3.And(m.guard, c2) if not e12 else m.guard, m.factors))
            if not e12:
                res.append(Mono(m.coef, m.binders, z3.And(m.guard, z3.Not(c2)), m.factors))
            if not e21:
                c1o = z3.And(subst(c1, inv), *eqs)
                res.append(Mono(o.coef, o.binders, z3.And(o.guard, z3.Not(c1o)), o.factors))
            return res
        return None

    def bij(self, mb, obs, ps):
        return self.inverse(mb, obs, ps) is not None

    def inverse(self, mb, obs, ps):
        """o = f(m): express every m binder via o binders (f is injective); the equations left over characterise the image"""
        eqs = [(e, v) for v, e in ps]     # e(m) == v(o)
        names = {b.name: b for b in mb}
        out = []
        solved = set()
        usedeq = set()
        progress = True
        while progress and len(solved) < len(mb):
            progress = False
            for i, (e, v) in enumerate(eqs):
                e2 = subst(zi(e), out) if out else zi(e)
                vs = [n for n in zvars(e2) if n in names and n not in solved]
                if i not in usedeq and len(vs) == 1:
                    s = solve_lin(e2, names[vs[0]].var, v)
                    if s is not None:
                        out = [(a, subst(b, [(names[vs[0]].var, s)])) for a, b in out] + [(names[vs[0]].var, s)]
                        solved.add(vs[0]); progress = True; usedeq.add(i)
        if len(solved) < len(mb):
            return None
        rest = [z3.simplify(subst(zi(e), out) == v) for i, (e, v) in enumerate(eqs) if i not in usedeq]
        return out, [r for r in rest if not z3.is_true(r)]

    # -- sequences ---------------------------------------------------------
    def eq_seq(self, A, B, extra):
        A = flat(A); B = flat(B)
        guard = 0
        while A or B:
            guard += 1
            if guard > 200:
                return False
            A = self.drop_empty(A, extra)
            B = self.drop_empty(B, extra)
            if not A and not B:
                return True
            if not A or not B:
                self.last = ('length', A, B)
                return False
            a, b = A[0], B[0]
            if a.kind == 'e' and b.kind == 'e':
                if not self.eq_val(a.val, b.val, extra):
                    self.last = ('elem', a.val, b.val)
                    return False
                A, B = A[1:], B[1:]
                continue
            if a.kind == 'r' and b.kind == 'r':
                va, vb = a.b.var, b.b.var
                # align lengths: len equal?
                la, lb = zi(a.b.hi) - zi(a.b.lo), zi(b.b.hi) - zi(b.b.lo)
                sh = [(vb, va - zi(a.b.lo) + zi(b.b.lo))]
                if self.prove(la == lb, extra):
                    ca = [a.b.rng()]
                    if not self.prove(z3.Implies(z3.And(*ca), a.guard == subst(b.guard, sh)), extra):
                        self.last = ('guard', a, b)
                        return False
                    if not self.eq_seq(list(a.segs), [subst(s, sh) for s in b.segs], extra + ca + [a.guard]):
                        return False
                    A, B = A[1:], B[1:]
                    continue
                # split the longer one
                if self.prove(la <= lb, extra):
                    mid = z3.simplify(zi(b.b.lo) + la)
                    B = split_rep(b, mid) + B[1:]
                    continue
                if self.prove(lb <= la, extra):
                    mid = z3.simplify(zi(a.b.lo) + lb)
                    A = split_rep(a, mid) + A[1:]
                    continue
                self.last = ('len', a, b)
                return False
            # one concrete element versus a repetition: peel
            if a.kind == 'r':
                p = self.peel(a, extra)
                if p is None:
                    self.last = ('peel', a, b)
                    return False
                A = p + A[1:]
            else:
                p = self.peel(b, extra)
                if p is None:
                    self.last = ('peel', a, b)
                    return False
                B = p + B[1:]
        return True

    def eq_val(self, x, y, extra):
        if isinstance(x, Term) or isinstance(y, Term):
            try:
                return self.eq(x, y, extra)
            except Unsupported:
                return False
        if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
            return len(x) == len(y) and all(self.eq_val(p, q, extra) for p, q in zip(x, y))
        if isinstance(x, (int, SInt)) and isinstance(y, (int, SInt)):
            return self.prove(zi(x) == zi(y), extra)
        return x is y or x == y

    def drop_empty(self, S, extra):
        while S and S[0].kind == 'r':
            s = S[0]
            if self.sat(list(extra) + [s.b.rng(), s.guard]) is False or not s.segs:
                S = S[1:]
            else:
                break
        return S

    def peel(self, s, extra):
        if not self.prove(zi(s.b.lo) < zi(s.b.hi), extra):
            return None
        pr = [(s.b.var, zi(s.b.lo))]
        g = subst(s.guard, pr)
        first = [subst(x, pr) for x in s.segs]
        if not self.prove(g, extra):
            if self.prove(z3.Not(g), extra):
                first = []
            else:
                return None
        rest = Seg('r', b=Binder(s.b.var, z3.simplify(zi(s.b.lo) + 1), s.b.hi), guard=s.guard, segs=s.segs)
        return flat(first) + [rest]

def split_rep(s, mid):
    v2 = fresh_int(s.b.name.split('!')[0])
    r = [(s.b.var, v2)]
    return [Seg('r', b=Binder(s.b.var, s.b.lo, mid), guard=s.guard, segs=s.segs),
            Seg('r', b=Binder(v2, mid, s.b.hi), guard=subst(s.guard, r), segs=[subst(x, r) for x in s.segs])]

def flat(S):
    """flatten nested vcat elements"""
    out = []
    for s in S:
        if s.kind == 'e' and isinstance(s.val, Term) and s.val.op == 'vcat':
            out += flat(list(s.val.args[0]))
        else:
            out.append(s)
    return out

def collect_holes(a, b, hs):
    """best-effort pairing of integer holes inside two arithmetic terms (hints only)"""
    if isinstance(a, Term) and isinstance(b, Term):
        if a.op == b.op and len(a.args) == len(b.args):
            for x, y in zip(a.args, b.args):
                collect_holes(x, y, hs)
        elif a.op in ('add', 'sub', 'mul', 'div') and b.op in ('add', 'sub', 'mul', 'div'):
            for x in a.args:
                for y in b.args:
                    if isinstance(x, Term) and isinstance(y, Term) and x.op == y.op and head(x) == head(y):
                        collect_holes(x, y, hs)
        elif a.op in ('add', 'sub', 'mul', 'div', 'neg', 'T'):
            for x in a.args: collect_holes(x, b, hs)
        elif b.op in ('add', 'sub', 'mul', 'div', 'neg', 'T'):
            for y in b.args: collect_holes(a, y, hs)
    elif is_z(a) and is_z(b) and not z3.is_bool(a) and not z3.is_bool(b):
        hs.append((a, b))
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for x, y in zip(a, b):
            collect_holes(x, y, hs)
    elif isinstance(a, Seg) and isinstance(b, Seg) and a.kind == b.kind:
        if a.kind == 'e':
            collect_holes(a.val, b.val, hs)
        else:
            sh = [(b.b.var, a.b.var - zi(a.b.lo) + zi(b.b.lo))]
            for x, y in zip(a.segs, b.segs):
                collect_holes(x, subst(y, sh), hs)

def solve_lin(e, v, rhs):
    """solve e(v) == rhs for v when e is v + rest or -v + rest"""
    rest = z3.simplify(z3.substitute(e, (v, z3.IntVal(0))))
    d = z3.simplify(e - rest - v, som=True)
    if z3.is_int_value(d) and d.as_long() == 0:
        return z3.simplify(rhs - rest)
    d = z3.simplify(e - rest + v, som=True)
    if z3.is_int_value(d) and d.as_long() == 0:
        return z3.simplify(rest - rhs)
    return None

def conjuncts(g):
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += conjuncts(c)
        return out
    return [g]

def solve_eq_in(guard, v):
    """an equation v == e among the conjuncts of guard (e free of v)"""
    n = v.decl().name()
    for c in conjuncts(guard):
        if z3.is_eq(c) and not z3.is_bool(c.arg(0)):
            l, r = c.arg(0), c.arg(1)
            if n in zvars(c):
                s = solve_lin(z3.simplify(l - r), v, z3.IntVal(0))
                if s is not None and n not in zvars(s):
                    return s
    return None
