"""C22: the plot data structure for every history: an arbitrary structure satisfying the invariant (distinct indices, aligned lists,
features in order of first use), every store and every query."""
import itertools
from .files import *
from ..interp import filtered
from ..harness import Refuter
ST = 'do_mpc.tools._structure:Structure'
I, B = z3.IntSort(), z3.BoolSort()
LEN = z3.Function('len_of_index', I, I)
KEY = z3.Function('key_of_index', I, I, I)
FEAT = z3.Function('feature', I, I, I)
BOUNDED = {'level': 'indices of queries and stores have a stated number of levels (the number of stored values, their indices of any depth and all keys are arbitrary)', 'dictionary': 'dictionaries of up to three entries'}

def T(op, *a): return Term(op, a, None, None)
def key(e): return T('key', zi(e))
def iskey(v): return isinstance(v, Term) and v.op == 'key'
def rseg(lo, hi, f):
    b = fresh_int('s')
    return Seg('r', b=Binder(b, lo, hi), guard=TRUE, segs=[E(f(b))])

class World:
    def __init__(self, ctx, levels=3):
        self.ctx = ctx; self.it = it = ctx.it
        self.n = n = z3.Int('n_stored'); it.base_facts.append(n >= 0)
        k = z3.Int('k!')
        it.base_facts.append(z3.ForAll([k], LEN(k) >= 1, patterns=[LEN(k)]))
        self.nf = [z3.Int('n_features%d' % j) for j in range(levels)]
        it.base_facts += [x >= 0 for x in self.nf]
        self.me = it.call(it.find(ST), [], {})
        A = self.me.attrs
        self.empty = {a: A.get(a) for a in ('master', 'powerindex', 'features', 'index', 'count')}
        def pl(f): return PList([rseg(0, SInt(n), f)])
        self.lists = {'master': pl(lambda b: T('val', b)), 'powerindex': pl(lambda b: T('pidx', b)), 'index': pl(lambda b: SInt(b)),
                      'features': PList([E(PList([rseg(0, SInt(x), lambda b, j=j: key(FEAT(j, b)))])) for j, x in enumerate(self.nf)])}
        A.update(self.lists); A['count'] = SInt(n)
        self.segs = {a: list(l.segs) for a, l in self.lists.items()}
        self.fsegs = [list(s.val.segs) for s in self.lists['features'].segs]
        H = it.lib.hooks
        H['index_error'] = True
        self.wit = {}
        def getitem(it, o, q):
            if isinstance(o, Term) and o.op == 'pidx':
                if isinstance(q, (int, SInt)):
                    if not it.decide(mkbool(z3.And(zi(q) < LEN(o.args[0]), zi(q) >= -LEN(o.args[0])))): raise PyEx('IndexError')
                    if not it.prove(zi(q) >= 0): raise Unsupported('negative level')
                    return key(KEY(o.args[0], zi(q)))
                raise Unsupported('slice of an index')
            return NotImplemented
        H['getitem'] = getitem
        H['length'] = lambda it, o: mkint(LEN(o.args[0])) if isinstance(o, Term) and o.op == 'pidx' else NotImplemented
        eq0 = it.equal
        def equal(a, b):
            for x, y in ((a, b), (b, a)):
                if iskey(x):
                    if iskey(y): return mkbool(x.args[0] == y.args[0])
                    raise Unsupported('comparison of keys')
                if isinstance(x, Term) and x.op == 'pidx':
                    if isinstance(y, tuple) and all(map(iskey, y)): return mkbool(z3.And(LEN(x.args[0]) == len(y), *[KEY(x.args[0], j) == q.args[0] for j, q in enumerate(y)]))
                    if isinstance(y, Term) and y.op == 'pidx' and x.args[0].eq(y.args[0]): return True
                    raise Unsupported('comparison of indices')
            return eq0(a, b)
        it.equal = equal
        def members(it, l, x):
            kk = (id(l), show(x))
            nm = 'present:%s:%s' % (next((a for a in self.lists if self.lists[a] is l), 'feature'), show(x))
            if kk in self.wit: return True
            if not it.decide(SBool(z3.Bool(nm))): return False
            q = z3.Int('at:' + nm); it.assume(z3.And(q >= 0, q < zi(it.length(l))))
            it.assume(zb(it.equal(it.getitem(l, SInt(q)), x))); self.wit[kk] = q
            return True
        H['members'] = members
        def index(it, l, x):
            if not members(it, l, x): raise PyEx('ValueError')
            return SInt(self.wit[(id(l), show(x))])
        H['index'] = index
        def isinst(it, v, t):
            if not isinstance(v, Term) or not isinstance(t, LibType): return None
            if v.op == 'key': return (t.name in ('str', 'int') and it.decide(mkbool((v.args[0] % 2 == 0) if t.name == 'int' else (v.args[0] % 2 != 0)))) if t.name in ('str', 'int') else False
            if v.op == 'pidx': return t.name == 'tuple'
            if v.op in ('val', 'new'): return False
            return None
        it.lib.isinst.append(isinst)
    def untouched(self, which, msg):
        A = self.me.attrs
        for a in which:
            l = self.lists[a]
            self.ctx.true(msg, A[a] is l and len(l.segs) == len(self.segs[a]) and all(x is y for x, y in zip(l.segs, self.segs[a])), '%s: %s' % (a, A[a]))
            if a == 'features':
                for s, old in zip(l.segs, self.fsegs): self.ctx.true(msg, len(s.val.segs) == len(old) and all(x is y for x, y in zip(s.val.segs, old)), '%s' % s.val)

def new(ctx):
    """the invariant holds for the empty structure"""
    w = World(ctx)
    for a in ('master', 'powerindex', 'features', 'index'): ctx.true('an empty structure has no values', isinstance(w.empty[a], PList) and not w.empty[a].segs, '%s' % w.empty[a])
    ctx.true('an empty structure has no values', w.empty['count'] == 0, '')
    ctx.true('own lists', len({id(w.empty[a]) for a in ('master', 'powerindex', 'features', 'index')}) == 4, '')
    ctx.true('full lists all values', ctx.it.getattr(w.me, 'full') is w.me.attrs['master'], '')

def ind_of(how, ks):
    return PList(elems=list(ks)) if how == 'list' else ks[0] if how == 'plain' else tuple(ks)

def store(depth, levels, how):
    """a plain value under an index of the given depth, structure with the given number of feature levels"""
    def run(ctx):
        w = World(ctx, levels); it = ctx.it; A = w.me.attrs
        ks = [key(z3.Int('q%d' % j)) for j in range(depth)]
        # an index of this depth is only stored when it has feature levels
        v = T('new')
        it.setitem(w.me, ind_of(how, ks), v)
        present = (id(w.lists['powerindex']), show(tuple(ks))) in w.wit
        k = z3.Int('k'); it.assume(k >= 0); it.assume(k < w.n)
        if present:
            p = w.wit[(id(w.lists['powerindex']), show(tuple(ks)))]
            w.untouched(('powerindex', 'index', 'features'), 'storing under an existing index only replaces the value')
            ctx.true('the number of values stays', isinstance(A['count'], SInt) and it.prove(A['count'].e == w.n), '%s' % A['count'])
            ctx.true('same list', A['master'] is w.lists['master'], '')
            ctx.oblige('the number of values stays', zi(it.length(A['master'])) == w.n)
            def at():
                x = it.getitem(A['master'], SInt(k))
                same = it.decide(mkbool(k == p))
                if same: return ctx.true('the value is replaced', x is v, '%s' % (x,))
                if isinstance(x, Term) and x.op == 'val': return ctx.oblige('other values stay', x.args[0] == k)
                ctx.fail('other values stay', '%s' % (x,))
            return ctx.cases(at)
        def tail(a, want, name):
            s = A[a].segs
            ctx.true('earlier values are kept', A[a] is w.lists[a] and len(s) >= 1 and s[0] is w.segs[a][0], '%s' % (s,))
            good = len(s) == 2 and s[1].kind == 'e'
            if not good: return ctx.fail(name, '%s' % (s,))
            x = s[1].val
            if callable(want): return want(x)
            ctx.true(name, x is want or isinstance(x, tuple) and isinstance(want, tuple) and len(x) == len(want) and all(p is q for p, q in zip(x, want)), '%s' % (x,))
        tail('master', v, 'the value is appended')
        tail('powerindex', tuple(ks), 'its index is appended')
        tail('index', lambda x: ctx.oblige('its position is appended', zi(x) == w.n) if isinstance(x, (int, SInt)) else ctx.fail('its position is appended', '%s' % (x,)), '')
        ctx.oblige('values are counted', zi(A['count']) == w.n + 1) if isinstance(A['count'], (int, SInt)) else ctx.fail('values are counted', '')
        F = A['features']
        ctx.true('one feature list per level', F is w.lists['features'] and F.concrete() and len(F.segs) == max(levels, depth), '%s' % (F,))
        if not F.concrete() or len(F.segs) != max(levels, depth): return
        for j, l in enumerate(F.elems()):
            if j < levels:
                ctx.true('known features stay', len(l.segs) >= 1 and l.segs[0] is w.fsegs[j][0], '%s' % (l,))
                rest = l.segs[1:]
                known = j >= depth or (id(l), show(ks[j])) in w.wit
                if j >= depth: ctx.true('deeper levels stay', not rest, '%s' % (l,)); continue
            else: rest = l.segs; known = False
            ctx.true('new features are added once', len(rest) == (0 if known else 1) and all(s.kind == 'e' and s.val is ks[j] for s in rest), '%s' % (l,))
    return run

def nested(kind, depth):
    """a list of any length (tuple, dictionary) is stored item by item under the extended index"""
    def run(ctx):
        w = World(ctx); it = ctx.it
        ks = [key(z3.Int('q%d' % j)) for j in range(depth)]
        c = w.me.cls; f = c.ns['__setitem__']
        log = PList([])
        def ghost(it, a, k):
            it.append_seg(log, E((a[1], a[2]))); return None
        c.ns['__setitem__'] = LibFn('__setitem__', lambda it, a, k: ghost(it, a, k))
        c.ns['__setitem__'] = PBoundless(ghost)
        m = z3.Int('m'); it.base_facts.append(m >= 0)
        if kind == 'list': v = PList([rseg(0, SInt(m), lambda b: T('item', b))])
        elif kind == 'tuple': v = (T('item', z3.IntVal(0)), T('item', z3.IntVal(1)))
        elif kind == 'empty tuple': v = ()
        else:
            names = ('a', 'b', 7)[:int(kind[-1])]
            v = PDict({x: T('item', z3.IntVal(i)) for i, x in enumerate(names)})
        it.lib.isinst.append(lambda it, x, t: False if isinstance(x, Term) and x.op == 'item' and isinstance(t, LibType) else None)
        try: it.call(PBound(f, w.me), [tuple(ks), v], {})
        finally: c.ns['__setitem__'] = f
        present = (id(w.lists['powerindex']), show(tuple(ks))) in w.wit
        if present:
            ctx.true('an existing index receives the value itself', not log.segs, '%s' % log)
            p = w.wit[(id(w.lists['powerindex']), show(tuple(ks)))]
            return ctx.true('an existing index receives the value itself', it.getitem(w.me.attrs['master'], SInt(p)) is v, '')
        w.untouched(('master', 'powerindex', 'index', 'features'), 'nothing but the items is stored')
        def chk(e, j, i):
            q, x = e
            if isinstance(q, PList): q = tuple(q.elems())
            ok = isinstance(q, tuple) and len(q) == depth + 1 and all(a is b for a, b in zip(q, ks))
            ctx.true('items are stored under the extended index', ok, '%s' % (e,))
            if not ok: return
            if isinstance(j, str): ctx.true('items are stored under their keys', q[-1] == j, '%s' % (e,))
            else: ctx.oblige('items are stored under their keys', zi(q[-1]) == zi(j)) if isinstance(q[-1], (int, SInt)) and not isinstance(q[-1], bool) else ctx.fail('items are stored under their keys', '%s' % (e,))
            if isinstance(x, Term) and x.op == 'item': ctx.oblige('items are stored', x.args[0] == zi(i))
            else: ctx.fail('items are stored', '%s' % (e,))
        if kind == 'list':
            ctx.oblige('one store per item', zi(it.length(log)) == m)
            i = z3.Int('i'); it.assume(i >= 0); it.assume(i < m)
            return ctx.cases(lambda: chk(it.getitem(log, SInt(i)), SInt(i), SInt(i)))
        js = list(v.d) if isinstance(v, PDict) else list(range(len(v)))
        ctx.true('one store per item', log.concrete() and len(log.segs) == len(js), '%s' % log)
        if log.concrete() and len(log.segs) == len(js):
            for i, (e, j) in enumerate(zip(log.elems(), js)): chk(e, j, i)
    return run

def PBoundless(f):
    r = LibFn('__setitem__', f)
    return r

def leaf(ctx, w, got, cond, what):
    it = ctx.it
    k = z3.Int('k'); want = z3.And(*cond(k)) if cond(k) else TRUE
    F0 = [k >= 0, k < w.n]
    if not isinstance(got, PList): return ctx.fail('a list of values is returned', '%s' % (got,))
    if len(got.segs) != 1 or got.segs[0].kind != 'r': return ctx.unknown('selected values', '%s' % (got,))
    f = filtered(got.segs[0])
    if f is None:
        s = got.segs[0]
        if not (len(s.segs) == 1 and s.segs[0].kind == 'e'): return ctx.unknown('selected values', '%s' % (got,))
        f = (s.b, TRUE, s.segs[0].val)
    b, g, v = f
    ctx.oblige('values of the structure are searched', z3.And(zi(b.lo) == 0, zi(b.hi) == w.n))
    g = z3.substitute(g, (b.var, k))
    for x in F0: ctx.extra.append(x)
    ctx.oblige('values whose indices match are selected', z3.Implies(want, g))
    ctx.oblige('only values whose indices match are selected', z3.Implies(g, want))
    v = it.inst(v, [(b.var, k)])
    e = v.e if isinstance(v, SInt) else zi(v) if isinstance(v, int) else v.args[0] if isinstance(v, Term) and v.op == what else None
    if e is None: ctx.fail('the stored values are returned', '%s' % (v,))
    else: ctx.oblige('the stored values are returned', z3.Implies(want, e == k))
    for x in F0: ctx.extra.remove(x)

def query(pattern, how, attr):
    """pattern of keys (k) and slices (a: all, l: [lo:], h: [:hi], b: [lo:hi])"""
    def run(ctx):
        w = World(ctx, len(pattern)); it = ctx.it
        q = []; rng = {}
        for j, p in enumerate(pattern):
            if p == 'k': q.append(key(z3.Int('q%d' % j))); continue
            lo, hi = z3.Int('lo%d' % j), z3.Int('hi%d' % j)
            it.base_facts += [lo >= 0, lo <= hi, hi <= w.nf[j]]
            q.append(Slice(SInt(lo) if p in 'lb' else None, SInt(hi) if p in 'hb' else None))
            rng[j] = (lo if p in 'lb' else z3.IntVal(0), hi if p in 'hb' else w.nf[j])
        ind = ind_of(how, q)
        if attr == 'values': r = it.getitem(w.me, ind); what = 'val'
        elif attr == 'keys': r = it.call(it.getattr(w.me, '_getkeys'), [ind], {}); what = 'pidx'
        else: r = it.getitem(it.getattr(w.me, 'get_index'), ind); what = 'int'
        w.untouched(('master', 'powerindex', 'index', 'features'), 'queries do not change the structure')
        if how == 'list': ctx.true('the query is not changed', len(ind.segs) == len(q) and all(s.val is x for s, x in zip(ind.segs, q)), '%s' % ind)
        def level(got, j, conds):
            while j < len(q) and j not in rng:
                conds = conds + [(j, q[j].args[0])]; j += 1
            if j == len(q): return leaf(ctx, w, got, lambda k: [z3.And(LEN(k) > jj, KEY(k, jj) == e) for jj, e in conds], what)
            lo, hi = rng[j]
            if not isinstance(got, PList): return ctx.fail('one group per sliced key', '%s' % (got,))
            n = it.length(got)
            ctx.oblige('one group per sliced key', zi(n) == hi - lo)
            m = ctx.fresh('m', 0, hi - lo)
            ctx.cases(lambda: level(it.getitem(got, SInt(m)), j + 1, conds + [(j, FEAT(j, lo + m))]))
        level(r, 0, [])
    return run

def ufs(p):
    return {'len_of_index': lambda k: 1 + k % 3, 'key_of_index': lambda k, j: (k // (j + 1)) % 3, 'feature': lambda j, m: m}
REF = Refuter({'n_stored': range(5)}, ufs, dom=4)

CONTRACTS = [('Structure.__init__, full', new, None)]
for d in (1, 2, 3):
    for l in range(0, 4):
        for how in ('tuple', 'list') + (('plain',) if d == 1 else ()):
            if how == 'tuple' or l == 1: CONTRACTS.append(('Structure.__setitem__, %s index of %d levels, %d feature levels' % (how, d, l), store(d, l, how), REF))
for kind in ('list', 'tuple', 'empty tuple', 'dictionary of 1', 'dictionary of 2', 'dictionary of 3'):
    for d in (1, 2): CONTRACTS.append(('Structure.__setitem__ of a %s, index of %d levels' % (kind, d), nested(kind, d), REF))
for d in (1, 2, 3):
    for p in itertools.product('ka', repeat=d): CONTRACTS.append(('Structure.__getitem__, query of %d levels: %s' % (d, ''.join(p)), query(p, 'tuple', 'values'), REF))
for p in ('l', 'h', 'b', 'kl', 'hk', 'bb', 'kkb', 'lkh', 'kkkk', 'kaka', 'akka'): CONTRACTS.append(('Structure.__getitem__, query of %d levels: %s' % (len(p), p), query(p, 'tuple', 'values'), REF))
for p in ('k', 'a'): CONTRACTS.append(('Structure.__getitem__, query of one level without tuple: %s' % p, query(p, 'plain', 'values'), REF))
for p in ('k', 'kk', 'ka', 'ak'):
    CONTRACTS.append(('Structure.__getitem__, list query of %d levels: %s' % (len(p), p), query(p, 'list', 'values'), REF))
    for a in ('keys', 'positions'): CONTRACTS.append(('Structure %s, query of %d levels: %s' % (a, len(p), p), query(p, 'tuple', a), REF))
TRUSTED = ['equality and hashing of keys (strings and integers): keys are modelled by distinct codes']
ASSUMPTIONS = ['stored values are not lists, tuples or dictionaries unless they are to be expanded', 'slices of features have non-negative bounds without step']
LEVEL = 'other'
EXPLANATION = 'every obligation holds for every number of stored values, every depth of the stored indices, all keys and slice bounds, but only for queries of up to four and stores of up to three levels'
