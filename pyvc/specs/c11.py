"""C11: Data.__init__, init_storage, update, __getitem__, export and MPCData.prediction for every layout, history and tree."""
from .opt import *
from .. import arr as A
from .step import Rec

FIELDS = {'_time': 1, '_x': DIMS['_x'], '_y': DIMS['_y'], '_u': DIMS['_u'], '_z': DIMS['_z'], '_tvp': DIMS['_tvp'], '_p': DIMS['_p'], '_aux': DIMS['_aux'], '_own': I('n_own')}
N, S, P, ROWS = I('n_horizon'), I('n_scenarios'), I('n_paths'), I('n_rows')
w_ = lambda d: d if isinstance(d, int) else mkint(d)

def hist(it, f):
    """stored history of a field: any number of rows"""
    return Term('sym', ('H' + f,), I('rows' + f), FIELDS[f], 'ndarray')

class FKey:
    """flat index of a power index into a structure"""
    def __init__(self, layout, key): self.layout = layout; self.key = key

def base(ctx):
    it = ctx.it
    it.base_facts += [v >= 0 for v in DIMS.values()] + [I('n_own') >= 1, N >= 1, S >= 1, P >= 1] + [I('rows' + f) >= 0 for f in FIELDS]
    def append(it, a, k):
        x, y, ax = a[0], a[1], k.get('axis', a[2] if len(a) > 2 else None)
        x, y = vec2(x), vec2(y)
        if ax != 0 or x.cols is None or y.cols is None: raise Unsupported('append')
        if not it.prove(zi(x.cols) == zi(y.cols)):
            if it.prove(zi(x.cols) != zi(y.cols)): raise PyEx('ValueError', ('dimension mismatch',))
            ctx.oblige('the appended row has the width of the field', zi(x.cols) == zi(y.cols))
            raise Unsupported('append of unknown width')
        return vc(it, [x, y])
    def vc(it, xs):
        t = vcat(it, [E(x) for x in xs])
        if isinstance(t, Term): t = Term(t.op, t.args, t.rows, xs[0].cols, 'ndarray')
        return t
    def empty(it, a, k):
        sh = a[0] if a else k['shape']
        if isinstance(sh, tuple) and len(sh) == 2 and isinstance(sh[0], int) and sh[0] == 0: return Term('norows', (), 0, sh[1] if isinstance(sh[1], int) else zi(sh[1]), 'ndarray')
        if isinstance(sh, tuple) and len(sh) == 2: return Term('empty', (), zi(sh[0]), zi(sh[1]))
        raise Unsupported('empty')
    H = it.lib.hooks
    H['numpy.append'] = LibFn('append', append)
    for n in ('empty', 'zeros', 'ones'): H['numpy.' + n] = LibFn(n, empty)
    for n in ('vstack', 'concatenate'):
        def v(it, a, k):
            if k.get('axis', 0) != 0: raise Unsupported('axis')
            return vc(it, [vec2(s.val) for s in it.segs_of(a[0])])
        H['numpy.' + n] = LibFn(n, v)
    A.install(it)
    old = H['numpy.array']
    for n in ('array', 'asarray'): H['numpy.' + n] = LibFn(n, lambda it, a, k: a[0].attrs['content'] if isinstance(a[0], PObj) and 'content' in a[0].attrs else old.f(it, a, k))
    return it

def cls(it, n): return it.find('do_mpc.data:' + n)

def dataobj(ctx, kind='Data', stored=True):
    """data object as constructed, with arbitrary stored rows"""
    it = base(ctx)
    W = World(it); m = model(it, W)
    a = m.attrs
    for k in ('_rhs', '_alg', '_y_expression'): a[k] = Term('sym', (k,), None, 1)
    a['__dict__'] = PDict(dict(a))
    me = PObj(cls(it, kind), name='data')
    gi = it.lib.hooks['getitem']
    def h(it, o, k):
        if isinstance(o, FIdx): return findex(it, o, k)
        if isinstance(o, Term) and isinstance(k, tuple) and len(k) == 2:
            if isinstance(k[0], Slice) and k[0].lo is None and k[0].hi is None and isinstance(k[1], FKey):
                return Term('cols', (o, k[1].layout.name, tuple(key_atom(x) for x in k[1].key)), o.rows, None)
            if isinstance(k[1], A.Lam) and isinstance(k[0], (int, SInt)):
                r = it.norm_index(k[0], o.rows if isinstance(o.rows, int) else mkint(o.rows), 'step')
                def el(q):
                    v = k[1].fn(q)
                    return Term('at', (o, zi(r), v if isinstance(v, Term) else zi(v)), 1, 1)
                return A.Lam(k[1].dims, el)
        return gi(it, o, k)
    it.lib.hooks['getitem'] = h
    it.call(it.find_init(me) if hasattr(it, 'find_init') else it.getattr(me, '__init__'), [m], {})
    if stored:
        it.setitem(it.getattr(me, 'data_fields'), '_own', mkint(I('n_own')))
        for f in FIELDS: it.setattr(me, f, hist(it, f))
    return it, W, m, me

def findex(it, o, key):
    L = o.st.layout
    ks = key if isinstance(key, tuple) else (key,)
    if L.entries is None: return FKey(L, ks)
    # repeated entries: slices give lists, functions are applied to the list of the remaining part
    if not isinstance(ks[0], str) or ks[0] not in L.entries: raise PyEx('KeyError', (ks[0],))
    dims, b = L.entries[ks[0]]
    def go(i, rest, q):
        if i < len(dims):
            if not rest: raise Unsupported('open index')
            x, rest = rest[0], rest[1:]
            if isinstance(x, (int, SInt)): return go(i + 1, rest, q + [it.norm_index(x, dims[i], 'structure index')])
            if isinstance(x, Slice):
                lo, hi = it.norm_slice(x, dims[i])
                v = fresh_int('f')
                bb = Binder(v, lo, hi)
                it.loops.append(NoFork(bb))
                try: e = go(i + 1, rest, q + [v])
                finally: it.loops.pop()
                return PList([Seg('r', b=bb, guard=TRUE, segs=[E(e)])])
            if callable_(x):
                return it.call(x, [go(i, rest, q)], {})
            raise Unsupported('index')
        if rest and callable_(rest[0]): raise Unsupported('function on an entry')
        return Term('fidx', (L.name, ks[0]) + tuple(zi(x) for x in q) + tuple(key_atom(x) for x in rest), I('d:' + ','.join(map(str, map(key_atom, rest)))), 1, 'DM')
    return go(0, list(ks[1:]), [])
def callable_(x): return isinstance(x, (PFunc, PBound, LibFn))

# ------------------------------------------------------------------ data
def init(kind):
    def run(ctx):
        it, W, m, me = dataobj(ctx, kind, stored=False)
        df = it.getattr(me, 'data_fields')
        for f, d in FIELDS.items():
            if f == '_own': continue
            ctx.true('field %s exists' % f, f in df.d, 'missing')
            ctx.oblige('width of field %s' % f, zi(it.getitem(df, f)) == zi(d))
            ctx.eq('field %s starts without rows' % f, vec2(it.getattr(me, f)), Term('norows', (), 0, d))
            v = it.getattr(me, f)
            ctx.oblige('width of storage %s' % f, zi(v.cols) == zi(d))
        q = it.getattr(me, 'model')
        for f in ('_x', '_u', '_z', '_p', '_tvp', '_aux', '_y'): ctx.true('layout of %s' % f, it.getitem(q, f) is m.attrs[f], 'layout of another variable')
    return run

def rejects_unset(ctx):
    it = base(ctx); W = World(it); m = model(it, W); m.attrs['flags'] = PDict({'setup': False}); m.attrs['__dict__'] = PDict(dict(m.attrs))
    me = PObj(cls(it, 'Data'), name='data')
    try: it.call(it.getattr(me, '__init__'), [m], {})
    except PyEx as ex: return ctx.true('model without setup is rejected', ex.tname == 'AssertionError', ex.tname)
    ctx.fail('model without setup is rejected', 'accepted')

def value(it, W, f, form, tag=''):
    """a new value of field f in a given form, and its content"""
    d = FIELDS[f]
    t = Term('sym', ('new' + f + tag,), d, 1, 'DM')
    if form == 'struct': return PStruct(Layout('v' + f, None, w_(d)), 'num', whole=t, name='new' + f), t
    if form == 'DM': return t, t
    if form == 'array': return Term('sym', t.args, d, 1, 'ndarray'), t
    if form == 'row': r = mk('T', Term('sym', t.args, d, 1, 'ndarray')); return Term(r.op, r.args, r.rows, r.cols, 'ndarray'), t
    if form == 'scalar': return 2.5, C(2.5)
    if form == 'list':
        o = PObj(LibType('list'), name='list'); o.attrs['content'] = Term('sym', t.args, d, 1, 'ndarray'); return o, t

def unchanged(ctx, it, me, but=()):
    for f in FIELDS:
        if f not in but: ctx.eq('field %s keeps its rows' % f, vec2(it.getattr(me, f)), hist(it, f))

def update(f, form):
    def run(ctx):
        it, W, m, me = dataobj(ctx)
        v, t = value(it, W, f, form)
        it.call(it.getattr(me, 'update'), [], {f: v})
        want = vcat(it, [E(hist(it, f)), E(mk('T', t))])
        ctx.eq('%s: one row with the given values is appended' % f, vec2(it.getattr(me, f)), want)
        unchanged(ctx, it, me, (f,))
        # the next row
        v, t2 = value(it, W, f, form if form != 'scalar' else 'array', '2')
        it.call(it.getattr(me, 'update'), [], {f: v})
        ctx.eq('%s: the next row follows' % f, vec2(it.getattr(me, f)), vcat(it, [E(hist(it, f)), E(mk('T', t)), E(mk('T', t2))]))
    return run

def update_two(ctx):
    it, W, m, me = dataobj(ctx)
    a, ta = value(it, W, '_u', 'DM'); b, tb = value(it, W, '_x', 'struct'); c, tc = value(it, W, '_own', 'array')
    it.call(it.getattr(me, 'update'), [], {'_u': a, '_x': b, '_own': c})
    for f, t in (('_u', ta), ('_x', tb), ('_own', tc)): ctx.eq('%s: own row in a joint update' % f, vec2(it.getattr(me, f)), vcat(it, [E(hist(it, f)), E(mk('T', t))]))
    unchanged(ctx, it, me, ('_u', '_x', '_own'))

def update_unknown(ctx):
    it, W, m, me = dataobj(ctx)
    try: it.call(it.getattr(me, 'update'), [], {'_nofield': Term('sym', ('v',), 1, 1, 'ndarray')})
    except PyEx as ex:
        ctx.true('unknown field is rejected', ex.tname in ('AssertionError', 'KeyError', 'ValueError'), ex.tname)
        return unchanged(ctx, it, me)
    ctx.fail('unknown field is rejected', 'accepted')

def clear(ctx):
    it, W, m, me = dataobj(ctx)
    it.call(it.getattr(me, 'init_storage'), [], {})
    for f, d in FIELDS.items():
        v = it.getattr(me, f); ctx.eq('field %s is emptied' % f, vec2(v), Term('norows', (), 0, d)); ctx.oblige('width of %s' % f, zi(v.cols) == zi(d))

def export(ctx):
    it, W, m, me = dataobj(ctx)
    e = it.call(it.getattr(me, 'export'), [], {})
    ctx.true('all fields are exported', isinstance(e, PDict) and set(e.d) == set(FIELDS), 'keys')
    for f in FIELDS: ctx.eq('exported %s' % f, vec2(it.getitem(e, f)), hist(it, f))
    unchanged(ctx, it, me)

def qwant(it, m, ind, h):
    f = ind[0]
    if len(ind) == 1: return h
    return Term('cols', (h, m.attrs[f].layout.name, tuple(key_atom(x) for x in ind[1:])), h.rows, None)

def queries(seq):
    """a sequence of queries with updates in between returns the current data every time"""
    def run(ctx):
        it, W, m, me = dataobj(ctx)
        cur = {f: hist(it, f) for f in FIELDS}
        for j, x in enumerate(seq):
            if isinstance(x, str):
                v, t = value(it, W, x, 'DM', str(j))
                it.call(it.getattr(me, 'update'), [], {x: v})
                cur[x] = vcat(it, [E(cur[x]), E(mk('T', t))])
                continue
            try: got = it.getitem(me, x if len(x) > 1 else x[0])
            except PyEx as ex: ctx.fail('query %d %s' % (j, x), 'raises %s' % ex); return
            ctx.eq('query %d %s' % (j, x), vec2(got), qwant(it, m, x, cur[x[0]]))
    return run

SEQS = [[('_x', 'a'), ('_x', 'a'), ('_x', 'b'), ('_x', 'a')], [('_x', 'a'), ('_u', 'a'), ('_x', 'a'), '_x', ('_x', 'a'), '_u', ('_u', 'a')],
        [('_x', 'a', 0), ('_x', 'a'), ('_x', 'a', 1), ('_x', 'a', 0), '_x', ('_x', 'a', 1)], [('_z', 'q', 1), ('_aux', 'q', 1), '_z', '_aux', ('_z', 'q', 1), ('_aux', 'q', 1), ('_aux',)],
        [('_time',), '_time', ('_time',)], [('_p', 'k'), ('_tvp', 'k'), ('_y', 'k'), '_p', '_tvp', '_y', ('_y', 'k'), ('_p', 'k'), ('_tvp', 'k')], [('_own',), '_own', ('_own',)]]

class Cache: pass

def cached(kind):
    """any earlier queries: the recorded index lists are consistent (invariant), and stay so"""
    def run(ctx):
        it, W, m, me = dataobj(ctx, kind)
        ind = ('_x', SStr('name'), SInt(I('el')))
        rq = it.getattr(me, 'result_queries')
        if not (isinstance(rq, PDict) and set(rq.d) == {'ind', 'f_ind'}): raise Unsupported('other kind of query cache')
        right = FKey(m.attrs['_x'].layout, ind[1:])
        rec = Rec(it)
        li, lf = PObj(LibType('querylist'), name='ind'), PObj(LibType('querylist'), name='f_ind')
        J = I('cached_at')
        li.attrs['index'] = LibFn('index', lambda it, a, k: SInt(J))
        li.attrs['append'] = LibFn('append', lambda it, a, k: rec.add(('ind', a[0])))
        lf.attrs['append'] = LibFn('append', lambda it, a, k: rec.add(('f', a[0])))
        rq.d['ind'], rq.d['f_ind'] = li, lf
        gi = it.lib.hooks['getitem']
        it.lib.hooks['getitem'] = lambda it, o, k: right if o is lf and isinstance(k, SInt) and k.e.eq(J) else gi(it, o, k)
        ct = it.lib.contains
        it.lib.contains = lambda it, c, x: SBool(z3.Bool('asked before')) if c is li else ct(it, c, x)
        got = it.getitem(me, ind)
        ctx.eq('columns of the queried element', vec2(got), qwant(it, m, ind, hist(it, '_x')))
        log = rec.all()
        if log:
            ctx.true('recorded query and index belong together', len(log) == 2 and [x[0] for x in log] == ['ind', 'f'] and it.equal(log[0][1], ind) is True and isinstance(log[1][1], FKey) and log[1][1].layout is right.layout and log[1][1].key == right.key, repr(log))
        else: ctx.oblige('unrecorded only if asked before', z3.Bool('asked before'))
    return run

def unknown_query(ctx):
    it, W, m, me = dataobj(ctx)
    for ind in ('_nofield', ('_nofield', 'a')):
        try: it.getitem(me, ind)
        except PyEx as ex: ctx.true('unknown field is rejected', ex.tname in ('AssertionError', 'KeyError', 'ValueError'), ex.tname); continue
        ctx.fail('unknown field is rejected', 'accepted')

# ------------------------------------------------------------------ prediction
MC = I('n_coll')
node = z3.Function('node', z3.IntSort(), z3.IntSort(), z3.IntSort())
def predictor(ctx, open_loop, empty=False):
    it, W, m, me = dataobj(ctx, 'MPCData')
    it.base_facts += [MC >= 1]
    L = W.L; n, n1, s = mkint(N), mkint(N + 1), mkint(S)
    ox = {'_x': ([n1, s, mkint(MC)], L['_x']), '_z': ([n, s, mkint(MC)], L['_z']), '_u': ([n, 1 if open_loop else s], L['_u']), '_eps': ([n, s], L['_eps'])}
    op = {'_x0': ([], L['_x']), '_tvp': ([n1], L['_tvp']), '_p': ([1], L['_p']), '_u_prev': ([], L['_u'])}
    oa = {'_aux': ([n, s], L['_aux'])}
    rows = 0 if empty else mkint(ROWS)
    if not empty: it.base_facts.append(ROWS >= 1)
    for nm, e, f in (('opt_x', ox, '_opt_x_num'), ('opt_p', op, 'opt_p_num'), ('opt_aux', oa, '_opt_aux_num')):
        Lt = Layout('L' + nm, e)
        st = PStruct(Lt, 'sym', content=lambda q, x: Term('undef', (), 1, 1), name=nm)
        Lt.rows = None
        it.setattr(me, nm, st)
        it.setattr(me, f, Term('sym', ('H' + f,), 0 if empty else ROWS, I('w' + f), 'ndarray'))
        gg = it.lib.hooks['getattr']
        it.lib.hooks['getattr'] = lambda it, o, name, st=st, gg=gg, f=f: (mkint(I('w' + f)), 1) if o is st and name == 'shape' else (gg(it, o, name) if gg else NotImplemented)
    tab = PArr([n1, mkint(P)], lambda q: mkint(node(q[0], q[1])), 'int')
    md = it.getattr(me, 'meta_data')
    for k, v in (('store_full_solution', True), ('structure_scenario', tab), ('open_loop', open_loop), ('n_horizon', n), ('n_robust', SInt(I('n_robust')))): it.setitem(md, k, v)
    it.lib.hooks['elem'] = lambda v, q: fel(v, q)
    return it, W, me

def fel(v, q):
    return Term('fel', (v, q[0]), 1, 1) if v.op == 'fidx' else None

A.fidx = lambda v: v if isinstance(v, Term) else None

def prediction(field, open_loop, rest, tsym):
    def run(ctx):
        it, W, me = predictor(ctx, open_loop)
        t = I('t_ind')
        if tsym: it.base_facts += [t >= 0, t < ROWS]
        kw = {'t_ind': SInt(t)} if tsym else {}
        nk = N + 1 if field in ('_x', '_tvp') else N
        np_ = z3.IntVal(1) if field == '_tvp' or (field == '_u' and open_loop) else P
        k = ctx.fresh('k', 0, nk); p = ctx.fresh('p', 0, np_); i = ctx.fresh('i', 0)
        d = I('d:' + ','.join(map(str, map(key_atom, rest))))
        it.base_facts.append(d >= 1)
        ctx.extra.append(i < d); it.assume(i < d)
        # well-formed path table (C01): nodes of a stage are below the largest node count, paths begin at the root, the first path is the nominal one
        kk = z3.Int('kk')
        for x in (k, k + 1): it.base_facts += [node(x, p) >= 0, node(x, p) < S]
        it.base_facts += [z3.ForAll([kk], node(kk, 0) == 0)] if open_loop else []
        first = None
        for turn in ('first query', 'repeated query'):
            try: out = it.call(it.getattr(me, 'prediction'), [(field,) + rest], dict(kw))
            except PyEx as ex: return ctx.fail('%s: prediction is available' % turn, 'raises %s' % ex)
            if not isinstance(out, A.Lam) or len(out.dims) != 3: return ctx.fail('%s: result is a three dimensional array' % turn, repr(out))
            for j, (g, wn, nm) in enumerate(zip(out.dims, (d, nk, np_), ('elements', 'stages', 'scenarios'))): ctx.oblige('%s: number of %s' % (turn, nm), zi(g) == wn)
            el = out.fn([i, k, p])
            row = t if tsym else ROWS - 1
            if field == '_tvp': f, H = ('Lopt_p', '_tvp', k), 'opt_p_num'
            elif field == '_aux': f, H = ('Lopt_aux', '_aux', k, node(k, p)), '_opt_aux_num'
            elif field == '_u': f, H = ('Lopt_x', '_u', k, z3.IntVal(0) if open_loop else node(k, p)), '_opt_x_num'
            elif field == '_x': f, H = ('Lopt_x', '_x', k, node(k, p), MC - 1), '_opt_x_num'
            else: f, H = ('Lopt_x', '_z', k, node(k + 1, p), MC - 1), '_opt_x_num'
            want = Term('at', (Term('sym', ('H' + H,), ROWS, I('w' + H), 'ndarray'), row, Term('fel', (Term('fidx', f + tuple(key_atom(x) for x in rest), d, 1), i), 1, 1)), 1, 1)
            ctx.eq('%s: stored value of the node on the path' % turn, el, want)
    return run

def mixed(seq):
    """several different queries: each returns its own elements"""
    def run(ctx):
        it, W, me = predictor(ctx, False)
        k = ctx.fresh('k', 0, N); p = ctx.fresh('p', 0, P); i = ctx.fresh('i', 0)
        for x in (k, k + 1): it.base_facts += [node(x, p) >= 0, node(x, p) < S]
        for j, ind in enumerate(seq):
            rest = ind[1:]; d = I('d:' + ','.join(map(str, map(key_atom, rest))))
            it.base_facts += [d >= 1]; it.assume(i < d)
            try: out = it.call(it.getattr(me, 'prediction'), [ind], {})
            except PyEx as ex: return ctx.fail('query %d' % j, 'raises %s' % ex)
            if not isinstance(out, A.Lam) or len(out.dims) != 3: return ctx.fail('query %d' % j, repr(out))
            f, H = {'_tvp': (('Lopt_p', '_tvp', k), 'opt_p_num'), '_aux': (('Lopt_aux', '_aux', k, node(k, p)), '_opt_aux_num'), '_u': (('Lopt_x', '_u', k, node(k, p)), '_opt_x_num'), '_x': (('Lopt_x', '_x', k, node(k, p), MC - 1), '_opt_x_num'), '_z': (('Lopt_x', '_z', k, node(k + 1, p), MC - 1), '_opt_x_num')}[ind[0]]
            want = Term('at', (Term('sym', ('H' + H,), ROWS, I('w' + H), 'ndarray'), ROWS - 1, Term('fel', (Term('fidx', f + tuple(key_atom(x) for x in rest), d, 1), i), 1, 1)), 1, 1)
            ctx.eq('query %d %s' % (j, ind), out.fn([i, k, z3.IntVal(0) if ind[0] == '_tvp' else p]), want)
    return run

def pred_reject(ctx):
    it, W, me = predictor(ctx, False)
    for ind, nm in ((('_nofield', 'a'), 'unknown field'), ('_x', 'no tuple')):
        try: it.call(it.getattr(me, 'prediction'), [ind], {})
        except PyEx: ctx.ok(nm + ' is rejected'); continue
        ctx.fail(nm + ' is rejected', 'accepted')
    it.setitem(it.getattr(me, 'meta_data'), 'store_full_solution', False)
    try: it.call(it.getattr(me, 'prediction'), [('_x', 'a')], {})
    except PyEx: return ctx.ok('prediction without stored solution is rejected')
    ctx.fail('prediction without stored solution is rejected', 'accepted')

R0 = Refuter({}, dom=3)
CONTRACTS = [('storage of %s' % k, init(k), R0) for k in ('Data', 'MPCData')] + [('model must be set up', rejects_unset, R0)]
for f in FIELDS:
    for form in ['array', 'DM', 'row', 'list'] + (['struct'] if f != '_time' else ['scalar']): CONTRACTS.append(('update of %s by %s' % (f, form), update(f, form), R0))
CONTRACTS += [('joint update', update_two, R0), ('update of an unknown field', update_unknown, R0), ('init_storage', clear, R0), ('export', export, R0), ('query of an unknown field', unknown_query, R0), ('queries after any others', cached('Data'), R0)]
for j, s in enumerate(SEQS): CONTRACTS.append(('queries %d' % j, queries(s), R0))
RP = Refuter({'n_horizon': [2, 3, 1], 'n_scenarios': [2, 3, 1], 'n_paths': [2, 3, 1], 'n_coll': [1, 2, 3], 'n_rows': [2, 3, 1]}, dom=3, ufs=lambda p: {'node': lambda k, q: 0 if k <= 0 else q}, where=lambda p: p['n_scenarios'] == p['n_paths'])
for f in ('_x', '_u', '_z', '_tvp', '_aux'):
    for ol in ((False, True) if f == '_u' else (False,)):
        for rest in (('a',), ('a', 0)):
            CONTRACTS.append(('prediction of %s%s %s' % (f, ' open loop' if ol else '', rest), prediction(f, ol, rest, False), RP))
        CONTRACTS.append(('prediction of %s%s at a step' % (f, ' open loop' if ol else ''), prediction(f, ol, ('a',), True), RP))
for j, s in enumerate([[('_x', 'a'), ('_u', 'a'), ('_x', 'a'), ('_x', 'a', 0), ('_x', 'a', 1), ('_x', 'a')], [('_z', 'a'), ('_x', 'a'), ('_aux', 'a'), ('_tvp', 'a'), ('_u', 'a'), ('_z', 'a'), ('_aux', 'a'), ('_tvp', 'a')]]): CONTRACTS.append(('predictions %d' % j, mixed(s), RP))
CONTRACTS.append(('prediction rejects', pred_reject, R0))
LEVEL = 'proof'
TRUSTED = ['casadi structures: the index of a power index addresses exactly the entries named', 'numpy indexing and concatenation rules']
