"""C23: RTBase, RTClient, RTServer and the name space helpers against recording stand-ins of the OPC UA library"""
import itertools
from .files import *
from .c17 import flat
from .c18 import guarded
BASE, CLI, SRV, HLP = 'do_mpc.opcua._base', 'do_mpc.opcua._client', 'do_mpc.opcua._server', 'do_mpc.opcua._helper'
I, B = z3.IntSort(), z3.BoolSort()
VARS = ('aux', 'p', 'tvp', 'u', 'v', 'w', 'x', 'y', 'z')
BOUNDED = {'name space of': 'name spaces of up to three entries over two objects (all names are arbitrary)'}

def obj(t, **k):
    o = PObj(LibType(t), k); o.closed = True
    return o
def fn(name, f): return LibFn(name, f)

class World:
    def __init__(self, ctx):
        self.ctx = ctx; self.it = it = ctx.it
        self.log = PList([])
        self.me = PObj(it.find(BASE + ':RTBase'), {}); self.me.closed = True
        self.client = PObj(it.find(CLI + ':RTClient'), {}); self.client.closed = True
        self.me.attrs['client'] = self.client
        self.n, self.m = z3.Ints('n_in n_out'); it.base_facts += [self.n >= 0, self.m >= 0]
    def tags(self, name, n):
        b = fresh_int('t')
        return PList([Seg('r', b=Binder(b, 0, mkint(n)), guard=TRUE, segs=[E(Term('tag', (name, b), None, None))])])
    def op(self, *a): self.it.append_seg(self.log, E(a))

def read(ctx):
    """read_from_tags: one column with the values of the configured tags in order"""
    w = World(ctx); it = ctx.it
    w.me.attrs['tagin'] = w.tags('in', w.n); segs = list(w.me.attrs['tagin'].segs)
    def rd(it, a, k):
        w.op('read', a[1] if len(a) > 1 else k['tag'])
        t = a[1] if len(a) > 1 else k['tag']
        return Term('value', (t,), 1, 1)
    it.contracts[CLI + ':RTClient.readData'] = rd
    def array(it, a, k):
        if not isinstance(a[0], PList): raise Unsupported('np.array')
        def reshape(it, q, k2):
            sh = tuple(q[0]) if len(q) == 1 and isinstance(q[0], (tuple, PList)) else tuple(q)
            if sh not in ((-1, 1),): raise Unsupported('reshape')
            return vcat(it, list(a[0].segs))
        return obj('flat array', reshape=fn('reshape', reshape))
    it.lib.hooks['numpy.array'] = fn('array', array)
    r = it.call(it.getattr(w.me, 'read_from_tags'), [], {})
    ctx.true('tags are kept', w.me.attrs['tagin'].segs == segs or all(x is y for x, y in zip(w.me.attrs['tagin'].segs, segs)), '')
    x = flat(w.log.segs)
    if x is None or len(x[0]) != 1: return ctx.unknown('one read per tag', '%s' % w.log) if w.log.segs else ctx.oblige('every tag is read', w.n == 0)
    (b,), e = x
    ctx.oblige('every tag is read once', zi(b.hi) - zi(b.lo) == w.n)
    ctx.true('tags of the input', e[0] == 'read' and isinstance(e[1], Term) and e[1].op == 'tag' and e[1].args[0] == 'in', '%s' % (e,))
    ctx.oblige('tags are read in order', e[1].args[1] == b.var - zi(b.lo))
    c = fresh_int('c')
    want = vcat(it, [Seg('r', b=Binder(c, 0, mkint(w.n)), guard=TRUE, segs=[E(Term('value', (Term('tag', ('in', c), None, None),), 1, 1))])])
    if not isinstance(r, Term): return ctx.unknown('column of the values', '%s' % (r,))
    ctx.eq('column of the values in the order of the tags', r, want)

def write(kind):
    def run(ctx):
        w = World(ctx); it = ctx.it
        rows = z3.Int('n_data'); it.base_facts.append(rows >= 0)
        w.me.attrs['tagout'] = w.tags('out', w.m)
        b = fresh_int('d')
        flatl = PList([Seg('r', b=Binder(b, 0, mkint(rows)), guard=TRUE, segs=[E(Term('data', (b,), 1, 1))])])
        farr = obj('flat array', size=mkint(rows)); farr.items = flatl
        arr = obj('numpy.ndarray', flatten=fn('flatten', lambda it, a, k: farr), ravel=fn('ravel', lambda it, a, k: farr), size=mkint(rows))
        # the number of elements of a matrix says nothing about the length of its first dimension
        dm = obj('DM', full=fn('full', lambda it, a, k: arr)); st = obj('structure3.DMStruct', cat=dm)
        v = {'structure': st, 'DM': dm, 'array': arr, 'list': PList([]), 'number': Term('sym', ('x',), 1, 1, 'DMx'), 'none': None, 'text': 'a'}[kind]
        H = it.lib.hooks
        def isinst(it, v, t):
            if isinstance(v, PObj) and isinstance(v.cls, LibType) and isinstance(t, LibType):
                return v.cls.name.split('.')[-1] == t.name.split('.')[-1] and (v.cls.name != 'flat array')
            return None
        it.lib.isinst.append(isinst)
        H['casadi.tools.DM'] = LibType('DM')
        s0 = it.segs_of
        it.segs_of = lambda v: list(flatl.segs) if v is farr else s0(v)
        l0 = it.length
        it.length = lambda v: mkint(rows) if v is farr else l0(v)
        c0 = it.chunks
        it.chunks = lambda v: c0(flatl) if v is farr else c0(v)
        def wr(it, a, k):
            t, d = bind(a[1:], k, ('tag', 'dataVal'))
            w.op('write', t, d)
        it.contracts[CLI + ':RTClient.writeData'] = wr
        try: it.call(it.getattr(w.me, 'write_to_tags'), [v], {})
        except PyEx:
            if kind in ('structure', 'DM', 'array'): ctx.oblige('results of the right size are accepted', rows != w.m)
            return ctx.true('nothing is written when a result is rejected', not w.log.segs, '%s' % w.log)
        if kind not in ('structure', 'DM', 'array'): return ctx.fail('results of other types are rejected', kind)
        ctx.oblige('results of the wrong size are rejected', rows == w.m)
        x = flat(w.log.segs)
        if x is None or len(x[0]) != 1: return ctx.unknown('one write per tag', '%s' % w.log) if w.log.segs else ctx.oblige('every tag is written', w.m == 0)
        (bb,), e = x
        ctx.oblige('every tag is written once', zi(bb.hi) - zi(bb.lo) == w.m)
        j = bb.var - zi(bb.lo)
        ctx.true('tags of the output', e[0] == 'write' and isinstance(e[1], Term) and e[1].op == 'tag' and e[1].args[0] == 'out', '%s' % (e,))
        d = e[2].elems()[0] if isinstance(e[2], PList) and e[2].concrete() and len(e[2].segs) == 1 else None
        if not (isinstance(d, Term) and d.op == 'data'): return ctx.fail('one element per tag', '%s' % (e[2],))
        it.assume(z3.And(bb.rng()))
        ctx.oblige('an element is written to its own tag', z3.And(e[1].args[1] == d.args[0]))
        k = fresh_int('k')
        ctx.oblige('different iterations write different tags', z3.Implies(k != bb.var, subst(e[1].args[1], [(bb.var, k)]) != e[1].args[1]))
        ctx.oblige('tags of the list only', z3.And(e[1].args[1] >= 0, e[1].args[1] < w.m))
    return run

def step(ctx):
    """make_step: read, one step, write"""
    w = World(ctx); it = ctx.it
    q = BASE + ':RTBase.'
    def rd(it, a, k): w.op('read'); return Term('sym', ('input',), None, 1)
    def wr(it, a, k): w.op('write', a[1] if len(a) > 1 else k['data'])
    it.contracts[q + 'read_from_tags'] = rd; it.contracts[q + 'write_to_tags'] = wr
    out = Term('sym', ('output',), None, 1)
    def ms(it, a, k): w.op('step', tuple(a), tuple(sorted(k.items()))); return out
    w.me.attrs['do_mpc_object'] = obj('wrapped', make_step=fn('make_step', ms))
    before = dict(w.me.attrs)
    it.call(it.getattr(w.me, 'make_step'), [], {})
    L = [s.val if s.kind == 'e' else ('loop',) for s in w.log.segs]
    ctx.true('tags are read once, one step is made, the result is written once', [x[0] for x in L] == ['read', 'step', 'write'], '%s' % L)
    if [x[0] for x in L] == ['read', 'step', 'write']:
        a = list(L[1][1]) + [v for _, v in L[1][2]]
        ctx.true('the step gets the values of the input tags', len(a) == 1 and isinstance(a[0], Term) and a[0].args == ('input',), '%s' % (a,))
        ctx.true('the result of the step is written', L[2][1] is out, '%s' % (L[2],))
    ctx.true('nothing else changes', all(w.me.attrs[k] is before[k] for k in before) and set(w.me.attrs) == set(before), '')

def tags(ctx):
    w = World(ctx); it = ctx.it
    for name, attr in (('set_write_tags', 'tagout'), ('set_read_tags', 'tagin')):
        w.me.attrs['tagout'], w.me.attrs['tagin'] = PList([]), PList([]); before = dict(w.me.attrs)
        t = w.tags(attr, w.n); segs = list(t.segs)
        it.call(it.getattr(w.me, name), [t], {})
        r = w.me.attrs[attr]
        ctx.true('configured tags', isinstance(r, PList) and len(r.segs) == len(segs) and all(x is y for x, y in zip(r.segs, segs)), '%s' % r)
        ctx.true('nothing else changes', all(w.me.attrs[k] is before[k] for k in before if k != attr), '')

def label(v, i): return sstr([('u', 'label ' + v, zi(i))])
def lens(v): return z3.Int('n_' + v)
PLACE = {v: z3.Function('placeholder_' + v, I, B) for v in VARS}

def model_world(w):
    """a model whose variables have an arbitrary number of labels; the only placeholder is the single label [default,0] of aux"""
    it = w.it
    it.base_facts += [lens(v) >= 0 for v in VARS]
    def labels(v):
        b = fresh_int('l')
        return PList([Seg('r', b=Binder(b, 0, mkint(lens(v))), guard=TRUE, segs=[E(label(v, b))])])
    m = obj('Model')
    def getitem(it, o, k):
        if o is m:
            if k not in VARS: raise PyEx('KeyError', (k,))
            return obj('struct', labels=fn('labels', lambda it, a, k2: labels(k)), keys=fn('keys', lambda it, a, k2: PList([])))
        return NotImplemented
    it.lib.hooks['getitem'] = getitem
    e0 = it.equal
    def equal(a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SStr) and len(x.parts) == 1 and x.parts[0][0] == 'u' and isinstance(y, str):
                v = x.parts[0][1].split()[-1]
                if y == '[default,0]': return SBool(PLACE[v](x.parts[0][2]))
                raise Unsupported('label')
        return e0(a, b)
    it.equal = equal
    def contains(it, c, x):
        if isinstance(c, SStr): raise Unsupported('text in a label')
        return NotImplemented
    it.lib.hooks['contains'] = contains
    return m

def entry_fn(it):
    def new(it, a, k):
        o, v = bind(a, k, ('objectnode', 'variable'))
        return Term('entry', (o, v), None, None)
    def space(it, a, k):
        n, l, i = bind(a, k, ('namespace_name', 'entry_list', '_namespace_index'), {'_namespace_index': None})
        return obj('Namespace', namespace_name=n, entry_list=l, _namespace_index=i)
    ns = it.module(BASE).ns
    ns['NamespaceEntry'] = fn('NamespaceEntry', new); ns['Namespace'] = fn('Namespace', space)

def namespace(default):
    def run(ctx):
        w = World(ctx); it = ctx.it; m = model_world(w); entry_fn(it)
        name = SStr('name')
        if default:
            w.me.attrs['do_mpc_object'] = obj('wrapped', model=m)
            it.call(it.getattr(w.me, 'get_default_namespace'), [name], {})
            r = w.me.attrs.get('namespace')
        else: r = it.call(it.getattr(w.me, 'namespace_from_model'), [m, name], {})
        if not (isinstance(r, PObj) and 'entry_list' in r.attrs): return ctx.fail('a name space', '%s' % (r,))
        ctx.true('name of the name space', r.attrs['namespace_name'] is name, '')
        ctx.true('the index is assigned by the server', r.attrs['_namespace_index'] is None, '')
        segs = r.attrs['entry_list'].segs
        if not all(s.kind == 'r' for s in segs): return ctx.unknown('entries', '%s' % r.attrs['entry_list'])
        seen = []
        for s in segs:
            alts = guarded(s.segs, s.guard)
            if alts is None or len(alts) != 1: ctx.unknown('one node per element', '%s' % s); continue
            g, e = alts[0]
            if not (isinstance(e, Term) and e.op == 'entry' and e.args[0] in VARS and isinstance(e.args[1], SStr)): ctx.fail('kind and element of a node', '%s' % (e,)); continue
            v = e.args[0]; p = e.args[1].parts[0]; seen.append(v)
            i = fresh_int('i'); it.base_facts.append(z3.And(i >= 0))
            ctx.true('a node is named after its element', p[0] == 'u' and p[1] == 'label ' + v, '%s' % (e,))
            ctx.oblige('nodes in the order of the elements', p[2] == s.b.var)
            ctx.oblige('every element of the model is considered', z3.And(zi(s.b.lo) == 0, zi(s.b.hi) == lens(v)))
            ctx.oblige('exactly the elements of user-defined variables have a node', g == (z3.Not(PLACE['aux'](s.b.var)) if v == 'aux' else TRUE))
        ctx.true('every kind of variable once', sorted(seen) == sorted(VARS), '%s' % seen)
    return run

def init(given):
    def run(ctx):
        w = World(ctx); it = ctx.it
        m = obj('Model')
        ts, tu = Term('sym', ('t_step',), 1, 1), Term('sym', ('timeunit',), 1, 1)
        o = obj('wrapped', model=m, settings=obj('settings', t_step=ts))
        opts = obj('ClientOpts', name=SStr('name'), address=SStr('address'), port=4840, timeunit=tu)
        made = []
        it.module(BASE).ns['RTClient'] = fn('RTClient', lambda it, a, k: made.append((a, k)) or obj('RTClient'))
        sp = obj('Namespace'); calls = []
        def nfm(it, a, k): calls.append((a[1:], k)); return sp
        it.contracts[BASE + ':RTBase.namespace_from_model'] = nfm
        own = obj('Namespace')
        args = [o, opts] + ([own] if given else [])
        me = it.call(it.find(BASE + ':RTBase'), args, {})
        ctx.true('the wrapped object is kept', me.attrs['do_mpc_object'] is o, '')
        ctx.true('a given name space is used', me.attrs['namespace'] is (own if given else sp), '%s' % me.attrs['namespace'])
        if not given:
            ctx.true('the default name space is made of the model', len(calls) == 1, '%s' % calls)
            a, k = calls[0]; b = bind(a, k, ('model', 'model_name'))
            ctx.true('model and name of the default name space', b[0] is m and b[1] == SStr('name'), '%s' % b)
        ctx.true('one client with the options and the name space', len(made) == 1 and bind(*made[0], ('opts', 'namespace')) [0] is opts and bind(*made[0], ('opts', 'namespace'))[1] is me.attrs['namespace'], '%s' % made)
        ctx.eq('cycle time', vec(me.attrs['cycle_time']), mk('mul', ts, tu))
        ctx.true('no tags are configured', not me.attrs['tagin'].segs and not me.attrs['tagout'].segs, '')
    return run

def helper(ctx):
    it = ctx.it
    NE = it.find(HLP + ':NamespaceEntry'); NS = it.find(HLP + ':Namespace')
    i = z3.Int('index')
    def ent(o, v):
        e = PObj(NE, {'objectnode': o, 'variable': v}); e.closed = True
        return e
    o1, o2 = 'first', 'second'
    names = [SStr('v%d' % j) for j in range(3)]
    e = ent(o1, names[0])
    r = it.call(it.getattr(e, 'get_node_id'), [SInt(i)], {})
    want = lambda v: sstr(str_parts('ns=') + (('n', i),) + str_parts(';s=') + str_parts(v))
    ctx.true('address of a node', r == want(names[0]), '%s' % (r,))
    try: it.call(it.getattr(e, 'get_node_id'), [None], {})
    except PyEx: pass
    else: ctx.fail('an address needs the index of the name space', '')
    for n in range(4):
        for os in itertools.product((o1, o2), repeat=n):
            es = [ent(o, v) for o, v in zip(os, names)]
            sp = PObj(NS, {'namespace_name': SStr('name'), 'entry_list': PList(elems=es), '_namespace_index': SInt(i)}); sp.closed = True
            for q in (o1, o2, 'other'):
                r = it.getitem(sp, q)
                w = [want(v) for o, v in zip(os, names) if o == q]
                ctx.true('addresses of the nodes of an object in order', isinstance(r, PList) and r.concrete() and r.elems() == w, '%s of %s: %s' % (q, os, r))

def server(pattern, same=False):
    """namespace_from_client registers every entry once under a unique name"""
    def run(ctx):
        w = World(ctx); it = ctx.it
        NE = it.find(HLP + ':NamespaceEntry'); NS = it.find(HLP + ':Namespace')
        es = []
        lab = lambda j: '[v%d,0]' % (0 if same else j)
        for j, o in enumerate(pattern):
            e = PObj(NE, {'objectnode': o, 'variable': SStr(lab(j))}); e.closed = True; es.append(e)
        idx = z3.Int('index')
        sp = PObj(NS, {'namespace_name': SStr('name'), 'entry_list': PList(elems=list(es)), '_namespace_index': None}); sp.closed = True
        w.client.attrs['namespace'] = sp; w.me.attrs['namespace'] = sp
        def node(o):
            def addv(it, a, k):
                w.op('variable', o, tuple(a), tuple(k.items()))
                return obj('variable', set_writable=fn('set_writable', lambda it, a2, k2: w.op('writable', o, tuple(a))))
            return obj('object', add_variable=fn('add_variable', addv))
        def addo(it, a, k):
            w.op('object', a[0], a[1])
            return node(a[1])
        def reg(it, a, k): w.op('register', a[0]); return SInt(idx)
        s = PObj(it.find(SRV + ':RTServer'), {'name': SStr('server'), 'opcua_server': obj('Server', register_namespace=fn('register', reg),
            nodes=obj('nodes', objects=obj('root', add_object=fn('add_object', addo))), get_namespace_array=fn('array', lambda it, a, k: PList(elems=['', '', SStr('name')])))})
        s.closed = True
        it.module(SRV).ns['opcua'] = obj('opcua', ua=obj('ua', NodeId=fn('NodeId', lambda it, a, k: Term('nodeid', tuple(a), None, None))))
        it.call(it.getattr(s, 'namespace_from_client'), [w.me], {})
        L = [x.val for x in w.log.segs]
        ctx.true('the name space is registered once, before its nodes', [x[0] for x in L].count('register') == 1 and L[0] == ('register', SStr('name')), '%s' % L)
        objs = [x[2] for x in L if x[0] == 'object']
        ctx.true('one object per object name', sorted(objs) == sorted(set(pattern)), '%s' % objs)
        ctx.true('objects belong to the name space', all(zi(x[1]).eq(idx) for x in L if x[0] == 'object'), '')
        vs = [x for x in L if x[0] == 'variable']
        ctx.true('every entry is registered once', len(vs) == len(pattern), '%s' % vs)
        ids = [x[2][0] for x in vs]
        ctx.true('every node is addressed by its name and the index of its name space', all(isinstance(t, Term) and t.op == 'nodeid' and len(t.args) == 2 and zi(t.args[1]).eq(idx) for t in ids), '%s' % (ids,))
        if not all(isinstance(t, Term) and t.op == 'nodeid' for t in ids) or len(vs) != len(pattern): return
        for j, (e, o) in enumerate(zip(es, pattern)):
            mine = [x for x, t in zip(vs, ids) if t.args[0] == e.attrs['variable']]
            ctx.true('the client addresses the node of the entry', len(mine) == 1, '%s in %s' % (e.attrs['variable'], ids))
            if len(mine) == 1:
                ctx.true('the node belongs to the object of the entry', mine[0][1] == o, '%s' % (mine,))
                ctx.true('name of the element', any(p == ('v', lab(j)) for p in str_parts(e.attrs['variable'])), '%s' % e.attrs['variable'])
            ctx.true('the entry keeps its object', e.attrs['objectnode'] == o, '')
        names = [t.args[0] for t in ids]
        ctx.true('names are unique', len(set(names)) == len(names), '%s' % names)
        ctx.true('all nodes are writable', sum(1 for x in L if x[0] == 'writable') == len(pattern), '%s' % L)
        ctx.true('entries of the name space are kept', sp.attrs['entry_list'].elems() == es and sp.attrs['namespace_name'] == SStr('name'), '')
        ctx.true('the client gets the index of its name space', isinstance(sp.attrs['_namespace_index'], SInt) and sp.attrs['_namespace_index'].e.eq(idx), '%s' % sp.attrs['_namespace_index'])
    return run

def client(ctx):
    w = World(ctx); it = ctx.it
    val = Term('sym', ('stored',), None, None, 'DM')
    def node(it, a, k):
        t = a[0]
        return obj('node', set_value=fn('set_value', lambda it, a2, k2: w.op('set', t, a2[0])), get_value=fn('get_value', lambda it, a2, k2: (w.op('get', t), Term('value', (t,), None, None))[1]))
    w.client.attrs.update({'opcua_client': obj('Client', get_node=fn('get_node', node)), 'type': 'x'})
    tag = Term('tag', ('t', z3.IntVal(0)), None, None); d = PList(elems=[val])
    it.call(it.getattr(w.client, 'writeData'), [tag, d], {})
    L = [x.val for x in w.log.segs]
    ctx.true('the data is written to the node of the tag', L == [('set', tag, d)], '%s' % L)
    r = it.call(it.getattr(w.client, 'readData'), [tag], {})
    L = [x.val for x in w.log.segs][1:]
    ctx.true('the value of the node of the tag is returned', L == [('get', tag)] and isinstance(r, Term) and r.op == 'value' and r.args[0] is tag, '%s %s' % (L, r))
    n = len(w.log.segs)
    for bad in (val, (val,), 1.0, None):
        try: it.call(it.getattr(w.client, 'writeData'), [tag, bad], {})
        except PyEx: pass
        else: ctx.fail('data must be a list', '%s' % (bad,))
    ctx.true('rejected data is not written', len(w.log.segs) == n, '')

CONTRACTS = [('RTBase.read_from_tags', read, None), ('RTBase.make_step', step, None), ('RTBase.set_read_tags, set_write_tags', tags, None), ('RTBase.namespace_from_model', namespace(False), None),
             ('RTBase.get_default_namespace', namespace(True), None), ('RTBase.__init__ with the default name space', init(False), None), ('RTBase.__init__ with a given name space', init(True), None),
             ('NamespaceEntry.get_node_id and Namespace.__getitem__, name space of three entries', helper, None), ('RTClient.readData, writeData', client, None)]
for k in ('structure', 'DM', 'array', 'list', 'number', 'none', 'text'): CONTRACTS.append(('RTBase.write_to_tags of a %s' % k, write(k), None))
for n in range(4):
    for p in itertools.product(('a', 'b'), repeat=n): CONTRACTS.append(('RTServer.namespace_from_client, name space of %s' % (','.join(p) or 'no entries'), server(p), None))
for p in (('a', 'b'), ('b', 'a'), ('c', 'a', 'b')): CONTRACTS.append(('RTServer.namespace_from_client, name space of %s with equal element names' % ','.join(p), server(p, True), None))
TRUSTED = ['asyncua (get_node, set_value, get_value, register_namespace, add_object, add_variable, NodeId)', 'labels of CasADi structures; flatten keeps the elements of a vector in order', 'threading and time']
ASSUMPTIONS = ['[default,0] of aux is the only placeholder label of a model']
