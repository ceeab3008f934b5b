"""C17: SamplingPlanner for every existing plan, every value, any number of samples and product lists of any length."""
import itertools
from .files import *
MOD = 'do_mpc.sampling._samplingplanner:SamplingPlanner'
PLN = I = z3.Int
BOUNDED = {'of 3 variables': 'all subsets of three declared variables with and without generating functions (values, plan and length of the plan are arbitrary)',
           'product of': 'one, two or three named lists of arbitrary length'}

def world(ctx, kw=None):
    it = ctx.it
    fs = Files(it)
    me = it.call(it.find(MOD), [], dict(kw or {}))
    return it, fs, me

def history(it, me):
    """arbitrary plan of arbitrary length"""
    n = z3.Int('n_plan'); it.base_facts.append(n >= 0)
    b = fresh_int('h')
    plan = it.getattr(me, 'sampling_plan')
    plan.segs = [Seg('r', b=Binder(b, 0, mkint(n)), guard=TRUE, segs=[E(Term('oldcase', (b,), None, None))])]
    return plan, n

def declare(it, me, names, gens):
    """declare variables through the real method"""
    fs = {}
    for n in names:
        f = None
        if n in gens:
            calls = PList([])
            def g(it, a, k, n=n, calls=calls):
                i = len(calls.segs); it.append_seg(calls, E(i))
                return Term('sym', ('generated %s %d' % (n, i),), None, None)
            f = LibFn('generator', g); fs[n] = calls
            f.kind = 'function'
        it.call(it.getattr(me, 'set_sampling_var'), [n] + ([f] if f is not None else []), {})
    return fs

def isfun(ctx):
    ctx.it.lib.isinst.append(lambda it, v, t: (t.name in ('FunctionType', 'BuiltinFunctionType', 'function')) if isinstance(v, LibFn) and isinstance(t, LibType) else None)

def init(ctx):
    it, fs, me = world(ctx)
    for n in ('sampling_plan', 'sampling_vars', 'sampling_var_names'):
        v = it.getattr(me, n)
        ctx.true('%s is empty' % n, isinstance(v, PList) and not v.segs, '%s' % v)
    ctx.true('existing files are kept by default', it.getattr(me, 'overwrite') is False, '')
    ctx.true('default directory', it.getattr(me, 'data_dir') == './', '')

def params(ctx):
    p = z3.Int('prec'); ctx.it.base_facts.append(p >= 0)
    it, fs, me = world(ctx, {'id_precision': mkint(p)})
    ctx.oblige('constructor sets the precision', zi(it.getattr(me, 'id_precision')) == p)
    before = dict(me.attrs)
    v = Term('sym', ('setting',), None, None)
    for n in ('overwrite', 'id_precision'):
        it.call(it.getattr(me, 'set_param'), [], {n: v})
        ctx.true('%s is set' % n, it.getattr(me, n) is v, '')
        ctx.true('nothing else is set by %s' % n, all(me.attrs.get(k) is before[k] for k in before if k != n) and set(me.attrs) == set(before), '')
        before = dict(me.attrs)
    it.call(it.getattr(me, 'set_param'), [], {'unknown': v})
    ctx.true('an unknown setting changes nothing', all(me.attrs.get(k) is before[k] for k in before) and set(me.attrs) == set(before), '')
    d = SStr('directory')
    it.setattr(me, 'data_dir', d)
    ctx.true('directory is kept', it.getattr(me, 'data_dir') == d, '')
    ctx.true('directory is created', any(w[0] == 'mkdir' and w[1] == d for w in fs.writes()), '%s' % fs.writes())
    ctx.true('nothing is written', not any(w[0].startswith('write') for w in fs.writes()), '')

def setvar(ctx):
    isfun(ctx)
    it, fs, me = world(ctx)
    f = LibFn('f', None); nm = SStr('name')
    for i, (args, kw, want) in enumerate((([nm, f], {}, f), ([nm], {}, None), ([nm, None], {}, None), ([], {'name': nm, 'fun_var_pdf': f}, f))):
        it.call(it.getattr(me, 'set_sampling_var'), args, kw)
        vs, ns = it.getattr(me, 'sampling_vars').elems(), it.getattr(me, 'sampling_var_names').elems()
        ctx.true('one variable per declaration', len(vs) == len(ns) == i + 1, '%d' % len(vs))
        ctx.true('declared name', ns[-1] is nm and it.getitem(vs[-1], 'name') is nm, '')
        ctx.true('declared generating function', it.getitem(vs[-1], 'fun_var_pdf') is want, '')
    for args in ([3, f], [nm, 'f'], [nm, 3.0], [None]):
        try: it.call(it.getattr(me, 'set_sampling_var'), args, {})
        except PyEx: pass
        else: ctx.fail('wrong types are rejected', '%s' % args)
        ctx.true('a rejected declaration changes nothing', len(it.getattr(me, 'sampling_vars').segs) == 4 and len(it.getattr(me, 'sampling_var_names').segs) == 4, '')

def idof(it, me, n): return sstr([('z', zi(n), (lambda p: p if isinstance(p, int) else zi(p))(it.getattr(me, 'id_precision')))])

def add(given, gens, names=('a', 'b', 'c')):
    def run(ctx):
        isfun(ctx)
        p = z3.Int('prec'); ctx.it.base_facts.append(p >= 0)
        it, fs, me = world(ctx, {'id_precision': mkint(p)})
        calls = declare(it, me, names, gens)
        plan, n = history(it, me)
        old = list(plan.segs); before = dict(me.attrs)
        vals = {k: Term('sym', ('given ' + k,), None, None) for k in given}
        missing = [k for k in names if k not in given]
        ok = all(k in gens for k in missing) and all(k in names for k in given)
        try: r = it.call(it.getattr(me, 'add_sampling_case'), [], dict(vals))
        except PyEx as ex:
            ctx.true('only undeclared variables and missing values are rejected', not ok, '%s' % ex)
            ctx.true('a rejected case changes nothing', len(plan.segs) == len(old) and all(x is y for x, y in zip(plan.segs, old)) and all(me.attrs[k] is before[k] for k in before), '')
            return
        ctx.true('undeclared variables and missing values are rejected', ok, 'accepted')
        plan2 = it.getattr(me, 'sampling_plan')
        ctx.true('earlier cases are kept', len(plan2.segs) == len(old) + 1 and all(x is y for x, y in zip(plan2.segs, old)), '%s' % plan2)
        ctx.true('the plan is returned', r is plan2, '')
        c = plan2.segs[-1].val
        ctx.true('variables of the case', isinstance(c, PDict) and set(c.d) == set(names) | {'id'}, '%s' % c)
        for k in names:
            want = vals[k] if k in given else Term('sym', ('generated %s 0' % k,), None, None)
            ctx.true('value of a variable', isinstance(c.d.get(k), Term) and c.d[k].args == want.args, '%s: %s' % (k, c.d.get(k)))
            if k in gens: ctx.true('generating functions are called once for missing values only', len(calls[k].segs) == (0 if k in given else 1), '%s' % k)
        i = it.getitem(c, 'id'); w = idof(it, me, n)
        e = str_eq(i, w, it.prove) if isinstance(i, (str, SStr)) else False
        if e is None: ctx.unknown('id of the case', '%s' % (i,))
        else: ctx.oblige('id of the case is its zero padded number', e)
        ctx.true('variables and settings are kept', all(me.attrs[k] is before[k] for k in before if k != 'sampling_plan'), '')
    return run

def unique(ctx):
    """ids of different positions differ"""
    i, j, p = z3.Ints('pos1 pos2 prec')
    e = str_eq(sstr([('z', i, p)]), sstr([('z', j, p)]), ctx.it.prove)
    ctx.oblige('ids of different cases differ', z3.Implies(z3.And(i >= 0, j >= 0, i != j), z3.Not(e)))

def ghost_add(it, me):
    log = PList([])
    def add(it, a, k):
        it.append_seg(log, E(tuple(sorted(k.items()))))
        return it.getattr(me, 'sampling_plan')
    it.contracts[MOD + '.add_sampling_case'] = add
    return log

def flat(segs, depth=0):
    """nested loops around single elements: ([(lo, hi, binder)...], element)"""
    if len(segs) != 1: return None
    s = segs[0]
    if s.kind == 'e': return [], s.val
    if not z3.is_true(z3.simplify(s.guard)): return None
    r = flat(s.segs)
    return None if r is None else ([s.b] + r[0], r[1])

def gen(ctx):
    n = z3.Int('n_samples')
    it, fs, me = world(ctx)
    plan, _ = history(it, me); before = dict(me.attrs)
    log = ghost_add(it, me)
    try: r = it.call(it.getattr(me, 'gen_sampling_plan'), [SInt(n)], {})
    except PyEx:
        ctx.oblige('positive numbers are accepted', n <= 0)
        return ctx.true('a rejected call adds nothing', not log.segs, '')
    ctx.oblige('zero or negative numbers are rejected', n > 0)
    if not log.segs: return ctx.fail('cases are added', 'none')
    f = flat(log.segs)
    if f is None or len(f[0]) != 1: return ctx.unknown('one case per iteration', '%s' % log)
    ctx.true('cases have generated values only', f[1] == (), '%s' % (f[1],))
    ctx.oblige('exactly the requested number of cases', zi(f[0][0].hi) - zi(f[0][0].lo) == n)
    ctx.true('the plan is returned', r is it.getattr(me, 'sampling_plan'), '')
    ctx.true('nothing else changes', all(me.attrs[k] is before[k] for k in before), '')

def gen_types(ctx):
    it, fs, me = world(ctx)
    log = ghost_add(it, me)
    for v in (1.0, 'a', None, PList([])):
        try: it.call(it.getattr(me, 'gen_sampling_plan'), [v], {})
        except PyEx: pass
        else: ctx.fail('the number of samples must be an integer', '%s' % (v,))
    ctx.true('a rejected call adds nothing', not log.segs, '')

def prod(names):
    def run(ctx):
        isfun(ctx)
        it, fs, me = world(ctx)
        declare(it, me, ['c', 'b', 'a', 'd'], ['d'])
        plan, _ = history(it, me); before = dict(me.attrs)
        log = ghost_add(it, me)
        kw, L = {}, {}
        for nm in names:
            L[nm] = z3.Int('len_' + nm); it.base_facts.append(L[nm] >= 0)
            b = fresh_int('v')
            kw[nm] = PList([Seg('r', b=Binder(b, 0, mkint(L[nm])), guard=TRUE, segs=[E(Term('value', (nm, b), None, None))])])
        r = it.call(it.getattr(me, 'product'), [], kw)
        f = flat(log.segs)
        if not log.segs: return ctx.oblige('cases are added', z3.Or(*[L[k] == 0 for k in names]))
        if f is None: return ctx.unknown('one case per combination', '%s' % log)
        bs, case = f
        ctx.true('one case per combination', len(bs) == len(names), '%d' % len(bs))
        ctx.true('variables of the case', [k for k, _ in case] == sorted(names), '%s' % (case,))
        d = dict(case)
        if len(bs) == len(names) and set(d) == set(names):
            for nm, b in zip(names, bs):
                ctx.true('value of the list', isinstance(d[nm], Term) and d[nm].op == 'value' and d[nm].args[0] == nm, '%s' % (d[nm],))
                ctx.oblige('index into the list, first list slowest', d[nm].args[1] == b.var)
                ctx.oblige('every value of the list is used', z3.And(zi(b.lo) == 0, zi(b.hi) == L[nm]))
        ctx.true('the plan is returned', r is it.getattr(me, 'sampling_plan'), '')
        ctx.true('nothing else changes', all(me.attrs[k] is before[k] for k in before), '')
    return run

def prod_rej(ctx):
    isfun(ctx)
    it, fs, me = world(ctx)
    declare(it, me, ['a', 'b'], [])
    log = ghost_add(it, me)
    l = PList(elems=[Term('sym', ('v',), None, None)])
    for kw in ({'a': l, 'z': l}, {'z': l}, {'a': 3}, {'a': l, 'b': (1, 2)}, {'a': 'xy'}):
        try: it.call(it.getattr(me, 'product'), [], dict(kw))
        except PyEx: pass
        else: ctx.fail('undeclared variables and other types than lists are rejected', '%s' % kw)
    ctx.true('a rejected product adds nothing', not log.segs, '')

def export(ctx):
    it, fs, me = world(ctx)
    plan, _ = history(it, me)
    me.attrs['overwrite'] = SBool(z3.Bool('overwrite'))
    me.attrs['_data_dir'] = SStr('dir')
    name = SStr('plan')
    n0 = len(fs.log.segs); before = dict(me.attrs)
    it.call(it.getattr(me, 'export'), [name], {})
    w = fs.writes()[n0:]
    first = sstr(str_parts(SStr('dir')) + str_parts(fs.splitext(name)[0]) + str_parts('.pkl'))
    if not w:
        return ctx.oblige('the plan is stored unless every candidate name is taken', z3.And(fs.pred(first), z3.Not(z3.Bool('overwrite'))))
    ctx.true('one file is written', len(w) == 1 and w[0][0] == 'write pickle', '%s' % w)
    kind, nm, content = w[0]
    ctx.true('the plan is stored', content is plan, '%s' % (content,))
    p = str_parts(nm)
    root, d = str_parts(fs.splitext(name)[0]), str_parts(SStr('dir'))
    ctx.true('place and type of the file', p[:2] == d + root and p[-1] == ('c', '.pkl'), '%s' % nm)
    e = str_eq(nm, first, it.prove)
    if e is None: return ctx.unknown('name of the file', '%s' % nm)
    ctx.oblige('an existing file is only replaced when configured', z3.Implies(fs.pred(nm), z3.And(z3.Bool('overwrite'), zb(e))))
    ctx.oblige('the given name is used when it is free or replaced', z3.Implies(z3.Or(z3.Not(fs.pred(first)), z3.Bool('overwrite')), zb(e)))
    ctx.true('nothing else changes', all(me.attrs[k] is before[k] for k in before), '')

def export_rej(ctx):
    it, fs, me = world(ctx)
    n0 = len(fs.log.segs)
    for v in (3, None, PList([])):
        try: it.call(it.getattr(me, 'export'), [v], {})
        except PyEx: pass
        else: ctx.fail('the name must be a string', '%s' % (v,))
    ctx.true('a rejected export writes nothing', len(fs.log.segs) == n0, '')

CONTRACTS = [('SamplingPlanner.__init__', init, None), ('SamplingPlanner.set_param and data_dir', params, None), ('SamplingPlanner.set_sampling_var', setvar, None),
             ('ids are unique', unique, None), ('SamplingPlanner.gen_sampling_plan', gen, None), ('SamplingPlanner.gen_sampling_plan rejections', gen_types, None),
             ('SamplingPlanner.product rejections', prod_rej, None), ('SamplingPlanner.export', export, None), ('SamplingPlanner.export rejections', export_rej, None)]
for g in itertools.chain.from_iterable(itertools.combinations('abc', r) for r in range(4)):
    for gens in ((), ('a', 'b', 'c'), ('b',), ('a', 'c')):
        for extra in ((), ('z',)):
            CONTRACTS.append(('SamplingPlanner.add_sampling_case of 3 variables, given %s, generated %s' % (','.join(g + extra), ','.join(gens)), add(g + extra, gens), None))
for ns in (('a',), ('b', 'a'), ('c', 'a', 'b')): CONTRACTS.append(('SamplingPlanner.product of %s' % ','.join(ns), prod(ns), None))
TRUSTED = ['os.path.splitext, os.path.isfile, pathlib.Path.mkdir, save_pickle (ghost file system: existence is an arbitrary predicate, writes are recorded)', 'itertools.product, str.zfill']
