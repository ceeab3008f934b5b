"""Optimizer.create_nlp, MPC._create_nlp, MHE._create_nlp, Optimizer._prepare_data: the solver receives exactly the prepared problem
(C02, C08) and the data object the configured fields (C06).  Every number and size of constraints."""
from .opt import *
from .mpcnlp import *
from .mhenlp import *
from .step import Rec, frozen
from .c15 import reject
NOX, NOP, NAUX, NCON = I('n_ox'), I('n_op'), I('n_oaux'), I('n_concalls')
STATS = ('success', 't_wall_total')

def create(kind, full=False, lagr=True, stats=STATS, bad=False):
    def run(ctx):
        it, W, m, me = (prestate if kind == 'mpc' else mhe_prestate)(ctx, {})
        it.contracts.pop('*._prepare_data', None)
        a = me.attrs; it.base_facts += [NOX >= 1, NOP >= 1, NAUX >= 1, NCON >= 0]
        st = a['_settings']; st.attrs.update(store_full_solution=full, store_lagr_multiplier=lagr, store_solver_stats=PList(elems=list(stats)))
        lay = lambda n, r: Layout(n, None, mkint(r))
        LX, LP, LA = lay('OX', NOX), lay('OP', NOP), lay('OA', NAUX)
        sx = lambda n, r: Term('sym', (n,), r, 1, 'SX')
        ox, op = sx('OX', NOX), sx('OP', NOP)
        a['_opt_x'] = PStruct(LX, 'sym', whole=ox, name='OX'); a['_opt_p'] = PStruct(LP, 'sym', whole=op, name='OP')
        aux = Term('call', ('auxexpr', ox, op), NAUX, 1, 'SX'); a['_opt_aux'] = PStruct(LA, 'expr', whole=aux, name='OA')
        a['opt_x'] = a['_opt_x']; a['opt_p'] = a['_opt_p']; a['aux_struct'] = PStruct(LA, 'sym', name='AUX')
        a.update(n_opt_x=mkint(NOX), n_opt_p=mkint(NOP), n_opt_aux=mkint(NAUX), n_eps=mkint(DIMS['_eps']))
        if kind == 'mhe': a['_opt_x_num'] = PStruct(LX, 'num', whole=Term('sym', ('OXN',), NOX, 1, 'DM')); a['_opt_p_num'] = PStruct(LP, 'num', whole=Term('sym', ('OPN',), NOP, 1, 'DM'))
        obj = Term('call', ('objective', ox, op), 1, 1, 'SX'); a['_nlp_obj'] = obj
        # the prepared constraints: a first block, arbitrarily many further ones, and one the user may have appended
        def blocks(tag, arg):
            b = fresh_int('i'); r = z3.Function('rows_con', z3.IntSort(), z3.IntSort())
            mkc = lambda i, rows: Term('call', (tag, i) + arg, rows, 1, 'SX' if arg else None)
            return [E(mkc(z3.IntVal(-1), I('ra'))), Seg('r', b=Binder(b, z3.IntVal(0), NCON), guard=TRUE, segs=[E(mkc(b, I('rb')))]), E(mkc(z3.IntVal(-2), I('rc')))]
        it.base_facts += [I('ra') >= 0, I('rb') >= 0, I('rc') >= 0]
        parts = {'_nlp_cons': blocks('con', (ox, op)), '_nlp_cons_lb': blocks('conlb', ()), '_nlp_cons_ub': blocks('conub', ())}
        for k, v in parts.items(): a[k] = PList(list(v))
        it.setitem(a['flags'], 'prepare_nlp', True)
        a['scenario_tree'] = PDict({'structure_scenario': PArr([mkint(N + 1)], lambda q: z3.IntVal(0), 'int')})
        opts = st.attrs['nlpsol_opts'] = PDict({'ipopt.max_iter': 7, 'user': 1})
        calls, inits = Rec(it), Rec(it)
        def nlpsol(it, x, k):
            o = PObj(LibType('Function'), name='nlpsol'); calls.add((o, list(x), dict(k))); return o
        for mod in ('casadi', 'casadi.tools'): it.lib.hooks[mod + '.nlpsol'] = LibFn('nlpsol', nlpsol)
        data = PObj(LibType('Data'), name='data'); a['data'] = data
        f0 = {'_time': 1, '_x': mkint(DIMS['_x'])}
        data.attrs['data_fields'] = PDict(dict(f0)); data.attrs['set_meta'] = LibFn('set_meta', lambda it, x, k: None)
        data.attrs['init_storage'] = LibFn('init_storage', lambda it, x, k: inits.add(dict(data.attrs['data_fields'].d)))
        try: it.call(it.getattr(me, 'create_nlp'), [], {})
        except PyEx as ex:
            if bad: return ctx.ok('unknown solver statistics are rejected')
            return ctx.fail('the problem is created', '%s' % ex)
        if bad: return ctx.fail('unknown solver statistics are rejected', 'accepted')
        cs = calls.all()
        ctx.true('one solver', len(cs) == 1, '%d' % len(cs))
        o, x, k = cs[0]
        if k or len(x) not in (3, 4): raise Unsupported('nlpsol call')
        ctx.true('the solver of this problem is used', a['S'] is o, '')
        ctx.true('configured solver options', x[1] == 'ipopt' and len(x) == 4 and isinstance(x[3], PDict) and {k: v for k, v in x[3].d.items() if (k, v) not in (('expand', False), ('ipopt.linear_solver', 'mumps'))} == {'ipopt.max_iter': 7, 'user': 1}, '%s' % (x[1:],))
        nlp = x[2]
        ctx.true('parts of the problem', isinstance(nlp, PDict) and set(nlp.d) == {'x', 'f', 'g', 'p'}, '%s' % nlp)
        ctx.eq('decision variables', vec(nlp.d['x']), ox); ctx.eq('parameters', vec(nlp.d['p']), op); ctx.eq('objective', vec(nlp.d['f']), obj)
        cat = lambda k: vcat(it, list(parts[k]))
        ctx.eq('constraints', vec(nlp.d['g']), cat('_nlp_cons'))
        for k in ('lb', 'ub'): ctx.eq('bounds of the constraints', vec(it.getattr(me, 'nlp_cons_' + k)), cat('_nlp_cons_' + k))
        ctx.oblige('number of multipliers', zi(a['n_opt_lagr']) == I('ra') + NCON * I('rb') + I('rc'))
        V = PStruct(LX, 'num', whole=Term('sym', ('VX',), NOX, 1, 'DM')); P = PStruct(LP, 'num', whole=Term('sym', ('VP',), NOP, 1, 'DM'))
        ctx.eq('auxiliary expressions', vec(it.call(it.getattr(me, 'opt_aux_expression_fun'), [V, P], {})), Term('call', ('auxexpr', V.whole, P.whole), NAUX, 1))
        ctx.true('set up', it.getitem(a['flags'], 'setup') is True, '')
        want = dict(f0); want.update({'_eps': DIMS['_eps'], 'opt_p_num': NOP})
        if full: want.update({'_opt_x_num': NOX, '_opt_aux_num': NAUX})
        if lagr: want['_lam_g_num'] = I('ra') + NCON * I('rb') + I('rc')
        for s in stats: want[s] = 1
        rec = inits.all()
        ctx.true('the history is initialised', len(rec) == 1, '%d' % len(rec))
        ctx.true('recorded fields: exactly the configured ones', set(rec[-1]) == set(want) == set(data.attrs['data_fields'].d), '%s' % sorted(rec[-1]))
        for k in want: ctx.oblige('size of the recorded field %s' % k, zi(rec[-1][k]) == zi(want[k]))
        ctx.true('structure of the recorded parameters', data.attrs.get('opt_p') is a['_opt_p'], '')
        if full: ctx.true('structure of the recorded solution', data.attrs.get('opt_x') is a['_opt_x'] and data.attrs.get('opt_aux') is a['aux_struct'], '')
    return run

NLP = {k: [('%s.create_nlp' % k.upper(), create(k), {'mpc': refuter, 'mhe': refuter_mhe}[k])] for k in ('mpc', 'mhe')}
DATA = [('%s._prepare_data (full %s, multipliers %s, statistics %s)' % (k.upper(), f, l, len(s)), create(k, f, l, s), {'mpc': refuter, 'mhe': refuter_mhe}[k]) for k in ('mpc', 'mhe') for f in (False, True) for l in (False, True) for s in ((), ('success',), STATS)]
DATA += [('%s._prepare_data rejects unknown statistics' % k.upper(), create(k, stats=('success', 'foo'), bad=True), {'mpc': refuter, 'mhe': refuter_mhe}[k]) for k in ('mpc', 'mhe')]
