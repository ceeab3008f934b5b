"""C04: Optimizer.__init__, set_nl_cons and _setup_nl_cons (used by MPC and MHE), for every size, bound, penalty and maximum violation;
bounded in the number of named constraints (up to three, every mix of soft and hard ones)."""
from .c15 import build, Cfg, R, val, reject, replace, refuter
import itertools
from .mdl import *
OPT = 'do_mpc.optimizer:Optimizer'
NAMES = ('c1', 'bb', 'a_c')
ORD = ('_x', '_u', '_z', '_tvp', '_p')

def nlcons(kinds, sv='SX', form='number', cls='do_mpc.controller._mpc:MPC'):
    """kinds: string of h (hard) and s (soft)"""
    g = Cfg(('xa', 'xb'), ('ua',), ('za',), ('pa',), ('ta',), (), None, sv=sv)
    def run(ctx):
        w = build(ctx, g); it, model = w.it, w.me
        it.call(it.getattr(model, 'setup'), [], {})
        a = model.attrs
        o = PObj(it.find(cls), name='self'); it.setattr(o, 'model', model)
        it.call(it.find(OPT + '.__init__'), [o], {})
        S = [it.getattr(model, t) for t in ORD]
        own = [sfn(it, s)(n, []) for s in S for n in s.layout.entries]
        exprs, ub, pen, mv, rows = {}, {}, {}, {}, {}
        for n, k in zip(NAMES, kinds):
            r = R('nl' + n); it.base_facts.append(r >= 1); rows[n] = r
            e = exprs[n] = Term('call', ('g' + n,) + tuple(own), r, 1, sv)
            num = lambda q: Term('sym', (q + n,), 1 if form == 'number' else r, 1, 'float' if form == 'number' else 'ndarray')
            ub[n], pen[n], mv[n] = num('ub'), num('pen'), num('mv')
            kw = {'ub': ub[n]} if form != 'default' else {}
            if k == 's':
                kw['soft_constraint'] = True
                if form != 'default': kw.update(penalty_term_cons=pen[n], maximum_violation=mv[n])
            if form == 'default': ub[n] = float('inf'); pen[n] = 1; mv[n] = float('inf')
            r_ = it.call(it.getattr(o, 'set_nl_cons'), [n, e], kw)
            ctx.eq('returned expression', vec(r_), e)
        it.call(it.getattr(o, '_setup_nl_cons'), [PList(elems=list(S))], {})
        soft = [n for n, k in zip(NAMES, kinds) if k == 's']
        me = o.attrs
        ne = size(*[rows[n] for n in soft])
        ctx.oblige('number of slack variables', zi(me['n_eps']) == ne)
        L = me['_eps'].layout
        ctx.true('one slack variable for each soft constraint', [n for n in L.entries if n != 'default'] == soft, '%s' % list(L.entries))
        for n in soft: ctx.oblige('size of the slack variable', zi(base_rows(L.entries[n][1])) == rows[n])
        for n in soft:
            ctx.eq('lower bound of the slack variables', vec(it.getitem(me['_eps_lb'], n)), bc(it, 0, rows[n]))
            ctx.eq('upper bound of the slack variables', vec(it.getitem(me['_eps_ub'], n)), bc(it, mv[n], rows[n]))
        # the functions at arbitrary values
        V = {t: PStruct(s.layout, 'num', content=lambda n, q, t=t, s=s: val(t, n, base_rows(s.layout.entries[n][1])), name='VAL' + t) for t, s in zip(ORD, S)}
        ev = PStruct(L, 'num', content=lambda n, q: val('_eps', n, base_rows(L.entries[n][1])), name='VALeps')
        pr = [(sfn(it, s)(n, []), val(t, n, base_rows(s.layout.entries[n][1]))) for t, s in zip(ORD, S) for n in s.layout.entries]
        got = vec(it.call(it.getattr(o, '_nl_cons_fun'), [V[t] for t in ORD] + [ev], {}))
        want = [replace(exprs[n], pr) for n in NAMES[:len(kinds)]]
        want = [mk('sub', e, val('_eps', n, rows[n])) if n in soft else e for e, n in zip(want, NAMES)]
        ctx.eq('constraint function: expression minus its slack variable', got, vcat(it, [E(e) for e in want]))
        cost = vec(it.call(it.getattr(o, 'epsterm_fun'), [ev], {}))
        exp = C(0)
        for n in soft: exp = mk('add', exp, Term('sum1', (mk('mul', vec(pen[n]), val('_eps', n, rows[n])),), 1, 1))
        ctx.eq('cost of the slack variables', cost, exp)
        for n in NAMES[:len(kinds)]:
            ctx.eq('upper bound of the constraint', vec(it.getitem(me['_nl_cons_ub'], n)), bc(it, ub[n], rows[n]))
            ctx.eq('lower bound of the constraint', vec(it.getitem(me['_nl_cons_lb'], n)), bc(it, float('-inf'), rows[n]))
    return run

def bc(it, v, r):
    t = vec(v)
    return Term(t.op, t.args, r, 1, t.ty)

def declare(soft, form):
    """set_nl_cons after an arbitrary history of declarations: one constraint is added, nothing else changes"""
    def run(ctx):
        it = ctx.it; w = MdlWorld(it)
        o = PObj(it.find('do_mpc.controller._mpc:MPC'), name='self')
        def unknown(tag):
            k = I('n' + tag); it.base_facts.append(k >= 0); b = fresh_int('h')
            return PList([Seg('r', b=Binder(b, 0, mkint(k)), guard=TRUE, segs=[E(Term('old', (tag, b), None, None))])])
        lists = {'nl_cons_list': unknown('cons'), 'slack_vars_list': unknown('slack')}
        flag = z3.Bool('setup')
        o.attrs.update(lists); o.attrs['flags'] = PDict({'setup': SBool(flag)}); before = dict(o.attrs)
        old = {k: list(v.segs) for k, v in lists.items()}
        r = z3.Int('r'); it.base_facts.append(r >= 1)
        e = Term('sym', ('expr',), r, 1, 'SX')
        ub, pen, mv = [Term('sym', (q,), 1 if form == 'number' else r, 1, 'float' if form == 'number' else 'ndarray') for q in ('ub', 'pen', 'mv')]
        try: it.call(it.getattr(o, 'set_nl_cons'), ['nm', e, ub, soft, pen, mv], {})
        except PyEx:
            ctx.oblige('only rejected after setup', flag)
            return ctx.true('a rejected constraint changes nothing', all(len(old[k]) == len(lists[k].segs) and all(x is y for x, y in zip(old[k], lists[k].segs)) for k in old), '')
        ctx.oblige('rejected after setup', z3.Not(flag))
        # how the declarations are kept is no behaviour: another representation is left undecided here, _setup_nl_cons below decides
        if set(before) != set(o.attrs) or not all(before[k] is o.attrs[k] for k in before if k not in lists): return ctx.unknown('no other attribute changes', 'state')
        for k in old:
            new = o.attrs[k].segs if isinstance(o.attrs[k], PList) else None
            n = 1 if k == 'nl_cons_list' or soft else 0
            if new is None or len(new) != len(old[k]) + n: return ctx.unknown('%d entry added to %s' % (n, k), 'representation')
            ctx.true('earlier declarations are kept', all(x is y for x, y in zip(old[k], new)), k)
            ctx.true('%d entry added to %s' % (n, k), all(x.kind == 'e' for x in new[len(old[k]):]), '')
    return run

def wrong(ctx):
    it = ctx.it; w = MdlWorld(it)
    o = PObj(it.find('do_mpc.controller._mpc:MPC'), name='self')
    o.attrs.update({'nl_cons_list': PList([]), 'slack_vars_list': PList([]), 'flags': PDict({'setup': False})})
    e = Term('sym', ('expr',), 1, 1, 'SX')
    for args, what in (([1, e], 'a name that is no string'), (['n', 1.0], 'a number as expression'), (['n', e, 'a'], 'a bound that is no number'), (['n', e, 1.0, 1], 'a flag that is no truth value'), (['n', e, None], 'no bound')):
        reject(ctx, w, what, lambda: it.call(it.getattr(o, 'set_nl_cons'), list(args), {}))
    ctx.true('rejected constraints change nothing', not o.attrs['nl_cons_list'].segs and not o.attrs['slack_vars_list'].segs, '')

K = [''.join(k) for m in range(4) for k in itertools.product('hs', repeat=m)]
CONTRACTS = [('Optimizer.set_nl_cons (%s, %s)' % ('soft' if s else 'hard', f), declare(s, f), refuter) for s in (False, True) for f in ('number', 'vector')]
CONTRACTS += [('Optimizer.set_nl_cons rejects wrong arguments', wrong, refuter)]
CONTRACTS += [('Optimizer._setup_nl_cons (%s)' % (k or 'none'), nlcons(k), refuter) for k in K]
CONTRACTS += [('Optimizer._setup_nl_cons (%s, %s, %s, %s)' % (k, f, sv, c.split(':')[1]), nlcons(k, sv, f, c), refuter) for k, f, sv, c in (('hs', 'vector', 'SX', 'do_mpc.controller._mpc:MPC'), ('ss', 'vector', 'MX', 'do_mpc.controller._mpc:MPC'), ('sh', 'default', 'SX', 'do_mpc.controller._mpc:MPC'), ('shs', 'number', 'SX', 'do_mpc.estimator._mhe:MHE'), ('hs', 'vector', 'MX', 'do_mpc.estimator._mhe:MHE'))]
