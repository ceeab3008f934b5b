"""reset_history of controller, estimator, simulator and LQR: the recorded data are cleared, time restarts at zero, nothing else changes."""
from .step import *
refuter = Refuter({}, dom=3)
def reset(kind):
    def run(ctx):
        from . import c10, c12
        if kind in ('mpc', 'mhe'): w = after_setup(ctx, kind, {}); it, me = w.it, w.me
        elif kind == 'simulator': w = c10.simulator(ctx, {'type': 'discrete', 'first': False}); it, me = w.it, w.me; it.setitem(me.attrs['flags'], 'setup', True)
        else: w = c12.ready(ctx, kind == 'lqr with rates'); it, me = w.it, w.me
        a = me.attrs; cleared = Rec(it)
        a['data'].attrs['init_storage'] = LibFn('init_storage', lambda it, x, k: cleared.add(1))
        a['data'].attrs['update'] = LibFn('update', lambda it, x, k: cleared.add('update'))
        ctx.declared(me, a['flags'], w.m, a['data'])
        snap = lambda: {k: (id(v), len(v.log) if isinstance(v, PStruct) else 0, len(v.segs) if isinstance(v, PList) else 0) for k, v in a.items() if k not in ('_t0', 'flags', 'data')}
        s0 = snap(); f0 = dict(a['flags'].d); d0 = a['data']
        it.call(it.getattr(me, 'reset_history'), [], {})
        ctx.true('the recorded data are cleared', cleared.all() == [1] and a['data'] is d0, '%s' % cleared.all())
        t = it.getattr(me, 't0')
        ctx.eq('time restarts at zero', vec(t), Term('c', (Fraction(0),), 1, 1))
        f1 = dict(a['flags'].d)
        if 'first_step' in f0: f0['first_step'] = True
        ctx.true('flags', f0 == f1, '%s' % {k: (f0.get(k), f1.get(k)) for k in set(f0) | set(f1) if f0.get(k) != f1.get(k)})
        ctx.true('nothing else changes', all(snap().get(k) == v for k, v in s0.items()), '%s' % [k for k, v in s0.items() if snap().get(k) != v])
    return run
CONTRACTS = {k: [('%s.reset_history' % k, reset(k), refuter)] for k in ('mpc', 'mhe', 'simulator', 'lqr', 'lqr with rates')}
