"""ONNX graphs built from the supported operations, compared with an independent evaluation and with the ONNX reference evaluator"""
from bat.util import *
import random, numpy as np, logging
RULE = 'graphs of 1..7 nodes over MatMul, Gemm (alpha, beta, transA, transB; constant, computed or no bias), Add, Sum, Mul, Sub, Tanh, Sigmoid, Relu, Elu (alpha), one to three inputs, constant operands on either side, vector biases, scalar constants, shared intermediate layers; SX, MX, DM and numpy inputs; rejected: unsupported operations, wrong names, shapes, types, unknown layers'
ASSUMPTIONS = ['operands of element-wise operations have equal shape, are scalar, or are a vector along the last axis of a one-row matrix']
def cases(tier, rng):
    return [{'seed': rng.randrange(10 ** 9), 'nn': rng.choice([1, 2, 3, 4, 6, 8]), 'nin': rng.choice([1, 1, 2, 3]), 'dyn': rng.random() < 0.3, 'types': [rng.choice(['SX', 'MX', 'DM', 'np']) for _ in range(2)], 'rows': rng.choice([1, 1, 1, 2])} for _ in range(800 if tier == 'quick' else 5000)]
def build(c):
    import onnx
    from onnx import helper as h, numpy_helper as nh, TensorProto as T
    r = random.Random(c['seed']); g = np.random.default_rng(c['seed'])
    nodes, inits, ins, vals = [], [], [], {}
    R = c['rows']
    for i in range(c['nin']):
        w = r.choice([1, 2, 3, 4]); n = ['in', 'x_%d', 'input.%d'][i % 3]; n = n % i if '%' in n else n
        n = n.replace('.', '_'); vals[n] = (R, w)
        ins.append(h.make_tensor_value_info(n, T.FLOAT, ['batch' if c['dyn'] else R, w]))
    def const(shape):
        n = 'w%d' % len(inits); inits.append(nh.from_array(g.normal(size=shape).round(2).astype(np.float32), n)); return n
    for k in range(c['nn']):
        op = r.choice(['MatMul', 'Gemm', 'Gemm', 'Add', 'Sum', 'Mul', 'Sub', 'Tanh', 'Sigmoid', 'Relu', 'Elu'])
        a = r.choice(list(vals)); sh = vals[a]; o = 'l%d' % k if r.random() < 0.7 else 'layer/%d:0' % k; at = {}
        if op == 'MatMul':
            same = [b for b in vals if vals[b][0] == sh[1]]
            if r.random() < 0.25 and same: b = r.choice(same); i = [a, b]; out = (sh[0], vals[b][1])
            elif r.random() < 0.3: q = r.choice([1, 2, 3]); i = [const((q, sh[0])), a]; out = (q, sh[1])
            else: q = r.choice([1, 2, 3]); i = [a, const((sh[1], q))]; out = (sh[0], q)
        elif op == 'Gemm':
            tA, tB = r.choice([(None, None), (0, 1), (1, 0), (1, 1), (0, 0), (None, 1)])
            if tA is not None: at['transA'] = tA
            if tB is not None: at['transB'] = tB
            if r.random() < 0.5: at['alpha'] = r.choice([0.5, 2.0, -1.0, 0.0])
            if r.random() < 0.5: at['beta'] = r.choice([0.5, 2.0, -1.0, 0.0])
            left = r.random() < 0.7; q = r.choice([1, 2, 3])
            s = (sh[1], sh[0]) if (tA if left else tB) else sh
            if left: b = (s[1], q); out = (s[0], q)
            else: b = (q, s[0]); out = (q, s[1])
            if (tB if left else tA): b = (b[1], b[0])
            cs = r.choice([(out[1],), out]) if out[0] == 1 else out
            like = [q for q in vals if vals[q] == out]
            bias = r.choice(['const', 'const', 'none', 'layer'])
            c3 = [] if bias == 'none' else [r.choice(like)] if bias == 'layer' and like else [const(cs)]
            i = ([a, const(b)] if left else [const(b), a]) + c3
        elif op in ('Add', 'Mul', 'Sub', 'Sum'):
            same = [b for b in vals if vals[b] == sh]
            def other():
                if r.random() < 0.4: return r.choice(same)
                cand = [sh, sh, ()] + ([(sh[1],)] if sh[0] == 1 else [])
                return const(r.choice(cand))
            i = [a, other()] if r.random() < 0.6 else [other(), a]
            if op == 'Sum' : i = i + [other() for _ in range(r.choice([0, 1, 2]))]
            out = sh
            if op == 'Sum' and r.random() < 0.1: i = [a]
        else:
            i = [a]; out = sh
            if op == 'Elu' and r.random() < 0.6: at['alpha'] = r.choice([0.5, 2.0, 0.1])
        nodes.append(h.make_node(op, i, [o], name='n%d' % k, **at)); vals[o] = out
    last = nodes[-1].output[0]
    graph = h.make_graph(nodes, 'g', ins, [h.make_tensor_value_info(last, T.FLOAT, None)], inits)
    return h.make_model(graph, opset_imports=[h.make_opsetid('', 17)]), vals, {t.name: nh.to_array(t).astype(float) for t in inits}
def ref(nodes, v):
    for n in nodes:
        x = [v[q] for q in n.input]; at = {a.name: (a.i if a.type == 2 else a.f) for a in n.attribute}; t = n.op_type
        if t == 'MatMul': y = x[0] @ x[1]
        elif t == 'Gemm': y = at.get('alpha', 1.0) * ((x[0].T if at.get('transA') else x[0]) @ (x[1].T if at.get('transB') else x[1])) + (at.get('beta', 1.0) * x[2] if len(x) > 2 else 0)
        elif t in ('Add', 'Sum'): y = sum(x)
        elif t == 'Mul': y = x[0] * x[1]
        elif t == 'Sub': y = x[0] - x[1]
        elif t == 'Tanh': y = np.tanh(x[0])
        elif t == 'Sigmoid': y = 1 / (1 + np.exp(-x[0]))
        elif t == 'Relu': y = np.maximum(x[0], 0)
        elif t == 'Elu': y = np.where(x[0] > 0, x[0], at.get('alpha', 1.0) * (np.exp(np.minimum(x[0], 0)) - 1))
        v[n.output[0]] = y
    return v
def run(c):
    import do_mpc, casadi as ca, onnx
    from onnx import helper as h, TensorProto as T
    logging.disable(logging.CRITICAL)
    m, vals, w = build(c); nodes = list(m.graph.node); g = np.random.default_rng(c['seed'] + 1)
    names = [i.name for i in m.graph.input]
    X = {n: g.normal(size=vals[n]).round(3) for n in names}
    V = ref(nodes, dict(w, **X))
    for n in vals: V[n] = np.asarray(V[n], float)
    if max(np.abs(V[n]).max() for n in vals) > 1e4: raise Skip('large values')
    from onnx.reference import ReferenceEvaluator
    try: R = ReferenceEvaluator(m).run(None, {n: X[n].astype(np.float32) for n in names})[0]
    except Exception as ex: raise Skip('reference evaluator: %s' % str(ex)[:80])
    if not np.allclose(R, V[nodes[-1].output[0]], rtol=1e-3, atol=1e-3): raise Skip('reference evaluators disagree')
    con = do_mpc.sysid.ONNXConversion(m); S = con.__repr__()
    for ty in c['types']:
        sym = {n: getattr(ca, ty).sym('s', *vals[n]) for n in names} if ty in ('SX', 'MX') else {n: (ca.DM(X[n]) if ty == 'DM' else X[n].copy()) for n in names}
        con.convert(**sym)
        lay = list(vals)
        if ty in ('SX', 'MX'):
            f = ca.Function('f', [sym[n] for n in names], [ca.densify(con[l]) if not isinstance(con[l], np.ndarray) else ca.DM(con[l]) for l in lay])
            out = f(*[ca.DM(X[n]) for n in names]); out = [arr(o) for o in (out if isinstance(out, (list, tuple)) else [out])]
        else: out = [arr(con[l]) for l in lay]
        for l, o in zip(lay, out): close(o.reshape(V[l].shape) if o.size == V[l].size else o, V[l], 'layer %s with %s inputs' % (l, ty), 1e-6); need(o.size == 1 or o.shape == V[l].shape, 'shape of layer %s: %s, expected %s' % (l, o.shape, V[l].shape))
        for n in names:
            if ty == 'np': close(sym[n], X[n], 'the input array is not modified')
    raises(lambda: con['no_such_layer'], 'an unknown layer'); raises(lambda: con[nodes[0].op_type], 'an operation instead of a layer'); raises(lambda: con['w0'] if 'w0' in w else con['?'], 'a name that is no layer')
    ok = {n: ca.SX.sym('s', *vals[n]) for n in names}; n0 = names[-1]
    raises(lambda: con.convert(**{k: v for k, v in ok.items() if k != n0}), 'a missing input')
    raises(lambda: con.convert(**dict({k: v for k, v in ok.items() if k != n0}, wrong=ok[n0])), 'a wrong input name')
    raises(lambda: con.convert(**dict(ok, extra=ok[n0])), 'an additional input')
    for bad in (1.0, [1.0], None, 'a'): raises(lambda: con.convert(**dict(ok, **{n0: bad})), 'an input of type %s' % type(bad).__name__)
    raises(lambda: con.convert(**dict(ok, **{n0: ca.SX.sym('s', vals[n0][0], vals[n0][1] + 1)})), 'an input with too many columns')
    if vals[n0][1] > 1: raises(lambda: con.convert(**dict(ok, **{n0: ca.SX.sym('s', vals[n0][0], 1)})), 'an input with too few columns')
    raises(lambda: do_mpc.sysid.ONNXConversion('model'), 'a model of the wrong type')
    # unsupported operation anywhere in the graph
    m2 = onnx.ModelProto(); m2.CopyFrom(m); k = g.integers(len(nodes)); m2.graph.node[int(k)].op_type = ['Softmax', 'LeakyRelu', 'Conv', 'Div'][int(g.integers(4))]
    raises(lambda: do_mpc.sysid.ONNXConversion(m2).convert(**ok), 'an unsupported operation')
    # one-dimensional input
    gr = h.make_graph([h.make_node('Tanh', ['v'], ['o'])], 'g', [h.make_tensor_value_info('v', T.FLOAT, [3])], [h.make_tensor_value_info('o', T.FLOAT, [3])])
    con = do_mpc.sysid.ONNXConversion(h.make_model(gr)); v = g.normal(size=3)
    con.convert(v=v); close(con['o'], np.tanh(v), 'one-dimensional input')
    raises(lambda: con.convert(v=np.zeros(2)), 'a one-dimensional input of the wrong size')
