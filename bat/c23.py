"""real-time layer on an in-memory replacement of the OPC UA library"""
from bat.util import *
from bat import gen
import random, numpy as np, types, logging, time
RULE = 'random models (all variable kinds, vector variables), default and user namespaces, server registration of one or two clients, real simulators/estimators and recording stand-ins as wrapped object, tag lists of matching and non-matching length, results as array (row, column, flat), DM and structure, wrong result types, unreachable servers'
ASSUMPTIONS = ['asyncua is replaced by an in-memory address space that implements get_node, set_value, get_value, register_namespace, add_object and add_variable']
def cases(tier, rng):
    out = []
    for i in range(300 if tier == 'quick' else 2500):
        r = random.Random(rng.randrange(10 ** 9))
        out.append({'m': gen.model(r, xdims=r.choice([None, [['a', 2], ['b', 3]], [['a', 11]], [['default_a', 2], ['my_default', 1]]])), 'nm': r.choice(['ctrl', 'sim 1', 'x']), 'meas': r.random() < 0.5, 'kind': r.choice(['stub', 'stub', 'sim', 'est']), 'seed': r.randrange(10 ** 6),
                    'nin': r.choice([0, 1, 2, 5]), 'nout': r.choice([1, 2, 3, 5]), 'form': r.choice(['col', 'row', 'flat', 'DM', 'DMrow', 'struct']), 'two': r.random() < 0.4, 'unit': r.choice([1, 60]), 'custom': r.random() < 0.3, 'steps': r.choice([1, 2, 3])})
    return out
class World:
    def __init__(self): self.nodes = {}; self.ns = ['a', 'b']; self.log = []; self.down = False; self.added = []
def stub(W):
    class Node:
        def __init__(s, key): s.key = key
        def set_value(s, v): W.log.append(('w', s.key, v)); W.check(); W.nodes[s.key]['v'] = v
        def get_value(s): W.log.append(('r', s.key)); W.check(); return W.nodes[s.key]['v'][0]
        def set_writable(s): W.nodes[s.key]['writable'] = True
        def add_variable(s, nid, name, val):
            key = 'ns=%d;s=%s' % (nid[1], nid[0]); W.added.append(key)
            if key in W.nodes: raise ValueError('BadNodeIdExists: ' + key)
            W.nodes[key] = {'v': val, 'obj': s.key, 'name': name}; return Node(key)
        def add_object(s, idx, name):
            k = ('obj', idx, name)
            if k in W.nodes: raise ValueError('BadNodeIdExists')
            W.nodes[k] = {}; return Node(k)
    def check():
        if W.down: raise ConnectionRefusedError()
    W.check = check
    class Client:
        def __init__(s, addr): s.addr = addr; W.log.append(('client', addr))
        def connect(s): W.log.append(('connect', s.addr))
        def disconnect(s): W.log.append(('disconnect', s.addr))
        def get_node(s, tag):
            if tag not in W.nodes: raise KeyError(tag)
            return Node(tag)
    class Server:
        def __init__(s): s.nodes = types.SimpleNamespace(objects=Node('root'))
        def register_namespace(s, n):
            if n not in W.ns: W.ns.append(n)
            return W.ns.index(n)
        def get_namespace_array(s): return list(W.ns)
        def start(s): W.log.append(('start',))
        def stop(s): W.log.append(('stop',))
    return types.SimpleNamespace(Client=Client, Server=Server, ua=types.SimpleNamespace(NodeId=lambda a, b: (a, b)))
def run(c):
    import do_mpc, casadi as ca, casadi.tools as ct
    logging.disable(logging.CRITICAL)
    from do_mpc.opcua import RTBase, RTServer
    from do_mpc.opcua import _client, _server
    from do_mpc.opcua._helper import Namespace, NamespaceEntry, ClientOpts, ServerOpts
    W = World(); fake = stub(W); _client.opcua = fake; _server.opcua = fake
    m = c['m']; r = random.Random(c['seed']); g = np.random.default_rng(c['seed'])
    meas = [['y1', [gen.rpoly(r, gen.scal(m, ['x']), 1)], True], ['y2', [gen.rpoly(r, gen.scal(m, ['x']), 1) for _ in range(2)], False]] if c['meas'] else None
    mod = gen.build(m, meas=meas)
    class Obj: pass
    calls = []; results = []
    if c['kind'] == 'stub':
        o = Obj(); o.model = mod; o.settings = types.SimpleNamespace(t_step=0.5)
        def make_step(x):
            calls.append(np.array(x)); n = results[-1]; v = g.normal(size=n['n']).round(3); n['v'] = v
            f = n['f']
            if f == 'col': return v.reshape(-1, 1)
            if f == 'row': return v.reshape(1, -1)
            if f == 'flat': return v
            if f == 'DM': return ca.DM(v)
            if f == 'DMrow': return ca.DM(v).T
            if f == 'struct':
                s = ct.struct_symSX([ct.entry('q', shape=(n['n'], 1))]); return s(ca.DM(v))
            return f
        o.make_step = make_step
    elif c['kind'] == 'sim':
        o = do_mpc.simulator.Simulator(mod); o.set_param(t_step=0.5)
    else:
        o = do_mpc.estimator.StateFeedback(mod)
        o.settings = types.SimpleNamespace(t_step=0.5)
    # expected default namespace
    exp = []
    for var in ['aux', 'p', 'tvp', 'u', 'v', 'w', 'x', 'y', 'z']:
        for lab in mod[var].labels():
            if (var, lab) != ('aux', '[default,0]'): exp.append((var, lab))
    kinds = {'x': m['x'], 'u': m['u'], 'z': m['z'], 'p': m['p'], 'tvp': m['tvp'], 'aux': [[n, len(q)] for n, q in m['aux']]}
    own = None
    if c['custom']: own = Namespace('own ns', [NamespaceEntry('obj_a', 'v1'), NamespaceEntry('obj_a', 'v2'), NamespaceEntry('obj_b', 'v1')])
    rt = RTBase(o, ClientOpts(c['nm'], 'opc.tcp://localhost:4840/', 4840, c['unit']), own) if own else RTBase(o, ClientOpts(c['nm'], 'opc.tcp://localhost:4840/', 4840, c['unit']))
    close(rt.cycle_time, 0.5 * c['unit'], 'cycle time')
    ns = rt.namespace
    if own: need(ns is own, 'a given namespace is used'); exp = [('obj_a', 'v1'), ('obj_a', 'v2'), ('obj_b', 'v1')]
    else:
        need(ns.namespace_name == c['nm'], 'name of the default namespace')
        got = [(e.objectnode, e.variable) for e in ns.entry_list]
        need(sorted(got) == sorted(exp), 'entries of the default namespace %s, expected %s' % (got, exp))
        for k, v in kinds.items():
            n = sum(d for _, d in v)
            need(sum(1 for a, b in got if a == k) == n, 'number of nodes of %s: expected one per element (%d)' % (k, n))
            labs = [q for q in mod[k].labels() if (k, q) != ('aux', '[default,0]')]
            need([b for a, b in got if a == k] == labs if n else True, 'order of the nodes of %s' % k)
    raises(lambda: ns.entry_list[0].get_node_id(None), 'a node id without a namespace index')
    sv = RTServer(ServerOpts('srv', 'opc.tcp://localhost:4840/', 4840))
    sv.namespace_from_client(rt)
    idx = ns._namespace_index; need(idx is not None and W.ns[idx] == ns.namespace_name, 'index of the registered namespace')
    names = [k for k in W.nodes if isinstance(k, str)]
    need(len(names) == len(exp) and len(set(W.added)) == len(W.added), 'every node is registered once: %d nodes, expected %d' % (len(names), len(exp)))
    need(all(W.nodes[k].get('writable') for k in names), 'nodes are writable')
    objs = []
    for a, b in exp:
        if a not in objs: objs.append(a)
    tags = {}
    for a in objs:
        tags[a] = ns[a]; need(len(tags[a]) == sum(1 for q, _ in exp if q == a), 'nodes addressed under %s' % a)
        for t in tags[a]:
            need(t in W.nodes, 'the client addresses an existing node: %s' % t)
            need(W.nodes[t]['obj'] == ('obj', idx, a), 'the node %s belongs to the object %s' % (t, a))
        lab = [b for q, b in exp if q == a]
        for t, b in zip(tags[a], lab): need(b in t, 'the node %s carries the name of the element %s' % (t, b))
    need(len(set(t for a in objs for t in tags[a])) == len(exp), 'node names are unique')
    need(ns['no such object'] == [], 'nodes of an unknown object')
    if c['two']:
        rt2 = RTBase(o, ClientOpts('other', 'opc.tcp://localhost:4840/', 4840)); n0 = len(names); sv.namespace_from_client(rt2)
        i2 = rt2.namespace._namespace_index; need(i2 != idx and W.ns[i2] == 'other', 'second namespace')
        for a in set(e.objectnode for e in rt2.namespace.entry_list):
            for t in rt2.namespace[a]: need(t in W.nodes and W.nodes[t]['obj'] == ('obj', i2, a), 'node of the second client')
            if not own: need(ns[a] == tags[a], 'the first namespace is unchanged')
        need(not set(t for e in set(e.objectnode for e in rt2.namespace.entry_list) for t in rt2.namespace[e]) & set(names), 'clients do not share nodes')
    alltags = [t for a in objs for t in tags[a]]
    for k in alltags: W.nodes[k]['v'] = [float(g.normal())]
    rt.connect(); need(('connect', 'opc.tcp://localhost:4840/') in W.log, 'connected to the configured address')
    if c['kind'] == 'stub':
        r.shuffle(alltags); tin = [r.choice(alltags) for _ in range(c['nin'])]; tout = alltags[:min(c['nout'], len(alltags))]
        rt.set_read_tags(tin); rt.set_write_tags(tout)
        for j in range(c['steps']):
            if j and r.random() < 0.5:      # other tags between the steps
                tin = [r.choice(alltags) for _ in range(r.choice([0, 1, 2, 5]))]; tout = r.sample(alltags, min(r.choice([1, 2, 3]), len(alltags)))
                rt.set_read_tags(tin); rt.set_write_tags(tout)
            for k in alltags: W.nodes[k]['v'] = [float(g.normal())]
            before = {k: W.nodes[k]['v'][0] for k in alltags}; del W.log[:]; del calls[:]; results.append({'n': len(tout), 'f': c['form']}); rt.make_step()
            need(len(calls) == 1, 'number of steps of the wrapped object: %d' % len(calls)); need(calls[0].shape == (len(tin), 1), 'shape of the input %s' % (calls[0].shape,))
            close(calls[0], np.array([before[t] for t in tin]).reshape(-1, 1), 'input of the step')
            need([e[1] for e in W.log if e[0] == 'r'] == tin, 'tags read in order'); need([e[1] for e in W.log if e[0] == 'w'] == tout, 'tags written in order')
            for t, v in zip(tout, results[-1]['v']): close(W.nodes[t]['v'], [v], 'value of %s' % t); need(isinstance(W.nodes[t]['v'], list), 'written as list')
            for k in alltags:
                if k not in tout: close(W.nodes[k]['v'], [before[k]], 'other nodes are unchanged')
            d = [e[0] for e in W.log]; need('w' not in d or 'r' not in d or max(i for i, e in enumerate(d) if e == 'r') < d.index('w'), 'all inputs are read before the outputs are written')
        for n in (len(tout) + 1, max(len(tout) - 1, 0)):
            if n == len(tout): continue
            if n == 0: continue
            del W.log[:]; results.append({'n': n, 'f': c['form']}); raises(rt.make_step, 'a result with %d elements for %d tags' % (n, len(tout)))
            need(not [e for e in W.log if e[0] == 'w'], 'nothing is written when the size is wrong')
        for bad in ([1.0] * len(tout), 'a', None, 1.0):
            results.append({'n': len(tout), 'f': bad}); raises(rt.make_step, 'a result of type %s' % type(bad).__name__)
    elif not own:
        nx = sum(d for _, d in m['x']); nu = sum(d for _, d in m['u'])
        if c['kind'] == 'est':
            rt.set_read_tags(tags['x']); rt.set_write_tags(tags['x'][::-1]); v = [W.nodes[t]['v'][0] for t in tags['x']]; rt.make_step()
            close([W.nodes[t]['v'][0] for t in tags['x'][::-1]], v, 'a state feedback step copies the tags in order')
    raises(lambda: rt.client.writeData(alltags[0], 3.0), 'data that is no list')
    rt.disconnect(); sv.start(); sv.stop(); need(('start',) in W.log and ('stop',) in W.log, 'server calls')
