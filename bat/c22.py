"""plot data structure against an ordered list of (index, value) pairs"""
from bat.util import *
import random
ALARM = 60
RULE = 'histories of 1..14 stores (plain, nested lists, tuples and dictionaries, overwriting) under indices of depth 1..4 over overlapping alphabets of strings and integers, queries with full, partial, over-long and unknown indices and slices at any position'
def cases(tier, rng):
    out = []
    for i in range(600 if tier == 'quick' else 20000):
        r = random.Random(rng.randrange(10 ** 9)); al = [['_x', '_u', '_aux', 0], ['a', 'b', 'c', 0, 1], [0, 1, 2], [0, 'a']]
        key = lambda: [r.choice(al[d]) for d in range(r.choice([1, 2, 2, 3, 3, 4]))]
        def val(d=0):
            k = r.random()
            if d < 3 and k < 0.2: return ['L', [val(d + 1) for _ in range(r.choice([0, 1, 2, 3]))]]
            if d < 3 and k < 0.3: return ['T', [val(d + 1) for _ in range(r.choice([1, 2]))]]
            if d < 3 and k < 0.42: return ['D', [[r.choice(['a', 'b', 0, 1]), val(d + 1)] for _ in range(r.choice([1, 2]))]]
            return ['V', r.choice([0, 1, 'v', None])]
        ops = []
        for _ in range(r.choice([1, 3, 6, 10, 14])): ops.append([key() if r.random() < 0.8 or not ops else r.choice(ops)[0], val()])
        qs = []
        for _ in range(12):
            q = key() if r.random() < 0.4 else list(r.choice(ops)[0])
            if r.random() < 0.4 and len(q) > 1: q = q[:r.randrange(1, len(q))]
            for j in range(len(q)):
                if r.random() < 0.25: q[j] = ['S'] + r.choice([[None, None, None], [0, 2, None], [1, None, None], [None, None, -1], [None, 1, None]])
            qs.append(q)
        out.append({'ops': ops, 'qs': qs, 'how': r.choice(['tuple', 'list', 'plain'])})
    return out
class Obj: pass
def run(c):
    from do_mpc.tools import Structure
    s = Structure(); ref = {}; cnt = [0]
    def val(v):
        k, p = v
        if k == 'V': o = Obj(); o.v = p; return o
        if k == 'L': return [val(q) for q in p]
        if k == 'T': return tuple(val(q) for q in p)
        return {a: val(q) for a, q in p}
    def store(k, v):
        if k in ref: ref[k] = v
        elif isinstance(v, (list, tuple)):
            for i, w in enumerate(v): store(k + (i,), w)
        elif isinstance(v, dict):
            for i, w in v.items(): store(k + (i,), w)
        else: ref[k] = v
    def K(k):
        if c['how'] == 'list': return list(k)
        if c['how'] == 'plain' and len(k) == 1: return k[0]
        return tuple(k)
    for k, v in c['ops']:
        o = val(v); s[K(k)] = o; store(tuple(k), o)
    need(len(s.full) == len(ref), 'number of stored values: %d, expected %d' % (len(s.full), len(ref)))
    for a, b in zip(s.full, ref.values()): need(a is b or a == b and not isinstance(a, Obj), 'all values in insertion order')
    need(list(s.powerindex) == list(ref), 'indices in insertion order')
    feats = []
    for k in ref:
        for j, q in enumerate(k):
            while len(feats) <= j: feats.append([])
            if q not in feats[j]: feats[j].append(q)
    need(list(s.features) == feats, 'features')
    keys = list(ref); vals = list(ref.values())
    def sel(items, q, j):
        if j == len(q): return [v for k, v in items]
        if isinstance(q[j], list):
            out = []
            for f in feats[j][slice(*q[j][1:])]: out.append(sel([(k, v) for k, v in items if len(k) > j and k[j] == f], q, j + 1))
            return [o for o in out if o]
        return sel([(k, v) for k, v in items if len(k) > j and k[j] == q[j]], q, j + 1)
    def drop(x, depth):
        return [o for o in (drop(y, depth - 1) for y in x) if o] if depth else x
    def same(a, b):
        if isinstance(b, list) and isinstance(a, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        return a is b or (not isinstance(b, Obj) and a == b)
    for q in list(map(list, keys)) + c['qs']:
        ind = [slice(*x[1:]) if isinstance(x, list) else x for x in q]
        if any(isinstance(x, list) and j >= len(feats) for j, x in enumerate(q)): continue
        ns = sum(isinstance(x, list) for x in q); k = K(ind)
        g = s[k]
        need(same(drop(g, ns), sel(list(zip(keys, vals)), q, 0)), 'query %r returned %r' % (q, g))
        need(same(drop(s._getkeys(k), ns), sel(list(zip(keys, keys)), q, 0)), 'keys of the query %r' % (q,))
        need(same(drop(s.get_index[k], ns), sel(list(zip(keys, range(len(keys)))), q, 0)), 'positions of the query %r' % (q,))
        if not any(isinstance(x, list) for x in q) and tuple(q) in ref:
            need(any(same(v, ref[tuple(q)]) for v in g), 'the value stored under %r is not returned' % (q,))
