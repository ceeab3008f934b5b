"""ghost file system shared by the sampling and data contracts: every write is recorded, existence is an arbitrary predicate"""
import z3
from ..core import *
from ..interp import *
from ..lib import *

class Files:
    def __init__(self, it, contracts=True):
        self.it = it; self.log = PList([])            # journaled: (operation, name, content)
        H = it.lib.hooks
        H['call:os.path.isfile'] = lambda it, a, k: self.exists(a[0])
        H['call:os.path.exists'] = lambda it, a, k: self.exists(a[0])
        H['call:os.path.splitext'] = lambda it, a, k: self.splitext(a[0])
        H['call:os.path.join'] = lambda it, a, k: self.join(a)
        if contracts: it.contracts['do_mpc.tools:save_pickle'] = lambda it, a, k: self.write('pickle', *bind(a, k, ('filename', 'data')))
        if contracts: it.contracts['do_mpc.tools:load_pickle'] = lambda it, a, k: self.read('pickle', *bind(a, k, ('filename',)))
        H['call:scipy.io.savemat'] = lambda it, a, k: self.write('mat', *a)
        H['call:scipy.io.loadmat'] = lambda it, a, k: self.read('mat', *a)
        H['call:pathlib.Path'] = lambda it, a, k: PObj(LibType('Path'), {'name': a[0]})
        H['call:open'] = lambda it, a, k: self.open(*bind(a, k, ('file', 'mode'), {'mode': 'r'}))
        H['call:pickle.dump'] = lambda it, a, k: self.write('pickle', self.handle(bind(a, k, ('obj', 'file'))[1], 'w'), a[0])
        H['call:pickle.load'] = lambda it, a, k: self.read('pickle', self.handle(a[0], 'r'))
        H['call:os.makedirs'] = lambda it, a, k: self.op('mkdir', a[0], tuple(sorted(k.items())))
        old = H.get('obj_attr')
        def attr(it, o, n):
            if isinstance(o, PObj) and isinstance(o.cls, LibType) and o.cls.name == 'Path':
                if n == 'mkdir': return LibFn('mkdir', lambda it, a, k: self.op('mkdir', o.attrs['name'], tuple(sorted(k.items()))))
                if n in ('is_file', 'exists'): return LibFn(n, lambda it, a, k: self.exists(o.attrs['name']))
            return old(it, o, n) if old else NotImplemented
        H['obj_attr'] = attr
        if 'stems' not in it.__dict__: it.stems = {}
    def open(self, name, mode):
        if not isinstance(mode, str): raise Unsupported('mode')
        if 'w' in mode: self.op('open', name, mode)
        elif 'r' in mode and '+' not in mode:
            if not self.it.decide(self.exists(name)): raise PyEx('FileNotFoundError', (name,))
        else: self.op('open', name, mode)
        o = PObj(LibType('file'), {'name': name, 'mode': mode}); o.closed = True
        return o
    def handle(self, f, need):
        if not (isinstance(f, PObj) and isinstance(f.cls, LibType) and f.cls.name == 'file'): raise Unsupported('not a file')
        if need not in f.attrs['mode'] or 'b' not in f.attrs['mode']: raise PyEx('UnsupportedOperation')
        return f.attrs['name']
    def op(self, kind, name, content):
        self.it.append_seg(self.log, E((kind, name, content)))
    def write(self, kind, name, content): self.op('write ' + kind, name, content)
    def pred(self, name):
        """arbitrary initial existence of a file"""
        name = name if isinstance(name, SStr) else SStr(parts=str_parts(name))
        shape = ''.join('{%s}' % p[1] if p[0] in 'cv' else '#%s' % ('' if p[0] == 'n' else p[2] if p[0] == 'z' else p[1]) for p in name.parts)
        args = [p[2] if p[0] == 'u' else p[1] for p in name.parts if p[0] in 'nzu']
        if not args: return z3.Bool('file:' + shape)
        return z3.Function('file:' + shape, *([z3.IntSort()] * len(args) + [z3.BoolSort()]))(*args)
    def exists(self, name):
        r = None
        for s in reversed(self.log.segs):
            if s.kind != 'e': raise Unsupported('existence after writes in a loop')
            if not s.val[0].startswith(('write', 'open')): continue
            e = self.it.equal(s.val[1], name)
            if self.it.decide(e): return True
        return SBool(self.pred(name))
    def read(self, kind, name):
        r = PObj(LibType('content'), {'kind': kind, 'name': name}); r.closed = True
        if not self.it.decide(self.exists(name)): raise PyEx('FileNotFoundError', (name,))
        return r
    def splitext(self, name):
        """root and extension: (r, e) with r + e == name, e empty or starting with a dot"""
        if isinstance(name, str):
            import os
            return os.path.splitext(name)
        last = name.parts[-1]
        if last[0] == 'c' and '.' in last[1] and not last[1].startswith('.') and '/' not in last[1]:
            i = last[1].rindex('.')
            return sstr(name.parts[:-1] + (('c', last[1][:i]),)), last[1][i:]
        return SStr('stem(%s)' % name.name), SStr('ext(%s)' % name.name)
    def join(self, a):
        a = [x for x in a]
        if all(isinstance(x, str) for x in a):
            import os
            return os.path.join(*a)
        out = a[0]
        for x in a[1:]:
            p = str_parts(out)
            end = p[-1][1] if p and p[-1][0] == 'c' else None
            if end is None: raise Unsupported('path of unknown form')
            out = sstr(p + ((('c', '/'),) if not end.endswith('/') else ()) + str_parts(x))
        return out
    def writes(self):
        return [s.val if s.kind == 'e' else ('loop', s) for s in self.log.segs]

def bind(a, k, names, defaults={}):
    a = list(a)
    for n in names[len(a):]: a.append(k[n] if n in k else defaults[n])
    return a
