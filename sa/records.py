"""Where records (events, links) leave the local computation: stored to shared memory, passed on, or returned."""
from .core import *


class Escapes(Obligations):
    """subclass implements record(e, st, f, ins, ctx, how, T, get, where): `get(field)` reads a field value of the escaping record"""

    def __init__(self, cx, types=('Event', 'Implication')):
        super().__init__()
        self.cx = cx
        self.types = set(types)

    def rec_type(self, e, t):
        t = e.ty.T.canon(t)
        return t if t in self.types else None

    def on_call(self, e, st, f, ins, name, vals, ctx):
        if not isinstance(name, str) or name == 'Globals_assert':
            return
        if e.should_inline(name, ctx) and name not in [c[0] for c in ctx]:
            return
        self.call(e, st, f, ins, name, vals, ctx)
        for j, (a, v) in enumerate(zip(ins.c, vals)):
            t = e.ty.of(f, a)
            if e.ty.T.is_ptr(t):
                el = self.rec_type(e, e.ty.T.elem(t) or '')
                if el and v[0] == 'a':
                    path = v[1]
                    self.record(e, st, f, ins, ctx, f'passed to {name}', el, lambda fld, path=path: e.read(st, ('fld', path, fld)), path, (name, j))
            elif self.rec_type(e, t):
                self.record(e, st, f, ins, ctx, f'passed to {name}', self.rec_type(e, t), lambda fld, v=v: e.proj(v, ('fld', fld)), None, (name, j))

    def call(self, e, st, f, ins, name, vals, ctx):
        pass

    def on_store(self, e, st, f, ins, path, val, ctx):
        r = root_of(path)
        if r[0] == 'v' and e.islocal(r[1]):
            return
        t = self.rec_type(e, e.path_type(path))
        if t:
            self.record(e, st, f, ins, ctx, 'stored', t, lambda fld: e.proj(val, ('fld', fld)), path, None)
        elif path[0] == 'fld' and self.rec_type(e, e.path_type(path[1])):
            self.field(e, st, f, ins, ctx, self.rec_type(e, e.path_type(path[1])), path, val)
        else:
            self.other(e, st, f, ins, ctx, path, val)

    def other(self, e, st, f, ins, ctx, path, val):
        pass

    def field(self, e, st, f, ins, ctx, T, path, val):
        pass

    def on_ret(self, e, st, f, ins, v, ctx):
        if ctx or v is None:
            return
        t = self.rec_type(e, f.ret)
        if t:
            self.record(e, st, f, ins, ctx, 'returned', t, lambda fld: e.proj(v, ('fld', fld)), None, None)
