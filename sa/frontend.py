"""Front end: clang's type-checked AST (JSON) of every translation unit of /repo -> a small typed CFG IR.

Nothing is executed: clang parses with the project's own flags (-std=c99 -D_POSIX_C_SOURCE=199506L -DSTAGE=2).
Expressions are side-effect free nested tuples; every side effect (assignment, call, ++) is an instruction, and
&&, ||, ?: are lowered to control flow, so that a condition reaches the analyses one atomic test at a time.

Expression forms
  ('c', v)                 integer / char / enum constant          ('f', v)   floating constant
  ('s', text)              string literal                           ('v', id)  variable (global: name, local: fn:name[@k])
  ('fn', name)             function designator                      ('fld', lv, field)
  ('idx', base, i)         element i; base is an array lvalue, or ('d',p) for pointer p
  ('d', p)                 *p                                        ('a', lv)  &lv
  ('u', op, e) ('b', op, a, b)   op in C spelling                    ('cast', type, e)
  ('agg', type, ((field,e),...)) ('arr', type, (e,...), filled)      ('uninit',)
Instructions: Ins(kind,line,...) kinds: 'set' lv,e | 'call' dst,fn,args | 'br' e (succ[0]=true,succ[1]=false) | 'ret' e | 'decl' var | 'nop' | 'switch'
"""
import json, os, subprocess, sys, re, hashlib
from concurrent.futures import ProcessPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang'
for _c in ('/usr/lib/llvm-18/bin/clang', '/usr/bin/clang-18', '/usr/bin/clang'):
    if os.path.exists(_c):
        CLANG = _c
        break
FLAGS = ['-std=c99', '-D_POSIX_C_SOURCE=199506L', '-DSTAGE=2', '-pthread', '-w']


class BrokenAnalysis(Exception):
    """The analysis could not be carried out (vanished anchor, unparsable unit): exit code 2, never a verdict."""


class Ins:
    __slots__ = ('k', 'line', 'file', 'a', 'b', 'c', 'ty', 'succ', 'id')

    def __init__(self, k, line, a=None, b=None, c=None, ty=None):
        self.k, self.line, self.a, self.b, self.c, self.ty = k, line, a, b, c, ty
        self.succ, self.id, self.file = [], -1, None

    def __repr__(self):
        return f'{self.id}@{self.line} {self.k} {show(self.a) if isinstance(self.a, tuple) else self.a} ' \
               f'{show(self.b) if isinstance(self.b, tuple) and self.k!="call" else self.b} {self.c if self.c is None or self.k!="call" else [show(x) for x in self.c]} -> {self.succ}'


class Func:
    def __init__(self, name, file, line, params, ret, static):
        self.name, self.file, self.line, self.params, self.ret, self.static = name, file, line, params, ret, static
        self.ins = []
        self.vars = {}      # local var id -> type
        self.entry = 0
        self.endline = line
        self.variadic = False

    def preds(self):
        p = [[] for _ in self.ins]
        for i in self.ins:
            for s in i.succ:
                p[s].append(i.id)
        return p

    def reachable(self):
        seen, st = set(), [self.entry]
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            st.extend(self.ins[n].succ)
        return seen


def show(e):
    if not isinstance(e, tuple):
        return str(e)
    if not e:
        return '()'
    k = e[0]
    if k in ('c', 'f'):
        return str(e[1])
    if k == 's':
        return json.dumps(e[1])
    if k == 'v':
        return e[1].split(':')[-1]
    if k == 'fn':
        return e[1]
    if k == 'fld':
        if e[1][0] == 'd':
            return show(e[1][1]) + '->' + e[2]
        return show(e[1]) + '.' + e[2]
    if k == 'idx':
        b = e[1][1] if e[1][0] == 'd' else e[1]
        return f'{show(b)}[{show(e[2])}]'
    if k == 'd':
        return '*' + show(e[1])
    if k == 'a':
        return '&' + show(e[1])
    if k == 'u':
        return f'{e[1]}({show(e[2])})'
    if k == 'b':
        return f'({show(e[2])} {e[1]} {show(e[3])})'
    if k == 'cast':
        return f'({e[1]}){show(e[2])}'
    if k == 'agg':
        return '{' + ', '.join(f'.{f}={show(x)}' for f, x in e[2]) + '}'
    if k == 'arr':
        return '{' + ', '.join(show(x) for x in e[2]) + (',...' if e[3] else '') + '}'
    return '(' + ' '.join(show(x) for x in e) + ')'


# ---------------------------------------------------------------------------------------------- AST reading
INT_SIZES = {'char': 1, 'signed char': 1, 'unsigned char': 1, '_Bool': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4,
             'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8}


def int_range(t):
    t = strip_q(t)
    if t in ('_Bool', 'bool'):
        return (0, 1)
    if t not in INT_SIZES:
        return None
    n = 8 * INT_SIZES[t]
    if t.startswith('unsigned'):
        return (0, 2 ** n - 1)
    return (-2 ** (n - 1), 2 ** (n - 1) - 1)


def strip_q(t):
    return re.sub(r'\b(const|volatile|restrict)\b', '', t).strip().replace('  ', ' ')


class Types:
    def __init__(self):
        self.records = {}    # name -> [(field, type)]
        self.typedefs = {}   # name -> type
        self.enums = {}

    def canon(self, t):
        """typedef-resolved type string; records keep their typedef name"""
        t = strip_q(t)
        m = re.match(r'^(.*?)((?:\s*\*)*)((?:\[\d*\])*)$', t)
        if '(' in t:
            return t
        base, st, ar = m.group(1).strip(), m.group(2).replace(' ', ''), m.group(3)
        n = 0
        while base in self.typedefs and base not in self.records and n < 20:
            u = self.typedefs[base]
            if u == base or '(' in u:
                break
            r = self.canon(u)
            if ar == '' and st == '':
                return r
            m2 = re.match(r'^(.*?)((?:\*)*)((?:\[\d*\])*)$', r)
            base, st2, ar2 = m2.group(1).strip(), m2.group(2), m2.group(3)
            if ar2 and st:
                return r + ' ' + st   # pointer to array typedef: not used in this project
            st = st2 + st
            ar = ar + ar2
            n += 1
        if base.startswith('struct ') and base[7:] in self.records:
            base = base[7:]
        if base.startswith('enum '):
            base = 'unsigned int'
        return base + (' ' + st if st else '') + ar

    def elem(self, t):
        """element/pointee type"""
        t = self.canon(t)
        m = re.match(r'^(.*?)\[(\d*)\]((?:\[\d*\])*)$', t)
        if m:
            return m.group(1) + m.group(3)
        if t.endswith('*'):
            return t[:-1].strip()
        m = re.match(r'^(.*)\(\*\)\[(\d+)\](.*)$', t)
        if m:
            return m.group(1).strip() + '[' + m.group(2) + ']' + m.group(3)
        return None

    def arrlen(self, t):
        m = re.match(r'^(.*?)\[(\d+)\]', self.canon(t))
        return int(m.group(2)) if m else None

    def is_ptr(self, t):
        t = self.canon(t)
        return t.endswith('*') or '(*)' in t

    def is_float(self, t):
        return self.canon(t) in ('double', 'float', 'long double')

    def is_record(self, t):
        return self.canon(t) in self.records

    def field_type(self, t, f):
        for n, ft in self.records.get(self.canon(t), ()):
            if n == f:
                return ft
        return None

    def align_size(self, t):
        t = self.canon(t)
        n = self.arrlen(t)
        if n is not None:
            a, s = self.align_size(self.elem(t))
            return a, s * n
        if self.is_ptr(t) or '(' in t:
            return 8, 8
        if t in INT_SIZES:
            return INT_SIZES[t], INT_SIZES[t]
        if t == 'double':
            return 8, 8
        if t == 'float':
            return 4, 4
        if t == 'long double':
            return 16, 16
        if t in self.records:
            off, al = 0, 1
            for _, ft in self.records[t]:
                a, s = self.align_size(ft)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return al, (off + al - 1) // al * al
        raise KeyError(t)


def line_walk(node, st):
    """resolve clang's differential locations: stores 'L' = (file,line) of the expansion begin on every node"""
    def loc(d):
        # returns (file,line) for this location, honouring emission order
        if 'spellingLoc' in d or 'expansionLoc' in d:
            r = None
            if 'spellingLoc' in d:
                loc(d['spellingLoc'])
            if 'expansionLoc' in d:
                r = loc(d['expansionLoc'])
            return r
        if 'file' in d:
            st[0] = d['file']
        if 'line' in d:
            st[1] = d['line']
        if 'offset' not in d:
            return None
        return (st[0], st[1])
    stack = [node]
    # recursive in document order
    def rec(n):
        if isinstance(n, dict):
            L = None
            E = None
            for k, v in n.items():
                if k == 'loc':
                    loc(v)
                elif k == 'range':
                    if 'begin' in v:
                        L = loc(v['begin'])
                    if 'end' in v:
                        E = loc(v['end'])
                elif k == 'inner':
                    for x in v:
                        rec(x)
                elif isinstance(v, dict) and k not in ('type',):
                    rec(v)
            if L:
                n['L'] = L
            if E:
                n['E'] = E
    rec(node)


class Lower:
    def __init__(self, tu_name, ast, prefix):
        self.tu = tu_name
        self.types = Types()
        self.funcs = {}
        self.globals = {}     # name -> dict(type, file, line, static, init(bool))
        self.ginit = {}
        self.enumc = {}
        self.protos = {}
        self.prefix = prefix
        self.vid = {}         # decl id -> var expr
        self.records_by_id = {}
        self.top(ast)

    # ---- declarations
    def top(self, ast):
        for n in ast['inner']:
            k = n['kind']
            if k == 'RecordDecl':
                self.record(n)
            elif k == 'TypedefDecl':
                self.typedef(n)
            elif k == 'EnumDecl':
                self.enum(n)
            elif k == 'VarDecl':
                self.gvar(n)
            elif k == 'FunctionDecl':
                self.func(n)

    def record(self, n, name=None):
        fields = []
        for c in n.get('inner', ()):
            if c['kind'] == 'FieldDecl':
                t = c['type'].get('desugaredQualType') if '(unnamed' in c['type']['qualType'] else c['type']['qualType']
                fields.append((c.get('name', ''), c['type']['qualType']))
            elif c['kind'] == 'RecordDecl':
                self.record(c)
        self.records_by_id[n['id']] = fields
        if n.get('completeDefinition'):
            nm = name or n.get('name')
            if nm:
                self.types.records[nm] = fields

    def typedef(self, n):
        t = n['type']['qualType']
        nm = n['name']
        for c in n.get('inner', ()):
            o = c.get('ownedTagDecl') or (c.get('decl') if c['kind'] == 'RecordType' else None)
            if o is None and c.get('inner'):
                for d in c['inner']:
                    o = o or d.get('ownedTagDecl') or (d.get('decl') if d['kind'] == 'RecordType' else None)
            if o and o.get('id') in self.records_by_id and self.records_by_id[o['id']] and '*' not in t and '[' not in t:
                self.types.records[nm] = self.records_by_id[o['id']]
                if o.get('name') and o['name'] != nm:
                    self.types.typedefs[nm] = 'struct ' + o['name']
                    del self.types.records[nm]
                return
        if nm not in self.types.records:
            self.types.typedefs[nm] = t

    def enum(self, n):
        v = -1
        for c in n.get('inner', ()):
            if c['kind'] == 'EnumConstantDecl':
                v += 1
                for d in c.get('inner', ()):
                    if 'value' in d:
                        v = int(d['value'])
                self.enumc[c['name']] = v

    def gvar(self, n):
        nm = n['name']
        g = dict(type=n['type']['qualType'], line=n.get('L', (None, 0))[1], file=n.get('L', (None, 0))[0], static=n.get('storageClass') == 'static', extern=n.get('storageClass') == 'extern')
        if 'desugaredQualType' in n['type'] and '[' in n['type']['desugaredQualType']:
            g['type'] = n['type']['qualType']
        old = self.globals.get(nm)
        if old is None or (not g['extern']):
            self.globals[nm] = g
        init = [c for c in n.get('inner', ()) if c['kind'] not in ('FullComment',)]
        if init and 'init' in n:
            self.F = Func('<init>', g['file'], g['line'], [], 'void', True)
            self.cur = []
            self.tmpn = 0
            self.names = {}
            try:
                self.ginit[nm] = self.rv(init[0])
            except NotImplementedError:
                self.ginit[nm] = None

    # ---- functions
    def func(self, n):
        nm = n['name']
        params = [c for c in n.get('inner', ()) if c['kind'] == 'ParmVarDecl']
        body = [c for c in n.get('inner', ()) if c['kind'] == 'CompoundStmt']
        ret = n['type']['qualType'].split('(')[0].strip()
        self.protos[nm] = (n['type']['qualType'], [p['type']['qualType'] for p in params])
        if not body:
            return
        L = n.get('L', (None, 0))
        f = Func(nm, L[0], L[1], [], ret, n.get('storageClass') == 'static')
        f.endline = n.get('E', L)[1]
        f.variadic = '...' in n['type']['qualType']
        self.F = f
        self.names = {}
        self.tmpn = 0
        self.cur = None
        self.labels = {}
        self.gotos = []
        self.loops = []
        self.line = L[1]
        for p in params:
            v = self.newvar(p)
            f.params.append(v)
        self.dang = []
        self.ins = f.ins
        self.emit(Ins('nop', L[1]))
        self.stmt(body[0])
        self.emit(Ins('ret', n.get('E', L)[1], None))
        self.dang = []
        for i, lab in self.gotos:
            self.ins[i].succ.append(self.labels[lab])
        self.funcs[nm] = f

    def newvar(self, d):
        nm = d.get('name', 'anon')
        k = self.names.get(nm, 0)
        self.names[nm] = k + 1
        vid = f'{self.F.name}:{nm}' + (f'@{k}' if k else '')
        if d.get('storageClass') == 'static':
            self.globals[vid] = dict(type=d['type']['qualType'], line=d.get('L', (None, 0))[1], file=d.get('L', (None, 0))[0], static=True, extern=False)
        else:
            self.F.vars[vid] = d['type']['qualType']
        self.vid[d['id']] = ('v', vid)
        return vid

    def tmp(self, ty):
        vid = f'{self.F.name}:$t{self.tmpn}'
        self.tmpn += 1
        self.F.vars[vid] = ty
        return ('v', vid)

    def emit(self, ins):
        ins.id = len(self.ins)
        ins.file = self.F.file
        self.ins.append(ins)
        for (i, slot) in self.dang:
            s = self.ins[i].succ
            while len(s) <= slot:
                s.append(None)
            s[slot] = ins.id
        if ins.k == 'ret':
            self.dang = []
        else:
            self.dang = [(ins.id, 0)]
        return ins

    def here(self):
        """force a join point and return its id"""
        return self.emit(Ins('nop', self.line)).id

    # ---- statements
    def stmt(self, n):
        if not n or 'kind' not in n:
            return
        k = n['kind']
        if 'L' in n:
            self.line = n['L'][1]
        inner = n.get('inner', [])
        if k == 'CompoundStmt':
            for c in inner:
                self.stmt(c)
        elif k == 'DeclStmt':
            for d in inner:
                if d['kind'] == 'VarDecl':
                    vid = self.newvar(d)
                    init = [c for c in d.get('inner', ()) if c['kind'] not in ('FullComment',)] if 'init' in d else []
                    if d.get('storageClass') == 'static' or d.get('storageClass') == 'extern':
                        if d.get('storageClass') == 'extern':
                            self.vid[d['id']] = ('v', d['name'])
                        elif init:
                            self.ginit[vid] = self.rv(init[-1])
                        continue
                    self.emit(Ins('decl', self.line, ('v', vid)))
                    if init:
                        e = self.rv(init[-1], dst=('v', vid))
                        if e is not None:
                            self.emit(Ins('set', self.line, ('v', vid), e, ty=d['type']['qualType']))
                elif d['kind'] == 'RecordDecl':
                    self.record(d)
                elif d['kind'] == 'TypedefDecl':
                    self.typedef(d)
                elif d['kind'] == 'EnumDecl':
                    self.enum(d)
        elif k == 'IfStmt':
            parts = list(inner)
            t, f = self.cond(parts[0])
            self.dang = t
            self.stmt(parts[1])
            endt = self.dang
            self.dang = f
            if len(parts) > 2:
                self.stmt(parts[2])
            self.dang = self.dang + endt
        elif k == 'WhileStmt':
            h = self.here()
            t, f = self.cond(inner[0])
            self.loops.append(([], h, []))
            self.dang = t
            self.stmt(inner[-1])
            self.goto(h)
            br, _, co = self.loops.pop()
            self.dang = f + br
        elif k == 'DoStmt':
            h = self.here()
            self.loops.append(([], None, []))
            self.stmt(inner[0])
            br, _, co = self.loops.pop()
            self.dang = self.dang + co
            if self.dang:
                self.here()
                t, f = self.cond(inner[1])
                self.dang = t
                self.goto(h)
                self.dang = f + br
            else:
                self.dang = br
        elif k == 'ForStmt':
            init, _, cond, inc, body = inner
            self.stmt_or_expr(init)
            h = self.here()
            if cond and 'kind' in cond:
                t, f = self.cond(cond)
            else:
                t, f = self.dang, []
            self.loops.append(([], None, []))
            self.dang = t
            self.stmt(body)
            br, _, co = self.loops.pop()
            self.dang = self.dang + co
            if self.dang:
                if inc and 'kind' in inc:
                    self.line = inc.get('L', (0, self.line))[1]
                    self.rv(inc, discard=True)
                self.goto(h)
            self.dang = f + br
        elif k == 'ReturnStmt':
            e = self.rv(inner[0]) if inner else None
            self.emit(Ins('ret', self.line, e, ty=self.F.ret))
        elif k == 'BreakStmt':
            i = self.emit(Ins('nop', self.line))
            self.dang = []
            self.loops[-1][0].append((i.id, 0))
        elif k == 'ContinueStmt':
            i = self.emit(Ins('nop', self.line))
            self.dang = []
            for l in reversed(self.loops):
                if l[1] == 'switch':
                    continue
                if l[1] is not None:
                    i.succ.append(l[1])
                else:
                    l[2].append((i.id, 0))
                break
        elif k == 'SwitchStmt':
            e = self.rv(inner[0])
            sw = self.emit(Ins('switch', self.line, e, []))
            self.dang = []
            cases = []
            self.loops.append(([], 'switch', cases))
            self.stmt(inner[-1])
            br, _, cs = self.loops.pop()
            hasdef = False
            for val, tgt in cs:
                sw.b.append(val)
                sw.succ.append(tgt)
                hasdef = hasdef or val is None
            out = self.dang + br
            if not hasdef:
                sw.b.append(None)
                out = out + [(sw.id, len(sw.b) - 1)]
            self.dang = out
        elif k in ('CaseStmt', 'DefaultStmt'):
            h = self.here()
            cs = [l for l in self.loops if l[1] == 'switch'][-1][2]
            if k == 'CaseStmt':
                v = self.rv(inner[0])
                if v[0] != 'c':
                    raise NotImplementedError('case ' + show(v))
                cs.append((v[1], h))
            else:
                cs.append((None, h))
            self.stmt(inner[-1])
        elif k == 'GotoStmt':
            i = self.emit(Ins('nop', self.line))
            self.dang = []
            self.gotos.append((i.id, n['targetLabelDeclId']))
        elif k == 'LabelStmt':
            self.labels[n['declId']] = self.here()
            self.stmt(inner[0])
        elif k == 'NullStmt':
            pass
        elif k == 'AttributedStmt':
            self.stmt(inner[-1])
        else:
            self.rv(n, discard=True)

    def stmt_or_expr(self, n):
        if n and 'kind' in n:
            self.stmt(n)

    def goto(self, target):
        for (i, slot) in self.dang:
            s = self.ins[i].succ
            while len(s) <= slot:
                s.append(None)
            s[slot] = target
        self.dang = []

    # ---- conditions: returns (true-dangling, false-dangling)
    def cond(self, n):
        n = self.unparen(n)
        k = n['kind']
        if k == 'UnaryOperator' and n['opcode'] == '!':
            t, f = self.cond(n['inner'][0])
            return f, t
        if k == 'BinaryOperator' and n['opcode'] in ('&&', '||'):
            t, f = self.cond(n['inner'][0])
            if n['opcode'] == '&&':
                self.dang = t
                t2, f2 = self.cond(n['inner'][1])
                return t2, f + f2
            self.dang = f
            t2, f2 = self.cond(n['inner'][1])
            return t + t2, f2
        if k == 'ImplicitCastExpr' and n.get('castKind') in ('IntegralToBoolean', 'PointerToBoolean', 'LValueToRValue', 'NoOp', 'IntegralCast') and self.unparen(n['inner'][0])['kind'] in ('BinaryOperator', 'UnaryOperator') \
                and self.unparen(n['inner'][0]).get('opcode') in ('&&', '||', '!', '==', '!=', '<', '>', '<=', '>='):
            return self.cond(n['inner'][0])
        e = self.rv(n)
        if e[0] == 'c':
            return (self.dang, []) if e[1] else ([], self.dang)
        i = self.emit(Ins('br', self.line, e))
        self.dang = []
        i.succ = [None, None]
        return [(i.id, 0)], [(i.id, 1)]

    def unparen(self, n):
        while n['kind'] in ('ParenExpr', 'ConstantExpr', 'FullExpr'):
            n = n['inner'][0]
        return n

    # ---- expressions
    def lv(self, n):
        n = self.unparen(n)
        k = n['kind']
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['kind'] == 'FunctionDecl':
                return ('fn', d['name'])
            if d['id'] in self.vid:
                return self.vid[d['id']]
            return ('v', d['name'])
        if k == 'MemberExpr':
            if n.get('isArrow'):
                p = self.rv(n['inner'][0])
                return ('fld', deref(p), n['name'])
            return ('fld', self.lv(n['inner'][0]), n['name'])
        if k == 'ArraySubscriptExpr':
            a, b = n['inner']
            ta = a['type']['qualType']
            if not (('*' in ta) or ('[' in ta)) and a['type'].get('desugaredQualType', '').find('*') < 0:
                a, b = b, a
            p = self.rv(a)
            i = self.rv(b)
            return index(p, i)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            return deref(self.rv(n['inner'][0]))
        if k == 'UnaryOperator' and n['opcode'] == '__extension__':
            return self.lv(n['inner'][0])
        if k in ('CompoundLiteralExpr',):
            t = self.tmp(n['type']['qualType'])
            e = self.rv(n['inner'][0])
            self.emit(Ins('set', self.line, t, e, ty=n['type']['qualType']))
            return t
        if k == 'StringLiteral':
            return ('strlv', self.strval(n))
        if k == 'PredefinedExpr':
            return ('strlv', 'fn')
        if k in ('ImplicitCastExpr', 'CStyleCastExpr') and n.get('castKind') in ('NoOp', 'LValueBitCast'):
            return self.lv(n['inner'][0])
        # rvalue used as lvalue (f().x)
        e = self.rv(n)
        if e[0] == 'v':
            return e
        t = self.tmp(n['type']['qualType'])
        self.emit(Ins('set', self.line, t, e, ty=n['type']['qualType']))
        return t

    def strval(self, n):
        v = n['value']
        try:
            return json.loads(v)
        except Exception:
            s = v[1:-1]
            return s.encode().decode('unicode_escape', 'replace')

    def rv(self, n, dst=None, discard=False):
        n = self.unparen(n)
        k = n['kind']
        if 'L' in n and n['L'][0] == self.F.file:
            self.line = n['L'][1]
        inner = n.get('inner', [])
        if k == 'IntegerLiteral':
            return ('c', int(n['value']))
        if k == 'CharacterLiteral':
            return ('c', int(n['value']))
        if k == 'FloatingLiteral':
            return ('f', float(n['value']))
        if k == 'StringLiteral':
            return ('a', ('strlv', self.strval(n)))
        if k == 'PredefinedExpr':
            return ('a', ('strlv', 'fn'))
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['kind'] == 'EnumConstantDecl':
                return ('c', self.enumc[d['name']])
            return self.lv(n)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            ck = n.get('castKind')
            if ck == 'LValueToRValue':
                return self.lv(inner[0])
            if ck in ('ArrayToPointerDecay',):
                l = self.lv(inner[0])
                if l[0] == 'strlv':
                    return ('a', l)
                return ('a', ('idx', l, ('c', 0)))
            if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'NoOp'):
                return self.rv(inner[0])
            if ck == 'NullToPointer':
                return ('c', 0)
            if ck == 'ToVoid':
                self.rv(inner[0], discard=True)
                return ('c', 0)
            e = self.rv(inner[0])
            if ck == 'BitCast':
                return e
            if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
                if e[0] == 'c':
                    return ('c', int(e[1] != 0))
                return boolean(e)
            ty = n['type'].get('desugaredQualType', n['type']['qualType'])
            if ck == 'IntegralToFloating' and e[0] == 'c':
                return ('f', float(e[1]))
            if ck == 'IntegralCast' and e[0] == 'c':
                r = int_range(ty)
                if r and r[0] <= e[1] <= r[1]:
                    return e
            if ck in ('IntegralToPointer', 'PointerToIntegral'):
                return e
            return ('cast', ty, e)
        if k == 'MemberExpr' or k == 'ArraySubscriptExpr':
            return self.lv(n)
        if k == 'UnaryOperator':
            op = n['opcode']
            if op in ('++', '--'):
                l = self.lv(inner[0])
                ty = n['type'].get('desugaredQualType', n['type']['qualType'])
                old = None
                if n.get('isPostfix') and not discard:
                    old = self.tmp(ty)
                    self.emit(Ins('set', self.line, old, l, ty=ty))
                self.emit(Ins('set', self.line, l, ('b', '+' if op == '++' else '-', l, ('c', 1)), ty=ty))
                return old if old else l
            if op == '&':
                l = self.lv(inner[0])
                if l[0] == 'fn':
                    return l
                if l[0] == 'd':
                    return l[1]
                return ('a', l)
            if op == '*':
                return self.lv(n)
            if op == '__extension__' or op == '+':
                return self.rv(inner[0])
            if op == '!':
                return self.boolval(n)
            e = self.rv(inner[0])
            if e[0] == 'c' and op == '-':
                return ('c', -e[1])
            if e[0] == 'f' and op == '-':
                return ('f', -e[1])
            return ('u', op, e)
        if k == 'BinaryOperator':
            op = n['opcode']
            if op == '=':
                l = self.lv(inner[0])
                self.last_rhs_node = inner[1]
                e = self.rv(inner[1], dst=None)
                self.emit(Ins('set', self.line, l, e, ty=n['type'].get('desugaredQualType', n['type']['qualType'])))
                return l
            if op == ',':
                self.rv(inner[0], discard=True)
                return self.rv(inner[1], discard=discard)
            if op in ('&&', '||'):
                return self.boolval(n)
            a = self.rv(inner[0])
            # keep evaluation order when the right operand has side effects on what a reads
            if self.has_effect(inner[1]) and a[0] not in ('c', 'f') and not (a[0] == 'v' and '$t' in a[1]):
                t = self.tmp(inner[0]['type'].get('desugaredQualType', inner[0]['type']['qualType']))
                self.emit(Ins('set', self.line, t, a, ty=inner[0]['type']['qualType']))
                a = t
            b = self.rv(inner[1])
            return self.fold(op, a, b)
        if k == 'CompoundAssignOperator':
            op = n['opcode'][:-1]
            l = self.lv(inner[0])
            e = self.rv(inner[1])
            self.emit(Ins('set', self.line, l, ('b', op, l, e), ty=n['type'].get('desugaredQualType', n['type']['qualType'])))
            return l
        if k == 'CallExpr':
            callee = self.rv(inner[0])
            args = []
            nodes = inner[1:]
            for j, a in enumerate(nodes):
                e = self.rv(a)
                if any(self.has_effect(x) for x in nodes[j + 1:]) and not self.stable(e):
                    t = self.tmp(a['type'].get('desugaredQualType', a['type']['qualType']))
                    self.emit(Ins('set', self.line, t, e, ty=a['type']['qualType']))
                    e = t
                args.append(e)
            if 'L' in n and n['L'][0] == self.F.file:
                self.line = n['L'][1]
            ty = n['type'].get('desugaredQualType', n['type']['qualType'])
            t = None if (n['type']['qualType'] == 'void') else self.tmp(n['type']['qualType'])
            self.emit(Ins('call', self.line, t, callee[1] if callee[0] == 'fn' else callee, args, ty=ty))
            return t if t else ('c', 0)
        if k == 'ConditionalOperator':
            tc, fc = self.cond(inner[0])
            t = self.tmp(n['type'].get('qualType'))
            ends = []
            for d, x in ((tc, inner[1]), (fc, inner[2])):
                self.dang = d
                if not d:
                    continue
                self.here()
                e = self.rv(x)
                self.emit(Ins('set', self.line, t, e, ty=n['type']['qualType']))
                ends += self.dang
            self.dang = ends
            return t
        if k == 'CompoundLiteralExpr':
            return self.rv(inner[0])
        if k == 'InitListExpr':
            t = n['type']['qualType']
            c = self.types.canon(t)
            if c in self.types.records:
                fl = []
                xs = list(inner)
                for (f, ft), x in zip(self.types.records[c], xs):
                    fl.append((f, self.rv(x)))
                for f, ft in self.types.records[c][len(xs):]:
                    fl.append((f, ('zero', ft)))
                return ('agg', c, tuple(fl))
            if '[' in c:
                if 'array_filler' in n:
                    items = [x for x in n['array_filler'] if x.get('kind') != 'ImplicitValueInitExpr']
                    return ('arr', c, tuple(self.rv(x) for x in items), True)
                return ('arr', c, tuple(self.rv(x) for x in inner), False)
            if inner:
                return self.rv(inner[0])
            return ('zero', t)
        if k == 'ImplicitValueInitExpr':
            return ('zero', n['type']['qualType'])
        if k == 'UnaryExprOrTypeTraitExpr':
            if n['name'] == 'sizeof':
                t = n.get('argType', {}).get('qualType') or n['inner'][0]['type']['qualType']
                try:
                    return ('c', self.types.align_size(t)[1])
                except KeyError:
                    return ('sizeof', t)
            return ('sizeof', '?')
        if k == 'StmtExpr':
            body = inner[0]['inner']
            for s in body[:-1]:
                self.stmt(s)
            return self.rv(body[-1])
        if k == 'VAArgExpr':
            t = self.tmp(n['type']['qualType'])
            self.emit(Ins('call', self.line, t, '__va_arg', [], ty=n['type']['qualType']))
            return t
        if k == 'RecoveryExpr':
            raise NotImplementedError(k)
        raise NotImplementedError(f'{self.tu}:{self.line}: {k}')

    def stable(self, e):
        if e[0] in ('c', 'f', 'fn', 's'):
            return True
        if e[0] == 'a' and e[1][0] in ('v', 'strlv'):
            return True
        if e[0] == 'v' and '$t' in e[1]:
            return True
        if e[0] == 'a' and e[1][0] == 'idx' and e[1][1][0] == 'v' and e[1][2][0] == 'c':
            return True
        return False

    def has_effect(self, n):
        st = [n]
        while st:
            x = st.pop()
            if not isinstance(x, dict):
                continue
            kk = x.get('kind')
            if kk in ('CallExpr', 'CompoundAssignOperator', 'StmtExpr') or (kk == 'BinaryOperator' and x.get('opcode') == '=') or \
                    (kk == 'UnaryOperator' and x.get('opcode') in ('++', '--')):
                return True
            st.extend(x.get('inner', ()))
        return False

    def boolval(self, n):
        t, f = self.cond(n)
        r = self.tmp('bool')
        ends = []
        for d, v in ((t, 1), (f, 0)):
            self.dang = d
            if not d:
                continue
            self.here()
            self.emit(Ins('set', self.line, r, ('c', v), ty='bool'))
            ends += self.dang
        self.dang = ends
        return r

    def fold(self, op, a, b):
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            try:
                v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: int(x / y), '%': lambda: x - y * int(x / y),
                     '<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                     '==': lambda: int(x == y), '!=': lambda: int(x != y), '<': lambda: int(x < y), '>': lambda: int(x > y),
                     '<=': lambda: int(x <= y), '>=': lambda: int(x >= y)}[op]()
                return ('c', v)
            except Exception:
                pass
        if a[0] == 'f' and b[0] == 'f':
            x, y = a[1], b[1]
            try:
                if op in '+-*/':
                    return ('f', {'+': x + y, '-': x - y, '*': x * y, '/': x / y if y else None}[op])
                return ('c', {'==': int(x == y), '!=': int(x != y), '<': int(x < y), '>': int(x > y), '<=': int(x <= y), '>=': int(x >= y)}[op])
            except Exception:
                pass
        return ('b', op, a, b)


def deref(p):
    if p[0] == 'a':
        return p[1]
    if p[0] == 'b' and p[1] == '+' and p[2][0] == 'a' and p[2][1][0] == 'idx':
        base, i = p[2][1][1], p[2][1][2]
        return ('idx', base, p[3] if i == ('c', 0) else ('b', '+', i, p[3]))
    return ('d', p)


def index(p, i):
    if p[0] == 'a' and p[1][0] == 'idx' and p[1][2] == ('c', 0):
        return ('idx', p[1][1], i)
    if p[0] == 'a' and p[1][0] == 'strlv':
        return ('idx', p[1], i)
    return ('idx', ('d', p), i)


def boolean(e):
    if e[0] == 'b' and e[1] in ('==', '!=', '<', '>', '<=', '>='):
        return e
    return ('b', '!=', e, ('c', 0))


# ---------------------------------------------------------------------------------------------- driver
def parse_unit(args):
    path, repo, extra = args
    sys.setrecursionlimit(20000)
    p = subprocess.run([CLANG, '-Xclang', '-ast-dump=json', '-fsyntax-only'] + FLAGS + extra + [path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        return path, None, p.stderr.decode()[:2000]
    ast = json.loads(p.stdout)
    line_walk(ast, [path, 0])
    try:
        low = Lower(path, ast, repo)
    except NotImplementedError as ex:
        return path, None, 'unsupported construct: ' + str(ex)
    for f in low.funcs.values():
        prune(f)
    return path, low_result(low), ''


def low_result(l):
    return dict(funcs=l.funcs, globals=l.globals, ginit=l.ginit, records=l.types.records, typedefs=l.types.typedefs, enums=l.enumc, protos=l.protos)


def prune(f):
    """drop unreachable nodes and empty nops; renumber"""
    for i in f.ins:
        if i.k == 'switch' or i.k == 'br' or True:
            i.succ = [s for s in i.succ if s is not None] if i.k not in ('br',) else i.succ
    def skip(n, seen=()):
        path = set()
        while f.ins[n].k == 'nop' and len(f.ins[n].succ) == 1 and n not in path:
            path.add(n)
            n = f.ins[n].succ[0]
        return n
    for i in f.ins:
        i.succ = [skip(s) if s is not None else None for s in i.succ]
    f.entry = 0
    seen, order, st = set(), [], [0]
    while st:
        n = st.pop()
        if n in seen or n is None:
            continue
        seen.add(n)
        order.append(n)
        st.extend(x for x in reversed(f.ins[n].succ))
    order.sort()
    m = {n: k for k, n in enumerate(order)}
    new = []
    for n in order:
        i = f.ins[n]
        i.id = m[n]
        i.succ = [m[s] for s in i.succ if s is not None]
        new.append(i)
    f.ins = new


class Program:
    def __init__(self):
        self.funcs, self.globals, self.ginit = {}, {}, {}
        self.types = Types()
        self.protos = {}
        self.units = []
        self.dups = []
        self.dropped = {}    # functions of system headers and of the test directories: not analysed

    def rel(self, p):
        return os.path.relpath(p, REPO) if p and os.path.isabs(p) and p.startswith(REPO) else (p or '?')

    def loc(self, f, ins):
        file, name = f.file, f.name
        if isinstance(getattr(ins, 'file', None), tuple):
            file, name = ins.file
        return f'{self.rel(file)}:{ins.line if hasattr(ins, "line") else ins} ({name})'

    def fn(self, name):
        f = self.funcs.get(name)
        if f is None:
            raise BrokenAnalysis(f'anchor function {name} not found in the current tree')
        return f

    def callers(self):
        if not hasattr(self, '_callers'):
            c = {}
            for f in self.funcs.values():
                for i in f.ins:
                    if i.k == 'call' and isinstance(i.b, str):
                        c.setdefault(i.b, []).append((f, i))
            self._callers = c
        return self._callers

    def fnptr_refs(self):
        """functions whose address is taken (callbacks, thread entry points)"""
        r = {}
        def walk(e, f, i):
            if isinstance(e, tuple):
                if len(e) == 2 and e[0] == 'fn':
                    r.setdefault(e[1], []).append((f, i))
                for x in e:
                    walk(x, f, i)
            elif isinstance(e, list):
                for x in e:
                    walk(x, f, i)
        for f in self.funcs.values():
            for i in f.ins:
                walk(i.a, f, i)
                walk(i.b, f, i)
                walk(i.c, f, i)
        return r

    def callees(self, name):
        return sorted({i.b for i in self.funcs[name].ins if i.k == 'call' and isinstance(i.b, str)})

    def reach(self, roots, include_fnptr=True):
        seen, st = set(), list(roots)
        refs = {}
        if include_fnptr:
            for g, uses in self.fnptr_refs().items():
                for (f, i) in uses:
                    refs.setdefault(f.name, set()).add(g)
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            if n in self.funcs:
                st.extend(self.callees(n))
                st.extend(refs.get(n, ()))
        return seen


def in_scope(file, repo):
    if not file or not file.startswith(repo + os.sep):
        return os.path.basename(file or '') == 'RuleTable.c'
    return not any(x in file for x in ('/unit_tests/', '/system_tests/'))


def rename(i, ren):
    def w(e):
        if isinstance(e, tuple):
            if len(e) == 2 and e[0] == 'fn' and e[1] in ren:
                return ('fn', ren[e[1]])
            return tuple(w(x) for x in e)
        if isinstance(e, list):
            return [w(x) for x in e]
        return e
    if i.k == 'call' and isinstance(i.b, str) and i.b in ren:
        i.b = ren[i.b]
    i.a, i.c = w(i.a), w(i.c)
    if not isinstance(i.b, str):
        i.b = w(i.b)


def sources(repo):
    out = []
    for d in ('src', 'src/NetworkNAR'):
        dd = os.path.join(repo, d)
        for f in sorted(os.listdir(dd)):
            if f.endswith('.c') and f != 'RuleTable.c':
                out.append(os.path.join(dd, f))
    return out


def load(repo=None, extra_units=(), jobs=8, flags=()):
    repo = repo or REPO
    units = sources(repo) + list(extra_units)
    prog = Program()
    with ProcessPoolExecutor(max_workers=min(jobs, len(units))) as ex:
        res = list(ex.map(parse_unit, [(u, repo, list(flags)) for u in units]))
    for path, r, err in res:
        if r is None:
            raise BrokenAnalysis(f'clang could not analyse {path}: {err}')
        prog.units.append(path)
        prog.types.records.update(r['records'])
        prog.types.typedefs.update(r['typedefs'])
        prog.types.enums.update(r['enums'])
        prog.protos.update(r['protos'])
        stat = {n for n, g in r['globals'].items() if g['static']}
        drop = [n for n, f in r['funcs'].items() if not in_scope(f.file, repo)]
        for n in drop:
            prog.dropped[n] = r['funcs'].pop(n).file
        ren = {n: n + '@' + os.path.basename(path)[:-2] for n, f in r['funcs'].items() if n in prog.funcs and prog.funcs[n].file != f.file}
        for n, f in r['funcs'].items():
            if ren:
                for i in f.ins:
                    rename(i, ren)
            if n in ren:
                prog.dups.append(n)
                f.name = ren[n]
            prog.funcs[f.name] = f
        for n, g in r['globals'].items():
            if g['file'] and not g['file'].startswith(repo):
                continue
            o = prog.globals.get(n)
            if o is None or (o['extern'] and not g['extern']):
                prog.globals[n] = g
        for n, v in r['ginit'].items():
            prog.ginit[n] = v
    return prog


if __name__ == '__main__':
    import time
    t = time.time()
    p = load()
    print(len(p.funcs), 'functions', sum(len(f.ins) for f in p.funcs.values()), 'instructions', len(p.globals), 'globals', round(time.time() - t, 2), 's', 'dups', p.dups)
    for a in sys.argv[1:]:
        f = p.funcs[a]
        print(a, f.params, f.ret, f.file, f.line, f.endline)
        for i in f.ins:
            print('  ', i)
