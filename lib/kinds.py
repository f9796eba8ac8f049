"""Partial evaluation of the library per kind of value.  A function is evaluated with one subject (a node, field descriptor or sort
key) of a known kind: loads of the subject's kind fold to a constant, so switches, masks, handler tables and calls through them
resolve, and every access through the subject's data pointer on the remaining code is one that happens to a value of that kind."""
import re
import scope
from ir import T, gep_parts, leaves
from p_state import kind as kindname

TOP = ('top',)
INTS = {'INT8': (1, 1), 'UINT8': (1, 0), 'INT16': (2, 1), 'UINT16': (2, 0), 'INT32': (4, 1), 'UINT32': (4, 0), 'INT64': (8, 1), 'UINT64': (8, 0),
        'INT128': (16, 1), 'UINT128': (16, 0)}
FLOATS = {'FLOAT': ('float', 4), 'DOUBLE': ('double', 8), 'LONG_DOUBLE': ('x86_fp80', 16)}
COMPLEX = {'COMPLEX_FLOAT': ('float', 4), 'COMPLEX_DOUBLE': ('double', 8), 'COMPLEX_LONG_DOUBLE': ('x86_fp80', 16)}
PTRS = ('STRING', 'POINTER', 'FUNC', 'FUNC_TYPE')
SIZES = {'CHAR': 1, 'BOOL': 1}
SIZES.update({k: v[0] for k, v in INTS.items()})
SIZES.update({k: v[1] for k, v in FLOATS.items()})
SIZES.update({k: 2 * v[1] for k, v in COMPLEX.items()})
SIZES.update({k: 8 for k in PTRS})
SIG = {'LONG_DOUBLE': 10}
FAMILIES = (('INT8', 'INT16', 'INT32', 'INT64'), ('UINT8', 'UINT16', 'UINT32', 'UINT64'), ('FLOAT', 'DOUBLE', 'LONG_DOUBLE'),
            ('COMPLEX_FLOAT', 'COMPLEX_DOUBLE', 'COMPLEX_LONG_DOUBLE'), ('INT128', 'UINT128'))
PTRDES, FD, TD, STYPE, ENUMP = 'mr_ptrdes_t', 'mr_fd_t', 'mr_td_t', 'mr_stype_t', 'mr_enum_param_t'
NODE = 56


def bits(ty):
    m = re.match(r'i(\d+)$', ty or '')
    return int(m.group(1)) if m else 0


def signed(v, b):
    v &= (1 << b) - 1
    return v - (1 << b) if b and v >> (b - 1) else v


class Kinds:
    """one program view; run() evaluates a function for a subject"""

    def __init__(self, p):
        self.p = p
        d = p.ditypes
        off = lambda t, m: [x[1] for x in d[t]['m'] if x[0] == m][0]
        self.o_type, self.o_aux, self.o_fdp = off(PTRDES, 'mr_type'), off(PTRDES, 'mr_type_aux'), off(PTRDES, 'fdp')
        self.o_data = [k for k, v in p.anon.items() if v == 'data'][0]
        self.node = d[PTRDES]['size']
        st = off(FD, 'stype')
        self.st = st
        self.f_tdp, self.f_type, self.f_aux, self.f_size = (st + off(STYPE, x) for x in ('tdp', 'mr_type', 'mr_type_aux', 'size'))
        pa = off(TD, 'param')
        self.t_type = off(TD, 'mr_type')
        self.t_eff, self.t_sz = pa + off(ENUMP, 'mr_type_effective'), pa + off(ENUMP, 'size_effective')
        self.o_fmt = off('mr_conf_t', 'output_format')
        self.val = {k[8:]: int(v) for k, v in p.enumval.items() if k.startswith('MR_TYPE_') and k != 'MR_TYPE_LAST' and not k.endswith('_CLASS')}
        self.name = {v: k for k, v in self.val.items()}
        self.written = set()
        for f in p.defined.values():
            for i in f.instrs():
                if i.op == 'store':
                    b, _ = gep_parts(f, i.args[1])
                    if b[0] == 'g':
                        self.written.add(b[1])
        self.memo = {}
        self.handlers = None
        self.entered = set()        # (root, function): evaluated with the subject of a root
        self.busy = set()
        self.read = set()           # functions in which a subject's value was read or written

    # ---- subjects ------------------------------------------------------
    def kinds(self):
        """(kind, kind behind it) of every subject"""
        out = []
        for k in self.val:
            if k in ('ENUM', 'BITFIELD'):
                out += [(k, a) for a in INTS]
                if k == 'BITFIELD':
                    out.append((k, 'BOOL'))
            elif k in ('POINTER', 'ARRAY'):
                out += [(k, a) for a in self.val if a not in ('END_ANON_UNION', 'LAST', 'BITFIELD', 'ENUM', 'ARRAY')]
            elif k not in ('END_ANON_UNION', 'LAST'):
                out.append((k, None))
        return out

    def only(self, n):
        """kinds a function is the handler of, when handler tables are the only way to it"""
        if self.handlers is None:
            self.handlers = {}
            direct = {f.callee(i) for f in self.p.defined.values() for i in f.calls()}
            for g, d in self.p.globals.items():
                es = [(o // 8, e[1][1]) for o, e in self.p.ginit(g).items() if e[1][0] == 'F'] if 'init' in d else []
                if len(es) < 5 or d['size'] != 8 * (max(self.val.values()) + 1):
                    continue
                for k, fn in es:
                    if fn not in direct and k in self.name:
                        self.handlers.setdefault(fn, set()).add(self.name[k])
        return self.handlers.get(n)

    def run(self, fn, bind, kd):
        """bind: {ssa value: abstract value}; returns (abstract result, events)"""
        key = (fn, tuple(sorted(bind.items(), key=str)), kd)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy or len(self.busy) > 60:
            return TOP, ()
        self.busy.add(key)
        try:
            r = Run(self, self.p.defined[fn], bind, kd).go()
        finally:
            self.busy.discard(key)
        self.memo[key] = r
        return r


class Run:
    def __init__(self, K, f, bind, kd):
        self.K, self.f, self.kd = K, f, kd
        self.p = K.p
        self.bind = bind
        self.env = dict(bind)
        self.cells = {}              # (alloca, off) -> value
        self.node = {}               # alloca -> 'copy' of the subject's node / 'new'
        self.bval = set()            # allocas that hold the subject's integer value in full width
        self.idx = {v for v, a in bind.items() if a == ('IDX',)}
        self.edges = set()
        self.ev = []

    # ---- lattice --------------------------------------------------------
    def join(self, a, b):
        if a is None:
            return b
        if b is None or a == b:
            return a
        if a[0] == 'D' and b[0] == 'D' and a[1] == b[1]:
            return ('D', a[1], None)
        return TOP

    def v(self, o):
        if o in self.env:
            return self.env[o]
        k = o[0]
        if k == 'c':
            return ('n', int(o[1]))
        if k == 'n':
            return ('n', 0)
        if k == 'F':
            return o
        if k == 'g':
            return ('g', o[1], 0)
        if k == 'e':
            if o[1] == 'getelementptr':
                b = self.v(o[2][0])
                return (b[0], b[1], b[2] + o[4]) if b and b[0] == 'g' and len(o) > 4 and b[2] is not None else TOP
            if o[1] in ('bitcast', 'ptrtoint', 'inttoptr'):
                return self.v(o[2][0])
            return TOP
        if k == 'i':
            return None
        return TOP

    # ---- driver ---------------------------------------------------------
    def go(self):
        f = self.f
        entry = [('enter', f.name, tuple(sorted(k[1] for k, a in self.bind.items() if k[0] == 'a' and a[0] in ('N', 'D', 'FD', 'IDX', 'O', 'n'))))]
        while True:
            before = (dict(self.env), dict(self.cells), dict(self.node), set(self.bval), set(self.idx), set(self.edges))
            self.ev = list(entry)
            self.ret = None
            seen = {0}
            work = [0]
            while work:
                b = work.pop(0)
                for i in f.blocks[b]:
                    self.step(i)
                for s in self.outs(f.blocks[b][-1]):
                    self.edges.add((b, s))
                    if s not in seen:
                        seen.add(s)
                        work.append(s)
            if before == (self.env, self.cells, self.node, self.bval, self.idx, self.edges):
                break
        self.seen = seen
        return (self.ret if self.ret is not None else TOP), tuple(dict.fromkeys(self.ev))

    def outs(self, t):
        if t.op == 'br' and len(t.raw['s']) == 2:
            c = self.v(t.args[0])
            if c and c[0] == 'n':
                self.ev.append(('br', self.f.name, t.id, c[1] & 1, self.ismask(t.args[0])))
                return [t.raw['s'][0 if c[1] & 1 else 1]]
            return t.raw['s'] if c is not None else []
        if t.op == 'switch':
            c = self.v(t.args[0])
            if c and c[0] == 'n':
                for val, s in t.raw['cases']:
                    if int(val) == c[1]:
                        self.ev.append(('switch', self.f.name, t.id, 1))
                        return [s]
                self.ev.append(('switch', self.f.name, t.id, 0))
                return [t.raw['s'][0]]
            return self.f.succs[t.blk] if c is not None else []
        return self.f.succs[t.blk]

    def ismask(self, o, depth=0):
        """the condition tests membership of the kind in a constant set"""
        if o[0] != 'i' or depth > 6:
            return False
        i = self.f.ins[o[1]]
        if i.op in ('lshr', 'ashr') and i.args[0][0] == 'c':
            return True
        if i.op in ('icmp', 'and', 'trunc', 'zext', 'sext', 'xor'):
            return any(self.ismask(a, depth + 1) for a in i.args if isinstance(a, tuple))
        return False

    def set(self, i, val):
        if i.v in self.bind:
            return
        if i.v in self.idx:
            val = ('IDX',)
        old = self.env.get(i.v)
        self.env[i.v] = self.join(old, val) if i.op != 'phi' else val if val is not None else old

    # ---- transfer -------------------------------------------------------
    def step(self, i):
        op = i.op
        if i.v in self.bind:
            return
        if op == 'phi':
            val = None
            for o, b in i.args:
                if (b, i.blk) in self.edges:
                    val = self.join(val, self.v(o))
            old = self.env.get(i.v)
            if i.v in self.idx:
                val = ('IDX',)
            self.env[i.v] = self.join(old, val)
            if self.env[i.v] is None:
                del self.env[i.v]
            return
        if op == 'alloca':
            return self.set(i, ('A', i.id, 0))
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            a = self.v(i.args[0])
            if a is None:
                return
            if a[0] == 'n':
                fb, tb = bits(i.raw.get('ft')), bits(i.ty)
                if op == 'sext' and fb:
                    a = ('n', signed(a[1], fb))
                elif op == 'zext' and fb:
                    a = ('n', a[1] & ((1 << fb) - 1))
                elif op == 'trunc' and tb:
                    a = ('n', a[1] & ((1 << tb) - 1))
                return self.set(i, a)
            if a[0] == 'L':
                return self.set(i, a)
            return self.set(i, a)
        if op == 'getelementptr':
            return self.set(i, self.gep(i))
        if op == 'load':
            return self.set(i, self.load(i))
        if op == 'store':
            return self.store(i)
        if op in ('icmp',):
            return self.set(i, self.icmp(i))
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = self.v(i.args[0]), self.v(i.args[1])
            if a is None or b is None:
                return
            return self.set(i, self.arith(op, a, b, bits(i.ty)))
        if op == 'select':
            c = self.v(i.args[0])
            if c is None:
                return
            if c[0] == 'n':
                return self.set(i, self.v(i.args[1 if c[1] & 1 else 2]) or TOP)
            a, b = self.v(i.args[1]), self.v(i.args[2])
            return self.set(i, self.join(a, b) if a is not None and b is not None else TOP)
        if op in ('call', 'invoke'):
            return self.call(i)
        if op == 'ret':
            if i.args:
                self.ret = self.join(self.ret, self.v(i.args[0]) or TOP)
            return
        if i.ty != 'void':
            self.set(i, TOP)

    def arith(self, op, a, b, w):
        if a[0] == 'n' and b[0] == 'n' and w:
            x, y = a[1] & ((1 << w) - 1), b[1] & ((1 << w) - 1)
            try:
                r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                     'shl': lambda: x << y if y < w else 0, 'lshr': lambda: x >> y if y < w else 0, 'ashr': lambda: signed(x, w) >> min(y, w - 1),
                     'udiv': lambda: x // y, 'urem': lambda: x % y, 'sdiv': lambda: int(signed(x, w) / signed(y, w)),
                     'srem': lambda: x - int(signed(x, w) / signed(y, w)) * y}[op]()
            except ZeroDivisionError:
                return TOP
            return ('n', r & ((1 << w) - 1))
        if op == 'and' and ('n', 0) in (a, b):
            return ('n', 0)
        return TOP

    def icmp(self, i):
        a, b = self.v(i.args[0]), self.v(i.args[1])
        if a is None or b is None:
            return None
        pr = i.raw['p']
        w = bits(i.raw.get('ot'))
        if a[0] == 'n' and b[0] == 'n':
            w = w or 64
            x, y = a[1] & ((1 << w) - 1), b[1] & ((1 << w) - 1)
            if pr[0] == 's':
                x, y = signed(x, w), signed(y, w)
            r = {'eq': x == y, 'ne': x != y}.get(pr)
            if r is None:
                r = {'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[pr[1:]]
            return ('n', int(r))
        for x, y in ((a, b), (b, a)):
            if y == ('n', 0) and x[0] in ('F', 'A', 'g', 'O', 'N', 'FD') and pr in ('eq', 'ne'):
                return ('n', int(pr == 'ne'))
            if y == ('n', 0) and x[0] == 'TD' and pr in ('eq', 'ne') and self.kd[0] == 'ENUM':
                return ('n', int(pr == 'ne'))      # values of this kind have a type descriptor
        return TOP

    def gep(self, i):
        b = self.v(i.args[0])
        if b is None:
            return None
        if b[0] not in ('N', 'FD', 'TD', 'D', 'A', 'O', 'g', 'RB', 'ON'):
            return TOP
        off = 0
        idx = None
        for s in i.raw['g']:
            s = T(s)
            if s[0] == 'f':
                off += s[3]
            else:
                c = self.v(s[1])
                if c is None:
                    return None
                if c[0] == 'n':
                    w = 64
                    off += signed(c[1], w) * s[2] if c[1] >= 0 else c[1] * s[2]
                elif c == ('IDX',) and b[0] == 'RB' and s[2] == self.K.node:
                    b = ('N', 0)
                elif b[0] == 'RB' and s[2] == self.K.node and idx is None:
                    idx = s[1]
                elif b[0] == 'D':
                    b = ('D', b[1], None)
                else:
                    return TOP
        if b[0] == 'RB':
            return ('ON', self.root(idx), off) if idx is not None else TOP
        if b[0] == 'ON':
            return ('ON', b[1], b[2] + off)
        if b[0] == 'D':
            return ('D', b[1], None if b[2] is None else b[2] + off)
        if b[0] in ('N', 'FD', 'TD'):
            return (b[0], b[1] + off)
        return (b[0], b[1], None if b[2] is None else b[2] + off)

    def root(self, o):
        while o[0] == 'i' and self.f.ins[o[1]].op in ('zext', 'sext', 'trunc', 'freeze'):
            o = self.f.ins[o[1]].args[0]
        return o

    def subject(self, off):
        """value of the node's field at this offset"""
        K = self.K
        if off == K.o_type:
            return ('n', K.val[self.kd[0]])
        if off == K.o_aux:
            return ('n', K.val[self.kd[1]]) if self.kd[1] else TOP
        if off == K.o_fdp:
            return ('FD', 0)
        if off == K.o_data:
            return ('D', 'd', 0)
        return TOP

    def load(self, i):
        K = self.K
        a = self.v(i.args[0])
        if a is None:
            return None
        k = a[0]
        if k == 'N':
            r = self.subject(a[1])
            if a[1] == K.o_type or a[1] == K.o_aux and self.kd[1]:
                self.ev.append(('kind', self.f.name, i.id))
            return r
        if k == 'FD':
            if a[1] == K.f_type:
                self.ev.append(('kind', self.f.name, i.id))
                return ('n', K.val[self.kd[0]])
            if a[1] == K.f_aux:
                if self.kd[1]:
                    self.ev.append(('kind', self.f.name, i.id))
                return ('n', K.val[self.kd[1]]) if self.kd[1] else TOP
            if a[1] == K.f_size and (self.kd[0] in SIZES or self.kd[0] == 'ENUM'):
                return ('n', SIZES[self.kd[1] if self.kd[0] == 'ENUM' else self.kd[0]])
            if a[1] == K.f_tdp:
                return ('TD', 0)
            return TOP
        if k == 'TD':
            if self.kd[0] == 'ENUM' or (self.kd[0] == 'BITFIELD' and self.kd[1] in INTS):
                if a[1] == K.t_eff:
                    return ('n', K.val[self.kd[1]])
                if a[1] == K.t_sz:
                    return ('n', SIZES[self.kd[1]])
                if a[1] == K.t_type and self.kd[0] == 'ENUM':
                    return ('n', K.val['ENUM'])
            return TOP
        if k == 'D':
            self.access(i, 'load', a, i.ty, i.raw.get('sz'))
            if self.kd[0] == 'POINTER' and a == ('D', 'd', 0) and i.ty == 'ptr':
                return ('D', 'c', 0)
            return ('L', a[1]) if a[2] == 0 else TOP
        if k == 'A':
            return self.cell(a[1], a[2])
        if k == 'O':
            return self.frozen(a, i)
        if k == 'g':
            return self.gload(i, a)
        b, st = gep_parts(self.f, i.args[0])
        tags = [self.p.field_name(s[1], s[2]) for s in st if s[0] == 'f']
        if tags and tags[-1] == 'mr_ra_ptrdes_t.ra':
            return ('RB',)
        return TOP

    def gload(self, i, a):
        g = self.p.globals.get(a[1], {})
        if a[1] == 'mr_conf' and a[2] is not None and self.K.o_fmt <= a[2] < self.K.o_fmt + 8 * 33:
            self.ev.append(('format', self.f.name, i.id, (a[2] - self.K.o_fmt) // 8))
            return TOP
        if a[2] is None or 'init' not in g or a[1] in self.K.written:
            return TOP
        if not (g.get('const') or g.get('local')):
            return TOP
        if i.ty == 'ptr' or bits(i.ty):
            e = self.p.ginit(a[1]).get(a[2])
            if a[2] + 1 > g['size']:
                self.ev.append(('beyond', self.f.name, i.id, a[1]))
                return TOP
            tab = g['ty'].startswith('[') and self.nonconst(i)
            if e is None:
                if g['ty'].startswith('[') or i.ty == 'ptr':
                    if tab:
                        self.ev.append(('table', self.f.name, i.id, a[1], 0))
                    return ('n', 0)
                return TOP
            if tab:
                self.ev.append(('table', self.f.name, i.id, a[1], 1))
            c = e[1]
            if c[0] == 'F':
                return c
            if c[0] == 'c':
                return ('n', int(c[1]))
            if c[0] == 'g':
                s = self.p.cstr(c)
                if s is not None and tab and b'%' in s:
                    self.ev.append(('conv', self.f.name, i.id, s.decode('latin-1')))
                return ('g', c[1], 0)
        return TOP

    def nonconst(self, i):
        o = i.args[0]
        while o[0] == 'i':
            j = self.f.ins[o[1]]
            if j.op != 'getelementptr':
                return False
            if any(s[0] == 'x' and T(s[1])[0] != 'c' for s in j.raw['g']):
                return True
            o = j.args[0]
        return False

    def cell(self, al, off):
        if off is None:
            return TOP
        if (al, off) in self.cells:
            return self.cells[(al, off)]
        if al in self.bval and off == 0:
            return ('L', 'b')
        if self.node.get(al) == 'copy':
            return self.subject(off)
        return TOP

    def frozen(self, a, i):
        cells, how, isb = a[1]
        if a[2] is None:
            return TOP
        d = dict(cells)
        K = self.K
        if a[2] in d or how == 'new':
            v = d.get(a[2], ('n', 0))
            want = {K.o_type: self.kd[0], K.o_aux: self.kd[1]}.get(a[2])
            if want and any(x == ('D', 'd', 0) for x in d.values()):
                # the descriptor designates the subject's own value
                self.ev.append(('descr', self.f.name, i.id, want, K.name.get(v[1]) if v[0] == 'n' else want))
            if a[2] in d:
                return v
            return TOP
        if how == 'copy':
            return self.subject(a[2])
        return TOP

    def store(self, i):
        K = self.K
        a, val = self.v(i.args[1]), self.v(i.args[0])
        if a is None:
            return
        if a[0] == 'D':
            self.access(i, 'store', a, i.raw.get('st'), i.raw.get('sz'))
        elif a[0] == 'A' and a[2] is not None and val is not None:
            c = (a[1], a[2])
            if val == ('L', 'v'):
                self.bval.add(a[1])
            self.cells[c] = self.join(self.cells.get(c), val)
        elif a[0] == 'ON' and a[2] == K.o_data and val == ('D', 'd', 0):
            self.idx.add(a[1])
            self.env[a[1]] = ('IDX',)

    # ---- calls ------------------------------------------------------------
    def snap(self, a):
        """a local object passed by address: its current content"""
        al = a[1]
        if al in self.bval:
            return ('D', 'b', a[2])
        d = tuple(sorted(((o, v) for (x, o), v in self.cells.items() if x == al and v != TOP), key=str))
        return ('O', (d, self.node.get(al), al in self.bval), a[2])

    def call(self, i):
        K = self.K
        f = self.f
        t = None
        c = f.callee(i)
        if c is None:
            cv = self.v(T(i.raw['c']))
            if cv is None:
                return
            if cv[0] == 'F':
                t = [cv[1]]
            else:
                t = []
        else:
            t = [c]
        args = [self.v(a) for a in i.args]
        res = TOP
        for x in t:
            kn = kindname(x)
            if kn in ('llvm.memcpy', 'llvm.memmove') and len(args) > 2:
                d, s, n = args[:3]
                if d and d[0] == 'A' and s and s[0] == 'N' and s[1] == 0 and d[2] == 0:
                    self.node[d[1]] = 'copy'
                if d and d[0] == 'A' and s and s[0] == 'A':
                    for (al, o), v in list(self.cells.items()):
                        if al == s[1]:
                            self.cells[(d[1], o)] = self.join(self.cells.get((d[1], o)), v)
                    if s[1] in self.node:
                        self.node[d[1]] = self.node[s[1]]
                for w, y in (('store', d), ('load', s)):
                    if y and y[0] == 'D':
                        self.block(i, w, y, n)
                continue
            if kn == 'llvm.memset':
                d = args[0]
                if d and d[0] == 'A' and f.ins[d[1]].raw.get('at', '').split('.')[-1] == PTRDES and self.node.get(d[1]) != 'copy':
                    self.node[d[1]] = 'new'
                if d and d[0] == 'D':
                    self.block(i, 'store', d, args[2])
                continue
            if kn.startswith('llvm.'):
                continue
            if x not in self.p.defined:
                self.external(i, scope.base(x), args)
                continue
            tgt = self.p.defined[x]
            bind = {}
            hot = False
            for k, a in enumerate(args):
                if k >= tgt.nargs or a is None:
                    continue
                if a[0] == 'A':
                    if x in ('mr_save_bitfield_value',) and k == 1 and any(y and (y[0] == 'N' or y[0] == 'A' and y[1] in self.node) for y in args[:1]):
                        self.bval.add(a[1])
                        continue
                    a = self.snap(a)
                    if a[0] == 'O' and not a[1][0] and not a[1][1]:
                        continue
                    if a[0] == 'D' or any(v[0] in ('D', 'N', 'FD', 'TD', 'O') for o, v in a[1][0]) or a[1][1] == 'copy':
                        hot = True
                    else:
                        continue
                elif a[0] in ('N', 'D', 'FD', 'TD', 'IDX', 'O'):
                    hot = hot or not (a[0] == 'FD' and not True)
                elif a[0] == 'n':
                    pass
                elif a[0] == 'F':
                    pass
                else:
                    continue
                bind[('a', k)] = a
            if not hot and not (len(tgt.blocks) <= 8 and all(('a', k) in bind for k in range(tgt.nargs)) and tgt.nargs):
                if x == 'mr_get_enum_value':
                    pass
                continue
            if not hot:
                r, e = K.run(x, bind, self.kd)
                self.ev += [q for q in e if q[0] in ('table', 'conv', 'beyond')]
                res = r
                continue
            ds = [k for k, a in bind.items() if a[0] == 'D' and (tgt.ditypes or [''] * 99)[1 + k[1]].replace('const ', '').replace(' ', '') == 'void*']
            ns = [a for k, a in bind.items() if a[0] == 'n' and (tgt.ditypes or [''] * 99)[1 + k[1]].strip() == 'size_t']
            if len(ds) == 1 and len(ns) == 1:
                self.ev.append(('sized', self.f.name, i.id, bind[ds[0]], ns[0][1]))
            bind2 = {k: a for k, a in bind.items() if not (a[0] == 'n' and tgt.nargs and not self.folds(tgt, k))}
            r, e = K.run(x, bind2, self.kd)
            self.ev += [(q[0],) + q[1:] for q in e]
            res = r
            if x == 'mr_get_enum_value' and any(a and a[0] == 'D' for a in args):
                res = ('L', 'v')
        if i.ty != 'void':
            if not t:
                res = TOP
            self.set(i, res if res and res[0] in ('n', 'F', 'L', 'g') else TOP)

    def folds(self, tgt, k):
        return True

    def external(self, i, x, args):
        for k, a in enumerate(args):
            if a and a[0] == 'D':
                self.ev.append(('ext', self.f.name, i.id, a, x, k, tuple(args[j] if args[j] and args[j][0] == 'n' else None for j in range(len(args)))))

    def block(self, i, how, a, n):
        self.ev.append(('block', self.f.name, i.id, how, a, n[1] if n and n[0] == 'n' else None))

    def access(self, i, how, a, ty, sz):
        self.ev.append(('acc', self.f.name, i.id, how, a, ty, sz))
