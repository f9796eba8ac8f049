"""What the handlers of the binary format put on the wire and take off it, as a language per kind of value.  Every handler of the
saving table is explored in encoding direction and the handler of the loading table for the same kind in decoding direction; each
successful path yields the sequence of wire operations (kind and width of the primitive, the member of the node or the place in the
value that is transferred, where the length of a byte run comes from) together with what the path assumed about the node's flags,
size, dimensions and type. Helpers are spliced in; parts of the value that are nodes of their own are left to their own handlers and
must come last. Two paths whose assumptions can hold together must have the same sequence. The operations of the stream itself are
checked to move the position by exactly what they transfer and to swap bytes the same way."""
from ir import T, gep_parts, const_int
from paths import Explorer, leafset

ENC, DEC = 0, 1
DIR = ('encoding', 'decoding')
SAMPLES = tuple(range(0, 130)) + (255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1)
PRIM = {'xdr_int': ('int', 4), 'xdr_u_int': ('int', 4), 'xdr_int32_t': ('int', 4), 'xdr_uint32_t': ('int', 4), 'xdr_u_int32_t': ('int', 4),
        'xdr_short': ('int', 2), 'xdr_u_short': ('int', 2), 'xdr_int16_t': ('int', 2), 'xdr_uint16_t': ('int', 2), 'xdr_u_int16_t': ('int', 2),
        'xdr_char': ('int', 1), 'xdr_u_char': ('int', 1), 'xdr_enum': ('int', 4),
        'xdr_int64_t': ('int', 8), 'xdr_uint64_t': ('int', 8), 'xdr_u_int64_t': ('int', 8), 'xdr_hyper': ('int', 8), 'xdr_u_hyper': ('int', 8),
        'xdr_longlong_t': ('int', 8), 'xdr_u_longlong_t': ('int', 8), 'xdr_quad_t': ('int', 8), 'xdr_u_quad_t': ('int', 8),
        'xdr_long': ('long', 4), 'xdr_u_long': ('long', 4), 'xdr_bool': ('bool', 4),
        'xdr_float': ('float', 4), 'xdr_double': ('float', 8), 'xdr_opaque': ('bytes', 0), 'xdr_string': ('string', 0), 'xdr_bytes': ('lbytes', 0),
        'xdr_putint32': ('int', 4), 'xdr_getint32': ('int', 4)}
ONLY = {'xdr_putint32': ENC, 'xdr_getint32': DEC}
NOWIRE = ('xdr_void', 'xdrmem_create', 'xdr_free')


class Wire(Explorer):
    cap = 400
    max_steps = 40000

    def __init__(self, W, f, d):
        Explorer.__init__(self, W.p, f, W.F.mods)
        self.W = W
        self.d = d
        self.out = set()
        self.trails = {}

    # ts: (ops, constraints, places of ops, values of ops, dirty)
    def start(self, st):
        st.ts = ((), frozenset(), (), (), frozenset(), ())

    def constof(self, st, c):
        if c[0] == 'op':
            a = self.abs(st, c)
            return a[1] if a and a[0] == '=' else None
        return Explorer.constof(self, st, c)

    def full(self, st, v, depth=0):
        """canonical address, rebuilt from the instructions where the exploration dropped it"""
        c = self.canon(st, v) if v[0] != 'gep' else v
        if c[0] == 'i' and depth < 6:
            i = self.f.ins[c[1]]
            if i.op == 'getelementptr':
                return self.gepcanon(st, self.full(st, i.args[0], depth + 1), T(i.raw['g']))
            if i.op == 'phi' and c != v:
                return c
        return c

    # ---- naming of places ---------------------------------------------------
    def place(self, st, a, depth=0):
        off = 0
        tag = None
        base = a
        if a[0] == 'gep':
            base, off, tag = a[1], a[2], a[4]
            if tag and tag[0] == 'mr_ptrdes_t':
                ix = [x for x, _ in a[3]]
                return ('node' if all(self.argument(x) for x in ix) else 'other node', self.prog.field_name(*tag), 0)
            if a[3]:
                return ('?',)
        if base[0] == 'a':
            return ('arg', base[1], off)
        if base[0] == 'i' and depth < 4:
            i = self.f.ins[base[1]]
            if i.op == 'alloca':
                return ('local', base[1], off)
            if i.op == 'load':
                q = self.place(st, self.full(st, i.args[0]), depth + 1)
                if q[0] == '?' or q[0] == 'local':
                    return ('?',)
                return ('at', q, off)
        return ('?',)

    # ---- facts --------------------------------------------------------------
    def quantity(self, st, v):
        """(key, function of the loaded number) for an expression over one loaded quantity"""
        c = const_int(v)
        if c is not None:
            return None, (lambda x, c=c: c), 64
        if v[0] != 'i':
            return None
        i = self.f.ins[v[1]]
        if i.op == 'load' and i.ty[0] == 'i':
            a = self.full(st, i.args[0])
            tag = self.tag_of(a)
            if tag is None or self.W.is_op(tag) or a[0] == 'gep' and a[3] and not self.indexed(a):
                return None
            off = a[2] if a[0] == 'gep' else 0
            root = self.addr_root(a)
            if (root, off) in st.ts[4]:
                return None
            n = int(i.ty[1:])
            return (self.prog.field_name(*tag), off), (lambda x, n=n: x & ((1 << n) - 1)), n
        if i.op in ('zext', 'trunc', 'sext', 'freeze'):
            q = self.quantity(st, i.args[0])
            if q is None:
                return None
            n = int(i.ty[1:])
            m = (1 << n) - 1
            if i.op == 'sext':
                b = q[2]
                return q[0], (lambda x, f=q[1], b=b, m=m: ((f(x) ^ (1 << (b - 1))) - (1 << (b - 1))) & m), n
            return q[0], (lambda x, f=q[1], m=m: f(x) & m), n
        if i.op == 'icmp':
            t = self.truth(st, v)
            return None if t is None else (t[0], lambda x, f=t[1]: int(f(x)), 1)
        if i.op == 'select':
            q = [self.quantity(st, x) for x in i.args]
            ks = {x[0] for x in q if x and x[0]}
            if None in q or len(ks) != 1 or not i.ty.startswith('i'):
                return None
            return ks.pop(), (lambda x, a=q[0][1], b=q[1][1], c=q[2][1]: b(x) if a(x) & 1 else c(x)), int(i.ty[1:])
        if i.op in ('and', 'or', 'xor', 'lshr', 'ashr', 'shl', 'add', 'sub'):
            x, y = self.quantity(st, i.args[0]), self.quantity(st, i.args[1])
            if x is None or y is None or (x[0] and y[0] and x[0] != y[0]):
                return None
            n = int(i.ty[1:])
            m = (1 << n) - 1
            op = {'and': lambda p, q: p & q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q, 'lshr': lambda p, q: (p & m) >> (q & 63),
                  'ashr': lambda p, q: (sx(p, n) >> (q & 63)), 'shl': lambda p, q: p << (q & 63), 'add': lambda p, q: p + q, 'sub': lambda p, q: p - q}[i.op]
            return x[0] or y[0], (lambda v, f=x[1], g=y[1]: op(f(v), g(v)) & m), n
        return None

    def indexed(self, a):
        return a[4] and a[4][0] == 'mr_ptrdes_t' and all(self.argument(x) for x, _ in a[3])

    def argument(self, x):
        return bare(self.f, x)[0] in ('a', 'c')

    def truth(self, st, v):
        if v[0] != 'i':
            return None
        i = self.f.ins[v[1]]
        if i.op == 'icmp':
            x, y = self.quantity(st, i.args[0]), self.quantity(st, i.args[1])
            if x is None or y is None or not (x[0] or y[0]) or (x[0] and y[0] and x[0] != y[0]):
                return None
            n = x[2] if x[0] else y[2]
            p = i.raw['p']
            m = (1 << n) - 1

            def cmp(v):
                a, b = x[1](v) & m, y[1](v) & m
                if p[0] == 's':
                    a, b = sx(a, n), sx(b, n)
                q = p[-2:] if p not in ('eq', 'ne') else p
                return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[q]
            return (x[0] or y[0]), cmp
        q = self.quantity(st, v)
        if q is None or not q[0]:
            return None
        return q[0], lambda v: bool(q[1](v) & 1)

    def assume(self, st, key, keep):
        ops, cons, pl, va, di, so = st.ts
        d = dict(cons)
        old = d.get(key, frozenset(SAMPLES))
        d[key] = frozenset(x for x in old if keep(x))
        st.ts = (ops, frozenset(d.items()), pl, va, di, so)

    def branch(self, st, t):
        r = Explorer.branch(self, st, t)
        if t.op == 'br' and len(t.raw['s']) == 2 and t.raw['s'][0] != t.raw['s'][1]:
            q = self.truth(st, t.args[0])
            if q:
                for s, s2 in r:
                    want = s == t.raw['s'][0]
                    self.assume(s2, q[0], lambda x: q[1](x) == want)
        elif t.op == 'switch':
            q = self.quantity(st, t.args[0])
            if q and q[0]:
                vals = {v for v, _ in t.raw['cases']}
                n = []
                for s, s2 in r:
                    mine = {v for v, b in t.raw['cases'] if b == s}
                    dflt = s == t.raw['s'][0]
                    self.assume(s2, q[0], lambda x: q[1](x) in mine or (dflt and q[1](x) not in vals))
        return [(s, s2) for s, s2 in r if all(v for _, v in s2.ts[1])]

    # ---- wire ---------------------------------------------------------------
    def on_instr(self, st, i):
        if i.op == 'load':
            a = self.full(st, i.args[0])
            tag = self.tag_of(a)
            if tag and self.W.is_op(tag):
                self.purge(st, i)
                st.env[i.v] = ('=', self.W.opval[self.d])
                return [st]
            a = self.cell(st, a)
            for k, b in st.ts[2]:
                if b == a:
                    self.purge(st, i)
                    ops, cons, pl, va, di, so = st.ts
                    st.ts = (ops, cons, pl, tuple(x for x in va if x[1] != i.v) + ((k, i.v),), di, so)
                    return [st]
        return None

    def on_store(self, st, i, addr, val):
        ops, cons, pl, va, di, so = st.ts
        root = self.addr_root(addr)
        off = addr[2] if addr[0] == 'gep' else 0
        if self.is_alloca(root):
            di = di | {(root, off)}
            if self.d == ENC:
                r = self.origin(st, val)
                so = tuple(x for x in so if x[0] != addr) + (((addr, r),) if r else ())
        pl = tuple((k, b) for k, b in pl if b != self.cell(st, addr))
        if self.d == DEC:
            w = self.parts(st, i.args[0], dict((v, k) for k, v in va))
            if w:
                q = self.place(st, addr)
                if q[0] not in ('?', 'local'):
                    o = list(ops)
                    for k, sh in w:
                        if o[k][2] is None:
                            o[k] = (o[k][0], o[k][1], ('val', q, sh), o[k][3])
                    ops = tuple(o)
        st.ts = (ops, cons, pl, va, di, so)

    def parts(self, st, v, wire, sh=0, depth=0):
        """(operation, shift) of each wire value that a stored value is made of"""
        c = self.canon(st, v)
        return self.cparts(c, wire, sh, depth)

    def cparts(self, c, wire, sh=0, depth=0):
        if c in wire:
            return [(wire[c], sh)]
        if depth > 6 or c[0] != 'op':
            return []
        if c[1] in ('zext', 'sext', 'trunc', 'bitcast', 'freeze'):
            return self.cparts(c[2], wire, sh, depth + 1)
        if c[1] == 'shl' and c[3][0] == 'c':
            return self.cparts(c[2], wire, sh + c[3][1], depth + 1)
        if c[1] in ('or', 'add', 'xor'):
            return self.cparts(c[2], wire, sh, depth + 1) + self.cparts(c[3], wire, sh, depth + 1)
        return []

    def source(self, st, a, n):
        """where the value waiting in a local variable came from"""
        return dict(st.ts[5]).get(a)

    def cell(self, st, a):
        """a place that stays the same when the array of nodes moves"""
        q = self.place(st, a)
        return q if q[0] == 'node' else a

    def origin(self, st, v):
        sh = 0
        while v[0] == 'op' and v[1] in ('zext', 'sext', 'trunc', 'ashr', 'lshr', 'bitcast'):
            if v[1] in ('ashr', 'lshr'):
                if v[3][0] != 'c':
                    return None
                sh += v[3][1]
            v = v[2]
        if v[0] == 'i' and self.f.ins[v[1]].op == 'load':
            q = self.place(st, self.full(st, self.f.ins[v[1]].args[0]))
            if q[0] not in ('?', 'local'):
                return ('val', q, sh)
        return None

    def add(self, st, i, kind, width, addr, length):
        ops, cons, pl, va, di, so = st.ts
        q = self.place(st, addr) if addr else ('?',)
        role = None
        if addr:
            if q[0] == 'local':
                role = self.source(st, addr, width) if self.d == ENC else None
            elif q[0] != '?':
                role = ('val', q, 0)
        ln = None
        if length is not None:
            c = self.canon(st, length)
            n = self.constof(st, c)
            if n is not None:
                ln = ('const', n)
            else:
                while c[0] == 'op' and c[1] in ('zext', 'sext', 'trunc'):
                    c = c[2]
                k = dict((v, k) for k, v in va).get(c)
                # an expression over several quantities is none of the lengths that were transferred
                ln = ('wire', k - len(ops)) if k is not None else ('other',)
        ops = ops + ((kind, width, role, ln),)
        if len(ops) > 40:
            return
        if addr and kind != 'bytes':
            ce = self.cell(st, addr)
            pl = tuple(x for x in pl if x[1] != ce) + ((len(ops) - 1, ce),)
        st.ts = (ops, cons, pl, va, di, so)

    def child(self, st, what):
        ops, cons, pl, va, di, so = st.ts
        if not ops or ops[-1] != (what, 0, None, None):
            st.ts = (ops + ((what, 0, None, None),), cons, pl, va, di, so)

    def succeed(self, st, i):
        f = self.f
        n = self.f.callee(i)
        self.kill_call(st, i)
        self.after_call(st, i)
        if i.ty != 'void':
            ret = self.W.ret(self.prog, i)
            st.env[i.v] = ('=', 0 if ret == 'mr_status_t' else 1)
        return st

    def on_call(self, st, i):
        p = self.prog
        c = self.f.callee(i)
        if c in PRIM and self.W.primitive(c):
            if c in ONLY and ONLY[c] != self.d:
                self.W.wrong.add((self.f.name, i.where(), '%s is called while %s' % (c, DIR[self.d])))
            kind, w = PRIM[c]
            self.add(st, i, kind, w, self.canon(st, i.args[1]), i.args[2] if kind == 'bytes' else None)
            return [self.succeed(st, i)]
        if c is None:
            t = self.table_call(st, i)
            if t:
                tab, key = t
                if tab != self.d:
                    self.W.wrong.add((self.f.name, i.where(), 'a handler of the other direction is called while %s' % DIR[self.d]))
                self.child(st, 'node' if key and key[0].endswith('.mr_type') else 'as:%s' % (key[0] if key else '?'))
                return [self.succeed(st, i)]
            return None
        if c in p.defined and self.W.speaks(c):
            alts = self.W.lang(c, self.d)
            out = []
            for ops, cons in alts:
                s = st.copy()
                base = len(s.ts[0])
                for kind, w, role, ln in ops:
                    if w == 0 and ln is None and role is None and kind not in ('string', 'lbytes', 'bytes'):
                        self.child(s, kind)
                        continue
                    o2, co, pl, va, di, so = s.ts
                    s.ts = (o2 + ((kind, w, self.translate(s, i, role), ln),), co, pl, va, di, so)
                    if len(s.ts[0]) > 40:
                        break
                for key, keep in cons if any(o[0] != 'node' for o in ops) else ():
                    self.assume(s, key, lambda x: x in keep)
                # a helper may deliver the value of its first operation through an address of ours
                for k, (kind, w, role, ln) in enumerate(ops):
                    if role and role[0] == 'val' and role[1][0] == 'arg' and role[2] == 0:
                        a = self.canon(s, i.args[role[1][1]])
                        if role[1][2] == 0 and a[0] in ('i', 'gep', 'a'):
                            o2, co, pl, va, di, so = s.ts
                            s.ts = (o2, co, tuple(x for x in pl if x[1] != a) + ((base + k, a),), va, di, so)
                if all(v for _, v in s.ts[1]):
                    out.append(self.succeed(s, i))
            return out
        return None

    def translate(self, st, i, role):
        if role is None:
            return None
        q = self.move(st, i, role[1])
        if q is None:
            return None
        if q[0] == 'local':
            if self.d == ENC and role[2] == 0:
                return self.source(st, self.canon(st, i.args[role[1][1]]), 0)
            return None
        return None if q[0] == '?' else ('val', q, role[2])

    def move(self, st, i, q):
        if q[0] in ('node', 'other node'):
            return q
        if q[0] == 'arg':
            if q[1] >= len(i.args):
                return None
            r = self.place(st, self.canon(st, i.args[q[1]]))
            if r[0] in ('arg', 'at', 'local'):
                return r[:2] + (r[2] + q[2],)
            return r if q[2] == 0 else None
        if q[0] == 'at':
            r = self.move(st, i, q[1])
            return None if r is None or r[0] in ('?', 'local') else ('at', r, q[2])
        return None

    def table_call(self, st, i):
        cop = T(i.raw.get('c') or ())
        v = self.canon(st, cop) if cop else None
        if not v or v[0] != 'i' or self.f.ins[v[1]].op != 'load':
            return None
        a = self.full(st, self.f.ins[v[1]].args[0])
        root = self.addr_root(a)
        if root[0] != 'g' or root[1] not in self.W.tables:
            return None
        key = None
        if a[0] == 'gep' and a[3]:
            x = bare(self.f, a[3][0][0])
            if x[0] == 'i' and self.f.ins[x[1]].op == 'load':
                tag = self.tag_of(self.full(st, self.f.ins[x[1]].args[0]))
                if tag:
                    key = (self.prog.field_name(*tag),)
        return self.W.tables.index(root[1]), key

    def keep(self, st):
        r = [v for _, v in st.ts[3]]
        for _, a in st.ts[2]:
            r += [x for x in leafset(a) if x[0] == 'i'] if a[0] not in ('node', 'at', 'arg') else []
        return r

    def on_ret(self, st, t, val):
        if val is not None:
            ret = self.f.ditypes[0]
            a = self.abs(st, val)
            if a and a[0] == '=':
                if (a[1] == 0) != (ret == 'mr_status_t'):
                    return
            elif a and a[0] == '!' and 0 in a[1] and ret == 'mr_status_t':
                return
        k = (st.ts[0], st.ts[1])
        self.out.add(k)
        self.trails.setdefault(k, st.trail)


def bare(f, x):
    """without the casts"""
    for _ in range(8):
        if x[0] == 'op' and x[1] in ('zext', 'sext', 'trunc', 'freeze', 'and'):
            x = x[2]
        elif x[0] == 'i' and f.ins[x[1]].op in ('zext', 'sext', 'trunc', 'freeze'):
            x = f.ins[x[1]].args[0]
        else:
            break
    return x


def sx(v, n):
    return ((v ^ (1 << (n - 1))) - (1 << (n - 1))) if n < 128 else v


class Language:
    def __init__(self, p, F, tables):
        self.p = p
        self.F = F
        self.tables = tables
        self.memo = {}
        self.trail = {}
        self.wrong = set()
        self.over = set()
        self.busy = set()
        self.opval = (int(p.enumval.get('XDR_ENCODE', 0)), int(p.enumval.get('XDR_DECODE', 1)))
        self._sp = {}

    def is_op(self, tag):
        return tag[1] == 0 and tag[0] in ('__rpc_xdr', 'XDR')

    def primitive(self, c):
        """64 bit integers and others the library defines itself are looked into"""
        return c not in self.p.defined or c in ONLY

    def speaks(self, n):
        """takes the stream and gets to the wire"""
        f = self.p.defined[n]
        return bool(f.ditypes) and any(d == 'XDR*' for d in f.ditypes[1:]) and not n.startswith('xdrra_')

    def ret(self, p, i):
        c = T(i.raw.get('c') or ())
        if c and c[0] == 'F' and c[1] in p.defined:
            return p.defined[c[1]].ditypes[0]
        return 'mr_status_t' if c and c[0] != 'F' else 'bool_t'

    def lang(self, n, d):
        if (n, d) in self.memo:
            return self.memo[n, d]
        if (n, d) in self.busy:
            return [()]
        self.busy.add((n, d))
        e = Wire(self, self.p.defined[n], d)
        e.run()
        if e.overflow:
            self.over.add(n)
        self.busy.discard((n, d))
        self.memo[n, d] = sorted(e.out, key=str)
        self.trail[n, d] = e.trails
        return self.memo[n, d]


def compat(a, b):
    x, y = dict(a), dict(b)
    return all(x[k] & y[k] for k in x if k in y)


def own(ops):
    """own operations, and whether nodes of their own come in between"""
    o = list(ops)
    while o and o[-1][0] == 'node':
        o.pop()
    return tuple(x for x in o if x[0] != 'node'), any(x[0] == 'node' for x in o)


def alike(x, y):
    if len(x) != len(y):
        return False
    for a, b in zip(x, y):
        if a[:2] != b[:2]:
            return False
        if a[2] and b[2] and a[2] != b[2] and 'other node' not in str((a[2], b[2])):
            return False
        if a[3] != b[3] and a[0] == 'bytes':
            return False
    return True


def text(ops):
    def one(o):
        s = {'int': '%d-byte integer' % o[1], 'float': '%d-byte float' % o[1], 'bytes': 'bytes'}.get(o[0], o[0])
        if o[3]:
            s += ' (length %s)' % {'const': o[3][-1], 'wire': 'transferred before', 'other': 'not the one transferred'}[o[3][0]]
        if o[2] and o[2][1][0] == 'node':
            s += ' of ' + o[2][1][1].split('.')[-1]
        elif o[2] and (o[2][2] or (o[2][1][0] == 'at' and o[2][1][2])):
            s += ' of offset %s shift %s' % (o[2][1][2] if o[2][1][0] == 'at' else '?', o[2][2])
        return s
    return '[' + ', '.join(one(o) for o in ops) + ']'


class Move(Explorer):
    """how far one operation of the stream moves the position"""
    cap = 40

    def __init__(self, p, f, mods, is_pos):
        Explorer.__init__(self, p, f, mods)
        self.is_pos = is_pos
        self.rets = []

    def start(self, st):
        st.ts = (None, 0, False)

    def on_instr(self, st, i):
        if i.op == 'call' and (self.f.callee(i) or '').startswith('llvm.bswap'):
            st.ts = (st.ts[0], st.ts[1] + 1, st.ts[2])
        return None

    def branch(self, st, t):
        # the requested position was compared with something read from the stream
        if t.op == 'br' and len(t.raw['s']) == 2 and order(self.canon(st, t.args[0])):
            st.ts = st.ts[:2] + (True,)
        return Explorer.branch(self, st, t)

    def on_call(self, st, i):
        c = self.f.callee(i)
        if c in self.prog.defined and any(bare(self.f, self.canon(st, x)) == ('a', 1) for x in i.args):
            st.ts = st.ts[:2] + (True,)
        if c in ('htonl', 'ntohl'):
            st.ts = (st.ts[0], st.ts[1] + 1, st.ts[2])
        return None

    def on_store(self, st, i, addr, val):
        tag = self.tag_of(addr)
        if tag and self.is_pos(tag):
            d = ('?',)
            val = bare(self.f, val)
            if val[0] == 'op' and val[1] == 'add':
                for x, y in ((val[2], val[3]), (val[3], val[2])):
                    x, y = bare(self.f, x), bare(self.f, y)
                    if x[0] == 'i' and self.f.ins[x[1]].op == 'load' and self.tag_of(self.canon(st, self.f.ins[x[1]].args[0])) == tag:
                        d = y[:2]
            elif val[0] == 'a':
                d = ('set', val[1])
            st.ts = (d if st.ts[0] is None else ('twice',), st.ts[1], st.ts[2])

    def on_ret(self, st, t, val):
        a = self.abs(st, val) if val is not None else None
        if a and a[0] == '=' and a[1] == 0 or (val is not None and val[0] == 'n'):
            if st.ts[0] is not None:
                self.rets.append((False, st.ts, st.trail))
            return
        self.rets.append((True, st.ts, st.trail))


def order(c):
    if c[0] != 'op':
        return False
    if c[1] == 'icmp':
        l = leafset(c[3]) | leafset(c[4])
        return c[2] not in ('eq', 'ne') and ('a', 1) in l and any(x[0] == 'i' for x in l)
    return any(order(x) for x in c[2:] if isinstance(x, tuple))


def stream(c, p, F):
    g = [n for n in p.globals if p.globals[n].get('ty') == 'xdr_ops' and p.globals[n].get('init') and not p.globals[n].get('decl')]
    c.require(g, 'table of the stream operations')
    lay = p.layouts.get('xdr_ops')
    is_pos = lambda tag: p.field_name(*tag).endswith('x_handy')
    for n in g:
        init = {o: x[1] for o, s, x in p.globals[n]['init'] if x[0] == 'F'}
        names = {}
        d = p.ditypes.get('xdr_ops')
        for m in (d or {}).get('m', []):
            if m[1] in init:
                names[m[0]] = init[m[1]]
        c.require(names, 'names of the stream operations')
        swaps = {}
        for k, fn in sorted(names.items()):
            if fn not in p.defined or k not in ('x_getlong', 'x_putlong', 'x_getint32', 'x_putint32', 'x_getbytes', 'x_putbytes', 'x_inline', 'x_setpostn'):
                continue
            f = p.defined[fn]
            want = ('a', f.nargs - 1) if k in ('x_getbytes', 'x_putbytes', 'x_inline') else ('c', 4)
            e = Move(p, f, F.mods, is_pos)
            e.run()
            for good, (d, sw, cmp), tr in e.rets:
                if good and d is None and k in ('x_getint32', 'x_putint32'):
                    continue       # hands on to the other one
                if k == 'x_setpostn':
                    c.ok('stream')
                    if not good or d != ('set', f.nargs - 1) or not cmp:
                        c.report('stream:%s' % fn, 'stream', '%s:%s' % (f.name, k), 'the position of the stream is %s' % ('moved although the operation fails' if not good else 'not the one asked for' if d != ('set', f.nargs - 1) else 'moved without a comparison with what the stream holds'), c.path_text(f, tr))
                    continue
                c.ok('stream')
                if (d != want) if good else True:
                    c.report('stream:%s' % fn, 'stream', '%s:%s' % (f.name, k), 'an operation of the stream that %s moves the position by something other than what it transferred' % ('succeeds' if good else 'fails'), c.path_text(f, tr))
                if good:
                    swaps.setdefault(k, sw)
        for x, y in (('x_getlong', 'x_putlong'), ('x_getbytes', 'x_putbytes')):
            if x in swaps and y in swaps:
                c.ok('stream')
                if (swaps[x] % 2) != (swaps[y] % 2):
                    c.report('stream:swap', 'stream', names[x], 'reading and writing do not agree on the byte order')


def run(c):
    c.rule('table', 'the kinds that can be saved in the binary format are the kinds that can be loaded, each direction using its own handlers, chosen by the kind of the node')
    c.rule('layout', 'for every kind, whatever path the saving handler takes, the loading handler takes the same operations off the wire in the same order, into the places they came from')
    c.rule('nested', 'a handler is done with its own part of the stream before the nodes below it are read')
    c.rule('stream', 'an operation of the stream moves the position by what it transferred, and only if it succeeded; both directions agree on the byte order')
    p, F = c.prog('plain'), c.fail('plain')
    tabs = [n for n, g in p.globals.items() if g.get('dt', '').startswith('xdr_handler_t[') and g.get('init')]
    c.require(len(tabs) >= 2, 'tables of the handlers of the binary format')
    # the table reached from the public saving function is the saving one
    save = reached(p, 'mr_xdr_save', tabs)
    load = reached(p, 'mr_xdr_load', tabs)
    c.require(len(save) >= 1 and len(load) >= 1, 'handler tables used by saving and by loading')
    S, L = pick(p, save, load)
    W = Language(p, F, [S, L])
    init = [{o // 8: x[1] for o, s, x in p.globals[t]['init'] if x[0] == 'F'} for t in (S, L)]
    kn = {int(v): k[8:].lower() for k, v in p.enumval.items() if k.startswith('MR_TYPE_') and k != 'MR_TYPE_LAST' and not k.endswith('_CLASS')}
    for k in sorted(set(init[0]) | set(init[1])):
        c.ok('table')
        if k not in init[0] or k not in init[1]:
            c.report('table:%s' % kn.get(k, k), 'table', S, 'kind %s has a handler in one direction only' % kn.get(k, k))
            continue
        s, l = init[0][k], init[1][k]
        for x, y in [(a, b) for a in W.lang(s, ENC) for b in W.lang(l, DEC)]:
            (so, sm), (lo, lm) = own(x[0]), own(y[0])
            if not compat(x[1], y[1]):
                continue
            c.ok('layout')
            if not alike(so, lo):
                c.report('layout:%s' % kn.get(k, k), 'layout', '%s / %s' % (s, l),
                         'for kind %s the saving handler writes %s where the loading handler reads %s' % (kn.get(k, k), text(so), text(lo)),
                         c.path_text(p.defined[l], W.trail[l, DEC][y]))
                break
        for x in W.lang(s, ENC):
            small = frozenset((q, v) for q, v in x[1] if q[0].endswith('.flags'))
            c.ok('layout')
            if not any(compat(small, frozenset(z for z in y[1] if z[0][0].endswith('.flags'))) for y in W.lang(l, DEC)):
                c.report('layout:%s' % kn.get(k, k), 'layout', '%s / %s' % (s, l), 'what the saving handler writes for kind %s on some path no path of the loading handler accepts' % kn.get(k, k))
        for fn, d in ((s, ENC), (l, DEC)):
            for x in W.lang(fn, d):
                c.ok('nested')
                if own(x[0])[1]:
                    c.report('nested:%s' % kn.get(k, k), 'nested', fn, 'the handler for kind %s goes on with its own part after nodes below it' % kn.get(k, k))
            if fn in W.over:
                c.report('layout:%s:paths' % fn, 'layout', fn, 'too many paths to compare')
    for fn, where, what in sorted(W.wrong):
        c.report('table:%s' % fn, 'table', where, what)
    # the functions that pick a handler
    picks = 0
    for n, f in sorted(p.defined.items()):
        d = 1 if n in closure(p, 'mr_xdr_load') and n not in closure(p, 'mr_xdr_save') else 0
        used = {a for i in f.instrs() for o in f.operands(i) for a in globs(o)}
        if not used & {S, L} or len(used & {S, L}) == 2:
            continue
        d = 0 if S in used else 1
        e = Picks(W, f, d)
        e.run()
        for where, key in e.seen:
            picks += 1
            c.ok('table')
            if key is None or not key[0].endswith(('.mr_type',)):
                c.report('table:pick:%s' % n, 'table', where, 'the handler is not chosen by the kind of the node')
    c.require(picks >= 2, 'places where a handler is chosen')
    stream(c, p, F)
    c.floor('table', 25)
    c.floor('layout', 40)
    c.floor('stream', 5)


class Picks(Wire):
    def __init__(self, W, f, d):
        Wire.__init__(self, W, f, d)
        self.seen = set()

    def on_call(self, st, i):
        if self.f.callee(i) is None:
            t = self.table_call(st, i)
            if t:
                self.seen.add((i.where(), t[1]))
                return [self.succeed(st, i)]
        return Explorer.on_call(self, st, i)


def globs(o):
    if isinstance(o, tuple):
        if len(o) >= 2 and o[0] == 'g' and isinstance(o[1], str):
            return [o[1]]
        return [x for y in o for x in globs(y)]
    return []


_CL = {}


def closure(p, root):
    k = (id(p), root)
    if k not in _CL:
        seen = set()
        w = [root]
        while w:
            n = w.pop()
            if n in seen or n not in p.defined:
                continue
            seen.add(n)
            f = p.defined[n]
            for i in f.calls():
                w += [t for t in ([f.callee(i)] if f.callee(i) else [])]
                w += [o[1] for o in i.args if o[0] == 'F']
        _CL[k] = seen
    return _CL[k]


def reached(p, root, tabs):
    r = set()
    for n in closure(p, root):
        f = p.defined[n]
        for i in f.instrs():
            for o in f.operands(i):
                r |= set(globs(o)) & set(tabs)
    return sorted(r)


def pick(p, save, load):
    S = [t for t in save if t not in load] or save
    L = [t for t in load if t not in save and t != S[0]] or [t for t in load if t != S[0]] or load
    return S[0], L[0]
