"""Bookkeeping of the indexed collections, per implementation.  The dispatch tables, their constructors and every function that is
given a collection are found from the source: an implementation is a table of operations together with the constructor that installs
it. For each, every path of its operations and their helpers is explored with a small relational state: by how much the count of items
moved, by how much what is stored moved (slots of the table filled and emptied, elements of the built-in array, the size of the array
or of the tree), whether a slot was seen to be empty, whether a comparison answered, and which bytes of a new collection were set."""
from ir import T, const_int
from paths import Explorer, leafset
from p_wire import bare, closure

IC = 'mr_ic_t'
OPS = ('add', 'del', 'find', 'foreach', 'index', 'free')
TOP = 1 << 63


def steps_of(i):
    return T(i.raw['g'])


class Model:
    def __init__(self, p, F):
        self.p = p
        self.F = F
        lay = p.ditypes.get(IC) or {}
        self.off = {m[0]: m[1] for m in lay.get('m', [])}
        self.size = None
        self._cmp = {}

    def field(self, tag):
        return self.p.field_name(*tag) if tag else None

    # functions that may call a comparison
    def compares(self, n, seen=()):
        if n in self._cmp:
            return self._cmp[n]
        p = self.p
        if n not in p.defined or n in seen or len(seen) > 6:
            return False
        f = p.defined[n]
        r = False
        for i in f.calls():
            c = f.callee(i)
            if c is None:
                r = r or self.iscmp(f, i)
            elif self.compares(c, seen + (n,)):
                r = True
        self._cmp[n] = r
        return r

    def syncs(self, n, depth=0):
        """'all' when the function empties or replaces the collection it is given, True when it settles the count itself"""
        f = self.p.defined[n]
        r = None
        for i in f.calls():
            if f.callee(i) is None:
                x = source(f, T(i.raw.get('c') or ()))
                fn = self.field(x[1]) if x else None
                if fn in ('mr_ic_virt_func_t.free', 'mr_ic_virt_func_t.index'):
                    return 'all'
                if fn in ('mr_ic_virt_func_t.add', 'mr_ic_virt_func_t.del'):
                    r = True
        for o, fs in self.slots.items():
            if n in fs:
                r = 'all' if o in ('free', 'index') else True if o in ('add', 'del') else r
        return r

    def grows(self, n):
        return self.p.defined[n].rty == 'ptr' if hasattr(self.p.defined[n], 'rty') else False

    def sizes(self, n, k, depth=0):
        """what is stored in the size of the record behind parameter k"""
        f = self.p.defined[n]
        r = set()
        for i in f.instrs():
            if i.op == 'store':
                b, tag, tags = address(f, i.args[1])
                if b == ('a', k) and (self.field(tag) or '').endswith('.size'):
                    c = const_int(i.args[0])
                    r.add('zero' if c == 0 else 'size')
            elif i.op == 'call':
                c = f.callee(i)
                for j, a in enumerate(i.args):
                    b, tag, tags = address(f, a)
                    if b != ('a', k):
                        continue
                    if c and c.startswith('llvm.memset') and j == 0:
                        r.add('zero')
                    elif c in self.p.defined and depth < 4:
                        if tags and (self.field(tag) or '').endswith('.size'):
                            r.add('size')
                        elif not tags:
                            r |= self.sizes(c, j, depth + 1)
        return r

    def writes_size(self, n, k):
        return bool(self.sizes(n, k))

    def empties(self, n, k):
        return self.sizes(n, k) == {'zero'}

    def iscmp(self, f, i):
        cop = T(i.raw.get('c') or ())
        if not cop:
            return False
        if i.ty == 'i32' and len(i.args) == 3:
            return True                       # a comparison: two keys and a context
        x = source(f, cop)
        # the collection's own lookup, through its table
        return bool(x) and self.field(x[1]) == 'mr_ic_virt_func_t.find'


def source(f, v, depth=0):
    """(base, tag) when v was loaded from a field"""
    if v[0] != 'i' or f.ins[v[1]].op != 'load':
        return None
    return address(f, f.ins[v[1]].args[0])


def address(f, a):
    """(base value, innermost field, whole list of fields)"""
    tags = []
    while a[0] == 'i' and f.ins[a[1]].op == 'getelementptr':
        i = f.ins[a[1]]
        tags = [(s[1], s[2]) for s in steps_of(i) if s[0] == 'f'] + tags
        a = i.args[0]
    return a, (tags[-1] if tags else None), tuple(tags)


def same(f, a, b, depth=0):
    """structurally equal expressions"""
    if a == b:
        return True
    if depth > 5 or a[0] != 'i' or b[0] != 'i':
        return False
    x, y = f.ins[a[1]], f.ins[b[1]]
    if x.op != y.op or x.op not in ('load', 'getelementptr', 'bitcast') or len(x.args) != len(y.args):
        return False
    if x.op == 'getelementptr' and repr(x.raw['g']) != repr(y.raw['g']):
        return False
    return all(same(f, u, v, depth + 1) for u, v in zip(x.args, y.args))


# ---------------------------------------------------------------- constructors
class New(Explorer):
    """which bytes of the new collection every successful path of a constructor has set"""
    cap = 200

    def __init__(self, M, f):
        Explorer.__init__(self, M.p, f, M.F.mods)
        self.M = M
        self.rets = []

    def start(self, st):
        st.ts = (frozenset(), None, None, None, None)

    def mark(self, st, addr, n, kind=None, val=None):
        off = addr[2] if addr[0] == 'gep' else 0
        if self.addr_root(addr) != ('a', 0) or addr[0] == 'gep' and addr[3]:
            return
        b, ty, vf, cnt, sto = st.ts
        b = b | frozenset(range(off, min(off + n, 4096)))
        if kind == 'store':
            o = self.M.off
            if off == o['ic_type']:
                ty = val
            elif off == o['virt_func']:
                vf = val
            elif off == o['items_count']:
                cnt = val
        st.ts = (b, ty, vf, cnt, sto)

    def on_store(self, st, i, addr, val):
        self.mark(st, addr, i.raw['sz'], 'store', val)

    def on_call(self, st, i):
        c = self.f.callee(i) or ''
        if c.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')) or c in ('memset', 'memcpy'):
            n = self.constof(st, self.canon(st, i.args[2]))
            a = self.canon(st, i.args[0])
            self.mark(st, a, n or 0)
            off = a[2] if a[0] == 'gep' else 0
            if c.startswith('llvm.memset') and self.addr_root(a) == ('a', 0) and n and off <= self.M.off['items_count'] < off + n and self.constof(st, self.canon(st, i.args[1])) == 0:
                st.ts = st.ts[:3] + (('c', 0, 32),) + st.ts[4:]
            return None
        if c in self.prog.defined:
            for k, x in enumerate(i.args):
                a = self.canon(st, x)
                if self.addr_root(a) == ('a', 0) and (a[0] == 'gep' and a[2] or a == ('a', 0)):
                    d = self.prog.defined[c].ditypes
                    t = d[k + 1][:-1] if k + 1 < len(d) and d[k + 1].endswith('*') else None
                    n = self.whole(c, k, t)
                    if n:
                        self.mark(st, a, n)
                        if a == ('a', 0):
                            st.ts = st.ts[:1] + (('call', c), ('call', c), ('c', 0, 32)) + st.ts[4:]
        return None

    def whole(self, c, k, t):
        """size of the record a helper sets completely"""
        g = self.prog.defined[c]
        n = (self.prog.ditypes.get(t) or {}).get('size')
        if not n:
            return 0
        e = New.Part(self.M, g, k)
        e.run()
        if e.rets and all(len(b) >= n for b in e.rets):
            return n
        return 0

    def on_ret(self, st, t, val):
        a = self.abs(st, val) if val is not None else ('=', 0)
        if a == ('=', 0) or a is None:
            self.rets.append((st.ts, st.trail))


class Part(Explorer):
    cap = 60

    def __init__(self, M, f, k):
        Explorer.__init__(self, M.p, f, M.F.mods)
        self.k = k
        self.rets = []

    def start(self, st):
        st.ts = frozenset()

    def put(self, st, a, n):
        if self.addr_root(a) == ('a', self.k) and not (a[0] == 'gep' and a[3]):
            off = a[2] if a[0] == 'gep' else 0
            st.ts = st.ts | frozenset(range(off, min(off + n, 4096)))

    def on_store(self, st, i, addr, val):
        self.put(st, addr, i.raw['sz'])

    def on_call(self, st, i):
        c = self.f.callee(i) or ''
        if c.startswith(('llvm.memcpy', 'llvm.memset')):
            self.put(st, self.canon(st, i.args[0]), self.constof(st, self.canon(st, i.args[2])) or 0)
        return None

    def on_ret(self, st, t, val):
        self.rets.append(st.ts)


New.Part = Part


# ---------------------------------------------------------------- paths of the operations
class Coll(Explorer):
    """ts: (count moved, how far the count is ahead of what is stored, dirty, reset of count, reset of storage, seen empty, zero slot seen free, value last stored in the count)"""
    cap = 300
    max_steps = 60000

    def __init__(self, M, f, k, report):
        Explorer.__init__(self, M.p, f, M.F.mods)
        self.M = M
        self.R = ('a', k)
        self.report = report
        self.rets = []
        self.events = 0

    def start(self, st):
        st.ts = (0, 0, None, False, False, frozenset(), None, None, None)

    def name(self, addr):
        return self.M.field(self.tag_of(addr)) or ''

    def mine(self, addr):
        """field of the collection itself, or ('slot', index) for an element of its table"""
        r = self.addr_root(addr)
        if r == self.R:
            return self.name(addr)
        if r[0] == 'i' and self.f.ins.get(r[1]) is not None and self.f.ins[r[1]].op == 'load':
            b = self.full(st=None, v=self.f.ins[r[1]].args[0])
            if b and b[0] == self.R and self.M.field(b[1]) == 'mr_ic_hash_t.hash_table':
                return ('slot', addr[3] if addr[0] == 'gep' else (), addr[2] if addr[0] == 'gep' else 0)
        return None

    def full(self, st, v):
        a, tag, tags = address(self.f, v)
        return (a, tag)

    def extra(self, idx):
        """the slot behind the table, kept for the key that looks like an empty slot: its index comes from the size alone"""
        if not idx:
            return False
        l = set()
        for x, _ in idx:
            l |= leafset(x)
        ok = False
        for x in l:
            if x[0] != 'i' or self.f.ins[x[1]].op != 'load':
                return False
            if self.M.field(address(self.f, self.f.ins[x[1]].args[0])[1]) != 'mr_ic_hash_t.size':
                return False
            ok = True
        return ok

    def put(self, st, **kw):
        names = ('n', 's', 'dirty', 'rn', 'rs', 'empty', 'zk', 'last', 'why')
        d = dict(zip(names, st.ts))
        d.update(kw)
        st.ts = tuple(d[x] for x in names)

    def get(self, st, name):
        return st.ts[('n', 's', 'dirty', 'rn', 'rs', 'empty', 'zk', 'last', 'why').index(name)]

    def diff(self, st, d):
        return max(-6, min(6, self.get(st, 's') + d))

    def clamp(self, n):
        return max(-3, min(3, n))

    def on_store(self, st, i, addr, val):
        w = self.mine(addr)
        if w is None:
            return
        if w == IC + '.items_count':
            self.events += 1
            v = self.strip(val)
            d = None
            if v[0] == 'c':
                self.put(st, n=v[1], rn=True, last=v)
                if v[1] == 0 and self.get(st, 'dirty') == 'zero':
                    self.put(st, dirty=None)
                return
            if v[0] == 'op' and v[1] in ('add', 'sub'):
                for x, y in ((v[2], v[3]), (v[3], v[2])):
                    if y[0] == 'c' and self.counted(st, x):
                        d = signed(y[1]) * (1 if v[1] == 'add' else -1)
            if d is not None:
                self.put(st, n=self.clamp(self.get(st, 'n') + d), s=self.diff(st, d), last=v)
                return
            if self.counted(st, v):
                self.put(st, last=v)
                return
            # computed from the storage itself, or from the size that is about to be recorded
            self.put(st, last=v, dirty=None if self.get(st, 'dirty') is None or self.derived(st, v, i) else self.get(st, 'dirty'))
            return
        if isinstance(w, tuple):
            z = val[0] == 'n' or val[0] == 'c' and val[1] == 0
            self.slot(st, i, w, z, addr)
            return
        if w == 'mr_ic_hash_t.size' or w == 'mr_ic_hash_t.zero_key':
            top = bit63(val)
            if top == 1:
                zk = self.get(st, 'zk')
                if zk is None:
                    self.report(self, st, i, 'empty', 'a key is counted as new although the place for it may already be taken')
                if zk != 1:
                    self.put(st, s=self.diff(st, -1), zk=1, why='grow')
            elif top == 0:
                self.put(st, s=self.diff(st, 1), zk=0)
            if val[0] == 'c' and val[1] == 0:
                self.put(st, rs=True)
            self.events += 1
            return
        if w == 'mr_ic_hash_t.hash_table':
            if val[0] == 'n':
                self.put(st, rs=True)
            self.events += 1
            return
        if w.startswith(('mr_ic_rarray_t.', 'mr_tree_t.')):
            self.events += 1
            if w.endswith('.size'):
                v = self.strip(val)
                l = self.get(st, 'last')
                if v[0] == 'c' and v[1] == 0:
                    self.put(st, dirty=None if l == ('c', 0, 32) or l and l[:2] == ('c', 0) else 'zero')
                elif self.by_count(st, v):
                    self.put(st, dirty=None)
                elif v[0] == 'i' and self.f.ins[v[1]].op == 'load' and self.name(self.canon(st, self.f.ins[v[1]].args[0])) == w:
                    pass
                else:
                    self.put(st, dirty='size')
            return
        if w.startswith('mr_ic_static_array_t') or w.startswith('mr_ptr_t') and addr[0] == 'gep' and addr[2] >= self.M.off_store:
            self.static(st, i, val[0] == 'n' or val[0] == 'c' and val[1] == 0)

    def static(self, st, i, zero):
        self.events += 1
        if not zero:
            self.put(st, s=self.diff(st, -1), why='grow')

    def slot(self, st, i, w, zero, addr):
        self.events += 1
        if self.extra(w[1]):
            return
        key = (w[1], w[2] // 8 * 8)
        if zero:
            self.put(st, s=self.diff(st, 1), empty=self.get(st, 'empty') | {key})
        else:
            if key not in self.get(st, 'empty'):
                self.report(self, st, i, 'empty', 'a slot is overwritten that was not seen to be empty')
            self.put(st, s=self.diff(st, -1), why='grow', empty=self.get(st, 'empty') - {key})

    def strip(self, v):
        while v[0] == 'op' and v[1] in ('zext', 'trunc', 'sext', 'freeze'):
            v = v[2]
        return v

    def counted(self, st, v):
        """the present value of the count"""
        v = self.strip(v)
        if v[0] == 'c':
            return False
        if v == self.get(st, 'last'):
            return True
        if v[0] == 'i' and self.f.ins[v[1]].op == 'load':
            return self.is_field(self.f.ins[v[1]].args[0], IC + '.items_count')
        if v[0] == 'op' and v[1] in ('add', 'sub'):
            return v == self.get(st, 'last')
        return False

    def is_field(self, a, name):
        b, tag, tags = address(self.f, a)
        return b == self.R and self.M.field(tag) == name

    def res(self, v):
        if v[0] == 'i':
            i = self.f.ins[v[1]]
            if i.op in ('mul', 'shl', 'zext', 'trunc', 'sext', 'add', 'sub'):
                return ('op', i.op) + tuple(('c', int(a[1]), a[2]) if a[0] == 'c' else a for a in i.args)
        return v

    def by_count(self, st, v):
        """a number of bytes computed from the count"""
        v = self.res(v)
        if v[0] == 'op' and v[1] in ('mul', 'shl') and v[3][0] == 'c':
            x = self.strip(v[2])
            while self.res(x) != x and self.res(x)[1] in ('zext', 'trunc', 'sext'):
                x = self.res(x)[2]
            return self.counted(st, x) or x == self.get(st, 'last')
        return False

    def derived(self, st, v, i):
        """computed from the size of the storage as it is now"""
        for x in leafset(v):
            if x[0] == 'i':
                j = self.f.ins[x[1]]
                if j.op == 'load':
                    b, tag, tags = address(self.f, j.args[0])
                    if b == self.R and (self.M.field(tag) or '') in ('mr_ic_rarray_t.size', 'mr_tree_t.size'):
                        return True
                if j.op == 'call' and any(self.addr_root(self.canon(st, a)) == self.R for a in j.args):
                    return True
        sz = self.memsize(st)
        return sz is not None and bool(leafset(v) & leafset(sz))

    def memsize(self, st):
        for (a, n, ty), v in st.mem.items() if False else ():
            pass
        for k, v in st.mem.items():
            if k[0] != 'zero' and self.addr_root(k[0]) == self.R and self.name(k[0]) in ('mr_ic_rarray_t.size', 'mr_tree_t.size'):
                return v
        return None

    def on_call(self, st, i):
        c = self.f.callee(i) or ''
        p = self.prog
        args = [self.canon(st, a) for a in i.args]
        if c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
            d = args[0]
            if d == self.R:
                n = self.constof(st, args[2])
                if n and n > self.M.off_store:
                    # the whole collection is replaced
                    self.events += 1
                    st.ts = (0, 0, None, False, False, frozenset(), None, None, None)
                return None
            w = self.mine(d)
            if w is None:
                r = self.addr_root(d)
                if r[0] == 'i' and c.startswith('llvm.memmove') and self.static_place(st, d):
                    self.events += 1
                    self.put(st, s=self.diff(st, 1))
                return None
            if isinstance(w, tuple):
                if c.startswith('llvm.memset'):
                    self.put(st, rs=True)
                elif self.constof(st, args[2]) == 8:
                    z = self.abs(st, self.value_at(st, args[1]))
                    self.slot(st, i, w, bool(z and z == ('=', 0)), d)
            elif d[0] == 'gep' and d[2] >= self.M.off_store:
                self.events += 1
                if c.startswith('llvm.memset'):
                    self.put(st, rs=True)
                elif 'static_array' in w or d[3]:
                    if c.startswith('llvm.memmove') and self.constof(st, args[2]) != 8:
                        self.put(st, s=self.diff(st, 1))
                    else:
                        self.static(st, i, False)
            return None
        if not c or c not in p.defined:
            return None
        touch = [k for k, a in enumerate(args) if self.addr_root(a) == self.R and a != self.R and a[0] == 'gep' and a[2] >= self.M.off_store]
        if not touch:
            if self.R in args:
                k = self.M.syncs(c)
                if k == 'all':
                    self.start(st)
                elif k:
                    self.put(st, dirty=None)
            return None
        w = [self.name(args[k]) for k in touch]
        status = p.defined[c].ditypes and p.defined[c].ditypes[0] == 'mr_status_t' and any(self.M.writes_size(c, k) and not self.M.empties(c, k) for k in touch)
        if self.M.grows(c) or status:
            self.events += 1
            # nothing moved when it reports failure
            s2 = st.copy()
            for s in (st, s2):
                self.kill_call(s, i)
            zero, other = ('=', 0), ('!', frozenset((0,)))
            st.env[i.v], s2.env[i.v] = (zero, other) if status else (other, zero)
            self.put(st, dirty='size', why=None if self.M.compares(c) else 'grow')
            return [st, s2]
        for k in touch:
            if self.M.writes_size(c, k):
                self.events += 1
                if self.M.empties(c, k):
                    self.put(st, dirty=None if self.get(st, 'last') and self.get(st, 'last')[:2] == ('c', 0) else 'zero', rs=True)
                else:
                    self.put(st, dirty='size')
        return None

    def static_place(self, st, d):
        r = self.addr_root(d)
        i = self.f.ins.get(r[1])
        return i is not None and i.op == 'call' and self.M.kind == 'mr_ic_static_array_t'

    def value_at(self, st, a):
        for k, v in st.mem.items():
            if k[0] == a:
                return v
        if self.is_alloca(self.addr_root(a)):
            for k, v in st.mem.items():
                if k[0] != 'zero' and self.addr_root(k[0]) == self.addr_root(a):
                    return v
        return a

    def branch(self, st, t):
        r = Explorer.branch(self, st, t)
        if t.op == 'br' and len(t.raw['s']) == 2 and t.raw['s'][0] != t.raw['s'][1]:
            c = self.canon(st, t.args[0])
            if any(reads_result(self.M, self.f, x) for x in leafset(c)):
                for s, s2 in r:
                    self.put(s2, why='local')
            for s, s2 in r:
                want = s == t.raw['s'][0]
                # a slot that compares equal to zero
                x = c
                w = want
                while x[0] == 'op' and x[1] in ('zext', 'trunc', 'xor'):
                    if x[1] == 'xor':
                        if not (x[3][0] == 'c' and x[3][1] in (1, -1)):
                            break
                        w = not w
                    x = x[2]
                if x[0] == 'op' and x[1] == 'icmp' and x[2] in ('eq', 'ne'):
                    a, b = x[3], x[4]
                    if b[0] in ('i', 'op') and a[0] in ('c', 'n'):
                        a, b = b, a
                    if (b[0] == 'n' or b[0] == 'c' and b[1] == 0):
                        z = w == (x[2] == 'eq')
                        k = self.slot_of(s2, a)
                        if k and z:
                            self.put(s2, empty=self.get(s2, 'empty') | {k})
                        if self.top_of(a):
                            self.put(s2, zk=0 if z else 1)
                elif self.top_of(x):
                    self.put(s2, zk=1 if w else 0)
        return r

    def slot_of(self, st, v):
        if v[0] == 'i' and self.f.ins[v[1]].op == 'load':
            a = self.canon(st, self.f.ins[v[1]].args[0])
            w = self.mine(a)
            if isinstance(w, tuple):
                return (w[1], w[2] // 8 * 8)
        return None

    def top_of(self, v):
        """the flag kept in the top bit next to the size of the table"""
        while v[0] == 'op' and v[1] in ('trunc', 'zext'):
            v = v[2]
        if v[0] == 'op' and (v[1] == 'lshr' and v[3][:2] == ('c', 63) or v[1] == 'and' and v[3][0] == 'c' and v[3][1] & ~0 in (-TOP, TOP)):
            return any(x[0] == 'i' and self.f.ins[x[1]].op == 'load' and self.is_field(self.f.ins[x[1]].args[0], 'mr_ic_hash_t.size') or x[0] == 'i' and self.f.ins[x[1]].op == 'load' and self.is_field(self.f.ins[x[1]].args[0], 'mr_ic_hash_t.zero_key') for x in leafset(v))
        if v[0] == 'op' and v[1] == 'lshr' and v[3][0] == 'c':
            return self.top_of(v[2]) if False else False
        return False

    def on_ret(self, st, t, val):
        a = self.abs(st, val) if val is not None else None
        if val is not None and val[0] == 'n':
            a = ('=', 0)
        self.rets.append((st.ts, a, val, st.trail, {k: v for k, v in st.env.items() if k[0] == 'i' and k[1] in self.f.ins and self.f.ins[k[1]].op == 'call'}, frozenset(x for k in st.env for x in leafset(k))))

    def keep(self, st):
        r = []
        for k, o in self.get(st, 'empty'):
            for x, _ in k:
                r += [y for y in leafset(x) if y[0] == 'i']
        l = self.get(st, 'last')
        if l:
            r += [y for y in leafset(l) if y[0] == 'i']
        for k in st.env:
            if k[0] == 'i' and k[1] in self.f.ins and self.f.ins[k[1]].op == 'call':
                r.append(k)
        return r


def signed(n):
    return n - (1 << 32) if (1 << 31) <= n < (1 << 32) else n


def bit63(v):
    """1, 0 or None (unchanged or unknown)"""
    if v[0] == 'c':
        return (v[1] >> 63) & 1
    if v[0] == 'op':
        if v[1] == 'or':
            x, y = bit63(v[2]), bit63(v[3])
            return 1 if 1 in (x, y) else 0 if x == y == 0 else None
        if v[1] == 'and':
            x, y = bit63(v[2]), bit63(v[3])
            return 0 if 0 in (x, y) else None
        if v[1] == 'zext':
            return 0
        if v[1] == 'shl' and v[3][:2] == ('c', 63):
            return None
    return None


# ---------------------------------------------------------------- comparison and context belong together
def pairing(c, M, p):
    n = 0
    for name, f in sorted(p.defined.items()):
        for i in f.instrs():
            if i.op == 'call':
                cop = T(i.raw.get('c') or ()) if f.callee(i) is None else None
                x = source(f, cop) if cop else None
                fn = M.field(x[1]) if x else None
                if fn in (IC + '.compar_fn', 'mr_ic_hash_t.hash_fn'):
                    n += 1
                    c.ok('context')
                    if not own_context(M, f, i.args[-1], x[0]):
                        c.report('context:%s' % name, 'context', i.where(), 'a comparison or hash of a collection is called with a context that is not the collection\'s own')
                if cop and cop[0] == 'a' and i.ty == 'i32' and len(i.args) == 3:
                    n += 1
                    c.ok('context')
                    if const_int(i.args[-1]) is not None or i.args[-1][0] == 'n':
                        c.report('context:%s' % name, 'context', i.where(), 'a comparison is called without the context that was handed in with it')
                for a in i.args:
                    y = source(f, a)
                    if y and M.field(y[1]) in (IC + '.compar_fn', 'mr_ic_hash_t.hash_fn'):
                        n += 1
                        c.ok('context')
                        if not any(own_context(M, f, b, y[0]) for b in i.args):
                            c.report('context:%s' % name, 'context', i.where(), 'the comparison of a collection is handed on without the context of that collection')
                        if f.callee(i) in M.news and M.field(y[1]) == IC + '.compar_fn':
                            if not any((lambda z: z and M.field(z[1]) == IC + '.key_type' and same(f, z[0], y[0]))(source(f, b)) for b in i.args):
                                c.report('context:%s:key' % name, 'context', i.where(), 'a collection that takes over from another one is not given its type of keys')
            elif i.op == 'store':
                y = source(f, i.args[0])
                if y and M.field(y[1]) == IC + '.compar_fn':
                    n += 1
                    c.ok('context')
                    to = address(f, i.args[1])
                    mates = [j for j in f.instrs() if j.op == 'store' and same(f, address(f, j.args[1])[0], to[0]) and own_context(M, f, j.args[0], y[0])]
                    if not mates:
                        c.report('context:%s' % name, 'context', i.where(), 'the comparison of a collection is recorded without the context of that collection')
    return n


def own_context(M, f, a, base):
    x = source(f, a)
    if x and 'data' in (M.field(address(f, f.ins[a[1]].args[0])[2][-1]) or '' ) or x and any(M.field(t) == IC + '.context' for t in x[2]):
        return any(M.field(t) == IC + '.context' for t in x[2]) and same(f, x[0], base)
    y = address(f, a)
    return bool(y[2]) and M.field(y[2][0]) == IC + '.context' and len(y[2]) == 1 and same(f, y[0], base)


def run(c):
    c.rule('table', 'every implementation has all six operations, every operation works on the storage of its own implementation only, and creating a collection of a kind installs the operations of that kind')
    c.rule('new', 'a constructor that succeeds has set every byte of the new collection, with the count at zero')
    c.rule('context', 'a collection is always compared and hashed with its own context, also when a comparison is handed on or the collection is replaced by another kind')
    c.rule('count', 'whatever path an operation takes, the count of items moves exactly with what is stored')
    c.rule('empty', 'a key is stored only in a place that was seen to be free')
    c.rule('unique', 'an operation adds a key only after a comparison or lookup answered that it is not there')
    c.rule('find', 'a lookup reports an element if and only if a comparison with it answered equal')
    c.rule('fail', 'an addition that fails leaves the count and what is stored as they were')
    p, F = c.prog('plain'), c.fail('plain')
    M = Model(p, F)
    c.require(M.off.get('items_count') is not None, 'layout of the collections')
    # storage begins behind the fixed part
    M.off_store = M.off['virt_func'] + 8
    total = (p.ditypes.get(IC) or {}).get('size') or 80
    vt = {m[0]: m[1] for m in (p.ditypes.get('mr_ic_virt_func_t') or {}).get('m', [])}
    c.require(all(o in vt for o in OPS), 'table of operations of the collections')
    tabs = {n: g for n, g in p.globals.items() if g.get('dt', g.get('ty', '')).startswith('mr_ic_virt_func_t') and g.get('init') and not g.get('decl')}
    c.require(len(tabs) >= 4, 'implementations of the collections')
    M.slots = {o: set() for o in OPS}
    entries = {}
    for n, g in tabs.items():
        e = {}
        for o, sz, x in g['init']:
            for k in OPS:
                if vt[k] == o and x[0] == 'F':
                    e[k] = x[1]
                    M.slots[k].add(x[1])
        entries[n] = e
    M.news = {}
    for name, f in sorted(p.defined.items()):
        if f.ditypes and f.ditypes[0] == 'mr_status_t' and len(f.ditypes) > 1 and f.ditypes[1] == IC + '*':
            t = {a for i in f.instrs() if i.op == 'store' for a in globs(i.args[0])} & set(tabs)
            if len(t) == 1:
                M.news[name] = t.pop()
    kinds = {}
    types = {}
    for n in sorted(tabs):
        c.ok('table')
        for k in OPS:
            if k not in entries[n]:
                c.report('table:%s:%s' % (n, k), 'table', n, 'an implementation has no operation %s' % k)
        makers = [x for x, t in M.news.items() if t == n]
        if not makers:
            c.report('table:%s:new' % n, 'table', n, 'no constructor installs this table of operations')
            continue
    for name, n in sorted(M.news.items()):
        f = p.defined[name]
        e = New(M, f)
        e.run()
        c.require(e.rets, 'successful paths of %s' % name)
        for (b, ty, vf, cnt, sto), tr in e.rets:
            c.ok('new')
            gap = sorted(set(range(total)) - b)
            if gap:
                c.report('new:%s' % name, 'new', name, 'the constructor succeeds without setting bytes %d to %d of the collection' % (gap[0], gap[-1]), c.path_text(f, tr))
                break
            if not (cnt and cnt[0] == 'c' and cnt[1] == 0):
                c.report('new:%s:count' % name, 'new', name, 'a new collection does not count zero items', c.path_text(f, tr))
            if ty and ty[0] == 'c':
                types.setdefault(name, set()).add(ty[1])
            elif not (ty and ty[0] == 'call'):
                c.report('new:%s:type' % name, 'new', name, 'a new collection does not record its kind', c.path_text(f, tr))
        kinds[n] = storage(M, f)
    for n in tabs:
        if not kinds.get(n):
            # set up as plain memory: the storage its operations agree on
            k = [tuple(sorted(storage(M, p.defined[x]))) for x in entries[n].values() if x in p.defined]
            k = [x for x in k if x]
            kinds[n] = set(max(set(k), key=k.count)) if k else set()
    # one kind per constructor, one constructor per kind
    seen = {}
    for name, t in sorted(types.items()):
        c.ok('table')
        if len(t) != 1:
            c.report('table:%s:kind' % name, 'table', name, 'a constructor records different kinds on different paths')
        for x in t:
            if x in seen and M.news[seen[x]] != M.news[name]:
                c.report('table:%s:kind' % name, 'table', name, 'two constructors record the same kind but install different operations')
            seen[x] = name
    # the dispatcher
    disp = 0
    for name, f in sorted(p.defined.items()):
        called = {f.callee(i) for i in f.calls()} & set(M.news)
        if len(called) < 3 or 'mr_ic_type_t' not in f.ditypes[1:]:
            continue
        k = f.ditypes[1:].index('mr_ic_type_t')
        e = Dispatch(M, f, k)
        e.run()
        got = {}
        for callee, kind, where in e.calls:
            disp += 1
            c.ok('table')
            got.setdefault(kind, set()).add(callee)
            if callee in types and kind is not None and types[callee] != {kind}:
                c.report('table:%s' % name, 'table', where, 'the constructor that is called makes a collection of another kind than asked for')
        for callee, t in types.items():
            for x in t:
                if x not in got:
                    c.report('table:%s:%d' % (name, x), 'table', name, 'no collection of the kind that %s makes can be created' % callee)
    c.require(disp >= 4, 'creation of collections by kind')
    # every operation on its own storage
    for n in sorted(tabs):
        own = set()
        for k in OPS:
            fn = entries[n].get(k)
            if fn in p.defined:
                s = storage(M, p.defined[fn])
                c.ok('table')
                want = kinds.get(n) or set()
                if s and want and not all(x in want or x == 'array' and want & set(SHAPE) or x in SHAPE and want == {'array'} for x in s):
                    c.report('table:%s:%s' % (n, k), 'table', fn, 'operation %s works on the storage of another implementation (%s instead of %s)' % (k, ', '.join(sorted(s)), ', '.join(sorted(want))))
    # paths
    todo = []
    M.kind = None
    for name, f in sorted(p.defined.items()):
        if name in M.news:
            continue
        for k, d in enumerate(f.ditypes[1:]):
            if d == IC + '*':
                todo.append((name, k))
    c.require(len(todo) >= 25, 'operations of the collections')
    rep = {}

    def report(e, st, i, rule, what):
        rep.setdefault((rule, e.f.name), (i.where(), what, c.path_text(e.f, st.trail)))
    for name, k in todo:
        f = p.defined[name]
        M.kind = None
        for n in tabs:
            if name in entries[n].values() and len(kinds.get(n) or ()) == 1:
                M.kind = sorted(kinds[n])[0]
        e = Coll(M, f, k, report)
        e.run()
        if e.overflow:
            c.report('count:%s:paths' % name, 'count', name, 'too many paths')
        slots = {o for o in OPS if name in M.slots[o]}
        for ts, a, val, tr, env, leaves in e.rets:
            n, df, dirty, rn, rs, empty, zk, last, why = ts
            if e.events:
                c.ok('count')
                if dirty:
                    c.report('count:%s' % name, 'count', name, 'the number of stored elements may have changed and the count of items was not brought up to date', c.path_text(f, tr))
                elif rs and not rn and not (last and M.kind == 'mr_tree_t'):
                    c.report('count:%s' % name, 'count', name, 'what is stored is given up but the count of items stays', c.path_text(f, tr))
                elif not rn and df or rn and df and M.kind != 'mr_ic_static_array_t' and not (rs or zk == 0):
                    c.report('count:%s' % name, 'count', name, 'the count of items moves by %+d against what is stored' % df, c.path_text(f, tr))
            null = a is not None and a == ('=', 0)
            if 'add' in slots or (f.rty == 'ptr' and e.events and k == 0):
                c.ok('fail')
                if null and not rn and (n or df):
                    c.report('fail:%s' % name, 'fail', name, 'the addition fails but the count of items has changed', c.path_text(f, tr))
            if 'add' in slots and why == 'grow' and not null:
                c.ok('unique')
                if not any(compared(M, f, x) and env.get(x) is not None for x in env):
                    c.report('unique:%s' % name, 'unique', name, 'a key is added on a path where no comparison answered', c.path_text(f, tr))
            if 'find' in slots:
                c.ok('find')
                eq = [x for x in env if compared(M, f, x) and equal(f, x, env[x])]
                local = why == 'local' or any(compared(M, f, x) and equal(f, x, env[x]) is None for x in env) or val is not None and any(reads_result(M, f, x) for x in leafset(val))
                if local:
                    continue
                if null and eq:
                    c.report('find:%s' % name, 'find', name, 'a lookup reports nothing although a comparison answered equal', c.path_text(f, tr))
                if not null and not eq:
                    c.report('find:%s' % name, 'find', name, 'a lookup reports an element although no comparison answered equal', c.path_text(f, tr))
    for (rule, name), (where, what, path) in sorted(rep.items()):
        c.report('%s:%s' % (rule, name), rule, where, what, path)
    c.ok('empty', max(1, len(todo)))
    pairing(c, M, p)
    c.floor('table', 30)
    c.floor('new', 10)
    c.floor('context', 20)
    c.floor('count', 25)
    c.floor('find', 8)
    c.floor('unique', 3)


def compared(M, f, x):
    i = f.ins[x[1]]
    n = f.callee(i)
    if n is None:
        return M.iscmp(f, i)
    return n in M.p.defined and M.compares(n)


def equal(f, x, a):
    """whether the result of a comparing call means that an equal element was found; None when its kind of answer is not known"""
    i = f.ins[x[1]]
    n = f.callee(i)
    d = f.prog.defined[n].ditypes[0] if n in f.prog.defined and f.prog.defined[n].ditypes else ''
    if n is None and i.ty == 'i32' or d == 'int':
        return a == ('=', 0)
    if i.ty == 'ptr':
        return a[0] == '!' and 0 in a[1]
    return None


def reads_result(M, f, x):
    """read from a local record that a comparing helper filled in"""
    if x[0] != 'i' or f.ins[x[1]].op != 'load':
        return False
    b = address(f, f.ins[x[1]].args[0])[0]
    if b[0] != 'i' or f.ins[b[1]].op != 'alloca':
        return False
    return any(i.op == 'call' and compared(M, f, i.v if False else ('i', i.id)) and any(address(f, a)[0] == b for a in i.args) for i in f.calls())


def globs(o):
    if isinstance(o, tuple):
        if len(o) >= 2 and o[0] == 'g' and isinstance(o[1], str):
            return [o[1]]
        return [x for y in o for x in globs(y)]
    return []


SHAPE = ('mr_ic_rarray_t', 'mr_tree_t')
STORES = ('mr_ic_rarray_t', 'mr_ic_hash_t', 'mr_ic_static_array_t', 'mr_tree_t')


def storage(M, f):
    """kinds of storage behind the fixed part of the collection (first parameter) that a function touches"""
    r = set()
    for i in f.instrs():
        if i.op == 'getelementptr':
            b, tag, tags = address(f, i.v)
            if b == ('a', 0):
                # the compiler gives the growing array and the tree one shape
                r |= {'array' if t[0] in SHAPE else t[0] for t in tags if t[0] in STORES}
        elif i.op == 'call' and f.callee(i) in M.p.defined:
            d = M.p.defined[f.callee(i)].ditypes
            for k, a in enumerate(i.args):
                b, tag, tags = address(f, a)
                if b == ('a', 0) and tags and k + 1 < len(d) and d[k + 1].rstrip('*') in STORES:
                    r.add(d[k + 1].rstrip('*'))
    return r


class Dispatch(Explorer):
    cap = 60

    def __init__(self, M, f, k):
        Explorer.__init__(self, M.p, f, M.F.mods)
        self.M = M
        self.k = k
        self.calls = set()

    def start(self, st):
        st.ts = None

    def on_call(self, st, i):
        n = self.f.callee(i)
        if n in self.M.news:
            a = self.abs(st, ('a', self.k))
            self.calls.add((n, a[1] if a and a[0] == '=' else None, i.where()))
        return None
