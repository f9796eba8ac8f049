"""Ownership: who holds each block, from the call that produced it to its release or hand-over, on every path."""
import collections
from ir import T, gep_parts, leaves, const_int
from paths import Explorer, State, Contradiction
from fail import FailEdge
from par import pmap


def flow_uses(f, v, members=True):
    """instructions using v or a value that is v (casts, phis, selects, zero-offset addresses)"""
    seen = {v}
    work = [v]
    out = []
    while work:
        x = work.pop()
        for u in f.uses.get(x, ()):
            if u.op in ('phi', 'select', 'bitcast') or (u.op == 'getelementptr' and u.args[0] == x):
                if u.op == 'select' and x == u.args[0] or u.op == 'getelementptr' and not members and any(s[0] == 'f' for s in u.raw['g']):
                    continue
                if u.v not in seen:
                    seen.add(u.v)
                    work.append(u.v)
            out.append((u, x))
    return out, seen


def const_addr(f, v):
    """(base, constant offset) of an address, offset None when it varies"""
    off = 0
    while True:
        if v[0] == 'i':
            i = f.ins[v[1]]
            if i.op == 'getelementptr':
                o = i.raw.get('off')
                off = None if off is None or o is None else off + o
                v = i.args[0]
                continue
            if i.op == 'bitcast':
                v = i.args[0]
                continue
            if i.op == 'load' and i.ty == 'ptr' and off is not None:
                w = kept_argument(f, i.args[0])
                if w is not None:
                    return w, off
        elif v[0] == 'e' and v[1] in ('getelementptr', 'bitcast'):
            if v[1] == 'getelementptr':
                o = v[4] if len(v) > 4 else None
                off = None if off is None or o is None else off + o
            v = v[2][0]
            continue
        return v, off


_KEPT = {}


def kept_argument(f, addr):
    """the parameter or address of a local object that another local object holds at this address all the time"""
    k = (id(f), addr)
    if k not in _KEPT:
        _KEPT[k] = None
        b, off = const_addr(f, addr)
        if b[0] == 'i' and f.ins[b[1]].op == 'alloca' and off is not None and b[1] not in escaping(f):
            vals = {i.args[0] for i in f.instrs() if i.op == 'store' and const_addr(f, i.args[1])[0] == b}
            if len(vals) == 1:
                w = vals.pop()
                _KEPT[k] = w if w[0] == 'a' or w[0] == 'i' and f.ins[w[1]].op == 'alloca' else None
    return _KEPT[k]


class Own:
    def __init__(self, prog, F):
        self.prog = prog
        self.F = F
        self.alloc = F.alloc
        self.consume = collections.defaultdict(set)
        self.fill = collections.defaultdict(set)
        self.release = collections.defaultdict(set)
        self.fresh = set()
        self.ftag = collections.defaultdict(set)
        self.build()

    def is_alloca(self, f, v):
        return v[0] == 'i' and f.ins[v[1]].op == 'alloca'

    def tg(self, f, i):
        """possible callees; for calls through pointers only those declared to take what is passed"""
        k = (f.name, i.id)
        if k not in self._tg:
            ts = self.prog.targets(f, i)
            if not f.callee(i):
                ts = [t for t in ts if self.agrees(f, i, t)] or ts
            self._tg[k] = ts
        return self._tg[k]

    def agrees(self, f, i, t):
        g = self.prog.defined.get(t)
        if not g:
            return True
        d = g.raw.get('ditypes') or []
        for k, a in enumerate(i.args):
            x, y = self.record(f, a), d[1 + k].replace('const ', '').replace('*', '').strip() if 1 + k < len(d) and d[1 + k] else None
            if x and y and y.endswith('_t') and x != y and y in self.prog.ditypes and x in self.prog.ditypes:
                return False
        return True

    def record(self, f, v):
        """name of the record type an argument points to"""
        if v[0] == 'a':
            d = f.raw.get('ditypes') or []
            x = d[1 + v[1]] if 1 + v[1] < len(d) else None
            return x.replace('const ', '').replace('*', '').strip() if x and x.count('*') == 1 else None
        if self.is_alloca(f, v):
            x = {r[2] for r in f.raw.get('vars', ()) if tuple(r[0]) == v and r[3] == 1}
            return x.pop() if len(x) == 1 else None
        return None

    def build(self):
        self._tg = {}
        p = self.prog
        fs = list(p.defined.items())
        ch = True
        while ch:
            ch = False
            for n, f in fs:
                # parameters consumed
                for k in range(f.nargs):
                    if f.raw['aty'][k] != 'ptr' or k in self.consume[n]:
                        continue
                    if self.consumed(f, ('a', k)):
                        self.consume[n].add(k)
                        ch = True
                for i in f.instrs():
                    if i.op == 'call':
                        c = f.callee(i)
                        if c and c.startswith('llvm.memcpy'):
                            d, do = const_addr(f, i.args[0])
                            s, so = const_addr(f, i.args[1])
                            z = const_int(i.args[2])
                            if d[0] == 'a' and do is not None and so is not None and z and self.is_alloca(f, s):
                                for _, o in self.fills_of(f, s):
                                    if o is not None and so <= o < so + z:
                                        ch |= self.note_fill(n, d[1], o - so + do, {None})
                            continue
                        kd = self.alloc.kind(f, i)
                        if kd in ('free', 'realloc'):
                            ch |= self.note_release(n, f, i.args[3])
                        for t in self.tg(f, i):
                            for k, off in list(self.release.get(t, ())):
                                if k < len(i.args):
                                    ch |= self.compose(self.release, n, f, i.args[k], off)
                            for k, off in list(self.fill.get(t, ())):
                                if k < len(i.args):
                                    b, o = const_addr(f, i.args[k])
                                    if b[0] == 'a':
                                        ch |= self.note_fill(n, b[1], None if o is None or off is None else o + off, {x or self.tag(f, i.args[k]) for x in self.ftag[t, k, off]})
                    elif i.op == 'store' and i.raw['st'] == 'ptr':
                        if self.is_fresh_value(f, i.args[0]):
                            b, off = const_addr(f, i.args[1])
                            if b[0] == 'a':
                                ch |= self.note_fill(n, b[1], off, {self.tag(f, i.args[1])})
                    elif i.op == 'ret' and i.args and f.rty == 'ptr' and n not in self.fresh:
                        if self.returns_fresh(f, i.args[0]):
                            self.fresh.add(n)
                            ch = True

    def visitor_fills(self, f, i, t, k, off):
        """what reaches an untyped context argument is what the function passed along with it does"""
        g = self.prog.defined.get(t)
        d = (g.raw.get('ditypes') or []) if g else []
        if k + 1 >= len(d) or (d[1 + k] or '').replace('const', '').strip() not in ('void*', 'void *', 'mr_ptr_t'):
            return True
        fs = [a[1] for a in i.args if a[0] == 'F']
        if not fs:
            return True
        return any(o == off for x in fs for _, o in self.fill.get(x, ()))

    def tag(self, f, addr):
        b, st = gep_parts(f, addr)
        t = [self.prog.field_name(x[1], x[2]) for x in st if x[0] == 'f']
        return t[-1] if t and not t[-1].startswith('anon') and '@' not in t[-1] else None

    def note_fill(self, n, k, off, tags):
        new = (k, off) not in self.fill[n] or not tags <= self.ftag[n, k, off]
        self.fill[n].add((k, off))
        self.ftag[n, k, off] |= tags
        return new

    def fits(self, f, a, off, tags):
        """can what a callee fills be the field at this offset of a local record"""
        T = self.record(f, a)
        if T is None or off is None or T not in self.prog.ditypes or None in tags:
            return True
        x = self.fields_at(T, off)
        if x and x[-1].endswith('.'):
            return True                 # one of the forms of an anonymous union
        for t in tags:
            s, m = t.split('.', 1)
            if t in x or any(y.split('.', 1)[0] == s and m.startswith('@') for y in x):
                return True
            for y in x:
                if self.alike(s, y.split('.')[0]):
                    return True
        return False

    def alike(self, a, b):
        x, y = self.prog.ditypes.get(a), self.prog.ditypes.get(b)
        if not x or not y:
            return True
        return x['size'] == y['size'] and [m[1:3] for m in x['m'] if not m[6]] == [m[1:3] for m in y['m'] if not m[6]]

    def compose(self, m, n, f, arg, off):
        b, o = const_addr(f, arg)
        if b[0] == 'a':
            x = (b[1], None if o is None or off is None else o + off)
            if x not in m[n]:
                m[n].add(x)
                return True
        return False

    def note_release(self, n, f, v):
        ch = False
        for l in self.origins(f, v):
            if l[0] == 'i' and f.ins[l[1]].op == 'load':
                b, off = const_addr(f, f.ins[l[1]].args[0])
                if b[0] == 'a' and (b[1], off) not in self.release[n]:
                    self.release[n].add((b[1], off))
                    ch = True
        return ch

    def origins(self, f, v):
        seen = set()
        work = [v]
        out = []
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x[0] == 'i':
                i = f.ins[x[1]]
                if i.op == 'phi':
                    work += [a[0] for a in i.args]
                    continue
                if i.op == 'select':
                    work += list(i.args[1:])
                    continue
                if i.op in ('bitcast',) or (i.op == 'getelementptr' and i.raw.get('off') == 0):
                    work.append(i.args[0])
                    continue
            out.append(x)
        return out

    def is_source(self, f, i):
        """call i yields a block its caller owns"""
        if i.op != 'call' or i.ty != 'ptr':
            return False
        if self.alloc.kind(f, i) in ('calloc', 'realloc'):
            return True
        ts = self.tg(f, i)
        return bool(ts) and any(t in self.fresh for t in ts)

    def is_fresh_value(self, f, v):
        return any(o[0] == 'i' and self.is_source(f, f.ins[o[1]]) for o in self.origins(f, v))

    def returns_fresh(self, f, v):
        for o in self.origins(f, v):
            if o[0] != 'i':
                continue
            i = f.ins[o[1]]
            if self.is_source(f, i) and not self.stored(f, i.v):
                return True
            if i.op == 'load':
                b, off = const_addr(f, i.args[0])
                if self.is_alloca(f, b):
                    # a local container handed out
                    for u in self.fills_of(f, b):
                        if u[1] == off:
                            return True
        return False

    def fields_at(self, T, off):
        """names of the members at an offset of a record, outermost first"""
        out = []
        while T in self.prog.ditypes:
            nxt = None
            for x in self.prog.ditypes[T]['m']:
                if x[1] <= off < x[1] + max(1, x[2] // 8) and not x[6]:
                    out.append('%s.%s' % (T, x[0]))
                    nxt, off = x[5] or None, off - x[1]
                    break
            T = nxt
        return out

    def owned_field(self, f, a, off):
        """can the field at this offset of a local record be the only holder of a block"""
        T = self.record(f, a)
        if T is None or off is None or T not in self.prog.ditypes:
            return True
        x = self.fields_at(T, off)
        for i in f.instrs():
            if i.op == 'store' and i.raw['st'] == 'ptr' and const_addr(f, i.args[1]) == (a, off) and self.is_alloca(f, const_addr(f, i.args[0])[0]):
                return False        # a record laid over a local object
        return not ('mr_ic_t.context' in x or any(t.split('.')[0] == 'mr_res_t' and len(x) > 1 for t in x[:1]))

    def fills_of(self, f, a):
        """[(instr, offset)] events that put a fresh block into local object a"""
        out = []
        for i in f.instrs():
            if i.op == 'store' and i.raw['st'] == 'ptr':
                b, off = const_addr(f, i.args[1])
                if b == a and self.is_fresh_value(f, i.args[0]):
                    out.append((i, off))
            elif i.op == 'call':
                for t in self.tg(f, i):
                    for k, o in self.fill.get(t, ()):
                        if k < len(i.args):
                            b, off = const_addr(f, i.args[k])
                            at = None if off is None or o is None else off + o
                            if b == a and self.visitor_fills(f, i, t, k, o) and self.owned_field(f, a, at) and self.fits(f, a, at, self.ftag[t, k, o]):
                                out.append((i, None if off is None or o is None else off + o))
                    # a growing array registered with a stream that writes to it
                    for k in self.consume.get(t, ()):
                        if k < len(i.args) and i.args[k] == a and self.record(f, a) == 'mr_rarray_t' and t in self.prog.defined:
                            for m in self.prog.ditypes['mr_rarray_t']['m']:
                                if m[0] == 'data':
                                    out.append((i, m[1]))
        return out

    def stored(self, f, v):
        """v (as a value) is stored into memory that outlives the function, or freed"""
        uses, _ = flow_uses(f, v)
        for u, x in uses:
            if u.op == 'store' and u.args[0] == x:
                b, _o = const_addr(f, u.args[1])
                if not self.is_alloca(f, b):
                    return True
        return False

    def same_thing(self, f, v):
        """a returned argument is the argument itself, not a part of the record it points to"""
        d = f.raw.get('ditypes') or []
        if v[0] != 'a' or 1 + v[1] >= len(d) or not d[0] or not d[1 + v[1]]:
            return True
        x, y = [t.replace('const ', '').replace('*', '').strip() for t in (d[0], d[1 + v[1]])]
        return x == y or not (x.endswith('_t') and y.endswith('_t'))

    def consumed(self, f, v):
        uses, _ = flow_uses(f, v, False)
        for u, x in uses:
            if u.op == 'store' and u.args[0] == x:
                b, _o = const_addr(f, u.args[1])
                if not self.is_alloca(f, b):
                    return True
                if b[1] in escaping(f):
                    return True
            elif u.op == 'ret':
                if self.same_thing(f, v):
                    return True
            elif u.op == 'call':
                kd = self.alloc.kind(f, u)
                if kd in ('free', 'realloc') and u.args[3] == x:
                    return True
                for t in self.tg(f, u):
                    if any(k < len(u.args) and u.args[k] == x for k in self.consume.get(t, ())):
                        return True
        return False


_ESC = {}


def escaping(f):
    """local objects whose address or content leaves the function other than by a plain load"""
    key = id(f)
    if key not in _ESC:
        r = set()
        for i in f.instrs():
            if i.op == 'alloca':
                uses, _ = flow_uses(f, i.v)
                for u, x in uses:
                    if u.op == 'store' and u.args[0] == x or u.op == 'ret':
                        r.add(i.id)
                    if u.op == 'call':
                        r.add(i.id)
        _ESC[key] = r
    return _ESC[key]


class LeakEdge(FailEdge):
    """follows one owned block from the call that produced it; records paths that lose it"""
    max_steps = 15000
    cap = 24

    def __init__(self, prog, f, F, own, site):
        super().__init__(prog, f, F.mods, site, 0)
        self.own = own
        self.lost = []
        self.began = False
        self._k = set()

    def keep(self, st):
        return (self.site.v,)

    def lose(self, st, i, how):
        if (i.id, how) not in self._k:
            self._k.add((i.id, how))
            self.lost.append((i, how, st.trail))

    def mine(self, st, v):
        return self.addr_root(v) == self.site.v if v[0] == 'gep' else v == self.site.v

    def on_call(self, st, i):
        if i is self.site:
            if not self.began:
                self.began = True
                self.kill_call(st, i)
                st.env[i.v] = ('!', frozenset((0,)))
                st.ts = 'owned'
                return [st]
            if self.own.alloc.kind(self.f, i) == 'realloc' and (self.mine(st, self.canon(st, i.args[3])) or self.site.v in self.own.origins(self.f, i.args[3])):
                return []       # the block goes back in and a new one comes out
            if st.ts == 'owned':
                self.lose(st, i, 'is lost when the call is repeated')
            return []
        if st.ts != 'owned':
            return []
        c = self.f.callee(i)
        kd = self.own.alloc.kind(self.f, i)
        if kd in ('free', 'realloc') and self.mine(st, self.canon(st, i.args[3])):
            if kd == 'free':
                st.ts = None
                return []
            # resized: the old block is gone unless the result is NULL
            s2 = st.copy()
            self.kill_call(s2, i)
            s2.env[i.v] = ('=', 0)
            return [s2]
        for k, a in enumerate(i.args):
            v = self.canon(st, a)
            if v[0] in ('i', 'gep') and self.mine(st, v):
                ts = self.own.tg(self.f, i)
                for t in ts:
                    if k in self.own.consume.get(t, ()):
                        return []
                if not ts:
                    return []
            # a local object holding the block is handed to a function that may release or keep it
            r = self.addr_root(v) if v[0] in ('i', 'gep') else None
            if r and self.is_alloca(r) and self.holds(st, r):
                if c and c.startswith('llvm.memcpy'):
                    if k == 1:
                        d = self.addr_root(self.canon(st, i.args[0]))
                        if not self.is_alloca(d):
                            return []
                    continue
                if c and c.startswith('llvm.'):
                    continue
                for t in self.own.tg(self.f, i) or [None]:
                    if t is None or any(kk == k for kk, _ in self.own.release.get(t, ())) or k in self.own.consume.get(t, ()):
                        return []
                    if t in self.prog.defined and any(kk == k for kk, _ in self.own.fill.get(t, ())):
                        return []       # the container has become the owner: judged as a container
        return None

    def holds(self, st, r):
        return any(k[0] != 'zero' and self.addr_root(k[0]) == r and self.mine(st, w) for k, w in st.mem.items())

    def on_instr(self, st, i):
        if self.began and st.ts != 'owned':
            return []
        if self.began and i.op == 'store':
            val = self.canon(st, i.args[0])
            if val[0] in ('i', 'gep') and self.mine(st, val):
                r = self.addr_root(self.canon(st, i.args[1]))
                if not self.is_alloca(r) or r[1] in self.esc:
                    st.ts = None
                    return []
        return None

    def on_ret(self, st, i, val):
        if st.ts != 'owned':
            return
        if val is not None and val[0] in ('i', 'gep') and self.mine(st, val):
            return
        if val is not None and self.site.v in leaf_all(val):
            return
        if self.abs(st, self.site.v) == ('=', 0):
            return
        self.lose(st, i, 'is neither released nor handed over when the function returns')


def leaf_all(v):
    from paths import leafset
    return leafset(v)


TOKEN = ('i', -1)


class BoxEdge(LeakEdge):
    """follows a block held by a field of a local object, from a call that may have put it there"""

    def __init__(self, prog, f, F, own, site, box, off, outcome):
        super().__init__(prog, f, F, own, site)
        self.box = box              # alloca value
        self.off = off
        self.outcome = outcome      # 'ok' | 'fail'
        self.fl = F

    def keep(self, st):
        return (TOKEN, self.box)

    def mine(self, st, v):
        return v == TOKEN or (v[0] == 'gep' and self.addr_root(v) == TOKEN)

    def cell(self):
        return (('gep', self.box, self.off, (), None) if self.off else self.box, 8, 'ptr')

    def kill_call(self, st, i):
        had = self.began and st.ts == 'owned' and st.mem.get(self.cell()) == TOKEN
        super().kill_call(st, i)
        if had and not self.effect(i):
            st.mem[self.cell()] = TOKEN

    def put(self, st):
        a, n, t = self.cell()
        self.kill_store(st, a, n, t)
        for k in [k for k in st.mem if k[0] == 'zero' and self.addr_root(k[1]) == self.box]:
            self.split_zero(st, k, a, n)
        st.mem[(a, n, t)] = TOKEN
        st.env[TOKEN] = ('!', frozenset((0,)))

    def result(self, st, i, ok):
        v = self.fl.site(self.f, i)
        if v is None or v == 'sret' or i.ty == 'void':
            return
        if ok:
            if v == 'nz' or v == 1:
                st.env[i.v] = ('=', 0)
            elif v == -1:
                st.env[i.v] = ('=', 1)
            else:
                st.env[i.v] = ('!', frozenset((v,)))
        else:
            st.env[i.v] = ('!', frozenset((0,))) if v == 'nz' else ('=', v)

    def part(self, off):
        """member of the local record an offset belongs to"""
        T = self.own.record(self.f, self.box)
        x = self.own.fields_at(T, off) if T in self.prog.ditypes else []
        return x[0] if x else None

    def effect(self, i):
        """'fill', 'release', 'both', None: what call i does to the cell"""
        r = set()
        for k, a in enumerate(i.args):
            b, o = const_addr(self.f, a)
            if b != self.box:
                continue
            for t in self.own.tg(self.f, i):
                for m, s in ((self.own.fill, 'fill'), (self.own.release, 'release')):
                    for kk, oo in m.get(t, ()):
                        if kk == k and (oo is None or o is None or oo + o == self.off):
                            r.add(s)
                if t not in self.prog.defined and not t.startswith('llvm.') and (o is None or self.part(o) == self.part(self.off)):
                    r.add('gone')
        return r

    def on_call(self, st, i):
        if i is self.site and not self.began:
            self.began = True
            self.kill_call(st, i)
            self.result(st, i, self.outcome == 'ok')
            self.put(st)
            st.ts = 'owned'
            return [st]
        if st.ts != 'owned':
            return []
        c = self.f.callee(i)
        kd = self.own.alloc.kind(self.f, i)
        if kd in ('free', 'realloc'):
            if self.mine(st, self.canon(st, i.args[3])):
                if kd == 'free':
                    return []
                s2 = st.copy()
                self.kill_call(s2, i)
                s2.env[i.v] = ('=', 0)
                return [s2]
            return None
        if c and c.startswith('llvm.memcpy'):
            s = self.canon(st, i.args[1])
            n = self.constof(st, self.canon(st, i.args[2]))
            d = self.addr_root(self.canon(st, i.args[0]))
            if self.addr_root(s) == self.box and n is not None:
                so = s[2] if s[0] == 'gep' else 0
                if so <= self.off < so + n:
                    return []           # handed over with the whole structure
            return None
        if c and c.startswith('llvm.'):
            return None
        e = self.effect(i)
        if e:
            if 'gone' in e:
                return []
            if e == {'release'}:
                return []
            # appended to: still held when it succeeds; when it fails the callee's habit decides
            out = []
            ok = st.copy()
            self.kill_call(ok, i)
            self.result(ok, i, True)
            self.put(ok)
            out.append(ok)
            v = self.fl.site(self.f, i)
            if v is not None and v != 'sret' and self.habit(i) in ('keeps', 'mixed'):
                bad = st.copy()
                self.kill_call(bad, i)
                self.result(bad, i, False)
                self.put(bad)
                out.append(bad)
            return out
        for k, a in enumerate(i.args):
            v = self.canon(st, a)
            if v[0] in ('i', 'gep') and self.mine(st, v):
                ts = self.own.tg(self.f, i)
                if not ts or any(k in self.own.consume.get(t, ()) for t in ts):
                    return []
        return None

    def habit(self, i):
        """what failing callees do to the block: 'keeps', 'drops', 'mixed' or 'unknown'"""
        r = set()
        for k, a in enumerate(i.args):
            b, o = const_addr(self.f, a)
            if b != self.box or o is None:
                continue
            fs = [x[1] for x in i.args if x[0] == 'F' and self.own.fill.get(x[1])]
            ts = [(x, kk, oo) for x in fs for kk, oo in self.own.fill[x] if kk >= 1] if fs else [
                (t, kk, oo) for t in self.own.tg(self.f, i) for kk, oo in self.own.fill.get(t, ()) if kk == k]
            for t, kk, oo in ts:
                if oo is not None and oo + o == self.off:
                    r.add(self.own.habit(t, kk, oo))
        return r.pop() if len(r) == 1 else 'unknown' if 'unknown' in r or not r else 'mixed'

    def on_instr(self, st, i):
        if self.began and st.ts != 'owned':
            return []
        if self.began and i.op == 'store':
            val = self.canon(st, i.args[0])
            ad = self.canon(st, i.args[1])
            r = self.addr_root(ad)
            if val[0] in ('i', 'gep') and self.mine(st, val):
                if not self.is_alloca(r) or (r[1] in self.esc and r != self.box):
                    return []
            if r == self.box and not self.mine(st, val) and (ad == self.box and not self.off or ad[0] == 'gep' and ad[1] == self.box and ad[2] == self.off and not ad[3]):
                self.lose(st, i, 'is overwritten in the local object that holds it')
                return []
        return None

    def on_ret(self, st, i, val):
        if st.ts != 'owned':
            return
        if val is not None and (self.mine(st, val) or TOKEN in leaf_all(val)):
            return
        if self.abs(st, TOKEN) == ('=', 0):
            return
        self.lose(st, i, 'is neither released nor handed over when the function returns')


class Habit(Explorer):
    """what a function does to the block in *(param k + off) on its failing returns"""
    cap = 16
    max_steps = 8000

    def __init__(self, prog, f, F, own, k, off):
        super().__init__(prog, f, F.mods)
        self.own = own
        self.F = F
        self.k = k
        self.off = off
        self.out = set()

    def addr(self):
        return ('gep', ('a', self.k), self.off, (), None) if self.off else ('a', self.k)

    def start(self, st):
        st.mem[(self.addr(), 8, 'ptr')] = TOKEN
        st.env[TOKEN] = ('!', frozenset((0,)))
        st.ts = 'held'

    def keep(self, st):
        return (TOKEN,)

    def kill_call(self, st, i):
        c = (self.addr(), 8, 'ptr')
        had = st.mem.get(c) == TOKEN
        super().kill_call(st, i)
        if had and not any(const_addr(self.f, a)[0] == ('a', self.k) for a in i.args):
            st.mem[c] = TOKEN

    def is_token(self, st, v):
        if self.canon(st, v) == TOKEN:
            return True
        return any(l[0] == 'i' and self.f.ins[l[1]].op == 'load' and const_addr(self.f, self.f.ins[l[1]].args[0]) == (('a', self.k), self.off)
                   for l in self.own.origins(self.f, v))

    def on_call(self, st, i):
        kd = self.own.alloc.kind(self.f, i)
        if kd == 'free' and self.is_token(st, i.args[3]):
            st.ts = 'dropped'
        elif kd == 'realloc' and self.is_token(st, i.args[3]):
            ok = st.copy()
            self.kill_call(ok, i)
            ok.env[i.v] = ('!', frozenset((0,)))
            bad = st
            self.kill_call(bad, i)
            bad.env[i.v] = ('=', 0)
            return [ok, bad]
        else:
            # a callee that may drop it when it fails
            hs = set()
            for t in self.own.tg(self.f, i):
                for k, a in enumerate(i.args):
                    b, o = const_addr(self.f, a)
                    if b == ('a', self.k) and o is not None:
                        for kk, oo in self.own.release.get(t, ()):
                            if kk == k and oo is not None and oo + o == self.off and st.ts == 'held':
                                if (t, kk, oo) != (self.f.name, self.k, self.off):
                                    hs.add(self.own.habit(t, kk, oo))
            if hs:
                v = self.F.site(self.f, i)
                if v is None or v == 'sret' or i.ty == 'void' or hs & {'unknown'}:
                    if hs == {'keeps'}:
                        self.kill_call(st, i)
                        st.mem[(self.addr(), 8, 'ptr')] = TOKEN
                        return [st]
                    st.ts = 'unknown' if hs != {'drops'} else 'dropped'
                    return None
                out = []
                ok = st.copy()
                self.kill_call(ok, i)
                ok.env[i.v] = ('=', 0) if v == 'nz' or v == 1 else ('=', 1) if v == -1 else ('!', frozenset((v,)))
                ok.mem[(self.addr(), 8, 'ptr')] = TOKEN
                ok.env[TOKEN] = ('!', frozenset((0,)))
                out.append(ok)
                for h in ('held', 'dropped'):
                    if h == 'held' and hs == {'drops'} or h == 'dropped' and hs == {'keeps'}:
                        continue
                    bad = st.copy()
                    self.kill_call(bad, i)
                    bad.env[i.v] = ('!', frozenset((0,))) if v == 'nz' else ('=', v)
                    bad.ts = h
                    if h == 'held':
                        bad.mem[(self.addr(), 8, 'ptr')] = TOKEN
                        bad.env[TOKEN] = ('!', frozenset((0,)))
                    out.append(bad)
                return out
        return None

    def on_ret(self, st, i, val):
        import fail
        a = self.abs(st, val) if val is not None else None
        r = a[1] if a and a[0] == '=' else a
        rk = self.F.ret_kind(self.f)
        if self.f.name in self.F.failing and rk is not None and r is not None and not isinstance(r, tuple) and not fail.fails_with(r, rk):
            return
        self.out.add(st.ts)


def habit(self, t, k, off):
    key = (t, k, off)
    if key not in self._habit:
        self._habit[key] = 'keeps'
        f = self.prog.defined[t]
        h = Habit(self.prog, f, self.F, self, k, off)
        h.run()
        self._habit[key] = 'unknown' if h.overflow else 'keeps' if h.out <= {'held'} else 'drops' if h.out <= {'dropped'} else 'mixed' if h.out <= {'held', 'dropped'} else 'unknown'
    return self._habit[key]


Own.habit = habit
Own._habit = {}
