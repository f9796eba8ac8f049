"""Definite initialisation of local objects, bit by bit, with summaries of what functions read and fill through parameters.

For every local object (alloca) and every pointer parameter the state of a program point is the set of bits that are written on
every path to it.  Copies of aggregates (memcpy, structure assignment) carry the set along and are no use by themselves.
Summary of a function, per pointer parameter: bits read before the function wrote them, bits written at every return, at every
return of zero and at every other return.  A call whose result decides what was written leaves both sets pending until the result
is compared.
"""
import collections
from ir import T, const_int

PMAX = 4096                      # bytes of a parameter object that are tracked
READS = {'strlen': [0], 'strcmp': [0, 1], 'strcasecmp': [0, 1], 'strdup': [0], 'atoi': [0], 'puts': [0]}
BYN = {'memcmp': ([0, 1], 2), 'fwrite': ([0], None), 'write': ([1], 2)}
NOEFF = ('llvm.dbg.', 'llvm.lifetime.', 'llvm.assume', 'llvm.expect', 'llvm.stacksave', 'llvm.stackrestore')


def rng(off, n):
    """mask of n bytes from byte off"""
    if n <= 0 or off < 0:
        return 0
    return ((1 << (n * 8)) - 1) << (off * 8)


class Summary:
    __slots__ = ('R', 'W', 'Wz', 'Wn', 'how', 'fwd')

    def __init__(self):
        self.R = {}
        self.W = {}
        self.Wz = {}
        self.Wn = {}
        self.how = {}
        self.fwd = set()

    def key(self):
        return (tuple(sorted(self.R.items())), tuple(sorted(self.Wz.items())), tuple(sorted(self.Wn.items())), frozenset(self.fwd))


class Addr:
    """resolved address: object, byte offset (None if unknown), and the first variable step"""
    __slots__ = ('obj', 'off', 'var')

    def __init__(self, obj, off, var):
        self.obj = obj
        self.off = off
        self.var = var


class Flow:
    def __init__(self, prog, f, summ):
        self.p = prog
        self.f = f
        self.summ = summ
        self.size = {}
        for i in f.instrs():
            if i.op == 'alloca':
                n = const_int(T(i.args[0]))
                self.size[i.v] = i.raw['sz'] * n if n is not None else 0
        self.params = [('a', k) for k in range(f.nargs)]
        self.addr_cache = {}
        self.alerts = {}
        self.fwd = set()
        self.others = None

    # ---- addresses -----------------------------------------------------
    def addr(self, v):
        r = self.addr_cache.get(v)
        if r is None:
            r = self.addr_cache[v] = self._addr(v)
        return r

    def _addr(self, v):
        f = self.f
        if v in self.size:
            return Addr(v, 0, ())
        if v[0] == 'a':
            return Addr(v, 0, ())
        if v[0] == 'i':
            i = f.ins[v[1]]
            if i.op in ('bitcast', 'addrspacecast'):
                return self.addr(i.args[0])
            if i.op == 'getelementptr':
                a = self.addr(i.args[0])
                if a.obj is None:
                    return a
                off = a.off
                var = list(a.var)
                for s in T(i.raw['g']):
                    if s[0] == 'f':
                        off += s[3]
                    else:
                        n = const_int(s[1])
                        if n is not None:
                            off += n * s[2]
                        else:
                            var.append((s[2], s[3]))
                return Addr(a.obj, off, tuple(var))
        return Addr(None, 0, ())

    def limit(self, obj):
        return self.size.get(obj, PMAX)

    def place(self, a, n):
        """mask of n bytes at constant address a"""
        L = self.limit(a.obj)
        if a.off < 0 or a.off >= L:
            return 0
        return rng(a.off, min(n, L - a.off))

    def places(self, a, n):
        """masks of n bytes at every element a variable address can designate"""
        L = self.limit(a.obj)
        offs = [a.off]
        for size, cnt in a.var:
            if size <= 0:
                return [rng(0, L)]
            k = cnt if cnt and cnt > 0 else max(1, (L - a.off) // size)
            offs = [o + j * size for o in offs for j in range(min(k, 4096 // max(1, len(offs)) + 1))]
        return [rng(o, min(n, L - o)) for o in offs if 0 <= o < L]

    # ---- state -----------------------------------------------------------
    # state: (dict obj -> mask, tuple of pendings (call id, obj, mask if zero, mask if not zero))
    def write(self, st, a, n):
        if a.obj is None:
            return
        if a.var:
            if a.obj in self.size or all(c and c > 0 for _, c in a.var):
                m = 0
                for x in self.places(a, n):
                    m |= x
                st[0][a.obj] = st[0].get(a.obj, 0) | m
            return
        st[0][a.obj] = st[0].get(a.obj, 0) | self.place(a, n)

    def var_written(self, obj, bits):
        """some store with a computed position sets these bits of an element"""
        for i in self.f.instrs():
            if i.op == 'store':
                a = self.addr(i.args[1])
                if a.obj == obj and a.var and any(x & bits for x in self.places(a, i.raw['sz'])):
                    return True
        return False

    def spill(self, i):
        """a by-value argument put into its own local copy"""
        return i.args[0][0] == 'a' and i.args[1] in self.size and self.f.ins[i.args[1][1]].raw['at'] == 'mr_ptr_t'

    def escape(self, st, obj):
        """the address is kept somewhere: scalars and texts are not followed further, records are"""
        if obj in self.size and self.f.ins[obj[1]].raw.get('at') in self.p.ditypes and self.f.ins[obj[1]].raw.get('at') not in ('mr_ptr_t',):
            return
        self.fill(st, Addr(obj, 0, ()))

    def fill(self, st, a):
        """everything from a on"""
        if a.obj is None:
            return
        L = self.limit(a.obj)
        off = 0 if a.var else max(0, a.off)
        st[0][a.obj] = st[0].get(a.obj, 0) | rng(off, L - off)

    def read(self, st, i, a, mask, n, what='read'):
        """mask: bits used relative to the address"""
        if a.obj is None:
            return
        have = st[0].get(a.obj, 0)
        if a.var:
            if a.obj not in self.size:
                return
            ps = self.places(a, n)
            if ps and not any((have & x) for x in ps) and not self.var_written(a.obj, ps[0]):
                self.alert(st, i, a.obj, ps[0], what)
            return
        L = self.limit(a.obj)
        if a.off < 0 or a.off >= L:
            return
        want = (mask << (a.off * 8)) & rng(0, L)
        miss = want & ~have
        if miss:
            self.alert(st, i, a.obj, miss, what)

    def alert(self, st, i, obj, miss, what):
        k = (i.id, obj)
        old = self.alerts.get(k)
        self.alerts[k] = ((old[0] if old else 0) | miss, what)

    # ---- used bits of a load ------------------------------------------------
    def usedbits(self, i):
        """bits of a loaded integer that matter; a read-modify-write of other bits at the same place does not count"""
        n = i.raw['sz'] * 8
        full = (1 << n) - 1
        if not (i.ty.startswith('i') and i.ty[1:].isdigit()):
            return full
        n = min(n, int(i.ty[1:])) if int(i.ty[1:]) > 1 else n
        full = (1 << n) - 1
        return self.bitsof(i.v, full, n, i.args[0], 0)

    def bitsof(self, v, full, n, addr, depth):
        f = self.f
        m = 0
        us = f.uses.get(v, ())
        if depth > 4:
            return full
        for u in us:
            if u.op == 'and':
                c = const_int(u.args[1]) if u.args[0] == v else const_int(u.args[0])
                if c is None:
                    return full
                c &= full
                # read-modify-write
                uu = f.uses.get(u.v, ())
                if len(uu) == 1 and uu[0].op == 'or':
                    st = f.uses.get(uu[0].v, ())
                    if st and all(x.op == 'store' and self.same(x.args[1], addr) for x in st):
                        continue
                if uu and all(x.op == 'store' and self.same(x.args[1], addr) for x in uu):
                    continue
                m |= c
            elif u.op in ('shl', 'lshr', 'ashr'):
                s = const_int(u.args[1])
                if s is None or u.args[0] != v:
                    return full
                if u.op == 'shl':
                    sub = self.bitsof(u.v, full, n, addr, depth + 1)
                    m |= sub >> s
                else:
                    sub = self.bitsof(u.v, full, n, addr, depth + 1)
                    m |= (sub << s) & full
            elif u.op == 'store' and u.args[0] == v and self.same(u.args[1], addr):
                continue
            else:
                return full
        return m

    def same(self, x, y):
        a, b = self.addr(x), self.addr(y)
        return x == y or (a.obj is not None and a.obj == b.obj and a.off == b.off and a.var == b.var == ())

    def stored_bits(self, i, a):
        """bits a store really sets: a read-modify-write sets only the masked-in bits"""
        n = i.raw['sz'] * 8
        full = (1 << n) - 1
        v = i.args[0]
        f = self.f
        if v[0] == 'i' and f.ins[v[1]].op == 'or':
            o = f.ins[v[1]]
            for x in o.args:
                if x[0] == 'i' and f.ins[x[1]].op == 'and':
                    an = f.ins[x[1]]
                    c = const_int(an.args[1]) if const_int(an.args[1]) is not None else const_int(an.args[0])
                    l = an.args[0] if const_int(an.args[1]) is not None else an.args[1]
                    if c is not None and l[0] == 'i' and f.ins[l[1]].op == 'load' and self.same(f.ins[l[1]].args[0], i.args[1]):
                        return full & ~c
        if v[0] == 'i' and f.ins[v[1]].op == 'and':
            an = f.ins[v[1]]
            c = const_int(an.args[1])
            l = an.args[0]
            if c is not None and l[0] == 'i' and f.ins[l[1]].op == 'load' and self.same(f.ins[l[1]].args[0], i.args[1]):
                return full & ~c
        return full

    # ---- transfer ------------------------------------------------------------
    def step(self, st, i):
        op = i.op
        if op == 'load':
            a = self.addr(i.args[0])
            if a.obj is not None:
                used = self.usedbits(i)
                if used and f_used(self.f, i):
                    self.read(st, i, a, used, i.raw['sz'])
        elif op == 'store':
            v = self.addr(i.args[0]) if i.args[0][0] in ('i', 'a') else None
            if v is not None and v.obj is not None and not self.spill(i):
                self.escape(st, v.obj)         # the address is kept elsewhere: not followed further
            a = self.addr(i.args[1])
            if a.obj is None:
                return
            if a.var:
                self.write(st, a, i.raw['sz'])
                return
            if i.args[0] == ('u',):
                return
            L = self.limit(a.obj)
            if 0 <= a.off < L:
                m = (self.stored_bits(i, a) << (a.off * 8)) & rng(0, L)
                st[0][a.obj] = st[0].get(a.obj, 0) | m
        elif op in ('phi', 'select', 'insertvalue', 'ptrtoint'):
            for o in self.f.operands(i):
                if o[0] in ('i', 'a'):
                    v = self.addr(o)
                    if v.obj in self.size:
                        self.escape(st, v.obj)
        elif op in ('call', 'invoke'):
            self.call(st, i)

    def must(self, t, depth=0):
        """bits of a record that a complete value has: everything but padding and what a union may leave out"""
        d = self.p.ditypes.get(t)
        if d is None or d.get('union') or depth > 4:
            return None
        m = 0
        for x in d['m']:
            if x[4] == 'S':
                s = self.must(x[3], depth + 1)
                m |= (s or 0) << (x[1] * 8)
            elif x[4] == 'U':
                if x[3] == 'mr_ptr_t':
                    m |= rng(x[1], 8)
            elif x[4] in ('o', 'P', 'E') and x[2] % 8 == 0:
                m |= rng(x[1], x[2] // 8)
        return m

    def copy(self, st, d, s, n, i):
        if s.obj in self.size and not s.var and s.off == 0 and (d.obj is None or d.obj not in self.size) and s.obj[0] == 'i':
            t = self.f.ins[s.obj[1]].raw.get('at')
            m = self.must(t) if t and self.f.ins[s.obj[1]].op == 'alloca' and n == self.size[s.obj] else None
            if m:
                self.read(st, i, s, m, n, 'copied out')
        if s.obj is None or s.var or s.obj not in st[0] and s.obj not in self.size:
            if s.obj is not None and not s.var and s.obj not in self.size:
                # from a parameter: a copy is not a use of padding; bits taken as set, the read is recorded by name
                pass
            self.write(st, d, n)
            return
        if s.obj not in self.size:
            self.write(st, d, n)
            return
        if self.others is not None and s.obj not in st[0]:
            # only one object is followed: what the others hold at this point is known from the dataflow
            m = (self.others(i, s.obj) >> (s.off * 8)) & rng(0, n)
        else:
            m = (st[0].get(s.obj, 0) >> (s.off * 8)) & rng(0, n)
        if d.obj is None:
            return
        if d.var:
            self.write(st, d, n)
            return
        L = self.limit(d.obj)
        if 0 <= d.off < L:
            have = st[0].get(d.obj, 0) & ~rng(d.off, n)
            st[0][d.obj] = have | ((m << (d.off * 8)) & rng(0, L))

    def call(self, st, i):
        c = self.f.callee(i)
        if c and c.startswith(NOEFF):
            return
        if c and c.startswith('llvm.memset'):
            n = const_int(i.args[2])
            a = self.addr(i.args[0])
            if n is None:
                self.fill(st, a)
            else:
                self.write(st, a, n)
            return
        if c and c.startswith(('llvm.memcpy', 'llvm.memmove')):
            n = const_int(i.args[2])
            d, s = self.addr(i.args[0]), self.addr(i.args[1])
            if n is None:
                self.fill(st, d)
                return
            self.copy(st, d, s, n, i)
            return
        tg = self.p.targets(self.f, i)
        cop = T(i.raw.get('c') or ())
        if cop and cop[0] == 'a':
            # a callback of the caller: judged where the callback is known
            for k, o in enumerate(i.args):
                if o[0] == 'a' or (o[0] == 'i' and self.addr(o).obj is not None and self.addr(o).obj[0] == 'a'):
                    a = self.addr(o)
                    if a.off == 0 and not a.var:
                        self.fwd.add((cop[1], k, a.obj[1]))
            for o in i.args:
                a = self.addr(o) if o[0] in ('i', 'a') else None
                if a is not None and a.obj in self.size:
                    self.fill(st, a)
            return
        for t in tg:
            for j, m, k in (self.summ[t].fwd if t in self.summ else ()):
                if j >= len(i.args) or k >= len(i.args):
                    continue
                fn, ctx = i.args[j], i.args[k]
                if ctx[0] not in ('i', 'a'):
                    continue
                a = self.addr(ctx)
                if a.obj is None:
                    continue
                if fn[0] == 'a' and a.obj[0] == 'a' and a.off == 0 and not a.var:
                    self.fwd.add((fn[1], m, a.obj[1]))
                elif fn[0] == 'F' and fn[1] in self.summ:
                    R = self.summ[fn[1]].R.get(m, 0)
                    if R:
                        self.read(st, i, a, R, 1, 'read by %s' % fn[1])
        ext = [t for t in tg if t not in self.summ] or (not tg)
        for k, o in enumerate(i.args):
            if o[0] not in ('i', 'a'):
                continue
            a = self.addr(o)
            if a.obj is None:
                continue
            if ext:
                n = c or ''
                if k in READS.get(n, ()):
                    self.read(st, i, a, 0xff, 1, 'passed to ' + n)
                elif n in BYN and k in BYN[n][0]:
                    q = const_int(i.args[BYN[n][1]]) if BYN[n][1] is not None else None
                    self.read(st, i, a, rng(0, q or 1), q or 1, 'passed to ' + n)
                else:
                    self.fill(st, a)
                continue
            R, wz, wn = 0, None, None
            who = None
            for t in tg:
                s = self.summ[t]
                r = s.R.get(k, 0)
                if r & ~R:
                    who = who or t
                R |= r
                wz = s.Wz.get(k, 0) if wz is None else wz & s.Wz.get(k, 0)
                wn = s.Wn.get(k, 0) if wn is None else wn & s.Wn.get(k, 0)
            if R:
                self.read(st, i, a, R, 1, 'read by %s' % who)
            if a.var:
                if wz or wn:
                    self.fill(st, a)
                continue
            w = wz & wn
            L = self.limit(a.obj)
            if 0 <= a.off < L:
                sh = lambda m: (m << (a.off * 8)) & rng(0, L)
                st[0][a.obj] = st[0].get(a.obj, 0) | sh(w)
                if wz != wn:
                    st[1].append((i.id, a.obj, sh(wz), sh(wn)))

    # ---- branch refinement ----------------------------------------------------
    def outcome(self, v, truth, depth=0):
        """(call id, zero?) that the truth of condition v decides"""
        f = self.f
        if v[0] != 'i' or depth > 4:
            return []
        i = f.ins[v[1]]
        if i.op == 'icmp' and i.raw['p'] in ('eq', 'ne'):
            x, y = i.args
            if const_int(x) is not None:
                x, y = y, x
            cst = const_int(y)
            if cst is None:
                return []
            eq = (i.raw['p'] == 'eq') == truth
            if x[0] == 'i':
                j = f.ins[x[1]]
                if j.op in ('call', 'invoke'):
                    if cst == 0:
                        return [(j.id, eq)]
                    if eq:
                        return [(j.id, False)]
                    if j.ty == 'i1':
                        return [(j.id, True)]
                    return []
                if j.op in ('zext', 'sext', 'trunc', 'icmp') and cst == 0:
                    return self.outcome(x, not eq, depth + 1)
                if j.op in ('zext', 'sext', 'trunc', 'icmp') and cst == 1:
                    return self.outcome(x, eq, depth + 1)
            return []
        if i.op in ('call', 'invoke'):
            return [(i.id, not truth)]
        if i.op in ('zext', 'sext', 'trunc'):
            return self.outcome(i.args[0], truth, depth + 1)
        if i.op == 'xor' and const_int(i.args[1]) in (1, -1):
            return self.outcome(i.args[0], not truth, depth + 1)
        if i.op == 'and' and truth:
            return self.outcome(i.args[0], True, depth + 1) + self.outcome(i.args[1], True, depth + 1)
        if i.op == 'or' and not truth:
            return self.outcome(i.args[0], False, depth + 1) + self.outcome(i.args[1], False, depth + 1)
        return []

    def settle(self, st, outs):
        for cid, zero in outs:
            keep = []
            for q in st[1]:
                if q[0] == cid:
                    st[0][q[1]] = st[0].get(q[1], 0) | (q[2] if zero else q[3])
                else:
                    keep.append(q)
            st[1][:] = keep

    def edges(self, st, t):
        if t.op == 'br' and len(t.raw['s']) == 2:
            for k, s in enumerate(t.raw['s']):
                n = (dict(st[0]), list(st[1]))
                self.settle(n, self.outcome(t.args[0], k == 0))
                yield s, n
        elif t.op == 'switch':
            for v, s in t.raw['cases']:
                n = (dict(st[0]), list(st[1]))
                o = t.args[0]
                if o[0] == 'i' and self.f.ins[o[1]].op == 'call':
                    self.settle(n, [(o[1], v == 0)])
                yield s, n
            n = (dict(st[0]), list(st[1]))
            o = t.args[0]
            if o[0] == 'i' and self.f.ins[o[1]].op == 'call' and any(v == 0 for v, _ in t.raw['cases']):
                self.settle(n, [(o[1], False)])
            yield t.raw['s'][0], n
        else:
            for s in t.raw.get('s', []):
                yield s, (dict(st[0]), list(st[1]))

    @staticmethod
    def meet(x, y):
        d = {}
        for k in x[0]:
            if k in y[0]:
                m = x[0][k] & y[0][k]
                if m:
                    d[k] = m
        pend = [q for q in x[1] if q in y[1]]
        # a pending set of one side holds on the other if that side has the bits already
        for a, b in ((x, y), (y, x)):
            for q in a[1]:
                if q not in pend and (q[2] | q[3]) & ~b[0].get(q[1], 0) == 0:
                    pass
        return (d, pend)

    def run(self):
        f = self.f
        ins = [None] * len(f.blocks)
        ins[0] = ({}, [])
        outs = {}
        work = [0]
        rounds = 0
        while work:
            b = work.pop(0)
            rounds += 1
            if rounds > 200 * len(f.blocks) + 1000:
                break
            st = (dict(ins[b][0]), list(ins[b][1]))
            for i in f.blocks[b]:
                self.step(st, i)
            outs[b] = {}
            for s, n in self.edges(st, f.blocks[b][-1]):
                outs[b][s] = n if s not in outs[b] else self.meet(outs[b][s], n)
            for s, n in outs[b].items():
                new = n if ins[s] is None else self.meet(ins[s], n)
                if ins[s] is None or new[0] != {k: v for k, v in ins[s][0].items() if v} or new[1] != ins[s][1]:
                    ins[s] = new
                    if s not in work:
                        work.append(s)
        # alerts and summary from the fixpoint
        self.ins = ins
        self.alerts = {}
        self.fwd = set()
        S = Summary()
        wz, wn = None, None
        for b, bl in enumerate(f.blocks):
            if ins[b] is None:
                continue
            st = (dict(ins[b][0]), list(ins[b][1]))
            for i in bl:
                self.step(st, i)
            t = bl[-1]
            if t.op == 'ret':
                for z, n, s in self.returns(b, t, st, outs):
                    if z:
                        wz = s[0] if wz is None else Flow.meet((wz, []), (s[0], []))[0]
                    if n:
                        wn = s[0] if wn is None else Flow.meet((wn, []), (s[0], []))[0]
        full = rng(0, PMAX)
        for o in self.params:
            k = o[1]
            S.Wz[k] = full if wz is None else wz.get(o, 0)
            S.Wn[k] = full if wn is None else wn.get(o, 0)
        for (iid, obj), (miss, what) in self.alerts.items():
            if obj[0] == 'a':
                S.R[obj[1]] = S.R.get(obj[1], 0) | miss
        S.fwd = set(self.fwd)
        S.how = {obj[1]: f.ins[iid] for (iid, obj), _ in self.alerts.items() if obj[0] == 'a'}
        self.local = {k: v for k, v in self.alerts.items() if k[1][0] != 'a'}
        return S

    def held(self, i, obj):
        """bits of a local object that are set when instruction i is reached"""
        b = i.blk
        if self.ins[b] is None:
            return -1
        o, self.others = self.others, None
        al = self.alerts
        self.alerts = {}
        st = (dict(self.ins[b][0]), list(self.ins[b][1]))
        for j in self.f.blocks[b]:
            if j.id == i.id:
                break
            self.step(st, j)
        self.others, self.alerts = o, al
        return st[0].get(obj, 0)

    def returns(self, b, t, st, outs):
        """(may be zero, may be other, state) of each way to return"""
        f = self.f
        if not t.args:
            return [(True, True, st)]
        v = t.args[0]
        out = []
        if v[0] == 'i' and f.ins[v[1]].op == 'phi' and f.ins[v[1]].blk == b and all(i.op in ('phi', 'ret') for i in f.blocks[b]):
            for val, pred in f.ins[v[1]].args:
                if pred in outs and b in outs[pred]:
                    out.append((val, outs[pred][b]))
        else:
            out.append((v, st))
        r = []
        for val, s in out:
            c = const_int(val)
            if c is not None:
                r.append((c == 0, c != 0, s))
                continue
            while val[0] == 'i' and f.ins[val[1]].op in ('zext', 'trunc', 'sext'):
                val = f.ins[val[1]].args[0]
            if val[0] == 'i' and any(q[0] == val[1] for q in s[1]):
                for zero in (True, False):
                    n = (dict(s[0]), list(s[1]))
                    self.settle(n, [(val[1], zero)])
                    r.append((zero, not zero, n))
            else:
                r.append((True, True, s))
        return r


def f_used(f, i):
    return bool(f.uses.get(i.v))


def summaries(p, only=None):
    summ = {}
    for n in p.defined:
        s = Summary()
        full = rng(0, PMAX)
        f = p.defined[n]
        for k in range(f.nargs):
            s.Wz[k] = s.Wn[k] = full
        summ[n] = s
    flows = {n: Flow(p, f, summ) for n, f in p.defined.items()}
    callers = collections.defaultdict(set)
    for n, f in p.defined.items():
        for i in f.calls():
            for t in p.targets(f, i):
                callers[t].add(n)
            for o in i.args:
                if o[0] == 'F':
                    callers[o[1]].add(n)     # a callback given away with its context
    work = collections.deque(p.defined)
    inq = set(work)
    cnt = collections.Counter()
    while work:
        n = work.popleft()
        inq.discard(n)
        cnt[n] += 1
        S = flows[n].run()
        if S.key() != summ[n].key():
            summ[n] = S
            flows[n].summ = summ
            if cnt[n] < 40:
                for c in callers[n]:
                    if c not in inq:
                        inq.add(c)
                        work.append(c)
    return summ, flows
