"""Linear forms over SSA values and a small linear-arithmetic prover driven by the conditions that dominate a program point.

A form is a dict {atom: coefficient, None: constant}. Atoms are things the function reads: arguments, loads from a named place, string
lengths, results of calls. Loads of one place are one atom unless the function itself stores to that place."""
import re
from ir import gep_parts, leaves, T, const_int

NARROW = {'i8': 8, 'i16': 16}
CASTS = ('zext', 'sext', 'trunc', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint', 'addrspacecast')


def add(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        v = r.get(x, 0) + k * c
        if v or x is None:
            r[x] = v
        else:
            r.pop(x, None)
    r.setdefault(None, 0)
    return r


def scale(a, k):
    return {x: c * k for x, c in a.items() if c * k or x is None}


def C(n):
    return {None: n}


def show(a):
    s = ' + '.join('%s%s' % ('' if c == 1 else '%d*' % c, name(x)) for x, c in a.items() if x is not None and c)
    c = a.get(None, 0)
    return (s + (' + %d' % c if c else '')) if s else str(c)


def name(x):
    if isinstance(x, tuple):
        if x[0] == 'L':
            return '%s%s' % (name(x[1]), ''.join('.' + (s.split('.')[-1] if isinstance(s, str) else str(s)) for s in x[2]))
        if x[0] == 'S':
            return 'strlen(%s)' % name(x[1])
        return ''.join(str(y) for y in x)
    return str(x)


def between(f, a, b):
    """blocks control may pass through from instruction a to instruction b without executing a again"""
    if a.blk == b.blk and a.idx < b.idx:
        return set()
    fw = set()
    st = [s for s in f.succs[a.blk]]
    while st:
        x = st.pop()
        if x in fw or x == a.blk:
            continue
        fw.add(x)
        st += f.succs[x]
    bw = set()
    st = [b.blk]
    while st:
        x = st.pop()
        if x in bw or x == a.blk:
            continue
        bw.add(x)
        st += f.preds[x]
    return fw & bw


class Lin:
    def __init__(self, p, f, clobbers=None):
        self.p = p
        self.f = f
        self.memo = {}
        self.bits = {}               # width of narrow atoms; negative when the sign is kept
        self.stored = set()          # field tags this function stores to
        for i in f.instrs():
            if i.op == 'store':
                t = self.place(i.args[1])
                if t:
                    self.stored.add(t[-1] if t else None)
        self.facts_memo = {}
        self.phiroom = {}
        self.inv_memo = {}
        self.same = {}
        self.tagloads = {}
        self.max_memo = {}
        self.loop_memo = {}
        self.here = None
        self.capacity = lambda v: None
        self.ranges = {}             # field -> (low, high) kept by every store to it

    def place(self, addr):
        b, st = gep_parts(self.f, addr)
        return [self.p.field_name(s[1], s[2]) for s in st if s[0] == 'f']

    # canonical name of a value: used for the base of a place
    def key(self, v, depth=0):
        if depth > 12:
            return ('v', v)
        if v[0] == 'i':
            i = self.f.ins[v[1]]
            if i.op in CASTS:
                return self.key(i.args[0], depth + 1)
            if i.op == 'load':
                return self.loadkey(i, depth)
            if i.op == 'getelementptr':
                return self.addrkey(v, depth)
            if i.op in ('call', 'invoke') and self.f.callee(i) == 'strlen':
                return ('S', self.key(i.args[0], depth + 1))
        if v[0] == 'e':
            return self.addrkey(v, depth)
        return v

    def addrkey(self, addr, depth=0):
        b, st = gep_parts(self.f, addr)
        k = []
        for s in st:
            if s[0] == 'f':
                if s[3] or True:
                    k.append(self.p.field_name(s[1], s[2]))
            elif s[0] == 'x':
                fm = self.lin(s[1])
                if fm == C(0):
                    continue
                k.append(tuple(sorted(((str(x), c) for x, c in fm.items()))) + (s[2],))
        bk = self.key(b, depth + 1)
        if not k:
            return bk
        return ('A', bk, tuple(k))

    def loadkey(self, i, depth=0):
        b, st = gep_parts(self.f, i.args[0])
        tags = self.place(i.args[0])
        if tags and tags[-1] in self.stored:
            if i.id not in self.same:
                self.same[i.id] = i.id
                k = self.addrkey(i.args[0], depth + 1)
                for j in self.loads_of(tags[-1]):
                    if j is not i and self.f.dominates(j, i) and self.addrkey(j.args[0], depth + 1) == k and not self.overwritten(j, i, tags[-1]):
                        self.same[i.id] = self.loadkey(j, depth + 1)[1]
                        break
            return ('i', self.same[i.id])
        if (b[0] == 'i' and self.f.ins[b[1]].op == 'alloca' and not tags):
            return ('i', self.local(i, b, st))
        a = self.addrkey(i.args[0], depth + 1)
        return ('L', a[1], a[2]) if a[0] == 'A' else ('L', a, ())

    def local(self, i, b, st):
        """the first of the loads of a local that give the same value: nothing stores to it or gets its address in between"""
        if st:
            return i.id
        if i.id not in self.same:
            self.same[i.id] = i.id
            us = self.f.uses.get(b, ())
            ch = [u for u in us if u.op != 'load']
            for j in us:
                if j.op == 'load' and j is not i and self.f.dominates(j, i) and not any(self.passes(j, u, i) for u in ch):
                    self.same[i.id] = self.local(j, b, st)
                    break
        return self.same[i.id]

    def passes(self, a, u, b):
        """control may pass through u between a and b"""
        if a.blk == b.blk and a.idx < b.idx:
            return u.blk == a.blk and a.idx < u.idx < b.idx
        if u.blk == a.blk:
            return u.idx > a.idx or a.blk in between(self.f, a, b)
        if u.blk == b.blk:
            return u.idx < b.idx or any(s in between(self.f, a, b) for s in self.f.succs[b.blk])
        return u.blk in between(self.f, a, b)

    def loads_of(self, tag):
        if tag not in self.tagloads:
            self.tagloads[tag] = [i for i in self.f.instrs() if i.op == 'load' and (self.place(i.args[0]) or [None])[-1] == tag]
        return self.tagloads[tag]

    def overwritten(self, a, b, tag):
        """the place may be stored to between instruction a and instruction b it dominates"""
        f = self.f
        if a.blk == b.blk and a.idx < b.idx:
            r = f.blocks[a.blk][a.idx + 1:b.idx]
        else:
            r = f.blocks[a.blk][a.idx + 1:] + f.blocks[b.blk][:b.idx] + [j for x in between(f, a, b) if x != b.blk for j in f.blocks[x]]
            if any(s in between(f, a, b) for s in f.succs[b.blk]):
                r += f.blocks[b.blk][b.idx:]
        return any(j.op == 'store' and (self.place(j.args[1]) or [None])[-1] == tag for j in r)

    def lin(self, v):
        if v in self.memo:
            return self.memo[v]
        self.memo[v] = {v: 1, None: 0}
        r = self.lin0(v)
        self.memo[v] = r
        return r

    def lin0(self, v):
        c = const_int(v) if v[0] in ('c', 'n') else None
        if c is not None:
            return C(c)
        if v[0] == 'i':
            i = self.f.ins[v[1]]
            o = i.op
            if o == 'trunc' and NARROW.get(i.ty):
                self.bits[v] = NARROW[i.ty]
                return {v: 1, None: 0}
            if o in ('zext', 'sext') and NARROW.get(i.raw.get('ft')):
                r = self.lin(i.args[0])
                if len(r) == 2 and r[None] == 0:
                    (a,) = [x for x in r if x is not None]
                    self.bits.setdefault(a, NARROW[i.raw['ft']])
                    if o == 'zext':
                        return r
                    self.bits[('sx', a)] = -NARROW[i.raw['ft']]
                    return {('sx', a): 1, None: 0}
                self.bits[v] = NARROW[i.raw['ft']] * (1 if o == 'zext' else -1)
                return {v: 1, None: 0}
            if o in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
                return self.lin(i.args[0])
            if o in ('add', 'or') and len(i.args) == 2:
                if o == 'or':
                    return {v: 1, None: 0}
                return add(self.lin(i.args[0]), self.lin(i.args[1]))
            if o == 'sub':
                return add(self.lin(i.args[0]), self.lin(i.args[1]), -1)
            if o in ('mul', 'shl'):
                a, b = self.lin(i.args[0]), self.lin(i.args[1])
                if set(a) == {None} and o == 'mul':
                    a, b = b, a
                if set(b) == {None}:
                    return scale(a, b[None] if o == 'mul' else 1 << b[None]) or C(0)
                return {v: 1, None: 0}
            if o == 'and' and i.args[1][0] == 'c' and i.args[0][0] == 'i' and f_op(self.f, i.args[0]) == 'load':
                m = int(i.args[1][1])
                if m > 0 and m & (m + 1) == 0:
                    return {('B', self.loadkey(self.f.ins[i.args[0][1]]), m): 1, None: 0}     # a bit field
            if o == 'getelementptr':
                r = self.lin(i.args[0])
                return add(r, self.gep(i.raw['g']))
            if o == 'load':
                k = self.loadkey(i)
                return {k: 1, None: 0}
            if o in ('call', 'invoke') and self.f.callee(i) == 'strlen':
                return {('S', self.key(i.args[0])): 1, None: 0}
        if v[0] == 'e' and v[1] == 'getelementptr' and len(v) > 4:
            return add(self.lin(v[2][0]), C(v[4]) if not any(s[0] == 'x' for s in v[3]) else self.gep(v[3]))
        return {v: 1, None: 0}

    def gep(self, steps):
        r = C(0)
        for s in steps:
            s = T(s)
            if s[0] == 'f':
                r = add(r, C(s[3]))
            else:
                r = add(r, scale(self.lin(s[1]), s[2]) or C(0))
        return r

    # ---- room: bytes from an address to the end of the memory it lies in ---------
    def room(self, v, capacity, depth=0):
        """form of the room at address v (atoms ('cap', phi) for merged pointers), or None when the memory is not the function's own"""
        f = self.f
        c = capacity(v)
        if c is not None:
            return c
        if v[0] == 'i':
            i = f.ins[v[1]]
            if i.op in ('bitcast', 'freeze', 'addrspacecast'):
                return self.room(i.args[0], capacity, depth)
            if i.op == 'getelementptr':
                r = self.room(i.args[0], capacity, depth)
                return None if r is None else add(r, self.gep(i.raw['g']), -1)
            if i.op in ('phi', 'select') and depth < 20:
                if v in self.phiroom:
                    return self.phiroom[v]
                self.phiroom[v] = {('cap', v): 1, None: 0}
                if not any(capacity(o) is not None for o in self.sources(v)):
                    self.phiroom[v] = None
                return self.phiroom[v]
        if v[0] == 'e' and v[1] == 'getelementptr' and len(v) > 4:
            r = self.room(v[2][0], capacity, depth)
            return None if r is None else add(r, C(v[4]), -1)
        return None

    def sources(self, v, seen=None):
        """what a pointer is merged from, address arithmetic aside"""
        seen = set() if seen is None else seen
        b, st = gep_parts(self.f, v)
        if b in seen:
            return set()
        seen.add(b)
        if b[0] == 'i':
            i = self.f.ins[b[1]]
            if i.op in ('phi', 'select'):
                ops = [a[0] for a in i.args] if i.op == 'phi' else i.args[1:]
                return set().union(*[self.sources(o, seen) for o in ops])
            if i.op == 'freeze':
                return self.sources(i.args[0], seen)
        return {b}

    def through(self, form, b, s):
        """the form in terms of the values at the end of block b when control passes from b to s: every merge of s is replaced"""
        f = self.f
        m = {}
        for i in f.blocks[s]:
            if i.op != 'phi':
                break
            for v, p in i.args:
                if p == b:
                    m[i.v] = v
        r = C(form.get(None, 0))
        for a, k in form.items():
            if a is None:
                continue
            if a in m:
                r = add(r, self.lin(m[a]), k)
            elif not (isinstance(a, tuple) and a[0] in ('i', 'cap')) and any(('i', n) in m for n in ids(a)):
                r = add(r, {('other', s, str(a)): 1, None: 0}, k)    # a place named by a merge: another place on the way in
            elif isinstance(a, tuple) and a[0] == 'cap' and a[1] in m:
                o = m[a[1]]
                x = self.room(o, self.capacity) if o[0] not in ('n', 'u') else None
                if x is None:
                    return None          # memory of someone else on this way: nothing to show
                r = add(r, x, k)
            else:
                r = add(r, {a: 1, None: 0}, k)
        return r

    # ---- invariants of loops -------------------------------------------------------
    def invariants(self, hdr):
        """relations between the merges of a loop header that hold on entry and are kept by every way round (largest such set of candidates)"""
        if hdr in self.inv_memo:
            return self.inv_memo[hdr]
        self.inv_memo[hdr] = []
        f = self.f
        phis = [i for i in f.blocks[hdr] if i.op == 'phi']
        ints = [i.v for i in phis if i.ty in ('i64', 'i32', 'i16', 'i8')]
        caps = [('cap', i.v) for i in phis if i.ty == 'ptr' and self.room(i.v, self.capacity) is not None]
        if not ints or len(ints) > 8:
            return []
        cand = []
        consts = {a: set() for a in ints}
        bounds = set()
        counts = set()
        for i in f.instrs():
            if i.op == 'icmp':
                for x in i.args:
                    k = const_int(x) if x[0] == 'c' else None
                    if k is None:
                        y = self.lin(x)
                        if len(y) == 2 and y[None] == 0:
                            bounds |= {a for a in y if a is not None and a not in ints and (a[0] in ('L', 'a', 'S') if isinstance(a, tuple) else False)}
                        q = [a for a in y if a is not None]
                        if len(q) == 1 and isinstance(q[0], tuple) and q[0][0] == 'i' and f_op(f, q[0]) in ('udiv', 'lshr'):
                            counts.add(q[0])
                    if k is not None and abs(k) < 1 << 20:
                        o = self.lin(i.args[1] if x is i.args[0] else i.args[0])
                        for a in ints:
                            if a in o:
                                consts[a] |= {k, k - 1, k + 1}
        for i in phis:
            for v, b in i.args:
                if f_op(f, self.strip(v)) in ('udiv', 'lshr') and hdr not in f.dom.get(b, ()):
                    counts.add(self.strip(v))
        # only what does not change around the loop
        bounds = {a for a in bounds if all(n in f.ins and f.ins[n].blk != hdr and f.ins[n].blk in f.dom.get(hdr, ()) for n in ids(a))}
        counts = {a for a in counts if all(n in f.ins and f.ins[n].blk != hdr and f.ins[n].blk in f.dom.get(hdr, ()) for n in ids(a))}
        for a in ints:
            cand += [{a: 1, None: 0}, {a: 1, None: 1}, {a: 1, None: -1}]
            cand += [{a: -1, None: k} for k in sorted(consts[a]) if k > 0]
            for b in ints:
                if a != b:
                    cand += [{b: 1, a: -1, None: -d} for d in (0, 1, 2, 3)]
            cand += [{b: 1, a: -1, None: -d} for b in sorted(bounds, key=str)[:6] for d in (0, 1)]
            cand += [{b: 1, a: -1, None: -d} for b in sorted(counts, key=str)[:3] for d in (0, 1, 2)]
            for b in caps:
                cand += [{b: 1, a: -1, None: -d} for d in (0, 1, 2)]
        preds = [b for b in f.preds[hdr] if b in f.dom]
        ok = []
        for g in cand:
            good = True
            for b in preds:
                if hdr in f.dom.get(b, ()):
                    continue
                x = self.through(g, b, hdr)
                if x is not None and not self.prove(x, b, self.edge_facts(b, hdr), 5, 1):
                    good = False
                    break
            if good:
                ok.append(g)
        back = [b for b in preds if hdr in f.dom.get(b, ())]
        while ok:
            self.inv_memo[hdr] = ok
            new = []
            for g in ok:
                good = True
                for b in back:
                    x = self.through(g, b, hdr)
                    if x is not None and not self.prove(x, b, self.edge_facts(b, hdr) + ok, 5, 6):
                        good = False
                        break
                if good:
                    new.append(g)
            if len(new) == len(ok):
                break
            ok = new
        self.inv_memo[hdr] = ok
        return ok

    # ---- facts: forms known to be >= 0 at a block ---------------------------
    def edge_facts(self, b, s):
        """facts implied by control passing from block b to block s"""
        f = self.f
        t = f.blocks[b][-1]
        if t.op == 'br' and t.args and len(set(f.succs[b])) == 2:
            return self.cond(t.args[0], s == f.succs[b][0])
        if t.op == 'switch' and t.args:
            cs = [c for c, d in t.raw['cases'] if d == s]
            if len(cs) == 1 and t.raw['s'][0] != s:
                v = cs[0]
                v = int(v[1]) if isinstance(v, (list, tuple)) else int(v)
                a = self.lin(t.args[0])
                return [add(a, C(-v)), add(scale(a, -1), C(v))]
        return []

    def threeway(self, d):
        """(a > b) - (a < b) is zero: a and b are equal"""
        ms = [a for a in d if a is not None]
        if len(ms) != 2 or d[None] != 0 or sorted(d[a] for a in ms) != [-1, 1]:
            return []
        r = []
        for a in ms:
            v = self.strip(a)
            if f_op(self.f, v) != 'icmp':
                return []
            i = self.f.ins[v[1]]
            x, y = self.lin(i.args[0]), self.lin(i.args[1])
            if i.raw['p'] in ('ult', 'slt'):
                x, y = y, x
            elif i.raw['p'] not in ('ugt', 'sgt'):
                return []
            r.append(add(x, y, -1))
        if add(r[0], r[1]) == C(0):
            return r
        return []

    def strip(self, v):
        while f_op(self.f, v) in ('zext', 'sext', 'trunc', 'freeze'):
            v = self.f.ins[v[1]].args[0]
        return v

    def cond(self, v, taken, depth=0):
        f = self.f
        if v[0] != 'i' or depth > 6:
            return []
        i = f.ins[v[1]]
        if i.op == 'icmp':
            p = i.raw['p']
            neg = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'ule': 'ugt', 'ugt': 'ule', 'uge': 'ult', 'slt': 'sge', 'sle': 'sgt', 'sgt': 'sle', 'sge': 'slt'}
            if not taken:
                p = neg[p]
            a, b = self.lin(i.args[0]), self.lin(i.args[1])
            d = add(b, a, -1)       # b - a
            r = []
            if p == 'eq':
                r = [d, scale(d, -1)] + self.threeway(d)
            elif p in ('ult', 'slt'):
                r = [add(d, C(-1))]
                if p == 'ult' and set(b) == {None} and b[None] >= 0:
                    r.append(a)
            elif p in ('ule', 'sle'):
                r = [d]
                if p == 'ule' and set(b) == {None} and b[None] >= 0:
                    r.append(a)
            elif p in ('ugt', 'sgt'):
                r = [add(scale(d, -1), C(-1))]
            elif p in ('uge', 'sge'):
                r = [scale(d, -1)]
            elif p == 'ne':
                # unsigned quantity different from zero
                if b == C(0):
                    return [('ne0', tuple(sorted(a.items(), key=str)))]
                return [('ne', tuple(sorted(d.items(), key=str)))]
            if p in ('ult', 'ule', 'ugt', 'uge'):
                big = b if p in ('ult', 'ule') else a
                if any(c < 0 for x, c in big.items()):
                    return [('cond', tuple(sorted(big.items(), key=str)), r[0])]
            return r
        if i.op == 'xor' and i.args[1][0] == 'c' and int(i.args[1][1]) in (1, -1):
            return self.cond(i.args[0], not taken, depth + 1)
        if i.op == 'select' or (i.op == 'and' and taken) or (i.op == 'or' and not taken):
            if i.op != 'select':
                return self.cond(i.args[0], taken, depth + 1) + self.cond(i.args[1], taken, depth + 1)
            return []
        if i.op == 'phi' and i.ty == 'i1':
            live = [(a, b) for a, b in i.args if not (a[0] == 'c' and (int(a[1]) & 1) != (1 if taken else 0))]
            if len(live) == 1:
                a, b = live[0]
                r = list(self.facts(b)) + self.edge_facts(b, i.blk)
                return r + (self.cond(a, taken, depth + 1) if a[0] == 'i' else [])
        if i.op in ('zext', 'trunc', 'freeze'):
            j = f.ins.get(i.args[0][1]) if i.args[0][0] == 'i' else None
            if j is not None and j.op == 'phi' and j.ty == 'i8':
                return [{j.v: 1, None: -1}] if taken else [{j.v: -1, None: 0}, {j.v: 1, None: 0}]
            return self.cond(i.args[0], taken, depth + 1)
        return []

    def facts(self, blk):
        if blk in self.facts_memo:
            return self.facts_memo[blk]
        self.facts_memo[blk] = []
        f = self.f
        r = []
        for b in f.dom.get(blk, ()):
            for s in set(f.succs[b]):
                if len(set(f.succs[b])) > 1 and s in f.dom.get(blk, ()) and f.preds[s] == [b]:
                    r += self.edge_facts(b, s)
        self.facts_memo[blk] = r
        return r

    # ---- atoms ---------------------------------------------------------------
    def nonneg(self, a):
        if a in self.bits:
            return self.bits[a] > 0
        if isinstance(a, tuple):
            if a[0] in ('S', 'B'):
                return True
            if a[0] == 'L' and a[2]:
                t = a[2][-1]
                if isinstance(t, str) and '.' in t:
                    s, m = t.split('.', 1)
                    di = self.p.ditypes.get(s)
                    for x in (di or {}).get('m', ()):
                        if x[0] == m:
                            return x[4] == 'E' or x[3].startswith(('mr_size_t', 'size_t', 'uint', 'unsigned', 'mr_idx_t', 'mr_hash_value_t'))
            if a[0] == 'i':
                i = self.f.ins[a[1]]
                if i.op == 'load':
                    t = self.place(i.args[0])
                    return bool(t) and self.nonneg(('L', None, (t[-1],)))
                return any(u.op in ('zext',) for u in self.f.uses.get(a, ())) or i.op in ('udiv', 'lshr', 'urem')
            if a[0] == 'a':
                return any(u.op == 'zext' for u in self.f.uses.get(a, ()))
        return False

    def loop_facts(self, a):
        """what is known of a phi that only grows (or only shrinks) around a loop, and of phis of a maximum"""
        f = self.f
        r = []
        if a in self.bits:
            w = self.bits[a]
            r = [{a: -1, None: (1 << w) - 1}, {a: 1, None: 0}] if w > 0 else [{a: -1, None: (1 << -w - 1) - 1}, {a: 1, None: 1 << -w - 1}]
        if isinstance(a, tuple) and a[0] == 'B':
            return [{a: -1, None: a[2]}]
        tag = a[2][-1] if isinstance(a, tuple) and a[0] == 'L' and a[2] else None
        if isinstance(a, tuple) and a[0] == 'i' and a[1] in f.ins and f.ins[a[1]].op == 'load':
            t = self.place(f.ins[a[1]].args[0])
            tag = t[-1] if t else None
        if a[0] == 'i' and a[1] in f.ins and f.ins[a[1]].op == 'load' and self.counted(f.ins[a[1]]):
            r.append({a: 1, None: -1})
        if tag:
            top = self.maximum(tag)
            if top is not None and not self.in_loop(f.ins[top[1]].blk, self.here):
                r.append({top: 1, a: -1, None: 0})
        if tag in self.ranges:
            lo, hi = self.ranges[tag]
            return r + [{a: 1, None: -lo}, {a: -1, None: hi}]
        if not (isinstance(a, tuple) and a[0] == 'i') or i_missing(f, a):
            return r
        i = f.ins.get(a[1])
        if i is None:
            return []
        if i.op == 'phi':
            entry, step = [], []
            for v, b in i.args:
                if v[0] in ('i',) and i.blk in f.dom.get(b, ()):
                    step.append(self.lin(v))
                else:
                    entry.append(self.lin(v))
            if entry and step and len(entry) == 1:
                ds = [add(s, {a: 1, None: 0}, -1) for s in step]
                if all(set(d) == {None} for d in ds):
                    if all(d[None] >= 0 for d in ds):
                        r.append(add({a: 1, None: 0}, entry[0], -1))
                    if all(d[None] <= 0 for d in ds):
                        r.append(add(entry[0], {a: 1, None: 0}, -1))
            return r
        if i.op == 'and':
            for x in i.args:
                if x[0] == 'c' and int(x[1]) >= 0:
                    return r + [{a: -1, None: int(x[1])}, {a: 1, None: 0}]
        if i.op == 'urem' and i.args[1][0] != 'c':
            return r + [add(add(self.lin(i.args[1]), {a: 1, None: 0}, -1), C(-1)), {a: 1, None: 0}]
        if i.op in ('urem', 'srem') and i.args[1][0] == 'c':
            return r + [{a: -1, None: int(i.args[1][1]) - 1}] + ([{a: 1, None: 0}] if i.op == 'urem' else [])
        if i.op in ('udiv', 'lshr', 'sdiv', 'ashr') and i.args[1][0] == 'c':
            k = int(i.args[1][1])
            k = k if i.op in ('udiv', 'sdiv') else 1 << k
            n = self.lin(i.args[0])
            return r + [add(n, {a: k, None: 0}, -1)] + ([add({a: k, None: k - 1}, n, -1)])
        return r

    def counted(self, ld):
        """a local the scan of a text leaves the number of bytes it consumed in"""
        b, st = gep_parts(self.f, ld.args[0])
        if st or b[0] != 'i' or self.f.ins[b[1]].op != 'alloca':
            return False
        for u in self.f.uses.get(b, ()):
            if u.op in ('call', 'invoke') and 'sscanf' in (self.f.callee(u) or '') and u.args[-1] == b:
                s = self.p.cstr(u.args[1])
                return bool(s) and b'%n' in s
        return False

    def maximum(self, tag):
        """the merge that ends a loop as the greatest value of a field over the elements visited, if the function has exactly one"""
        if tag in self.max_memo:
            return self.max_memo[tag]
        f = self.f
        found = []
        for i in f.instrs():
            if i.op != 'phi' or i.ty not in ('i32', 'i64') or not any(i.blk in f.dom.get(b, ()) for _, b in i.args):
                continue
            ok = bool([1 for v, b in i.args if i.blk in f.dom.get(b, ())])
            taken = [0]
            for v, b in i.args:
                if i.blk in f.dom.get(b, ()) and not self.grows(i.v, v, b, i.blk, tag, taken, 0):
                    ok = False
            if ok and taken[0]:
                found.append(i.v)
        self.max_memo[tag] = found[0] if len(found) == 1 else None
        return self.max_memo[tag]

    def grows(self, m, v, b, s, tag, taken, depth):
        f = self.f
        if v == m:
            # kept: only where the element is not greater, or is not visited
            fm = [x for x in list(self.facts(b)) + self.edge_facts(b, s) if isinstance(x, dict)]
            return any(x.get(m, 0) > 0 and any(c < 0 and self.tagged(a, tag) for a, c in x.items() if a is not None) for x in fm)
        if v[0] != 'i' or depth > 4:
            return False
        i = f.ins[v[1]]
        if i.op == 'phi':
            return all(self.grows(m, a, p, i.blk, tag, taken, depth + 1) for a, p in i.args)
        if i.op == 'select':
            fm = [self.cond(i.args[0], t) for t in (True, False)]
            for k in (0, 1):
                x, y = i.args[1 + k], i.args[2 - k]
                if y == m and any(self.tagged(a, tag) for a in self.lin(x) if a is not None) and \
                   any(isinstance(z, dict) and z.get(m, 0) > 0 and any(c < 0 and self.tagged(a, tag) for a, c in z.items() if a is not None) for z in fm[1 - k]):
                    taken[0] += 1
                    return True
            return False
        if any(self.tagged(a, tag) for a in self.lin(v) if a is not None) and len(self.lin(v)) == 2 and self.lin(v)[None] == 0:
            taken[0] += 1
            return True
        return False

    def tagged(self, a, tag):
        if isinstance(a, tuple) and a[0] == 'L' and a[2]:
            return a[2][-1] == tag
        if isinstance(a, tuple) and a[0] == 'i' and a[1] in self.f.ins and self.f.ins[a[1]].op == 'load':
            t = self.place(self.f.ins[a[1]].args[0])
            return bool(t) and t[-1] == tag
        return False

    def prove(self, goal, blk, extra=(), depth=7, splits=3):
        """goal >= 0 at the end of the conditions dominating blk"""
        was, self.here = self.here, blk
        try:
            return self.prove1(goal, blk, extra, depth, splits)
        finally:
            self.here = was

    def in_loop(self, h, b):
        """block b is part of the loop with header h"""
        f = self.f
        if b is None or h not in f.dom.get(b, ()):
            return False
        if (h, b) not in self.loop_memo:
            seen, st = set(), [b]
            while st and h not in seen:
                for s in f.succs[st.pop()]:
                    if s not in seen:
                        seen.add(s)
                        st.append(s)
            self.loop_memo[h, b] = h in seen
        return self.loop_memo[h, b]

    def prove1(self, goal, blk, extra, depth, splits):
        facts = []
        conds = []
        nes = []
        for x in list(self.facts(blk)) + list(extra):
            if isinstance(x, tuple):
                if x[0] == 'ne0':
                    fm = dict(x[1])
                    if all(c >= 0 for c in fm.values()) and all(a is None or self.nonneg(a) for a in fm):
                        facts.append(add(fm, C(-1)))
                elif x[0] == 'cond':
                    conds.append(x)
                elif x[0] == 'ne':
                    nes.append(dict(x[1]))
            else:
                facts.append(x)
        for _, big, r in conds:
            if self.search(dict(big), facts, 3):
                facts.append(r)
        for d in nes:
            for k in (1, -1):
                if self.search(scale(d, k), facts, 3):
                    facts.append(add(scale(d, k), C(-1)))
        if any(len(F) == 1 and F[None] < 0 for F in facts) or self.search(goal, facts, depth):
            return True
        # relations kept by the loops whose merges the goal mentions
        hs = {self.f.ins[self.atom_ins(x)].blk for x in goal if self.atom_ins(x) is not None and self.f.ins[self.atom_ins(x)].op == 'phi'}
        inv = []
        for h in hs | {self.f.ins[self.atom_ins(x)].blk for F in facts if any(a in F for a in goal if a is not None) for x in F if self.atom_ins(x) is not None and self.f.ins[self.atom_ins(x)].op == 'phi'}:
            if any(h in self.f.dom.get(b, ()) for b in self.f.preds[h]):
                inv += self.invariants(h)
        if inv and self.search(goal, facts + inv, depth):
            return True
        if splits:
            for h in sorted((h for h in hs if not any(h in self.f.dom.get(b, ()) for b in self.f.preds[h])), key=lambda h: -len(self.f.dom.get(h, ())))[:1]:
                preds = [b for b in self.f.preds[h] if b in self.f.dom]
                if any(h in self.f.dom.get(b, ()) for b in preds):
                    continue
                ok = True
                for b in preds:
                    g = self.through(goal, b, h)
                    if g is None:
                        continue
                    sub = [y for y in (self.through(x, b, h) for x in facts + inv) if y is not None]
                    if not self.prove(g, b, sub + self.edge_facts(b, h), depth, splits - 1):
                        ok = False
                        break
                if ok:
                    return True
            for a in [x for x in goal if isinstance(x, tuple) and x[0] == 'i' and self.f.ins[x[1]].op == 'select']:
                i = self.f.ins[a[1]]
                ok = True
                for v, t in ((i.args[1], True), (i.args[2], False)):
                    lv = self.lin(v)
                    if not self.prove(subst(goal, a, lv), blk, [subst(x, a, lv) for x in facts + inv] + self.cond(i.args[0], t), depth, splits - 1):
                        ok = False
                        break
                if ok:
                    return True
        return False

    def atom_ins(self, x):
        if isinstance(x, tuple):
            if x[0] == 'i':
                return x[1]
            if x[0] == 'cap' and x[1][0] == 'i':
                return x[1][1]
        return None

    def search(self, goal, facts, depth, seen=None):
        bad = [(a, c) for a, c in goal.items() if a is not None and (c < 0 or not self.nonneg(a))]
        if not bad and goal.get(None, 0) >= 0:
            return True
        if depth == 0:
            return False
        seen = set() if seen is None else seen
        k = tuple(sorted(((str(a), c) for a, c in goal.items())))
        if k in seen:
            return False
        seen.add(k)
        if bad:
            a, c = min(bad, key=lambda x: x[1] > 0)
            cand = list(facts) + self.loop_facts(a) + [x for b, e in goal.items() if b is not None and b != a for x in self.loop_facts(b) if a in x]
            for F in cand:
                fc = F.get(a, 0)
                if fc * c <= 0:
                    continue
                # cancel the atom: goal*|fc| - F*|c| keeps the sign of the goal
                g = add(scale(goal, abs(fc)), F, -abs(c))
                if self.search(g, facts, depth - 1, seen):
                    return True
            return False
        # only the constant is short: use a fact whose constant is negative and atoms occur in the goal
        for a, c in goal.items():
            if a is None:
                continue
            for F in list(facts) + self.loop_facts(a):
                fc = F.get(a, 0)
                if fc > 0:
                    g = add(scale(goal, fc), F, -c)
                    if self.search(g, facts, depth - 1, seen):
                        return True
        return False


def ids(a):
    """instructions an atom is named by"""
    return {int(x) for x in re.findall(r"'i\\?', (\d+)\)", repr(a))}


def f_op(f, v):
    return f.ins[v[1]].op if v[0] == 'i' and v[1] in f.ins else None


def i_missing(f, a):
    return a[1] not in f.ins


def subst(F, a, v):
    if a not in F:
        return F
    k = F[a]
    return add(add(dict(F), {a: k, None: 0}, -1), v, k)
