"""Forward dataflow over every function of pointers into growing arrays and to released or moved blocks. Growing an array (directly or
in any callee, by summaries that name the array relative to the arguments) makes every pointer into it stale; releasing or moving a
block makes the pointers to it, and the place it was read from, stale until the place is written again. Taking the failure branch of
the growing or moving call makes them good again. A stale pointer must not be dereferenced, passed on, returned or released again."""
import collections
import fail, lin, scope
from ir import gep_parts, leaves, const_int
from p_bounds import Part, cname
from p_state import kind, origins
from par import pmap

GROW = {'mr_rarray_allocate_element': 0}
DEEP = 3


def tags_of(p, st):
    return tuple(p.field_name(s[1], s[2]) for s in st if s[0] == 'f')


class Model:
    def __init__(self, p):
        self.p = p
        self.alloc = fail.Alloc(p)
        self.names = [n for n, f in sorted(p.defined.items()) if not scope.generated(f) and not n.startswith('wit_')]
        self.grow = {n: set() for n in p.defined}      # (param, field chain, field): arrays a call may move
        self.frees = {n: set() for n in p.defined}     # (param, field chain) of blocks a call releases and leaves recorded; () the parameter itself
        self.ret = {n: set() for n in p.defined}       # (param, field): the result points into this array
        self.fields = set()
        self.writes = tag_writes(p, self.names)
        self.clears = clears(p, self.path, self.names)
        self.flag = {}                                 # (function, param, field chain): the param that tells if this growth happened
        self.solve()

    def fits(self, ty, ch):
        """can the chain of fields start at something of this declared type, and does each field lie in what the one before leads to"""
        for t in ch:
            if t.startswith('anon') or '.' not in t:
                ty = None
                continue
            s, m = t.split('.', 1)
            if ty and ty != s and not self.alike(ty, s):
                return False
            ty = None
            for x in self.p.ditypes.get(s, {}).get('m', ()):
                if x[0] == m:
                    ty = self.base(x[3])
        return True

    def alike(self, a, b):
        """the IR uses one record type for records of the same shape"""
        x, y = self.p.ditypes.get(a), self.p.ditypes.get(b)
        if not x or not y:
            return True
        return x['size'] == y['size'] and [m[1:3] for m in x['m'] if not m[6]] == [m[1:3] for m in y['m'] if not m[6]]

    def base(self, s):
        s = (s or '').replace('const ', '').replace('*', '').strip()
        return s if s and s not in ('void', 'char', 'anon') else None

    def plausible(self, f, r, ch):
        if r[0] == 'a':
            d = f.raw.get('ditypes') or []
            return self.fits(self.base(d[1 + r[1]]) if 1 + r[1] < len(d) else None, ch)
        return self.fits(None, ch)

    # ---- events --------------------------------------------------------------
    def path(self, f, a, depth=0):
        """(root value, chain of fields) an address is reached by, through loads"""
        b, st = gep_parts(f, a)
        t = tags_of(self.p, st)
        if b[0] == 'i' and f.ins[b[1]].op == 'load' and depth < DEEP:
            r, t0 = self.path(f, f.ins[b[1]].args[0], depth + 1)
            return r, t0 + t
        return b, t

    def grown(self, f, i):
        """places whose arrays this call may move"""
        return [x[:2] for x in self.grown_if(f, i)]

    def grown_if(self, f, i):
        """the same with the address of the flag that is true if it happened, if there is one"""
        out = []
        for t in self.p.targets(f, i):
            k = GROW.get(scope.base(t))
            if k is not None and k < len(i.args):
                r, ch = self.path(f, i.args[k])
                if ch:
                    out.append((r, ch, None))
                continue
            for k, ch in self.grow.get(t, ()):
                if k < len(i.args):
                    r, c0 = self.path(f, i.args[k])
                    if self.plausible(f, r, c0 + ch):
                        q = self.flag.get((t, k, ch))
                        out.append((r, c0 + ch, flat_one(f, i.args[q]) if q is not None and q < len(i.args) else None))
        return out

    def solve(self):
        # fields that hold arrays or blocks whose address may change
        for n in self.names:
            f = self.p.defined[n]
            for i in f.instrs():
                if i.op == 'store' and i.raw['st'] == 'ptr':
                    if any(l[0] == 'i' and self.alloc.kind(f, f.ins[l[1]]) == 'realloc' for l in flat(f, i.args[0])):
                        t = tags_of(self.p, gep_parts(f, i.args[1])[1])
                        if t and t[-1] != 'mr_ptrdes_t.data':
                            self.fields.add(t[-1])
        ch = True
        rounds = 0
        while ch and rounds < 12:
            ch = False
            rounds += 1
            for n in self.names:
                f = self.p.defined[n]
                if scope.base(n) in GROW:
                    continue
                for i in f.instrs():
                    if i.op in ('call', 'invoke'):
                        for r, c in self.grown(f, i):
                            self.fields.add(c[-1])
                            ch |= self.note(f, n, r, c)
                        if self.alloc.kind(f, i) == 'free' and len(i.args) > 3:
                            for v in flat(f, i.args[3]):
                                if v[0] == 'i' and f.ins[v[1]].op == 'load':
                                    r, c = self.path(f, f.ins[v[1]].args[0])
                                    if c and c[-1] in self.fields:
                                        ch |= self.note(f, n, r, c)
                    elif i.op == 'store' and i.raw['st'] == 'ptr':
                        r, c = self.path(f, i.args[1])
                        if c and c[-1] in self.fields and not is_null(i.args[0]):
                            ch |= self.note(f, n, r, c)
        ch, rounds = True, 0
        while ch and rounds < 6:
            ch = False
            rounds += 1
            for n in self.names:
                f = self.p.defined[n]
                if f.rty != 'ptr':
                    continue
                for i in f.instrs():
                    if i.op == 'ret' and i.args:
                        for r, c in self.into(f, i.args[0]):
                            if r[0] == 'a' and (r[1], c) not in self.ret[n]:
                                self.ret[n].add((r[1], c))
                                ch = True
        self.par = {n: {} for n in self.p.defined}
        ch, rounds = True, 0
        while ch and rounds < 6:
            ch = False
            rounds += 1
            for n in self.names:
                f = self.p.defined[n]
                for i in f.calls():
                    for t in self.p.targets(f, i):
                        if t not in self.p.defined or t not in self.par or scope.base(t) in GROW:
                            continue
                        for k, a in enumerate(i.args):
                            if k >= self.p.defined[t].nargs or a[0] not in 'ie':
                                continue
                            for r, c in self.into(f, a):
                                for k2, a2 in enumerate(i.args):
                                    if k2 == k or k2 >= self.p.defined[t].nargs or a2[0] not in 'iea':
                                        continue
                                    r2, c2 = self.path(f, a2)
                                    if r2 == r and c[:len(c2)] == c2 and len(c) > len(c2):
                                        x = (('a', k2), c[len(c2):])
                                        if x not in self.par[t].setdefault(k, set()):
                                            self.par[t][k].add(x)
                                            ch = True

        for rnd in range(3):
            for n in self.names:
                f = self.p.defined[n]
                d = f.raw.get('ditypes') or []
                for k in range(f.nargs):
                    if 1 + k < len(d) and (d[1 + k] or '').replace(' ', '') in ('bool*', '_Bool*'):
                        for r, ch in self.grow[n]:
                            if (n, r, ch) not in self.flag and Flag(self, f, k, (('a', r), ch)).holds():
                                self.flag[n, r, ch] = k

    def learn(self):
        """blocks released by a call: what is dangling when a function returns"""
        for rnd in range(4):
            ch = False
            for n in self.names:
                f = self.p.defined[n]
                if f.rty == 'ptr' and scope.base(n) in self.alloc_like():
                    continue
                x = Flow(self, f).run().exit
                x = {(k, c) for k, c in x if k < f.nargs and len(c) <= 4}
                if not x <= self.frees[n]:
                    self.frees[n] |= x
                    ch = True
            if not ch:
                break

    def alloc_like(self):
        return ('mr_calloc', 'mr_realloc', 'mr_free')

    def never_null(self, f, k):
        """every caller gives the address of something of its own, or hands such an argument on"""
        def ok(f, k, deep):
            cs = self.callsites().get(f.name, ())
            if not cs or deep > 4:
                return False
            for g, i in cs:
                if k >= len(i.args):
                    return False
                v = i.args[k]
                if v[0] == 'a' and (g.name == f.name and v[1] == k or ok(g, v[1], deep + 1)):
                    continue
                if v[0] == 'i' and g.ins[v[1]].op == 'alloca':
                    continue
                return False
            return True
        return f.raw.get('linkage', 'internal') != 'external_' and ok(f, k, 0)

    def callsites(self):
        if not hasattr(self, '_cs'):
            self._cs = collections.defaultdict(list)
            for n, f in self.p.defined.items():
                for i in f.calls():
                    for t in self.p.targets(f, i):
                        self._cs[t].append((f, i))
        return self._cs

    def note(self, f, n, r, c):
        if r[0] == 'a' and len(c) <= 6 and (r[1], c) not in self.grow[n] and self.plausible(f, r, c):
            self.grow[n].add((r[1], c))
            return True
        return False

    def into(self, f, v, seen=None):
        """arrays a pointer may point into: (root, chain of fields)"""
        seen = seen if seen is not None else set()
        out = set()
        for l in leaves(v):
            if l in seen:
                continue
            seen.add(l)
            if l[0] == 'a':
                out |= getattr(self, 'par', {}).get(f.name, {}).get(l[1], set())
                continue
            if l[0] != 'i':
                continue
            i = f.ins[l[1]]
            if i.op == 'load' and i.ty == 'ptr':
                t = tags_of(self.p, gep_parts(f, i.args[0])[1])
                if t and t[-1] in self.fields:
                    out.add(self.path(f, i.args[0]))
            elif i.op in ('getelementptr', 'bitcast', 'freeze'):
                out |= self.into(f, i.args[0], seen)
            elif i.op == 'phi' and i.ty == 'ptr':
                for a in i.args:
                    out |= self.into(f, a[0], seen)
            elif i.op == 'select' and i.ty == 'ptr':
                for a in i.args[1:]:
                    out |= self.into(f, a, seen)
            elif i.op in ('call', 'invoke') and i.ty == 'ptr':
                for t in self.p.targets(f, i):
                    k = GROW.get(scope.base(t))
                    if k is not None and k < len(i.args):
                        r, ch = self.path(f, i.args[k])
                        if ch:
                            out.add((r, ch))
                    for k, ch in self.ret.get(t, ()):
                        if k < len(i.args):
                            r, c0 = self.path(f, i.args[k])
                            if self.plausible(f, r, c0 + ch):
                                out.add((r, c0 + ch))
        return out


def flat(f, v, seen=None):
    """values that may flow into v through merges and casts"""
    seen = seen if seen is not None else set()
    for l in leaves(v):
        if l in seen:
            continue
        seen.add(l)
        if l[0] == 'i':
            i = f.ins[l[1]]
            if i.op == 'phi':
                for a in i.args:
                    flat(f, a[0], seen)
            elif i.op == 'select':
                for a in i.args[1:]:
                    flat(f, a, seen)
            elif i.op in lin.CASTS:
                flat(f, i.args[0], seen)
    return seen


def zero_on(f, c, b, s):
    """values that are zero when control goes from block b to s, by the test it ends with"""
    if f.succs[b][0] == f.succs[b][1] or c[0] != 'i':
        return None
    i = f.ins[c[1]]
    if i.op == 'icmp' and i.raw.get('p') in ('eq', 'ne'):
        x, y = i.args
        if is_null(x):
            x, y = y, x
        if not is_null(y) or f.succs[b][0 if i.raw['p'] == 'eq' else 1] != s:
            return None
        return flat(f, x)
    return flat(f, c) if f.succs[b][1] == s else None


def flat_one(f, v):
    x = {l for l in flat(f, v) if l[0] != 'i' or f.ins[l[1]].op not in lin.CASTS + ('phi', 'select')}
    return x.pop() if len(x) == 1 else v


def is_null(v):
    return v[0] == 'n' or (v[0] == 'c' and const_int(v) == 0)


def may_be_same(a, b):
    """two arrays named (root, chain) may be one"""
    (r1, c1), (r2, c2) = a, b
    if c1[-1] != c2[-1]:
        return False
    for x, y in zip(reversed(c1), reversed(c2)):
        if x != y:
            if x.split('.')[0] == y.split('.')[0]:
                return False
            break
    if r1 == r2:
        return c1 == c2 or len(c1) != len(c2)
    return r1[0] != 'a' or r2[0] != 'a'


COND = {'mr_rarray_allocate_element', 'mr_rarray_append', 'mr_add_ptr_to_list'}     # zero: nothing has moved


def tag_writes(p, names):
    """fields a function, or anything it calls, may store a pointer to"""
    w = {n: set() for n in p.defined}
    for n in names:
        f = p.defined[n]
        for i in f.instrs():
            if i.op == 'store':
                t = tags_of(p, gep_parts(f, i.args[1])[1])
                if t:
                    w[n].add(t[-1])
    ch = True
    while ch:
        ch = False
        for n in names:
            for i in p.defined[n].calls():
                for t in p.targets(p.defined[n], i):
                    if t in w and not w[t] <= w[n]:
                        w[n] |= w[t]
                        ch = True
    return w


BLOCK = ('llvm.memset', 'llvm.memcpy', 'llvm.memmove')


def clears(p, path, names):
    """(param, field chain) of what a function always or sometimes overwrites as a whole"""
    w = {n: set() for n in p.defined}
    for n in names:
        f = p.defined[n]
        for i in f.calls():
            if any(t.startswith(BLOCK) for t in p.targets(f, i)):
                r, c = path(f, i.args[0])
                if r[0] == 'a':
                    w[n].add((r[1], c))
    return w


class Flag:
    """does a function that moves an array always leave true in what its k-th argument points to"""

    def __init__(self, m, f, k, place):
        self.m, self.f, self.k, self.place = m, f, k, place

    def mine(self, v):
        return flat(self.f, v) == {('a', self.k)}

    def step(self, i, st):
        f, m = self.f, self.m
        if i.op == 'store' and self.mine(i.args[1]):
            c = const_int(i.args[0])
            return {(g, 'U' if c is None else 'T' if c else 'F') for g, x in st}
        gs = [x for x in m.grown_if(f, i) if may_be_same(x[:2], self.place)] if i.op in ('call', 'invoke') else ()
        if gs:
            if all(x[2] == ('a', self.k) for x in gs):
                return {(g, 'U') for g, x in st} | {(1, 'T') for g, x in st}
            if not any(self.mine(a) for a in i.args):
                return st | {(1, x) for g, x in st}
            return {(1, 'U')}
        if i.op in ('call', 'invoke') and any(self.mine(a) for a in i.args):
            return {(g, 'U') for g, x in st}
        return st

    def holds(self):
        f = self.f
        inn = [set() for b in f.blocks]
        inn[0] = {(0, 'U')}
        work = [0]
        grows = False
        while work:
            b = work.pop()
            st = set(inn[b])
            for i in f.blocks[b]:
                st = self.step(i, st)
                if i.op == 'ret' and any(g and x != 'T' for g, x in st):
                    return False
            grows |= any(g for g, x in st)
            for s in f.succs[b]:
                new = self.edge(b, s, st)
                if not new <= inn[s]:
                    inn[s] |= new
                    work.append(s)
        return grows

    def edge(self, b, s, st):
        f = self.f
        t = f.blocks[b][-1]
        if t.op == 'br' and len(f.succs[b]) > 1:
            z = zero_on(f, t.args[0], b, s)
            o = f.succs[b][1] if s == f.succs[b][0] else f.succs[b][0]
            nz = zero_on(f, t.args[0], b, o)
            if z and ('a', self.k) in z and self.m.never_null(f, self.k):
                return set()
            for v in z or ():
                if self.reads(v, b):
                    st = {(g, 'F') for g, x in st if x != 'T'}
            for v in nz or ():
                if self.reads(v, b):
                    st = {(g, 'T') for g, x in st if x != 'F'}
        return st

    def reads(self, v, b):
        """v is what the argument points to now, at the end of block b"""
        f = self.f
        if v[0] != 'i':
            return False
        i = f.ins[v[1]]
        if i.op != 'load' or not self.mine(i.args[0]) or i.blk != b:
            return False
        return not any(j.op in ('store', 'call', 'invoke') and any(self.mine(a) for a in j.args) for j in f.blocks[b][f.blocks[b].index(i):])


class Flow:
    """stale values and places of one function"""

    def __init__(self, m, f):
        self.m = m
        self.f = f
        self.p = m.p
        self.L = lin.Lin(m.p, f)
        self.vals = {}                # array pointers of the function
        self.keys = {}
        for i in f.instrs():
            if i.ty == 'ptr':
                x = m.into(f, i.v)
                if x:
                    self.vals[i.v] = x
        for k in range(f.nargs):
            x = m.into(f, ('a', k))
            if x:
                self.vals[('a', k)] = x
        self.reports = []
        self.exit = set()
        self.checked = 0

    def key(self, v):
        if v not in self.keys:
            self.keys[v] = self.L.key(v)
        return self.keys[v]

    def derived(self, v):
        """values computed from the same block as v, v included"""
        k = self.key(self.root(v))
        out = set()
        for i in self.f.instrs():
            if i.ty == 'ptr' and self.key(self.root(i.v)) == k:
                out.add(i.v)
        for a in range(self.f.nargs):
            if ('a', a) == self.root(v):
                out.add(('a', a))
        return out

    def root(self, v):
        while v[0] == 'i':
            i = self.f.ins[v[1]]
            if i.op in ('bitcast', 'freeze') or i.op == 'getelementptr':
                v = i.args[0]
            else:
                break
        return v

    def events(self, i):
        """entries an instruction adds: (value or place, condition)"""
        out = set()
        f, m = self.f, self.m
        kd = m.alloc.kind(f, i)
        if kd in ('free', 'realloc') and len(i.args) > 3:
            v = i.args[3]
            if not is_null(v):
                cond = i.v if kd == 'realloc' else None
                why = (i.id, kd)
                for w in self.derived(v):
                    out.add((w, cond, why))
                r = self.root(v)
                if r[0] == 'i' and f.ins[r[1]].op == 'load':
                    a = f.ins[r[1]].args[0]
                    t = tags_of(self.p, gep_parts(f, a)[1])
                    out.add((('P', self.L.addrkey(a), t[-1] if t else None, m.path(f, a)), cond, why))
            return out
        for r, c, q in m.grown_if(f, i):
            ts = {scope.base(t) for t in m.p.targets(f, i)}
            cond = i.v if ts and ts <= COND else None
            if q is not None:
                cond = ('F', q)
            for v, x in self.vals.items():
                if v != i.v and any(may_be_same((r, c), y) for y in x):
                    out.add((v, cond, (i.id, 'grow')))
        for t in m.p.targets(f, i):
            for k, ch in m.frees.get(t, ()):
                if k >= len(i.args) or is_null(i.args[k]):
                    continue
                if ch:
                    r, c0 = m.path(f, i.args[k])
                    if m.plausible(f, r, c0 + ch):
                        for j in f.instrs():
                            if j.op == 'load' and j.ty == 'ptr' and m.path(f, j.args[0]) == (r, c0 + ch):
                                why = (i.id, 'free')
                                for w in self.derived(j.v):
                                    out.add((w, None, why))
                                out.add((('P', self.L.addrkey(j.args[0]), ch[-1], (r, c0 + ch)), None, why))
                        out.add((('P', None, ch[-1], (r, c0 + ch)), None, (i.id, 'free')))
                else:
                    for w in self.derived(i.args[k]):
                        out.add((w, None, (i.id, 'free')))
                    r = self.root(i.args[k])
                    if r[0] == 'i' and f.ins[r[1]].op == 'load':
                        a = f.ins[r[1]].args[0]
                        tg = tags_of(self.p, gep_parts(f, a)[1])
                        out.add((('P', self.L.addrkey(a), tg[-1] if tg else None, m.path(f, a)), None, (i.id, 'free')))
        return out

    def bad_edge(self, b, s):
        """call whose result is zero on this edge"""
        f = self.f
        t = f.blocks[b][-1]
        if t.op != 'br' or len(f.succs[b]) < 2 or t.args[0][0] != 'i':
            return None
        return zero_on(f, t.args[0], b, s)

    def run(self):
        f = self.f
        n = len(f.blocks)
        inn = [None] * n
        inn[0] = frozenset()
        work = [0]
        rounds = 0
        out = {}
        while work and rounds < 4000:
            rounds += 1
            b = work.pop(0)
            st = self.block(b, inn[b], None)
            for s in f.succs[b]:
                x = self.edge(b, s, st)
                if x is None:
                    continue
                new = x if inn[s] is None else inn[s] | x
                if new != inn[s]:
                    inn[s] = new
                    if s not in work:
                        work.append(s)
        for b in range(n):
            if inn[b] is not None:
                self.block(b, inn[b], self.reports)
        return self

    def edge(self, b, s, st):
        z = self.bad_edge(b, s)
        if z:
            w = {('F', flat_one(self.f, self.f.ins[x[1]].args[0])) for x in z if x[0] == 'i' and self.f.ins[x[1]].op == 'load'}
            st = frozenset(e for e in st if e[1] not in z and e[1] not in w)
            if any(x[0] == 'a' and self.m.never_null(self.f, x[1]) for x in z):
                return None
        phis = [i for i in self.f.blocks[s] if i.op == 'phi']
        if phis and st:
            st = frozenset(e for e in st if e[0][0] != 'P' or not any(repr(i.v) in repr(e[0][1]) for i in phis))
        phis = [i for i in phis if i.ty == 'ptr']
        if phis and st:
            bad = {}
            for e in st:
                bad.setdefault(e[0], []).append(e)
            defs = {i.v for i in phis}
            add = set()
            for i in phis:
                for a, pb in i.args:
                    if pb == b:
                        for l in leaves(a):
                            for e in bad.get(l, ()):
                                add.add((i.v,) + e[1:])
            st = frozenset(e for e in st if e[0] not in defs) | add
        return st

    def block(self, b, st, rep):
        st = set(st)
        f = self.f
        for i in f.blocks[b]:
            if i.op == 'phi':
                continue
            if rep is not None:
                self.uses(i, st, rep)
            if i.op in ('call', 'invoke'):
                st -= self.written(i, st)
                st |= self.events(i)
                if i.ty == 'ptr':
                    st = {e for e in st if e[0] != i.v}
            elif i.op == 'store':
                k = self.L.addrkey(i.args[1])
                t = tags_of(self.p, gep_parts(f, i.args[1])[1])
                st = {e for e in st if not (e[0][0] == 'P' and (e[0][1] == k or (t and e[0][2] == t[-1])))}
            elif i.op == 'load':
                if i.ty == 'ptr':
                    st = {e for e in st if e[0] != i.v}
                    k = self.L.addrkey(i.args[0])
                    st |= {(i.v,) + e[1:] for e in st if e[0][0] == 'P' and e[0][1] == k}
            elif i.op in ('getelementptr', 'bitcast', 'freeze', 'select'):
                st = {e for e in st if e[0] != i.v}
                ops = i.args[1:] if i.op == 'select' else i.args[:1]
                src = {l for a in ops for l in leaves(a)}
                st |= {(i.v,) + e[1:] for e in st if e[0] in src}
            elif i.op == 'ret' and rep is not None:
                for e in st:
                    if e[0][0] == 'P' and e[1] is None and e[0][3][0][0] == 'a':
                        self.exit.add((e[0][3][0][1], e[0][3][1]))
                    if e[0][0] == 'a' and e[1] is None and e[2][1] == 'free':
                        self.exit.add((e[0][1], ()))
        return frozenset(st)

    def written(self, i, st):
        """a call that may write the record a dangling place is in clears it"""
        f = self.f
        gone = set()
        ts = self.m.p.targets(f, i)
        for e in st:
            if e[0][0] != 'P':
                continue
            r, c = e[0][3]
            if any(e[0][2] in self.m.writes.get(t, ()) for t in ts):
                gone.add(e)
            for k, ch in {x for t in ts for x in self.m.clears.get(t, ())} | ({(0, ())} if any(t.startswith(BLOCK) for t in ts) else set()):
                if k < len(i.args):
                    r2, c2 = self.m.path(f, i.args[k])
                    if r2 == r and c[:len(c2 + ch)] == c2 + ch:
                        gone.add(e)
        return gone

    def uses(self, i, st, rep):
        f = self.f
        bad = {}
        for e in st:
            if e[0][0] != 'P':
                bad.setdefault(e[0], e)
        if i.op in ('call', 'invoke'):
            for t in self.m.p.targets(f, i):
                for k, ch in self.m.frees.get(t, ()):
                    if ch and k < len(i.args):
                        r, c0 = self.m.path(f, i.args[k])
                        for e in st:
                            if e[0][0] == 'P' and e[0][3] == (r, c0 + ch):
                                rep.append((i, 'released again by ' + scope.base(t), e))
            if any(t.startswith(BLOCK[1:]) for t in self.m.p.targets(f, i)) and self.m.path(f, i.args[0])[0][0] == 'a':
                r, c0 = self.m.path(f, i.args[1])
                for e in st:
                    if e[0][0] == 'P' and e[0][3][0] == r and e[0][3][1][:len(c0)] == c0 and not (e[1] is not None):
                        rep.append((i, 'handed back in a record', e))
        ops = []
        if i.op == 'load':
            ops = [(i.args[0], 'read')]
        elif i.op == 'store':
            ops = [(i.args[1], 'written')]
        elif i.op in ('call', 'invoke'):
            nm = cname(f, i) or ''
            if nm.startswith(('lifetime', 'dbg')):
                return
            ops = [(a, 'passed to %s' % (scope.base(nm) or 'a function')) for a in i.args]
        elif i.op == 'ret':
            ops = [(a, 'returned') for a in i.args]
        for a, how in ops:
            for l in leaves(a):
                if l in self.vals:
                    self.checked += 1
                if l in bad:
                    rep.append((i, how, bad[l]))


def view(c, name):
    """(what was reported, what was judged): pairs of event and use lines"""
    p = c.prog(name)
    m = Model(p)
    m.learn()

    def one(n):
        f = p.defined[n]
        F = Flow(m, f).run()
        rep, seen = [], set()
        for i, how, e in F.reports:
            ev = f.ins[e[2][0]]
            k = (line(ev), line(i))
            if k not in seen:
                seen.add(k)
                rep.append((n, f.where(i), how, e[2][1], f.where(ev), k))
        evs = {line(i) for i in f.instrs() if i.op in ('call', 'invoke') and (m.grown(f, i) or m.alloc.kind(f, i) in ('free', 'realloc'))}
        uses = set()
        for i in f.instrs():
            if i.op in ('load', 'store', 'call', 'invoke', 'ret') and any(l in F.vals for a in (i.args[1:2] if i.op == 'store' else i.args) if isinstance(a, tuple) for l in leaves(a)):
                uses.add(line(i))
        return rep, F.checked, evs, uses
    rs = pmap(one, m.names)
    return p, m, rs


def line(i):
    return tuple(i.loc[:2]) if i.loc else None


def run(c):
    c.rule('not-stale', 'after an array may have moved, no pointer into the old array is used, unless the way taken is the one where it did not move')
    c.rule('not-released', 'after a block was released or moved, neither it nor a pointer loaded from where it was recorded is used')
    p, m, rs = view(c, 'plain')
    reps = []
    n_ev = 0
    for rep, checked, evs, uses in rs:
        c.ok('not-stale', checked)
        c.ok('not-released', len(evs))
        n_ev += len(evs)
        reps += rep
    if reps:
        _, _, r2 = view(c, 'inline')
        bad2 = {x[5] for r in r2 for x in r[0]}
        for x in reps:
            judged = any(x[5][0] in evs and x[5][1] in uses for _, _, evs, uses in r2)
            if judged and x[5] not in bad2:
                continue
            n, at, how, kd, ev, k = x
            rule = 'not-stale' if kd == 'grow' else 'not-released'
            what = 'moved' if kd in ('grow', 'realloc') else 'released'
            c.report('%s:%s:%s' % (scope.base(n), how, what), rule, at, 'memory that %s is %s here' % ({'moved': 'may have been moved at ' + ev, 'released': 'was released at ' + ev}[what], how))
    c.rule('handed-back', 'a function others can call does not leave the address of a released block recorded in what it was given')
    for n in m.names:
        f = p.defined[n]
        if f.raw['local'] and not f.raw['taken']:
            continue
        if any(m.alloc.kind(f, i) in ('free', 'realloc') for i in f.calls()):
            c.ok('handed-back')
        for k, ch in sorted(m.frees[n]):
            c.report('%s:%d:%s' % (scope.base(n), k, ch[-1:]), 'handed-back', '%s (%s)' % (f.file_line() if hasattr(f, 'file_line') else f.raw['file'].split('/')[-1] + ':' + str(f.raw['line']), n),
                     'returns with %s still holding the address of a block it released' % ('.'.join(x.split('.')[-1] for x in ch) or 'an argument'))
    c.floor('not-stale', 1200)
    c.floor('not-released', 60)
    for need in ('mr_ra_ptrdes_t.ra', 'mr_save_data_t.mr_ra_ud', 'mr_ic_rarray_t.ra'):
        c.require(need in m.fields, 'array ' + need)
    c.require(any('mr_add_ptr_to_list' == scope.base(n) and g for n, g in m.grow.items()), 'growth in mr_add_ptr_to_list')
