"""Abstract evaluation of comparison and hash functions in an order domain. A function of two elements x and y is unfolded into a
decision tree over terms: what is read from one element (an access path), compared with what is read from the other. No value is ever
computed: a term read from memory is an uninterpreted quantity, known only by its position among a few representative positions
(below, equal, above; null; the constants it is compared with; both zeros and not-a-number for floating point; equal text behind
different pointers)."""
import re
import zlib

MASK = {}


def m(w):
    return (1 << w) - 1


def bits(ty):
    if ty and ty[0] == 'i' and ty[1:].isdigit():
        return int(ty[1:])
    return {'ptr': 64}.get(ty)


FP = {'float': 4, 'double': 8, 'x86_fp80': 10}
X, Y, S = ('x',), ('y',), ('s',)
PURE = {'strlen', 'strnlen'}
CMPFN = {'strcmp': 2, 'strncmp': 3, 'memcmp': 3, 'strcasecmp': 2, 'strncasecmp': 3}


class Undecided(Exception):
    pass


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


# ---- terms ---------------------------------------------------------------
def sides(t):
    if not isinstance(t, tuple):
        return frozenset()
    if t == X or t == Y:
        return frozenset(t)
    r = frozenset()
    for e in t:
        if isinstance(e, tuple):
            r |= sides(e)
    return r


def mirror(t):
    if t == X:
        return Y
    if t == Y:
        return X
    if isinstance(t, tuple):
        return tuple(mirror(e) for e in t)
    return t


def canon(t):
    return mirror(t) if 'y' in sides(t) and 'x' not in sides(t) else t


def show(t, names=None):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k in ('x', 'y', 's'):
        return {'x': 'x', 'y': 'y', 's': 'context'}[k]
    if k == 'p':
        return show(t[1]) + ('+%d' % t[2] if t[2] else '')
    if k == 'ld':
        return '[%s]' % show(t[1])
    if k == 'ix':
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if k == 'call':
        return '%s(%s)' % (t[1], ', '.join(show(a) for a in t[2:]))
    if k == 'out':
        return 'result of %s(%s)' % (t[1], ', '.join(show(a) for a in t[3:]))
    if k == 'cast':
        return show(t[4])
    if k == 'c':
        return str(t[1])
    return '%s(%s)' % (k, ', '.join(show(a) for a in t[1:] if isinstance(a, tuple)))


# ---- symbolic unfolding --------------------------------------------------
class Info:
    """facts on functions that decide whether they are unfolded or kept as one uninterpreted quantity"""

    def __init__(self, p):
        self.p = p
        self.memo = {}
        self.wmemo = {}

    def loops(self, f):
        if not hasattr(f, '_order_loops'):
            seen, done, f._order_loops = set(), set(), False
            work = [(0, iter(f.blocks[0][-1].raw.get('s') or ()))]
            seen.add(0)
            while work:
                b, it = work[-1]
                for s in it:
                    if s in seen and s not in done:
                        f._order_loops = True
                    elif s not in seen:
                        seen.add(s)
                        work.append((s, iter(f.blocks[s][-1].raw.get('s') or ())))
                        break
                else:
                    done.add(b)
                    work.pop()
        return f._order_loops

    def transparent(self, name, depth=0):
        if name in self.memo:
            return self.memo[name]
        f = self.p.defined.get(name)
        if f is None:
            return False
        self.memo[name] = False
        ok = not self.loops(f) and depth < 6
        if ok:
            for i in f.instrs():
                if i.op == 'store' and not self.local(f, i.args[1]):
                    ok = False
                    break
        self.memo[name] = ok
        return ok

    def local(self, f, o):
        while o[0] == 'i' and f.ins[o[1]].op in ('getelementptr', 'bitcast'):
            o = f.ins[o[1]].args[0]
        return o[0] == 'i' and f.ins[o[1]].op == 'alloca'

    def writes(self, name):
        """positions of the pointer parameters a function writes through"""
        f = self.p.defined.get(name)
        if f is None:
            return None
        if name in self.wmemo:
            return self.wmemo[name]
        r = self.wmemo[name] = set()
        for i in f.instrs():
            if i.op == 'store':
                o = i.args[1]
                while o[0] == 'i' and f.ins[o[1]].op in ('getelementptr', 'bitcast', 'phi'):
                    a = f.ins[o[1]].args[0]
                    o = a[0] if f.ins[o[1]].op == 'phi' else a
                if o[0] == 'a':
                    r.add(o[1])
            if i.op == 'call':
                for k, a in enumerate(i.args):
                    if a[0] == 'a' and i.raw.get('c', [''])[0] == 'F' and i.raw['c'][1] not in CMPFN and i.raw['c'][1] not in PURE and \
                       i.raw['c'][1] != name and not i.raw['c'][1].startswith('llvm.') and \
                       (self.writes(i.raw['c'][1]) if self.p.defined.get(i.raw['c'][1]) else {k}) & {k}:
                        r.add(a[1])
                    if a[0] == 'a' and k == 0 and str(i.raw.get('c', ['', ''])[1]).startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')):
                        r.add(a[1])
        return r


class Run:
    """one walk through a function along given decisions; stops with Fork at the first undecided one"""
    LIMIT = 6000

    def __init__(self, p, info, bind, decisions):
        self.p = p
        self.info = info
        self.bind = bind
        self.dec = list(decisions)
        self.pos = 0
        self.steps = 0
        self.frame = 0
        self.mem = {}
        self.pairs = []
        self.subs = []
        self.wrote = []
        self.nn = set()
        if bind.get(('nonnull', 'args')):
            self.nn |= {('p', X, 0), ('p', Y, 0)}

    def decide(self, cond):
        k = self.const(cond)
        if k is not None:
            return k != 0
        if self.pos < len(self.dec):
            self.pos += 1
            return self.dec[self.pos - 1]
        raise Fork(cond)

    def const(self, t):
        if t[0] == 'c':
            return t[1]
        return None

    def call(self, name, args, where=None):
        f = self.p.defined[name]
        self.frame += 1
        fr = self.frame
        if fr > 60:
            raise Undecided('too many calls')
        env = {}
        b, prev = 0, None
        while True:
            pend = {}
            for i in f.blocks[b]:
                self.steps += 1
                if self.steps > self.LIMIT:
                    raise Undecided('unbounded')
                if i.op == 'phi':
                    for v, pb in i.args:
                        if pb == prev:
                            pend[i.id] = self.v(f, env, args, v, fr)
                    continue
                if pend:
                    env.update(pend)
                    pend = {}
                if i.op == 'ret':
                    return self.v(f, env, args, i.args[0], fr) if i.args else None
                if i.op == 'br':
                    s = i.raw['s']
                    if len(s) == 1:
                        nb = s[0]
                    else:
                        nb = s[0] if self.decide(self.v(f, env, args, i.args[0], fr)) else s[1]
                    break
                if i.op == 'switch':
                    v = self.v(f, env, args, i.args[0], fr)
                    nb = i.raw['s'][0]
                    for c, t in i.raw['cases']:
                        if self.decide(self.icmp('eq', v, ('c', int(c) & m(64)), 64)):
                            nb = t
                            break
                    break
                if i.op == 'unreachable':
                    raise Undecided('stops')
                env[i.id] = self.step(f, env, args, i, fr)
            prev, b = b, nb

    def v(self, f, env, args, o, fr):
        k = o[0]
        if k == 'i':
            return env.get(o[1], ('u', fr, o[1]))
        if k == 'a':
            return args[o[1]]
        if k == 'c':
            return ('c', int(o[1]) & m(int(o[2]) if len(o) > 2 and o[2] else 64))
        if k == 'n':
            return ('c', 0)
        if k in ('g', 'F'):
            return ('p', ('glob', o[1]), 0)
        if k in ('f', 'fp'):
            try:
                return ('f', float(o[1]))
            except (ValueError, TypeError):
                return ('f', str(o[1]))
        if k == 'e' and o[1] == 'getelementptr':
            b = self.v(f, env, args, o[2][0], fr)
            if b[0] == 'p' and len(o) > 4 and isinstance(o[4], int):
                return ('p', b[1], b[2] + o[4])
        return ('u', fr, str(o))

    # -- arithmetic
    def icmp(self, pr, a, b, w):
        if a[0] == 'c' and b[0] == 'c':
            return ('c', int(compare(pr, a[1] & m(w), b[1] & m(w), w)))
        if a == b and pr in ('eq', 'ne', 'ule', 'uge', 'sle', 'sge', 'ult', 'ugt', 'slt', 'sgt') and a[0] != 'u':
            return ('c', int(pr in ('eq', 'ule', 'uge', 'sle', 'sge')))
        for u, z in ((a, b), (b, a)):
            # addresses of objects that exist are not null
            if z == ('c', 0) and u[0] == 'p' and (u[1][0] in ('al', 'glob') or (u[1] in (X, Y) and u[2]) or (u[1][0] == 'ix') or u[2]) and pr in ('eq', 'ne') or \
               z == ('c', 0) and u in self.nn and pr in ('eq', 'ne'):
                return ('c', int(pr == 'ne'))
        self.note(a, b)
        return ('icmp', pr, w, a, b)

    def note(self, a, b):
        sa, sb = sides(a), sides(b)
        if sa and sb and len(sa) == 1 and len(sb) == 1 and sa != sb:
            self.pairs.append((a, b, mirror(bare(a)) == bare(b), self.at))

    def step(self, f, env, args, i, fr):
        self.at = (f, i)
        op = i.op
        V = [self.v(f, env, args, a, fr) for a in i.args] if op not in ('alloca',) else []
        w = bits(i.ty)
        if op == 'alloca':
            return ('p', ('al', fr, i.id), 0)
        if op == 'getelementptr':
            return self.gep(f, env, args, i, V[0], fr)
        if op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            if op == 'ptrtoint' and w and w < 64:
                return self.cast('trunc', 64, w, V[0])
            return V[0]
        if op == 'load':
            return self.load(f, i, V[0], i.raw['sz'], i.ty)
        if op == 'store':
            self.store(V[1], V[0], i.raw['sz'], i.raw.get('st'))
            return None
        if op == 'icmp':
            return self.icmp(i.raw['p'], V[0], V[1], bits(i.raw['ot']) or 64)
        if op == 'fcmp':
            self.note(V[0], V[1])
            return ('fcmp', i.raw['p'], V[0], V[1])
        if op in ('zext', 'sext', 'trunc'):
            return self.cast(op, bits(i.raw['ft']) or 64, w, V[0])
        if op in ('fpext', 'fptrunc', 'fneg', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
            return ('fop', op, V[0])
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return ('fop', op, V[0], V[1])
        if op == 'select':
            c = V[0]
            if isinstance(i.ty, str) and i.ty == 'i1' and False:
                pass
            return V[1] if self.decide(c) else V[2]
        if w and op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = V
            if a[0] == 'c' and b[0] == 'c':
                return ('c', arith(op, a[1], b[1], w))
            if op in ('sub', 'xor'):
                self.note(a, b)
                if sides(a) and sides(b):
                    self.subs.append((a, b, w))
            if a[0] == 'p' and b[0] == 'c' and op == 'add':
                return ('p', a[1], a[2] + b[1])
            return ('op', op, w, a, b)
        if op == 'call':
            return self.docall(f, env, args, i, V, fr)
        if op in ('extractvalue', 'insertvalue', 'extractelement', 'insertelement', 'shufflevector'):
            return ('ag', op, str(i.raw.get('ix') or i.raw.get('idx') or ''), *V)
        return ('u', fr, i.id)

    def cast(self, op, fw, tw, a):
        if a[0] == 'c':
            v = a[1] & m(fw)
            if op == 'sext' and v >> (fw - 1):
                v |= m(tw) & ~m(fw)
            return ('c', v & m(tw))
        return ('cast', op, fw, tw, a)

    def gep(self, f, env, args, i, base, fr):
        if base[0] != 'p':
            base = ('p', base, 0)
        for st in i.raw['g']:
            if st[0] == 'f':
                base = ('p', base[1], base[2] + int(st[3]))
            else:
                o = st[1]
                o = tuple(o) if isinstance(o, list) else o
                idx = self.v(f, env, args, deep(o), fr)
                n = int(st[2])
                if idx[0] == 'c':
                    k = idx[1]
                    if k >> 63:
                        k -= 1 << 64
                    elif len(o) > 2 and o[2] and int(o[2]) < 64 and k >> (int(o[2]) - 1):
                        k -= 1 << int(o[2])
                    base = ('p', base[1], base[2] + k * n)
                else:
                    base = ('p', ('ix', base, bare(idx), n), 0)
        return base

    def tag(self, f, i):
        """(struct, field) a load reads"""
        o = i.args[0]
        if o[0] == 'i' and f.ins[o[1]].op == 'getelementptr':
            fs = [s for s in f.ins[o[1]].raw['g'] if s[0] == 'f']
            if fs:
                return fs[-1][1], self.p.field_name(fs[-1][1], fs[-1][2]).split('.')[-1]
        return None

    def load(self, f, i, a, n, ty):
        t = self.tag(f, i)
        if t and t in self.bind:
            return ('c', self.bind[t])
        if a[0] != 'p':
            a = ('p', a, 0)
        if t and self.bind.get(('nonnull', t)) and a[1][0] != 'al':
            self.nn.add(('ld', a, n, 'ptr'))
        if a[1][0] == 'al':
            r = self.cell(a, n)
            if r is not None:
                return r
            return ('u', a, n)
        if ty in FP:
            return ('ld', a, FP[ty], 'fp')
        return ('ld', a, n, 'ptr' if ty == 'ptr' else 'int')

    def cell(self, a, n):
        for (al, off), (sz, t, fp) in self.mem.items():
            if al != a[1] or not (off <= a[2] and a[2] + n <= off + sz):
                continue
            if off == a[2] and n == sz:
                return t
            if t[0] == 'ld' and t[1][0] == 'p':
                return ('ld', ('p', t[1][1], t[1][2] + a[2] - off), n, 'int')
            if t == ('c', 0):
                return ('c', 0)
            return ('part', a[2] - off, n, t)
        return None

    def store(self, a, t, n, ty):
        if a[0] == 'p' and a[1][0] == 'al':
            n = FP.get(ty, n)
            for k in [k for k in self.mem if k[0] == a[1] and k[1] < a[2] + n and a[2] < k[1] + self.mem[k][0]]:
                del self.mem[k]
            self.mem[(a[1], a[2])] = (n, t, ty in FP)
        else:
            self.wrote.append((a, t, n))

    def content(self, t, n=None):
        """a pointer argument of an uninterpreted function: the local object it designates, or the pointer itself"""
        if t[0] == 'p' and t[1][0] == 'al':
            cs = sorted((k[1] - t[2], c[0], c[1]) for k, c in self.mem.items() if k[0] == t[1] and k[1] + c[0] > t[2])
            if n is not None:
                cs = [c for c in cs if c[0] < n]
            return ('mem',) + tuple(cs)
        return bare(t)

    def docall(self, f, env, args, i, V, fr):
        c = i.raw['c']
        if c[0] != 'F':
            if bits(i.ty) == 32 and len(V) >= 2 and sides(V[0]) and mirror(bare(V[0])) == bare(V[1]):
                return ('rel', 'another comparison', bare(V[0]), bare(V[1]), None)
            return ('u', fr, i.id)
        n = c[1]
        if n.startswith('llvm.'):
            if n.startswith('llvm.is.fpclass'):
                return ('isfp', V[1][1], V[0])
            if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
                if V[2][0] == 'c':
                    self.copy(V[0], V[1], V[2][1])
            elif n.startswith('llvm.memset'):
                if V[2][0] == 'c' and V[1][0] == 'c':
                    self.store(V[0], V[1], V[2][1], None)
            elif n.startswith('llvm.fabs'):
                return ('fop', 'fabs', V[0])
            elif i.ty != 'void':
                return ('call', n.rsplit('.', 1)[0]) + tuple(bare(v) for v in V)
            return None
        if n in CMPFN:
            a, b = V[0], V[1]
            k = bare(V[2]) if CMPFN[n] == 3 else None
            self.note(a, b)
            return ('rel', n, self.content(a), self.content(b), canon(k) if k else None)
        if n == 'memcpy' or n == 'memmove':
            if V[2][0] == 'c':
                self.copy(V[0], V[1], V[2][1])
            return V[0]
        if self.info.transparent(n):
            return self.call(n, V)
        size = V[1][1] if len(V) > 1 and V[1][0] == 'c' else None
        if bits(i.ty) == 32 and len(V) >= 2 and V[0] != V[1]:
            a, b = self.content(V[0]), self.content(V[1])
            if len(sides(a)) == 1 and mirror(a) == b:
                self.pairs.append((a, b, True, self.at))
                return ('rel', n, a, b, None)
        key = ('call', n) + tuple(self.content(v, size if k == 0 else None) for k, v in enumerate(V))
        w = self.info.writes(n)
        for k, v in enumerate(V):
            if v[0] == 'p' and v[1][0] == 'al' and (w is None and n not in PURE or w and k in w):
                others = tuple(self.content(u) for j, u in enumerate(V) if j != k)
                al = self.alsize(v)
                self.mem = {q: z for q, z in self.mem.items() if q[0] != v[1]}
                self.mem[(v[1], 0)] = (al, ('out', n, k) + others, False)
        return key if i.ty != 'void' else None

    def alsize(self, v):
        for fn in self.p.defined.values():
            pass
        return self.sizes.get(v[1], 16)

    sizes = {}

    def copy(self, d, s, n):
        if s[0] == 'p' and s[1][0] == 'al':
            got = [(k[1] - s[2], c) for k, c in self.mem.items() if k[0] == s[1] and s[2] <= k[1] < s[2] + n]
            for off, c in got:
                self.store(('p', d[1], d[2] + off), c[1], c[0], 'float' if False else None) if d[0] == 'p' else None
        elif d[0] == 'p' and s[0] in ('p', 'ld', 'c'):
            self.store(d, ('ld', s if s[0] == 'p' else ('p', s, 0), n, 'blk'), n, None)


def deep(o):
    return tuple(deep(e) for e in o) if isinstance(o, (list, tuple)) else o


def bare(t):
    """without widening and narrowing, so that the same quantity has one name"""
    while t[0] == 'cast':
        t = t[4]
    if t[0] == 'p' and t[2] == 0 and t[1][0] == 'ld':
        return t[1]
    return t


def sgn(v, w):
    v &= m(w)
    return v - (1 << w) if v >> (w - 1) else v


def compare(pr, a, b, w):
    if pr[0] == 's':
        a, b = sgn(a, w), sgn(b, w)
    k = pr if pr in ('eq', 'ne') else pr[1:]
    return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[k]


def arith(op, a, b, w):
    sa, sb = sgn(a, w), sgn(b, w)
    a &= m(w)
    b &= m(w)
    if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
        return 0
    r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
         'shl': lambda: a << (b % w), 'lshr': lambda: a >> (b % w), 'ashr': lambda: sa >> (b % w), 'udiv': lambda: a // b, 'urem': lambda: a % b,
         'sdiv': lambda: int(sa / sb), 'srem': lambda: sa - int(sa / sb) * sb}[op]()
    return r & m(w)


class Tree:
    """decision tree of one function"""

    def __init__(self, p, info, name, args, bind, limit=1500, local=None):
        self.leaves = 0
        self.pairs = {}
        self.subs = []
        self.wrote = {}
        self.terms = []
        self.name = name

        def grow(dec):
            self.leaves += 1
            if self.leaves > limit:
                raise Undecided('too many paths')
            r = Run(p, info, bind, dec)
            for k, t in (local or {}).items():
                r.mem[k] = t
            try:
                t = r.call(name, args)
                node = ('leaf', t, tuple(r.wrote))
                if t is not None:
                    self.terms.append(t)
                self.terms += [w[1] for w in r.wrote]
            except Fork as e:
                self.terms.append(e.cond)
                node = ('if', e.cond, grow(dec + [True]), grow(dec + [False]))
                self.collect(r)
                return node
            self.collect(r)
            return node
        self.root = grow([])

    def collect(self, r):
        for a, b, same, (f, i) in r.pairs:
            self.pairs[(bare(a), bare(b))] = (same, f, i)
        self.subs += r.subs

    def leaf(self, ev):
        n = self.root
        while n[0] == 'if':
            n = n[2] if ev(n[1]) else n[3]
        return n


# ---- positions -----------------------------------------------------------
class Space:
    """the quantities of a comparison and the representative positions of each"""

    def __init__(self, terms, cap=900):
        self.atoms = {}
        self.consts = {}
        self.null = set()
        self.arith = set()
        self.rels = set()
        for t in terms:
            self.scan(t)
        self.alias()
        self.dom = {}
        for a, k in self.atoms.items():
            if a in self.derived:
                continue
            self.dom[a] = self.positions(a, k)
        # keep the table small: drop positions of the widest quantity
        while self.count() > cap and max(len(d) for d in self.dom.values()) > 2:
            a = max(self.dom, key=lambda q: (len(self.dom[q]), self.kind(q) != 'fp'))
            self.dom[a] = self.dom[a][:-1]
        self.keys = list(self.dom)

    def kind(self, a):
        return a[3] if a[0] == 'ld' else 'int'

    def count(self):
        n = 1
        for a, d in self.dom.items():
            if sides(a):
                n *= len(d)
        return n

    def positions(self, a, k):
        if self.kind(a) == 'fp':
            return [(0, '-0'), (0, '+0'), (None, 'n1'), (1, 'b'), (None, 'n2'), (-1, 'a')]
        if a[0] == 'txt':
            return [0, 1, 2]
        if self.kind(a) == 'ptr' or a[0] == 'p':
            return [0, 2, 3, 4] if k or a in self.null else [2, 3, 4]
        d = []
        w = a[2] * 8 if a[0] == 'ld' and isinstance(a[2], int) else 64
        for c in sorted(self.consts.get(a, ())):
            for v in (c, c + 1, c - 1):
                if 0 <= v <= m(w) and v not in d:
                    d.append(v)
        d += [v for v in (0, 1, 2) if v not in d][:max(0, 3 - len(d))]
        if a in self.arith:
            third = (1 << min(w, 32)) // 3      # three positions around the circle of 32-bit (and own width) differences
            d = [0, 1, third, 2 * third, 2, 3, m(w), (1 << w) // 3, (1 << w) // 3 * 2, (1 << (w - 1)) - 1, 1 << (w - 1)] + ([1 << 32] if w > 32 else []) + ([256] if w > 8 else [])
            d = list(dict.fromkeys(d))
        return d

    def scan(self, t, ctx=None):
        if not isinstance(t, tuple) or not t:
            return
        k = t[0]
        if k in ('c', 'f', 'u'):
            if k == 'u':
                raise Undecided('unknown value')
            return
        if k == 'icmp':
            for a, b in ((t[3], t[4]), (t[4], t[3])):
                if b[0] == 'c':
                    q = canon(bare(a))
                    self.consts.setdefault(q, set()).add(b[1])
                    if b[1] == 0:
                        self.null.add(q)
            self.scan(t[3])
            self.scan(t[4])
        elif k == 'fcmp':
            self.scan(t[2])
            self.scan(t[3])
        elif k == 'isfp':
            self.scan(t[2])
        elif k == 'cast':
            if t[1] == 'trunc':
                self.arith.add(canon(bare(t[4])))
            self.scan(t[4])
        elif k == 'op':
            if t[1] in ('sub', 'and', 'mul', 'xor', 'shl', 'lshr') or True:
                for a in t[3:]:
                    if sides(a) and bare(a)[0] in ('ld', 'call', 'out', 'p'):
                        self.arith.add(canon(bare(a)))
            self.scan(t[3])
            self.scan(t[4])
        elif k == 'fop':
            for a in t[2:]:
                self.scan(a)
        elif k == 'rel':
            self.rels.add((t[1], canon(t[2]), t[4]))
            for a in t[2:4]:
                self.text(a)
        elif k == 'ld':
            self.add(t)
        elif k == 'p':
            if t[1][0] == 'ld':
                self.add(t[1])
            else:
                self.add(('p', t[1], 0))
        elif k in ('call', 'out', 'part'):
            if k == 'call' and self.functional(t):
                return
            self.add(t)
        elif k == 'mem':
            for c in t[1:]:
                self.scan(c[2])
        else:
            raise Undecided('%s' % k)

    def functional(self, t):
        """an uninterpreted function of text or bytes: its operands are the quantities"""
        if len(t) == 3 and t[2][0] == 'mem':
            self.scan(t[2])
            return True
        if t[1] in ('strlen', 'strnlen', 'mr_hash_str') or (len(t) >= 4 and t[1] == 'mr_hash_block'):
            a = t[2]
            if a[0] == 'mem':
                self.scan(a)
            else:
                self.bytesof(a, t)
            return True
        return False

    def bytesof(self, a, t):
        if t[1] == 'mr_hash_str' or t[1].startswith('strn') or t[1] == 'strlen':
            self.text(a)

    def text(self, a):
        if a[0] == 'ld':
            self.add(a, True if a in self.null else False)
        elif a[0] == 'mem':
            self.scan(a)
        elif a[0] == 'p' and a[1][0] == 'ld':
            self.add(('txt', canon(a)))
        else:
            self.add(('txt', canon(a)))

    def add(self, t, null=False):
        q = canon(t)
        if len(sides(t)) > 1:
            raise Undecided('mixed term %s' % show(t))
        self.atoms[q] = self.atoms.get(q, False) or null

    def alias(self):
        """two reads of the same bytes: the wider one is the quantity"""
        self.derived = {}
        lds = [a for a in self.atoms if a[0] == 'ld']
        for a in lds:
            for b in lds:
                if a is b or not isinstance(a[2], int) or not isinstance(b[2], int):
                    continue
                if a[1] == b[1] and (a[2] < b[2] or (a[2] == b[2] and str(a) > str(b) and b not in self.derived)):
                    self.derived[a] = b


class Eval:
    def __init__(self, sp, vx, vy, vs):
        self.sp = sp
        self.vec = {'x': vx, 'y': vy, 's': vs}

    def atom(self, t):
        q = canon(t)
        s = sides(t)
        d = self.vec['y' if 'y' in s else 'x' if 'x' in s else 's']
        if q in self.sp.derived:
            b = self.sp.derived[q]
            v = d[b]
            return v & m(q[2] * 8) if isinstance(v, int) and q[2] < b[2] else v
        if q not in d:
            raise Undecided('no position for %s' % show(q))
        return d[q]

    def val(self, t):
        k = t[0]
        if k == 'c':
            return t[1]
        if k in ('f', 'fp'):
            return (t[1], '+0' if t[1] == 0.0 and str(t[1])[0] != '-' else '-0' if t[1] == 0.0 else 'k%s' % t[1]) if isinstance(t[1], float) else (None, t[1])
        if k == 'icmp':
            return int(compare(t[1], self.int(t[3]) & m(t[2]), self.int(t[4]) & m(t[2]), t[2]))
        if k == 'fcmp':
            a, b = self.val(t[2])[0], self.val(t[3])[0]
            un = a is None or b is None
            pr = t[1]
            if pr == 'uno':
                return int(un)
            if pr == 'ord':
                return int(not un)
            if un:
                return int(pr[0] == 'u')
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pr[1:]])
        if k == 'isfp':
            a, b = self.val(t[2])
            mask = t[1]
            cls = 3 if a is None else 0x20 if b == '-0' else 0x40 if b == '+0' else 0x108 if a > 0 else 0x8
            return int(bool(mask & cls))
        if k == 'cast':
            v = self.int(t[4]) & m(t[2])
            if t[1] == 'sext' and v >> (t[2] - 1):
                v |= m(t[3]) & ~m(t[2])
            return v & m(t[3])
        if k == 'op':
            return arith(t[1], self.int(t[3]), self.int(t[4]), t[2])
        if k == 'fop':
            a = self.val(t[2])
            if t[1] in ('fpext', 'fptrunc'):
                return a
            if t[1] == 'fabs':
                return (None, a[1]) if a[0] is None else (abs(a[0]), {'-0': '+0', 'a': 'b'}.get(a[1], a[1]))
            if t[1] == 'fneg':
                return (None, a[1]) if a[0] is None else (-a[0], {'-0': '+0', '+0': '-0', 'a': 'b', 'b': 'a'}.get(a[1], '-' + a[1]))
            if t[1] == 'fadd':
                b = self.val(t[3])
                for u, z in ((a, b), (b, a)):
                    if z == (0.0, '+0') or z == (0, '+0'):
                        return (0, '+0') if u[0] == 0 else u
            raise Undecided('floating-point arithmetic')
        if k == 'rel':
            a, b = self.text(t[2]), self.text(t[3])
            return ((a > b) - (a < b)) & m(32)
        if k == 'p':
            if t[1][0] == 'ld':
                v = self.atom(t[1])
                return v * 4096 + t[2] if v else t[2]
            return self.atom(('p', t[1], 0)) * 4096 + t[2]
        if k == 'ld':
            v = self.atom(t)
            if t[3] == 'ptr':
                return v * 4096
            return v
        if k == 'call':
            if t[1] in ('strlen', 'strnlen'):
                return self.text(t[2]) & 0xff if isinstance(self.text(t[2]), int) else 0
            if t[1] == 'mr_hash_str':
                return ('hash', self.text(t[2]))
            if t[1] == 'mr_hash_block' and len(t) >= 4:
                return ('hash', self.block(t[2], t[3]))
            if len(t) == 3 and t[2][0] == 'mem':
                return ('hash', self.text(t[2]))
            return self.atom(t)
        if k in ('out', 'part'):
            return self.atom(t)
        raise Undecided(k)

    def int(self, t):
        v = self.val(t)
        if isinstance(v, tuple):
            if v and v[0] in ('hash', 'mix'):
                return zlib.crc32(str(v).encode()) & m(31)
            return zlib.crc32(str(v).encode()) & m(31)
        return v

    def text(self, a):
        """position of the text or bytes a pointer designates; null has its own"""
        if a[0] == 'ld':
            v = self.atom(a)
            return -1 if v == 0 else v // 2
        if a[0] == 'mem':
            return str(tuple((c[0], c[1], self.val(c[2])) for c in a[1:]))
        return self.atom(('txt', canon(a)) if not sides(a) else ('txt', a))

    def block(self, a, n):
        n0 = n[1] if n[0] == 'c' else None
        if a[0] == 'mem':
            if n0 is not None:
                at = 0
                for c in a[1:]:
                    if c[0] > at:
                        break
                    at = max(at, c[0] + c[1])
                if at < n0:
                    raise Uncovered(at, n0)
            return tuple((c[0], self.bytes(c[2])) for c in a[1:] if n0 is None or c[0] < n0)
        if n0 is None:
            if n[0] == 'call' and n[1] in ('strlen', 'strnlen'):
                return ('text', self.text(a))
            if ('memcmp', canon(a), canon(bare(n))) in self.sp.rels:
                return ('text', self.text(a))
            raise Uncovered(0, None)
        root, off = (a[1], a[2]) if a[0] == 'p' else (a, 0)
        got, at = [], off
        cand = sorted((q for q in self.sp.dom if q[0] == 'ld' and canon(q) == q), key=lambda q: -q[2] if isinstance(q[2], int) else 0)
        while at < off + n0:
            for q in cand:
                if q[1] == canon(('p', root, at)) and q[2] <= off + n0 - at:
                    got.append((at - off, self.bytes(mirror(q) if 'y' in sides(a) else q)))
                    at += q[2]
                    break
                if q[1] == canon(('p', root, at)) and q[2] > off + n0 - at and q[3] != 'fp':
                    got.append((at - off, self.bytes(mirror(q) if 'y' in sides(a) else q)))
                    at = off + n0
                    break
            else:
                q = canon(('p', root, at))
                for t in self.sp.dom:
                    if t == ('txt', canon(a)):
                        return ('text', self.text(a))
                raise Uncovered(at - off, n0)
        return tuple(got)

    def bytes(self, t):
        v = self.val(t)
        return v[1] if isinstance(v, tuple) and len(v) == 2 and v[0] not in ('hash', 'mix') else v


class Uncovered(Exception):
    pass
