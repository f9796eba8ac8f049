"""Program model over the JSON IR written by tool/irx."""
import collections, os, re

REPO_PREFIX = ('/repo/src/',)
SKIP_FILES = re.compile(r'(\.lex\.[ch]|\.tab\.[ch]|bison\.simple|<stdout>)$')


def T(x):
    if isinstance(x, list):
        return tuple(T(y) for y in x)
    return x


class Instr:
    __slots__ = ('id', 'op', 'ty', 'loc', 'args', 'raw', 'blk', 'idx', 'fn')

    def __init__(self, raw, blk, idx, fn):
        self.raw = raw
        self.id = raw['i']
        self.op = raw['o']
        self.ty = raw['t']
        self.loc = raw['l']
        self.args = T(raw['a'])
        self.blk = blk
        self.idx = idx
        self.fn = fn

    @property
    def v(self):
        return ('i', self.id)

    def where(self):
        return self.fn.where(self)

    def __repr__(self):
        return '<%s %%%d %s>' % (self.fn.name, self.id, self.op)


class Func:
    def __init__(self, prog, name, raw):
        self.prog = prog
        self.name = name
        self.raw = raw
        self.decl = bool(raw['decl'])
        self.local = bool(raw['local'])
        self.taken = bool(raw['taken'])
        self.nargs = raw['nargs']
        self.rty = raw['rty']
        self.vararg = bool(raw['vararg'])
        self.file = os.path.basename(raw.get('file', ''))
        self.line = raw.get('line', 0)
        self.ditypes = raw.get('ditypes', [])
        # with sret the DI types do not include the hidden pointer
        self.sret = bool(raw['asp'] and raw['asp'][0] == 1)
        self._built = False

    def build(self):
        if self._built:
            return
        self._built = True
        self.blocks = []
        self.ins = {}
        for b, raws in enumerate(self.raw.get('blocks', [])):
            bl = []
            for k, r in enumerate(raws):
                i = Instr(r, b, k, self)
                bl.append(i)
                self.ins[i.id] = i
            self.blocks.append(bl)
        n = len(self.blocks)
        self.succs = [[] for _ in range(n)]
        self.preds = [[] for _ in range(n)]
        for b, bl in enumerate(self.blocks):
            t = bl[-1]
            s = list(t.raw.get('s', []))
            if t.op == 'switch':
                s += [c[1] for c in t.raw['cases']]
            self.succs[b] = s
            for x in s:
                if b not in self.preds[x]:
                    self.preds[x].append(b)
        self._uses = None
        self._dom = None
        self._live = None

    @property
    def uses(self):
        if self._uses is None:
            u = collections.defaultdict(list)
            for bl in self.blocks:
                for i in bl:
                    for o in self.operands(i):
                        for leaf in leaves(o):
                            u[leaf].append(i)
            self._uses = u
        return self._uses

    def operands(self, i):
        if i.op == 'phi':
            return [a[0] for a in i.args]
        r = list(i.args)
        if 'c' in i.raw:
            r.append(T(i.raw['c']))
        if 'g' in i.raw:
            for s in i.raw['g']:
                if s[0] == 'x':
                    r.append(T(s[1]))
        return r

    def instrs(self):
        for bl in self.blocks:
            for i in bl:
                yield i

    def calls(self):
        for bl in self.blocks:
            for i in bl:
                if i.op in ('call', 'invoke'):
                    yield i

    def callee(self, i):
        c = i.raw.get('c')
        if c and c[0] == 'F':
            return c[1]
        return None

    def where(self, i):
        if i is None:
            return '%s:%d (%s)' % (self.file, self.line, self.name)
        l = i.loc
        if not l:
            # nearest located instruction
            for j in self.blocks[i.blk][i.idx:] + self.blocks[i.blk][:i.idx][::-1]:
                if j.loc:
                    l = j.loc
                    break
        if not l:
            return '%s (%s)' % (self.file, self.name)
        return '%s:%d (%s%s)' % (os.path.basename(l[0]), l[1], self.name, ', inlined from ' + l[2] if l[2] and l[2] != self.name.split('.')[0] else '')

    def reach(self):
        """blocks reachable from entry"""
        seen = {0}
        st = [0]
        while st:
            b = st.pop()
            for s in self.succs[b]:
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    @property
    def dom(self):
        """dom[b] = set of dominators of b"""
        if self._dom is None:
            n = len(self.blocks)
            order = []
            seen = set()
            st = [(0, iter(self.succs[0]))] if n else []
            seen.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succs[s])))
                        break
                else:
                    order.append(b)
                    st.pop()
            order.reverse()
            pos = {b: k for k, b in enumerate(order)}
            idom = {0: 0}
            ch = True
            while ch:
                ch = False
                for b in order:
                    if b == 0:
                        continue
                    new = None
                    for p in self.preds[b]:
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                a, c = p, new
                                while a != c:
                                    while pos[a] > pos[c]:
                                        a = idom[a]
                                    while pos[c] > pos[a]:
                                        c = idom[c]
                                new = a
                    if new is not None and idom.get(b) != new:
                        idom[b] = new
                        ch = True
            self.idom = idom
            self._dom = {}
            for b in order:
                s = {b}
                x = b
                while x != 0:
                    x = idom[x]
                    s.add(x)
                self._dom[b] = s
        return self._dom

    def dominates(self, a, b):
        """instruction a dominates instruction b"""
        if a.blk == b.blk:
            return a.idx < b.idx
        d = self.dom.get(b.blk)
        return d is not None and a.blk in d

    @property
    def live_in(self):
        """live-in SSA values per block (instruction ids and args)"""
        if self._live is None:
            n = len(self.blocks)
            use = [set() for _ in range(n)]
            deff = [set() for _ in range(n)]
            phiuse = [set() for _ in range(n)]  # live-out contributions
            for b, bl in enumerate(self.blocks):
                for i in bl:
                    if i.op == 'phi':
                        for v, p in i.args:
                            for leaf in leaves(v):
                                if leaf[0] == 'i':
                                    phiuse[p].add(leaf[1])
                    else:
                        for o in self.operands(i):
                            for leaf in leaves(o):
                                if leaf[0] == 'i' and leaf[1] not in deff[b]:
                                    use[b].add(leaf[1])
                    deff[b].add(i.id)
            live = [set() for _ in range(n)]
            ch = True
            while ch:
                ch = False
                for b in range(n - 1, -1, -1):
                    out = set(phiuse[b])
                    for s in self.succs[b]:
                        out |= live[s]
                    new = use[b] | (out - deff[b])
                    if new != live[b]:
                        live[b] = new
                        ch = True
            self._live = live
        return self._live

    def param_name(self, n):
        for k, nm, ty in self.raw.get('params', []):
            if k - 1 + (1 if self.sret else 0) == n:
                return nm
        return 'arg%d' % n


def leaves(o):
    """instruction/argument/global leaves of an operand (through constant expressions)"""
    if not isinstance(o, tuple) or not o:
        return
    k = o[0]
    if k in ('i', 'a', 'g', 'F'):
        yield o
    elif k == 'e':
        for s in o[2]:
            yield from leaves(s)


class Prog:
    def __init__(self, view):
        self.raw = view
        self.layouts = view['layouts']
        self.ditypes = view['ditypes']
        self.enums = view['enums']
        self.globals = view['globals']
        self.funcs = {n: Func(self, n, r) for n, r in view['functions'].items()}
        for f in self.funcs.values():
            f.build()
        self.defined = {n: f for n, f in self.funcs.items() if not f.decl}
        self._callers = None
        self._bysig = None
        self._fp = None
        self.enumval = {}
        for e in self.enums.values():
            for k, v in e.items():
                self.enumval.setdefault(k, v)

        self.anon = {}
        if 'wit_offsets' in self.globals:
            for o, (n, c) in self.ginit('wit_offsets').items():
                self.anon[int(c[1])] = ('data', 'params')[o // 8]

    # ---- source scope -------------------------------------------------
    def is_lib(self, f):
        """hand-written library code (not generated scanner/parser skeleton, not witness)"""
        return not f.decl and not f.name.startswith('wit_') and not f.name.startswith('_mr_init') 

    def mine(self, f):
        return not f.decl

    # ---- fields -------------------------------------------------------
    def field_name(self, struct, idx):
        lay = self.layouts.get(struct)
        base = re.sub(r'\.\d+$', '', struct)
        if not lay or idx >= len(lay['f']):
            return '%s.#%d' % (base, idx)
        off = lay['f'][idx][0]
        di = self.ditypes.get(struct) or self.ditypes.get(base)
        if di:
            if base == 'mr_ptrdes_t' and off in self.anon:
                return 'mr_ptrdes_t.' + self.anon[off]
            for m in di['m']:
                if m[1] == off and not m[6]:
                    return '%s.%s' % (base, m[0] or '@%d' % off)
            for m in di['m']:
                if m[1] == off:
                    return '%s.%s' % (base, m[0])
        return '%s.@%d' % (base, off)

    # ---- call graph ---------------------------------------------------
    def sig(self, fty):
        return fty

    @property
    def taken_by_sig(self):
        if self._bysig is None:
            m = collections.defaultdict(list)
            for n, f in self.funcs.items():
                if f.taken:
                    fty = '%s (%s%s)' % (f.rty if not f.rty[0:1].isupper() else f.rty, ', '.join(f.raw['aty']), (', ...' if f.raw['aty'] else '...') if f.vararg else '')
                    m[fty].append(n)
            self._bysig = m
        return self._bysig

    def targets(self, f, i):
        """possible callees (names) of a call instruction: points-to when it finds
        any, else every address-taken function of that signature"""
        c = f.callee(i)
        if c:
            return [c]
        if self._fp is None:
            self._fp = False
            self._fp = FuncPtrs(self)
        if self._fp:
            r = self._fp.resolved.get((f.name, i.id))
            if r:
                return sorted(r)
        return self.taken_by_sig.get(i.raw.get('fty'), [])

    def callgraph(self):
        g = {}
        for n, f in self.defined.items():
            s = set()
            for i in f.calls():
                s.update(self.targets(f, i))
            g[n] = s
        return g

    @property
    def callers(self):
        if self._callers is None:
            m = collections.defaultdict(list)
            for n, f in self.defined.items():
                for i in f.calls():
                    for t in self.targets(f, i):
                        m[t].append((f, i))
            self._callers = m
        return self._callers

    # ---- global initialisers -------------------------------------------
    def gstring(self, name):
        """bytes of a constant string global, or None"""
        g = self.globals.get(name)
        if not g or 'init' not in g:
            return None
        if not g['init']:
            return b'\0' * g['size']
        if len(g['init']) == 1 and g['init'][0][2][0] == 's':
            off, n, c = g['init'][0]
            return c[1].encode('latin-1')
        return None

    def cstr(self, op):
        """constant C string an operand points to (bytes without NUL) or None"""
        op = T(op)
        off = 0
        while op and op[0] == 'e' and op[1] in ('getelementptr', 'bitcast'):
            if op[1] == 'getelementptr':
                if len(op) < 5:
                    return None
                off += op[4]
            op = op[2][0]
        if op and op[0] == 'g':
            s = self.gstring(op[1])
            if s is not None and 'const' in self.globals[op[1]]:
                s = s[off:]
                return s.split(b'\0')[0]
        return None

    def ginit(self, name):
        """{offset: (size, const)} of a global's non-zero initialiser"""
        return {o: (n, T(c)) for o, n, c in self.globals[name].get('init', [])}

    def find_global(self, dn, fn=None):
        """globals by debug (source) name"""
        return [n for n, g in self.globals.items() if g.get('dn') == dn and (fn is None or g.get('fn') == fn)]


def strip(f, v):
    """look through casts and zero-offset GEPs"""
    while True:
        if v[0] == 'i':
            i = f.ins[v[1]]
            if i.op in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint') or (i.op == 'getelementptr' and i.raw.get('off') == 0):
                v = i.args[0]
                continue
        elif v[0] == 'e' and (v[1] in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint') or (v[1] == 'getelementptr' and len(v) > 4 and v[4] == 0)):
            v = v[2][0]
            continue
        return v


def gep_parts(f, v):
    """(base, steps) of an address: collects the GEP chain, innermost base first"""
    steps = []
    while True:
        if v[0] == 'i':
            i = f.ins[v[1]]
            if i.op == 'getelementptr':
                steps = [T(s) for s in i.raw['g']] + steps
                v = i.args[0]
                continue
            if i.op in ('bitcast', 'addrspacecast'):
                v = i.args[0]
                continue
        elif v[0] == 'e':
            if v[1] == 'getelementptr':
                steps = list(v[3]) + steps
                v = v[2][0]
                continue
            if v[1] in ('bitcast', 'addrspacecast'):
                v = v[2][0]
                continue
        return v, steps


def field_tag(prog, f, v):
    """'struct.field' the address v designates (last field step), or None"""
    base, steps = gep_parts(f, v)
    for s in reversed(steps):
        if s[0] == 'f':
            return prog.field_name(s[1], s[2])
        # array element: keep looking only when it indexes inside a field array
        if s[0] == 'x' and s[3] == -1 and not (s[1][0] == 'c' and s[1][1] == '0'):
            return None
    return None


def all_field_tags(prog, f, v):
    base, steps = gep_parts(f, v)
    return [prog.field_name(s[1], s[2]) for s in steps if s[0] == 'f']


def const_int(o):
    if o[0] == 'c':
        return int(o[1])
    if o[0] == 'n':
        return 0
    return None


class FuncPtrs:
    """flow-insensitive points-to for function pointers and the constant tables that hold them:
    which functions an indirect call may reach"""

    def __init__(self, prog):
        self.prog = prog
        self.pts = collections.defaultdict(set)      # node -> set of function names / ('g', global)
        self.edges = collections.defaultdict(set)    # node -> nodes it flows into
        self.derefs = collections.defaultdict(set)   # pointer node -> load-result nodes reading through it
        self.gcont = {}
        cont = {}
        for n, g in prog.globals.items():
            s = set()
            for o, sz, c in g.get('init', []):
                for l in leaves(T(c)):
                    s.add(l[1] if l[0] == 'F' else ('g', l[1]))
            cont[n] = s
        rel = {n for n, s in cont.items() if any(isinstance(x, str) for x in s)}
        while True:
            more = {n for n, s in cont.items() if n not in rel and any(isinstance(x, tuple) and x[1] in rel for x in s)}
            if not more:
                break
            rel |= more
        for n in rel:
            self.pts[('m', n)] |= {x for x in cont[n] if isinstance(x, str) or x[1] in rel}
        for n, f in prog.defined.items():
            for i in f.instrs():
                if i.ty == 'ptr' and i.op in ('phi', 'select', 'bitcast', 'getelementptr'):
                    ops = [a[0] for a in i.args] if i.op == 'phi' else (i.args[1:] if i.op == 'select' else i.args)
                    for o in ops:
                        self.flow(f, o, ('v', n, i.id))
                elif i.op == 'load' and i.ty == 'ptr':
                    for k in self.memnodes(f, i.args[0]):
                        self.edges[k].add(('v', n, i.id))
                    base, st = gep_parts(f, i.args[0])
                    if base[0] in ('i', 'a'):
                        b = ('v', n, base[1]) if base[0] == 'i' else ('a', n, base[1])
                        fs = [s for s in st if s[0] == 'f']
                        sel = (fs[0][1], fs[0][3]) if len(fs) == 1 and st[-1][0] == 'f' else None
                        self.derefs[b].add((('v', n, i.id), sel))
                elif i.op == 'store' and i.raw['st'] == 'ptr':
                    for k in self.memnodes(f, i.args[1]):
                        self.flow(f, i.args[0], k)
                elif i.op == 'ret' and i.args and f.rty == 'ptr':
                    self.flow(f, i.args[0], ('r', n))
        self.solve()
        resolved = {}
        while True:
            ch = False
            for n, f in prog.defined.items():
                for i in f.calls():
                    c = f.callee(i)
                    if c:
                        ts = {c}
                    else:
                        ok = set(prog.taken_by_sig.get(i.raw['fty'], ()))
                        ts = {x for x in self.value_pts(f, T(i.raw['c'])) if x in ok}
                    old = resolved.get((n, i.id), set())
                    if ts - old:
                        resolved[(n, i.id)] = old | ts
                        for t in ts - old:
                            tf = prog.defined.get(t)
                            if not tf:
                                continue
                            for k, a in enumerate(i.args):
                                if k < tf.nargs and tf.raw['aty'][k] == 'ptr':
                                    self.flow(f, a, ('a', t, k))
                            if i.ty == 'ptr':
                                self.edges[('r', t)].add(('v', n, i.id))
                        ch = True
            self.solve()
            if not ch:
                break
        self.resolved = resolved

    def memnodes(self, f, addr):
        base, steps = gep_parts(f, addr)
        tag = None
        for s in steps:
            if s[0] == 'f':
                tag = self.prog.field_name(s[1], s[2])
        if base[0] == 'g':
            return [('m', base[1])] + ([('f', tag)] if tag else [])
        if tag:
            return [('f', tag)]
        if base[0] == 'i' and f.ins[base[1]].op == 'alloca':
            return [('l', f.name, base[1])]
        return []

    def flow(self, f, o, node):
        for l in leaves(o):
            if l[0] == 'F':
                self.pts[node].add(l[1])
            elif l[0] == 'i':
                self.edges[('v', f.name, l[1])].add(node)
            elif l[0] == 'a':
                self.edges[('a', f.name, l[1])].add(node)
            elif l[0] == 'g':
                if ('m', l[1]) in self.pts:
                    self.pts[node].add(('g', l[1]))

    def value_pts(self, f, o):
        if o[0] == 'i':
            return set(self.pts.get(('v', f.name, o[1]), ()))
        if o[0] == 'a':
            return set(self.pts.get(('a', f.name, o[1]), ()))
        return set()

    def solve(self):
        work = [n for n in list(self.pts) if self.pts[n]]
        while work:
            n = work.pop()
            if n in self.derefs:
                for x in list(self.pts[n]):
                    if isinstance(x, tuple):
                        for d, sel in self.derefs[n]:
                            src = ('m', x[1])
                            g = self.prog.globals[x[1]]
                            if sel and (g['const'] or g['local']) and g['ty'] == sel[0]:
                                src = ('mo', x[1], sel[1])
                                if src not in self.pts:
                                    self.pts[src] = {l[1] for o, sz, c in g.get('init', []) if o == sel[1] for l in leaves(T(c)) if l[0] == 'F'}
                            if d not in self.edges[src]:
                                self.edges[src].add(d)
                                work.append(src)
            for m in list(self.edges.get(n, ())):
                if not self.pts[n] <= self.pts[m]:
                    self.pts[m] |= self.pts[n]
                    work.append(m)
