"""Path-sensitive forward dataflow with constant/nullness facts.

One abstract state follows one family of control-flow paths: it remembers which
values were compared with constants on the way (and with which outcome), which
memory cells hold which value, and a client-defined typestate.  Branches whose
outcome the facts decide are not split.  Loops terminate because states are
memoised per block; beyond `cap` states per block they are joined (facts that
differ are dropped), so the exploration is a plain monotone dataflow analysis
and never asks a solver anything.
"""
import functools
from ir import T, gep_parts, const_int, strip

FULL = {1: (0, 1)}
ARITH = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'}
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'}


def bits(ty):
    if ty.startswith('i') and ty[1:].isdigit():
        return int(ty[1:])
    return 64


def wrap(n, b):
    n &= (1 << b) - 1
    return n - (1 << b) if b > 1 and n >> (b - 1) else (-(n) if b == 1 and False else n)


@functools.lru_cache(maxsize=400000)
def leafset(e):
    """opaque leaves of a canonical expression"""
    k = e[0]
    if k in ('i', 'a', 'g', 'F'):
        return frozenset((e,))
    if k in ('c', 'n', 'u', 'z', 'k', 'fp', 's', 'm', 'b'):
        return frozenset()
    r = frozenset()
    for x in e[1:]:
        if isinstance(x, tuple) and x:
            r |= leafset(x) if isinstance(x[0], str) else frozenset().union(*[leafset(y) for y in x if isinstance(y, tuple)])
    return r


@functools.lru_cache(maxsize=400000)
def depth(e):
    d = 0
    for x in e[1:]:
        if isinstance(x, tuple):
            d = max(d, depth(x) if x else 0)
    return d + 1


_TABLES = {}


class State:
    __slots__ = ('env', 'can', 'mem', 'ts', 'trail')

    def __init__(self):
        self.env = {}
        self.can = {}
        self.mem = {}
        self.ts = None
        self.trail = ()

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.can = dict(self.can)
        s.mem = dict(self.mem)
        s.ts = self.ts
        s.trail = self.trail
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.can.items()), frozenset(self.mem.items()), self.ts)


class Contradiction(Exception):
    pass


class Explorer:
    cap = 48
    max_steps = 400000

    def __init__(self, prog, f, mods=None):
        self.prog = prog
        self.f = f
        self.mods = mods          # ModInfo
        self.steps = 0
        self.overflow = False
        self.esc = self._escaped_allocas()

    # -- client hooks -----------------------------------------------------
    def start(self, st):
        pass

    def on_instr(self, st, i):
        """return None (continue with st) or a list of states"""
        return None

    def on_load(self, st, i, addr):
        pass

    def on_store(self, st, i, addr, val):
        pass

    def on_call(self, st, i):
        """before the default effects; return list of states or None"""
        return None

    def after_call(self, st, i):
        return None

    def on_ret(self, st, i, val):
        pass

    def on_edge(self, st, b, s):
        pass

    def keep(self, st):
        """canonical values the client needs kept"""
        return ()

    # -- allocas -----------------------------------------------------------
    def _escaped_allocas(self):
        """allocas whose address is stored into memory or merged (may be reached through other pointers)"""
        f = self.f
        esc = set()
        for i in f.instrs():
            if i.op != 'alloca':
                continue
            work = [i.v]
            seen = set()
            while work:
                v = work.pop()
                if v in seen:
                    continue
                seen.add(v)
                for u in f.uses.get(v, ()):
                    if u.op in ('getelementptr', 'bitcast'):
                        work.append(u.v)
                    elif u.op in ('phi', 'select', 'ptrtoint', 'insertvalue'):
                        esc.add(i.id)
                    elif u.op == 'store' and u.args[0] == v:
                        esc.add(i.id)
        return esc

    # -- canonical values ---------------------------------------------------
    def canon(self, st, o):
        k = o[0]
        if k == 'i':
            return st.can.get(o[1], o)
        if k == 'c':
            return ('c', int(o[1]), o[2])
        if k == 'e':
            if o[1] == 'getelementptr':
                return self.gepcanon(st, self.canon(st, o[2][0]), o[3])
            if o[1] in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                return self.canon(st, o[2][0])
            return ('op', o[1]) + tuple(self.canon(st, x) for x in o[2])
        return o

    def gepcanon(self, st, base, steps):
        off = 0
        var = []
        tag = None
        for s in steps:
            if s[0] == 'f':
                off += s[3]
                tag = (s[1], s[2])
            else:
                c = self.canon(st, s[1])
                n = self.constof(st, c)
                if n is not None:
                    off += n * s[2]
                else:
                    var.append((c, s[2]))
                if s[3] == -1:
                    pass
        if base[0] == 'gep':
            off += base[2]
            var = list(base[3]) + var
            if tag is None and not steps_change(steps):
                tag = base[4]
            base = base[1]
        if off == 0 and not var and tag is None:
            return base
        return ('gep', base, off, tuple(var), tag)

    def constof(self, st, c):
        if c[0] == 'c':
            return c[1]
        if c[0] == 'n':
            return 0
        a = st.env.get(c)
        if a and a[0] == '=':
            return a[1]
        return None

    def abs(self, st, c):
        """abstract value of canonical expression"""
        if c[0] == 'c':
            return ('=', c[1])
        if c[0] == 'n':
            return ('=', 0)
        a = st.env.get(c)
        if a:
            return a
        if c[0] in ('g', 'F'):
            return ('!', frozenset((0,)))
        if c[0] == 'i':
            i = self.f.ins.get(c[1])
            if i is not None and i.op == 'alloca':
                return ('!', frozenset((0,)))
        if c[0] == 'gep':
            b = self.abs(st, c[1])
            if b and b[0] == '!' and 0 in b[1]:
                return ('!', frozenset((0,)))
            if b and b[0] == '=' and not c[3]:
                return ('=', b[1] + c[2])
            if c[4] is not None and c[2] != 0:
                return ('!', frozenset((0,)))
        if c[0] == 'op':
            return self.evalop(st, c)
        return None

    def evalop(self, st, c):
        op = c[1]
        if op == 'icmp':
            p, x, y = c[2], c[3], c[4]
            ax, ay = self.abs(st, x), self.abs(st, y)
            if x == y:
                return ('=', 1 if p in ('eq', 'sge', 'sle', 'uge', 'ule') else 0)
            if ax and ay:
                if ax[0] == '=' and ay[0] == '=':
                    return ('=', int(cmpop(p, ax[1], ay[1], c[5])))
                if ax[0] == '!' and ay[0] == '=' and ay[1] in ax[1]:
                    if p == 'eq':
                        return ('=', 0)
                    if p == 'ne':
                        return ('=', 1)
                    if ay[1] == 0 and p == 'ugt':
                        return ('=', 1)
                if ay[0] == '!' and ax[0] == '=' and ax[1] in ay[1]:
                    if p == 'eq':
                        return ('=', 0)
                    if p == 'ne':
                        return ('=', 1)
            return None
        if op in CASTS:
            a = self.abs(st, c[2])
            if a is None:
                return None
            fb, tb = c[3], c[4]
            if a[0] == '=':
                n = a[1]
                if op == 'zext':
                    n &= (1 << fb) - 1
                if op == 'trunc':
                    n = wrap(n, tb)
                return ('=', n)
            if op in ('zext', 'sext', 'freeze'):
                ex = frozenset(x for x in a[1] if x >= 0 or op == 'sext')
                return ('!', ex) if ex else None
            if op == 'trunc' and tb == 1 and 0 in a[1] and fb == 8:
                return ('=', 1)
            return None
        if op in ARITH:
            x, y = self.abs(st, c[2]), self.abs(st, c[3])
            b = c[4]
            if op == 'and':
                if (x and x == ('=', 0)) or (y and y == ('=', 0)):
                    return ('=', 0)
                if b == 1:
                    if x and x[0] == '=' and x[1] != 0:
                        return y
                    if y and y[0] == '=' and y[1] != 0:
                        return x
            if op == 'or' and b == 1:
                for q, r in ((x, y), (y, x)):
                    if q and q[0] == '=':
                        return ('=', 1) if q[1] else r
            if op == 'xor' and b == 1:
                for q, r in ((x, y), (y, x)):
                    if q and q[0] == '=' and r:
                        if r[0] == '=':
                            return ('=', (q[1] ^ r[1]) & 1)
                        if 0 in r[1]:
                            return ('=', (q[1] ^ 1) & 1)
                return None
            if x and y and x[0] == '=' and y[0] == '=':
                n = arith(op, x[1], y[1], b)
                if n is not None:
                    return ('=', n)
            return None
        if op == 'select':
            a = self.abs(st, c[2])
            if a and a[0] == '=':
                return self.abs(st, c[3] if a[1] else c[4])
            x, y = self.abs(st, c[3]), self.abs(st, c[4])
            if x and x == y:
                return x
            if x and y:
                # both exclude zero
                nz = lambda q: (q[0] == '=' and q[1] != 0) or (q[0] == '!' and 0 in q[1])
                if nz(x) and nz(y):
                    return ('!', frozenset((0,)))
            return None
        return None

    # -- refinement -----------------------------------------------------------
    def refine(self, st, c, a, lvl=0):
        """assume abs value a for canonical c; raises Contradiction"""
        cur = self.abs(st, c)
        if cur:
            if cur[0] == '=':
                if a[0] == '=' and a[1] != cur[1]:
                    raise Contradiction()
                if a[0] == '!' and cur[1] in a[1]:
                    raise Contradiction()
                return
            if a[0] == '=':
                if a[1] in cur[1]:
                    raise Contradiction()
            else:
                a = ('!', cur[1] | a[1])
        if c[0] in ('c', 'n', 'g', 'F'):
            return
        if leafset(c):
            st.env[c] = a
        if c[0] == 'op' and lvl < 8:
            op = c[1]
            nz = a[0] == '!' and 0 in a[1]
            z = a == ('=', 0)
            if op == 'icmp':
                p = c[2]
                t = None
                if a[0] == '=':
                    t = bool(a[1])
                elif nz:
                    t = True
                if t is None:
                    return
                if not t:
                    p = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}[p]
                x, y = c[3], c[4]
                ax, ay = self.abs(st, x), self.abs(st, y)
                for u, v, q in ((x, ay, p), (y, ax, SWAP[p])):
                    if v and v[0] == '=':
                        if q == 'eq':
                            self.refine(st, u, ('=', v[1]), lvl + 1)
                        elif q == 'ne':
                            self.refine(st, u, ('!', frozenset((v[1],))), lvl + 1)
                        elif q == 'ugt':
                            self.refine(st, u, ('!', frozenset((0, v[1]))), lvl + 1)
                        elif q == 'uge' and v[1] != 0:
                            self.refine(st, u, ('!', frozenset((0,))), lvl + 1)
                        elif q in ('sgt', 'slt'):
                            ex = {v[1]}
                            if (q == 'sgt' and v[1] >= 0) or (q == 'slt' and v[1] <= 0):
                                ex.add(0)
                            self.refine(st, u, ('!', frozenset(ex)), lvl + 1)
                        elif q == 'ult' and v[1] == 1:
                            self.refine(st, u, ('=', 0), lvl + 1)
                        elif q == 'ule' and v[1] == 0:
                            self.refine(st, u, ('=', 0), lvl + 1)
                if p == 'eq':
                    # y unknown constant: transfer nonzero-ness
                    if ax and ax[0] == '!' and not ay:
                        self.refine(st, y, ax, lvl + 1)
                    elif ay and ay[0] == '!' and not ax:
                        self.refine(st, x, ay, lvl + 1)
            elif op in ('zext', 'sext', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
                if a[0] == '=':
                    n = a[1]
                    if op in ('zext', 'sext'):
                        n = wrap(n, c[3])
                        if c[3] == 1:
                            n &= 1
                    self.refine(st, c[2], ('=', n), lvl + 1)
                elif nz:
                    if c[3] == 1:
                        self.refine(st, c[2], ('=', 1), lvl + 1)
                    else:
                        self.refine(st, c[2], ('!', frozenset((0,))), lvl + 1)
            elif op == 'trunc' and c[4] == 1 and c[3] == 8:
                if a[0] == '=':
                    self.refine(st, c[2], ('=', a[1] & 1), lvl + 1)
            elif op == 'trunc' and nz:
                self.refine(st, c[2], ('!', frozenset((0,))), lvl + 1)
            elif op == 'trunc' and a[0] == '=' and a[1] != 0:
                self.refine(st, c[2], ('!', frozenset((0,))), lvl + 1)
            elif op == 'and' and c[4] == 1 and a == ('=', 1):
                self.refine(st, c[2], a, lvl + 1)
                self.refine(st, c[3], a, lvl + 1)
            elif op == 'or' and c[4] == 1 and z:
                self.refine(st, c[2], a, lvl + 1)
                self.refine(st, c[3], a, lvl + 1)
            elif op == 'xor' and c[4] == 1 and a[0] == '=':
                for u, v in ((c[2], c[3]), (c[3], c[2])):
                    av = self.abs(st, v)
                    if av and av[0] == '=':
                        self.refine(st, u, ('=', (a[1] ^ av[1]) & 1), lvl + 1)
            elif op == 'select':
                if z or a[0] == '=':
                    # select c, a, false == 1 -> c and a hold
                    ax = self.abs(st, c[4])
                    if ax and ax[0] == '=' and ax[1] != a[1]:
                        self.refine(st, c[2], ('=', 1), lvl + 1)
                        self.refine(st, c[3], a, lvl + 1)
                    ax = self.abs(st, c[3])
                    if ax and ax[0] == '=' and ax[1] != a[1]:
                        self.refine(st, c[2], ('=', 0), lvl + 1)
                        self.refine(st, c[4], a, lvl + 1)

    # -- memory ---------------------------------------------------------------
    def addr_root(self, a):
        while a[0] == 'gep':
            a = a[1]
        return a

    def is_alloca(self, r):
        return r[0] == 'i' and r[1] in self.f.ins and self.f.ins[r[1]].op == 'alloca'

    def tag_of(self, addr):
        """(struct, field) an address designates; the first field of a typed parameter has no gep of its own"""
        if addr[0] == 'gep':
            return addr[4]
        if addr[0] == 'a':
            n = addr[1] - (1 if self.f.sret else 0)
            d = self.f.ditypes
            if 0 <= n and n + 1 < len(d) and d[n + 1].endswith('*'):
                t = d[n + 1][:-1]
                if t in self.prog.layouts:
                    return (t, 0)
        return None

    def kill_store(self, st, addr, size, sty):
        """forget cells a store may change"""
        root = self.addr_root(addr)
        tag = self.tag_of(addr)
        for k in list(st.mem):
            if k[0] == addr:
                del st.mem[k]
                continue
            kr = self.addr_root(k[0])
            ktag = self.tag_of(k[0]) if k[0] != 'zero' else None
            if kr == root:
                # same object: compare constant offsets
                v1 = addr[3] if addr[0] == 'gep' else ()
                v2 = k[0][3] if k[0][0] == 'gep' else ()
                o1 = addr[2] if addr[0] == 'gep' else 0
                o2 = k[0][2] if k[0][0] == 'gep' else 0
                if v1 == v2:
                    if o1 + size <= o2 or o2 + k[1] <= o1:
                        continue
                    del st.mem[k]
                    continue
                if tag is not None and ktag is not None and tag != ktag:
                    continue
                del st.mem[k]
                continue
            if self.is_alloca(root) and root[1] not in self.esc:
                continue
            if self.is_alloca(kr) and kr[1] not in self.esc:
                continue
            if self.is_alloca(root) and self.is_alloca(kr):
                continue
            if root[0] == 'g' and kr[0] == 'g':
                continue
            if self.fresh(root) and self.fresh(kr) and root != kr:
                continue
            if tag is None and ktag is not None and ktag[0].startswith('mr_') and self.user_mem(root):
                continue        # user data never overlaps the library's own records
            if tag is not None and ktag is not None:
                if tag != ktag:
                    continue
            else:
                # raw access: may alias cells of the same type only
                if k[2] != sty:
                    continue
            del st.mem[k]

    def user_mem(self, r):
        """r is the address of user data: loaded from the data field of a descriptor"""
        if r[0] == 'i' and r[1] in self.f.ins:
            i = self.f.ins[r[1]]
            if i.op == 'load':
                base, steps = gep_parts(self.f, i.args[0])
                t = [self.prog.field_name(s[1], s[2]) for s in steps if s[0] == 'f']
                return 'mr_ptrdes_t.data' in t
        return False

    def fresh(self, r):
        if self.is_alloca(r):
            return True
        if r[0] == 'i' and r[1] in self.f.ins:
            i = self.f.ins[r[1]]
            return i.op == 'call' and self.mods is not None and self.mods.is_alloc(self.f, i)
        return False

    def kill_call(self, st, i):
        tgts = self.prog.targets(self.f, i)
        callee = self.f.callee(i)
        if callee and callee.startswith('llvm.') and not callee.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
            return
        args = [self.canon(st, a) for a in i.args]
        roots = set()
        for a in args:
            if a[0] in ('i', 'a', 'g', 'gep'):
                roots.add(self.addr_root(a))
        if callee and callee.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
            n = self.constof(st, args[2])
            d = args[0]
            if n is not None:
                cells = self.cells_in(st, args[1], n) if not callee.startswith('llvm.memset') else []
                zeros = self.zeros_in(st, args[1], n) if not callee.startswith('llvm.memset') else []
                self.kill_store(st, d, n, None)
                for off, sz in zeros:
                    st.mem[('zero', self.offset_addr(d, off), sz)] = ('c', 0, 8)
                for off, sz, ty, w in cells:
                    st.mem[(self.offset_addr(d, off), sz, ty)] = w
            else:
                r = self.addr_root(d)
                for k in list(st.mem):
                    if self.addr_root(k[0]) == r:
                        del st.mem[k]
            if callee.startswith('llvm.memset') and n is not None and self.constof(st, args[1]) == 0:
                st.mem[('zero', d, n)] = ('c', 0, 8)
            return
        tags = self.mods.call_tags(self.f, i) if self.mods else None
        if callee in PURE_EXT:
            return
        external = callee is not None and self.prog.funcs[callee].decl
        for k in list(st.mem):
            if k[0] == 'zero':
                kr = self.addr_root(k[1])
                if not (self.is_alloca(kr) and kr[1] not in self.esc and kr not in roots):
                    del st.mem[k]
                continue
            kr = self.addr_root(k[0])
            if self.is_alloca(kr) and kr[1] not in self.esc and kr not in roots:
                continue
            if kr[0] == 'g' and 'g' in kr and self.prog.globals.get(kr[1], {}).get('const'):
                continue
            ktag = self.tag_of(k[0])
            if external and kr in roots:
                del st.mem[k]
                continue
            if tags is not None:
                if ktag is not None:
                    if ktag not in tags and not (('raw', k[2]) in tags and kr in roots):
                        continue
                elif ('raw', k[2]) not in tags:
                    continue
            del st.mem[k]

    # -- execution --------------------------------------------------------------
    def purge(self, st, i):
        """value of instruction i is about to be redefined"""
        v = i.v
        st.can.pop(i.id, None)
        for k in [k for k in st.env if v in leafset(k)]:
            del st.env[k]
        for k in [k for k, w in st.mem.items() if v in leafset(w) or v in leafset(k[1] if k[0] == 'zero' else k[0])]:
            del st.mem[k]
        for k in [k for k, w in st.can.items() if v in leafset(w)]:
            # a stale copy of the old value: make it opaque
            del st.can[k]

    def execute(self, st, i):
        """returns list of successor states"""
        op = i.op
        if op not in ('br', 'switch', 'ret', 'unreachable', 'store') and i.ty != 'void':
            self.purge(st, i)
        r = self.on_instr(st, i)
        if r is not None:
            return r
        if op == 'load':
            addr = self.canon(st, i.args[0])
            self.on_load(st, i, addr)
            k = (addr, i.raw['sz'], i.ty)
            v = st.mem.get(k)
            if v is None:
                v = self.same_cell(st, addr, i.raw['sz'], i.ty)
            if v is None:
                v = self.zero_cell(st, addr, i.raw['sz'])
                if v is None and addr[0] != 'gep' and addr[0] == 'g':
                    pass
            if v is None:
                v = i.v
                if not i.raw.get('at'):
                    st.mem[k] = v
                ex = self.table_excludes(addr, i)
                if ex:
                    st.env[v] = ('!', ex)
            st.can[i.id] = v
            if v == i.v:
                st.can.pop(i.id, None)
        elif op == 'store':
            addr = self.canon(st, i.args[1])
            val = self.canon(st, i.args[0])
            self.on_store(st, i, addr, val)
            self.kill_store(st, addr, i.raw['sz'], i.raw['st'])
            for k in [k for k in st.mem if k[0] == 'zero' and self.addr_root(k[1]) == self.addr_root(addr)]:
                # split not modelled: keep zero fact only for other offsets via explicit cells
                self.split_zero(st, k, addr, i.raw['sz'])
            if val[0] in ('u', 'k', 'z'):
                pass
            else:
                st.mem[(addr, i.raw['sz'], i.raw['st'])] = val
        elif op == 'getelementptr':
            c = self.gepcanon(st, self.canon(st, i.args[0]), T(i.raw['g']))
            if depth(c) < 8:
                st.can[i.id] = c
        elif op == 'icmp':
            c = ('op', 'icmp', i.raw['p'], self.canon(st, i.args[0]), self.canon(st, i.args[1]), bits(i.raw['ot']))
            if depth(c) < 9:
                st.can[i.id] = c
        elif op in CASTS:
            x = self.canon(st, i.args[0])
            if op in ('bitcast', 'ptrtoint', 'inttoptr') and bits(i.ty) == 64:
                st.can[i.id] = x
            else:
                n = self.constof(st, x)
                c = ('op', op, x, bits(i.raw.get('ft', i.ty)), bits(i.ty))
                if depth(c) < 9:
                    st.can[i.id] = c
        elif op in ARITH:
            c = ('op', op, self.canon(st, i.args[0]), self.canon(st, i.args[1]), bits(i.ty))
            if depth(c) < 7:
                st.can[i.id] = c
        elif op == 'select':
            c = ('op', 'select') + tuple(self.canon(st, a) for a in i.args)
            a = self.abs(st, c[2])
            if a and a[0] == '=':
                c = c[3] if a[1] else c[4]
            if depth(c) < 8:
                st.can[i.id] = c
        elif op in ('call', 'invoke'):
            r = self.on_call(st, i)
            if r is None:
                self.kill_call(st, i)
                r2 = self.after_call(st, i)
                if r2 is not None:
                    return r2
            else:
                return r
        return [st]

    def cells_in(self, st, a, n):
        root = self.addr_root(a)
        if a[0] == 'gep' and a[3]:
            return []
        o = a[2] if a[0] == 'gep' else 0
        r = []
        for k, w in st.mem.items():
            if k[0] == 'zero' or self.addr_root(k[0]) != root or (k[0][0] == 'gep' and k[0][3]):
                continue
            ko = k[0][2] if k[0][0] == 'gep' else 0
            if o <= ko and ko + k[1] <= o + n:
                r.append((ko - o, k[1], k[2], w))
        return r

    def zeros_in(self, st, a, n):
        """zeroed ranges inside [a, a + n), relative to a"""
        root = self.addr_root(a)
        if a[0] == 'gep' and a[3]:
            return []
        o = a[2] if a[0] == 'gep' else 0
        r = []
        for k in st.mem:
            if k[0] != 'zero' or self.addr_root(k[1]) != root or (k[1][0] == 'gep' and k[1][3]):
                continue
            ko = k[1][2] if k[1][0] == 'gep' else 0
            lo, hi = max(o, ko), min(o + n, ko + k[2])
            if lo < hi:
                r.append((lo - o, hi - lo))
        return r

    def offset_addr(self, d, off):
        if off == 0:
            return d
        if d[0] == 'gep':
            return ('gep', d[1], d[2] + off, d[3], None)
        return ('gep', d, off, (), None)

    def table_excludes(self, addr, i):
        """small values that no element of the constant integer table read here has"""
        if addr[0] != 'gep' or addr[1][0] != 'g' or not addr[3] or not i.ty.startswith('i'):
            return None
        n = addr[1][1]
        key = (n, i.raw['sz'])
        if key not in _TABLES:
            g = self.prog.globals.get(n)
            r = None
            if g and g.get('const') and 'init' in g:
                vals = set()
                ok = True
                tot = 0
                for o, sz, c in g['init']:
                    if c[0] == 's' and i.raw['sz'] == 1:
                        vals |= {wrap(ord(x), 8) for x in c[1]}
                        tot += len(c[1])
                        continue
                    if sz != i.raw['sz'] or c[0] != 'c':
                        ok = False
                        break
                    vals.add(int(c[1]))
                    tot += 1
                if ok:
                    if tot * i.raw['sz'] < g['size']:
                        vals.add(0)
                    r = frozenset(x for x in range(-4, 5) if x not in vals)
            _TABLES[key] = r
        return _TABLES[key]

    def same_cell(self, st, addr, size, ty):
        """a cell recorded under another spelling of the same constant offset"""
        if addr[0] == 'gep' and addr[3]:
            return None
        off = addr[2] if addr[0] == 'gep' else 0
        base = addr[1] if addr[0] == 'gep' else addr
        for (a, n, t), w in ((k, w) for k, w in st.mem.items() if k[0] != 'zero'):
            if n == size and t == ty and not (a[0] == 'gep' and a[3]):
                if (a[2] if a[0] == 'gep' else 0) == off and (a[1] if a[0] == 'gep' else a) == base:
                    return w
        return None

    def zero_cell(self, st, addr, size):
        root = self.addr_root(addr)
        off = addr[2] if addr[0] == 'gep' else 0
        if addr[0] == 'gep' and addr[3]:
            return None
        for k in st.mem:
            if k[0] == 'zero' and self.addr_root(k[1]) == root and not (k[1][0] == 'gep' and k[1][3]):
                o = k[1][2] if k[1][0] == 'gep' else 0
                if o <= off and off + size <= o + k[2]:
                    return ('c', 0, size * 8)
        return None

    def split_zero(self, st, k, addr, size):
        base = k[1]
        o = base[2] if base[0] == 'gep' else 0
        off = addr[2] if addr[0] == 'gep' else 0
        v = st.mem.pop(k)
        if addr[0] == 'gep' and addr[3]:
            return
        if base[0] == 'gep' and base[3]:
            return
        root = self.addr_root(base)
        if off + size <= o or o + k[2] <= off:
            st.mem[k] = v
            return
        if off > o:
            st.mem[('zero', ('gep', root, o, (), None) if o else root, off - o)] = v
        if off + size < o + k[2]:
            st.mem[('zero', ('gep', root, off + size, (), None), o + k[2] - off - size)] = v

    def phis(self, st, b, pred):
        vals = []
        bl = self.f.blocks[b]
        for i in bl:
            if i.op != 'phi':
                break
            for v, p in i.args:
                if p == pred:
                    c = self.canon(st, v)
                    vals.append((i, c))
                    break
        # simultaneous assignment
        old = [(i, c, self.abs(st, c)) for i, c in vals]
        redefined = {i.v for i, _ in vals}
        for i, c, a in old:
            self.purge(st, i)
        for i, c, a in old:
            if c[0] in ('u', 'k', 'z', 'fp') or leafset(c) & redefined or depth(c) > 6:
                if a:
                    st.env[i.v] = a
            else:
                st.can[i.id] = c
                if a and a[0] == '=' and c[0] not in ('c', 'n') and bits(i.ty) <= 64:
                    pass

    def prune(self, st, b):
        live = self.f.live_in[b] | {i.id for i in self.f.blocks[b] if i.op == 'phi'}
        for k in [k for k in st.can if k not in live]:
            del st.can[k]
        keep = {('i', k) for k in live if k not in st.can}
        for c in st.can.values():
            keep |= {l for l in leafset(c) if l[0] == 'i'}
        for c in self.keep(st):
            keep |= {l for l in leafset(c) if l[0] == 'i'}
        # memory reachable from kept roots; a pointer cell matters when something known lives behind it
        behind = set()
        for k, w in st.mem.items():
            if k[0] == 'zero' or w[0] in ('c', 'n') or w in st.env or {l for l in leafset(w) if l[0] == 'i'} & keep:
                behind |= {l for l in leafset(k[1] if k[0] == 'zero' else k[0]) if l[0] == 'i' and l not in keep}
        ch = True
        mem = {}
        rest = dict(st.mem)
        while ch:
            ch = False
            for k in list(rest):
                ls = leafset(k[1] if k[0] == 'zero' else k[0])
                if all(l[0] != 'i' or l in keep for l in ls):
                    w = rest.pop(k)
                    vl = {l for l in leafset(w) if l[0] == 'i'}
                    interesting = w[0] in ('c', 'n', 'g', 'F', 'a') or w in st.env or vl & keep or k[0] == 'zero' or w[0] == 'gep' or vl & behind
                    if not interesting:
                        continue
                    mem[k] = w
                    if not vl <= keep:
                        keep |= vl
                        ch = True
        st.mem = mem
        for k in [k for k in st.env if not all(l[0] != 'i' or l in keep for l in leafset(k))]:
            del st.env[k]

    def run(self, entry=0, init=None, first=0):
        """explore from instruction `first` of block `entry`"""
        f = self.f
        st = State()
        if init:
            init(st)
        self.start(st)
        seen = [dict() for _ in f.blocks]
        summ = [dict() for _ in f.blocks]
        work = [(entry, st)]
        while work:
            b, st = work.pop()
            self.steps += 1
            if self.steps > self.max_steps:
                self.overflow = True
                break
            states = [st]
            bl = f.blocks[b]
            lo, first = first, 0
            for i in bl[lo:-1]:
                if i.op == 'phi':
                    continue
                nxt = []
                for s in states:
                    nxt += self.execute(s, i)
                states = nxt
                if not states:
                    break
            t = bl[-1]
            for s in states:
                r = self.on_instr(s, t)
                if r is not None and not r:
                    continue
                if t.op == 'ret':
                    self.on_ret(s, t, self.canon(s, t.args[0]) if t.args else None)
                    continue
                for succ, s2 in self.branch(s, t):
                    self.on_edge(s2, b, succ)
                    try:
                        self.phis(s2, succ, b)
                    except Contradiction:
                        continue
                    self.prune(s2, succ)
                    k = s2.key()
                    if k in seen[succ]:
                        continue
                    if len(seen[succ]) >= self.cap:
                        old = summ[succ].get(s2.ts)
                        if old is not None:
                            j = self.join(old, s2)
                            if j.key() == old.key():
                                continue
                            s2 = j
                        summ[succ][s2.ts] = s2.copy()
                    else:
                        seen[succ][k] = 1
                    s2.trail = self.trail_add(s2.trail, succ)
                    work.append((succ, s2))

    def trail_add(self, trail, b):
        return (trail + (b,))[-60:]

    def join(self, x, y):
        s = State()
        s.ts = x.ts
        s.trail = y.trail
        s.env = {k: v for k, v in x.env.items() if y.env.get(k) == v}
        for k, v in x.env.items():
            w = y.env.get(k)
            if w and w != v:
                nz = lambda q: (q[0] == '=' and q[1] != 0) or (q[0] == '!' and 0 in q[1])
                if nz(v) and nz(w):
                    s.env[k] = ('!', frozenset((0,)))
        s.can = {k: v for k, v in x.can.items() if y.can.get(k) == v}
        s.mem = {k: v for k, v in x.mem.items() if y.mem.get(k) == v}
        return s

    def branch(self, st, t):
        out = []
        if t.op == 'br':
            ss = t.raw['s']
            if len(ss) == 1:
                return [(ss[0], st)]
            c = self.canon(st, t.args[0])
            a = self.abs(st, c)
            for k, s in enumerate(ss):
                want = 1 - k
                if a and a[0] == '=' and bool(a[1]) != bool(want):
                    continue
                s2 = st.copy()
                try:
                    self.refine(s2, c, ('=', want))
                except Contradiction:
                    continue
                out.append((s, s2))
        elif t.op == 'switch':
            c = self.canon(st, t.args[0])
            a = self.abs(st, c)
            vals = [v for v, _ in t.raw['cases']]
            for v, s in t.raw['cases']:
                if a and ((a[0] == '=' and a[1] != v) or (a[0] == '!' and v in a[1])):
                    continue
                s2 = st.copy()
                try:
                    self.refine(s2, c, ('=', v))
                except Contradiction:
                    continue
                out.append((s, s2))
            if not (a and a[0] == '=' and a[1] in vals):
                s2 = st.copy()
                try:
                    self.refine(s2, c, ('!', frozenset(vals)))
                    out.append((t.raw['s'][0], s2))
                except Contradiction:
                    pass
        else:
            for s in t.raw.get('s', []):
                out.append((s, st.copy()))
        return out


SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}


def steps_change(steps):
    return any(s[0] == 'f' for s in steps)


def cmpop(p, x, y, b):
    if p[0] == 'u':
        m = (1 << b) - 1
        x &= m
        y &= m
    return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
            'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[p]


def arith(op, x, y, b):
    m = (1 << b) - 1
    if op == 'add':
        return wrap(x + y, b)
    if op == 'sub':
        return wrap(x - y, b)
    if op == 'mul':
        return wrap(x * y, b)
    if op == 'and':
        return wrap(x & y, b)
    if op == 'or':
        return wrap(x | y, b)
    if op == 'xor':
        return wrap(x ^ y, b)
    if op == 'shl' and 0 <= y < b:
        return wrap(x << y, b)
    if op == 'lshr' and 0 <= y < b:
        return wrap((x & m) >> y, b)
    if op == 'ashr' and 0 <= y < b:
        return wrap(x >> y, b)
    if op == 'udiv' and y & m:
        return wrap((x & m) // (y & m), b)
    if op == 'urem' and y & m:
        return wrap((x & m) % (y & m), b)
    return None


class ModInfo:
    """which (struct, field) cells / raw cells a call may write, transitively"""

    def __init__(self, prog, alloc_test=None):
        self.prog = prog
        self.alloc_test = alloc_test
        own = {}
        for n, f in prog.defined.items():
            s = set()
            for i in f.instrs():
                if i.op == 'store':
                    base, steps = gep_parts(f, i.args[1])
                    if base[0] == 'i' and f.ins[base[1]].op == 'alloca':
                        # still may be someone's memory only if escaping; ignore
                        continue
                    tag = None
                    for st in steps:
                        if st[0] == 'f':
                            tag = (st[1], st[2])
                    s.add(tag if tag else ('raw', i.raw['st']))
                elif i.op == 'call':
                    c = f.callee(i)
                    if c and c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                        base, steps = gep_parts(f, i.args[0])
                        if base[0] == 'i' and f.ins[base[1]].op == 'alloca':
                            continue
                        tag = None
                        for st in steps:
                            if st[0] == 'f':
                                tag = (st[1], st[2])
                        s.add(('blk', tag))
            own[n] = s
        self.mod = {n: set(s) for n, s in own.items()}
        cg = {n: [t for t in ts if t in prog.defined] for n, ts in prog.callgraph().items()}
        ch = True
        while ch:
            ch = False
            for n, ts in cg.items():
                m = self.mod[n]
                l = len(m)
                for t in ts:
                    m |= self.mod[t]
                if len(m) != l:
                    ch = True
        # block copies write whole structs: expand by struct when a tag is known
        for n, m in self.mod.items():
            for x in list(m):
                if x[0] == 'blk':
                    m.discard(x)
                    m.add(('raw', 'i8'))
                    if x[1]:
                        m.add(x[1])
        self._cache = {}

    def is_alloc(self, f, i):
        return bool(self.alloc_test and self.alloc_test(f, i))

    def call_tags(self, f, i):
        """None: anything reachable may be written"""
        k = (f.name, i.id)
        if k in self._cache:
            return self._cache[k]
        r = set()
        ts = self.prog.targets(f, i)
        if not ts:
            r = None
        else:
            for t in ts:
                if t in self.mod:
                    r |= self.mod[t]
                # an external function writes only through its pointer arguments (roots are handled by caller)
                elif t in EXT_WRITES_RAW:
                    r.add(('raw', 'i8'))
        self._cache[k] = r
        return r


EXT_WRITES_RAW = {'memcpy', 'memset', 'strcpy', 'strncpy', 'sprintf', 'snprintf', 'sscanf'}

PURE_EXT = {'strlen', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'memcmp', 'strchr', 'strrchr', 'strstr', 'memchr', 'tolower',
            'toupper', 'isspace', 'isdigit', 'isalpha', 'isalnum', 'isprint', '__ctype_b_loc', '__errno_location', 'fprintf', 'printf', 'vfprintf',
            'fwrite', 'abort', 'exit', 'dladdr', 'dlsym', 'backtrace', 'backtrace_symbols', 'htonl', 'ntohl', 'atoi'}
