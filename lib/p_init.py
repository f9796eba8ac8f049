"""Must-precede analysis on the call graph: a function "needs" the registry when some path from its entry reaches a read of the
type registry (the lookup indexes in the library record) before it has passed through a call that always initialises the
registry. No entry of the interface - the API macros (through witness functions) and the documented functions - may need it.
A second rule follows the initialiser itself: the flag that ends initialisation is set only after every index has been built."""
import scope
from ir import gep_parts

REG = {'mr_conf_t.type_by_name', 'mr_conf_t.var_types', 'mr_conf_t.enum_by_name', 'mr_conf_t.field_by_name', 'mr_conf_t.field_by_name_and_type'}


def reg_fields(p, f, i):
    r = set()
    for o in f.operands(i):
        try:
            b, st = gep_parts(f, o)
        except Exception:
            continue
        if b == ('g', 'mr_conf'):
            t = [p.field_name(s[1], s[2]) for s in st if s[0] == 'f']
            if t and t[0] in REG:
                r.add(t[0])
    return r


class Need:
    def __init__(self, p, init):
        self.p = p
        self.init = init            # functions that are the initialisation
        self.must = set(init)
        self.need = {}
        ch = True
        while ch:
            ch = False
            for n, f in p.defined.items():
                if n not in self.must and self.always(f):
                    self.must.add(n)
                    ch = True
        ch = True
        while ch:
            ch = False
            for n, f in p.defined.items():
                if n in self.need or n in init:
                    continue
                w = self.reaches(f)
                if w:
                    self.need[n] = w
                    ch = True

    def inits(self, f, i):
        if i.op not in ('call', 'invoke'):
            return False
        t = self.p.targets(f, i)
        return bool(t) and all(x in self.must for x in t)

    def walk(self, f):
        """instructions reachable from the entry before an initialising call"""
        seen = {0}
        st = [0]
        while st:
            b = st.pop()
            for i in f.blocks[b]:
                if self.inits(f, i):
                    break
                yield i
            else:
                for s in f.succs[b]:
                    if s not in seen:
                        seen.add(s)
                        st.append(s)

    def always(self, f):
        return not any(i.op == 'ret' for i in self.walk(f)) and any(self.inits(f, i) for i in f.calls())

    def reaches(self, f):
        for i in self.walk(f):
            r = reg_fields(self.p, f, i)
            if r:
                return (i, 'reads ' + sorted(r)[0])
            if i.op in ('call', 'invoke'):
                for t in self.p.targets(f, i):
                    if t in self.need:
                        return (i, t)
        return None

    def chain(self, n):
        out = []
        while n in self.need and len(out) < 20:
            i, w = self.need[n]
            out.append('%s: %s' % (i.where(), w if w.startswith('reads') else 'calls ' + w))
            n = w
        return out


# documented functions, besides the API macros, that a program may call first
ENTRIES = ('mr_free_recursively', 'mr_copy_recursively', 'mr_hash_struct', 'mr_cmp_structs', 'mr_generic_sort',
           'mr_get_td_by_name', 'mr_ptr_detect_type', 'mr_detect_type', 'mr_type_void_fields_impl')
# diagnostics may be issued at any time: before initialisation their text falls back to a generic one (the lookup in an index
# without operations finds nothing)
CUT = ('mr_message',)


def initialiser(p):
    """the function that builds the indexes: stores to (or passes to a constructor) every registry index and is not the cleanup"""
    out = []
    for n, f in p.defined.items():
        r = set()
        for i in f.calls():
            if (f.callee(i) or '').startswith('mr_ic_new') or any('_new' in t for t in p.targets(f, i)):
                for o in i.args[:1]:
                    try:
                        b, st = gep_parts(f, o)
                    except Exception:
                        continue
                    if b == ('g', 'mr_conf'):
                        t = [p.field_name(s[1], s[2]) for s in st if s[0] == 'f']
                        r |= set(t[:1]) & REG
        if r:
            out.append((n, r))
    return out


def run(c):
    c.rule('registry-first', 'no path from an interface entry reaches a registry lookup before the registry is initialised')
    c.rule('index-built', 'the initialiser builds every index the lookups read')
    c.rule('ready-flag', 'the flag that ends initialisation is set after all registration work and every return of the initialiser has observed it')
    p = c.prog('plain')
    made = initialiser(p)
    c.require(made, 'the function that builds the registry indexes')
    # the initialiser proper: callers close upwards while the only callers are static helpers of it
    roots = set()
    for n, r in made:
        while p.defined[n].local and p.callers.get(n) and len({g.name for g, _ in p.callers[n]}) == 1 and next(iter(p.callers[n]))[0].name != n:
            n = next(iter(p.callers[n]))[0].name
        roots.add(n)
    c.require(len(roots) == 1, 'one initialiser of the registry, found %s' % sorted(roots))
    init = roots.pop()
    have = set().union(*[r for _, r in made])
    read = set()
    for n, f in p.defined.items():
        if scope.base(n) in ('mr_cleanup',):
            continue
        for i in f.instrs():
            read |= reg_fields(p, f, i)
    for r in sorted(read):
        c.ok('index-built')
        if r not in have:
            c.report('index:' + r, 'index-built', p.defined[init].where(None), '%s is consulted but %s does not build it' % (r, init))
    N = Need(p, {init})
    N2 = N
    # recompute with diagnostics cut out
    N2 = Need.__new__(Need)
    N2.p, N2.init, N2.must, N2.need = p, {init}, N.must, {}
    ch = True
    while ch:
        ch = False
        for n, f in p.defined.items():
            if n in N2.need or n == init or scope.base(n) in CUT:
                continue
            w = N2.reaches(f)
            if w:
                N2.need[n] = w
                ch = True
    for n, f in sorted(p.defined.items()):
        if n.startswith('wit_') or n in ENTRIES:
            c.ok('registry-first')
            if len(c.samples) < 20:
                c.sample('%s: every path initialises the registry before a lookup%s' % (n, '' if n in N.must else ' (or makes none)'))
            if n in N2.need:
                ch = N2.chain(n)
                c.report('first:%s' % n, 'registry-first', N2.need[n][0].where(), '%s reaches a registry lookup before the registry is initialised' % n, ch)
    c.floor('registry-first', 35)
    c.require(all(e in p.defined for e in ENTRIES), 'the documented entry functions')
    c.require(any(n in N2.need for n in p.defined), 'a function that needs the registry (positive example)')
    # the flag
    f = p.defined[init]
    flag = None
    for i in f.blocks[0]:
        if i.op == 'load' and i.args[0][0] == 'g' and p.globals.get(i.args[0][1], {}).get('init') is not None:
            flag = i.args[0]
            break
    if flag is None:
        for b in f.blocks:
            for i in b:
                if i.op == 'load' and i.args[0][0] == 'g' and i.args[0][1] != 'mr_conf':
                    flag = flag or i.args[0]
    c.require(flag, 'the flag that the initialiser tests')
    stores = [i for i in f.instrs() if i.op in ('store',) and i.args[1] == flag]
    c.require(stores, 'the store that marks the registry initialised')
    for s in stores:
        c.ok('ready-flag')
        seen, st = set(), [(s.blk, s.idx + 1)]
        while st:
            b, k = st.pop()
            for j in f.blocks[b][k:]:
                if j.op in ('call', 'invoke') and any(t in p.defined and (N2.need.get(t) or t in N.need or reaches_reg(p, t)) for t in p.targets(f, j)):
                    c.report('%s:early-flag' % init, 'ready-flag', j.where(), 'registration work (%s) follows the store that marks the registry ready (%s)' % (f.callee(j), s.where()))
            for x in f.succs[b]:
                if x not in seen:
                    seen.add(x)
                    st.append((x, 0))
    # every return has observed the flag
    loads = {i.v for i in f.instrs() if i.op == 'load' and i.args[0] == flag}

    def derived(o, d=0):
        return o in loads or (o[0] == 'i' and d < 4 and f.ins[o[1]].op in ('trunc', 'icmp', 'and', 'zext', 'xor') and any(derived(a, d + 1) for a in f.ins[o[1]].args))
    seen, st = {0}, [0]
    while st:
        b = st.pop()
        t = f.blocks[b][-1]
        if t.op == 'ret':
            c.report('%s:unobserved' % init, 'ready-flag', t.where(), 'the initialiser may return before another thread has finished initialisation')
        if t.op == 'br' and t.args and derived(t.args[0]):
            # only the edge on which the flag is still clear continues; the other has observed it
            c.ok('ready-flag')
            cont = [x for x in f.succs[b] if x != true_edge(f, t, loads)]
        else:
            cont = f.succs[b]
        for x in cont:
            if x not in seen:
                seen.add(x)
                st.append(x)
    c.floor('ready-flag', 2)


def true_edge(f, t, loads):
    """successor of a conditional branch taken when the loaded flag is non-zero"""
    o, inv = t.args[0], False
    for _ in range(6):
        if o in loads:
            break
        i = f.ins[o[1]]
        if i.op == 'icmp':
            k = i.args[1]
            z = k[0] == 'c' and k[1] == 0
            if i.raw.get('p') == 'eq' and z:
                inv = not inv
            elif i.raw.get('p') == 'ne' and not z:
                inv = not inv
            o = i.args[0]
        elif i.op == 'xor':
            inv = not inv
            o = i.args[0]
        else:
            o = i.args[0]
    s = f.succs[t.blk]
    return s[1] if inv else s[0]


_rr = {}


def reaches_reg(p, n):
    if n not in _rr:
        _rr[n] = any(reg_fields(p, p.defined[m], i) for m in scope.reach(p, [n]) for i in p.defined[m].instrs())
    return _rr[n]
