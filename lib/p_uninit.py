"""Definite initialisation, bit by bit, of every local object of every function (structures, arrays, variables whose address is
taken) and of the scalars that live in registers.  A forward must-dataflow keeps, per object, the set of bits written on every
path; copies of structures carry the set along; calls use interprocedural summaries (bits a function reads through a parameter
before it wrote them, bits it wrote on success and on failure, callbacks with the context they are given).  Elements a growing array
hands out are followed the same way up to the end of the function that asked for them.  What the dataflow cannot prove is explored
path by path with the outcome of every test and call known on the path, into the called function if that is where the bits are read,
and is reported only if some path is left."""
import scope
import uninit
from ir import T, const_int, gep_parts
from par import pmap
from paths import Explorer
from uninit import Addr, rng


class Track(Explorer):
    """one object: which of its bits are written on the path, and whether `want` bits are used before"""
    cap = 24
    max_steps = 60000

    def __init__(self, p, f, mods, flow, obj, only=None, entry=None):
        Explorer.__init__(self, p, f, mods)
        self.flow = flow
        self.obj = obj
        self.only = only            # instruction ids to judge; None: all
        self.entry = entry or {}
        self.hits = {}
        if not hasattr(flow, 'ins'):
            flow.run()
        known = {}

        def held(i, o):
            k = i.id, o
            if k not in known:
                known[k] = flow.held(i, o)
            return known[k]
        flow.others = held

    def start(self, st):
        st.ts = (0, ())
        st.mem.update(self.entry)

    def keep(self, st):
        return [('i', q[0]) for q in (st.ts[1] or ())]

    def on_instr(self, st, i):
        m, pend = st.ts
        s = ({self.obj: m}, list(pend))
        # outcomes known by now
        outs = []
        for q in pend:
            a = self.abs(st, self.canon(st, ('i', q[0])))
            if a:
                if a[0] == '=':
                    outs.append((q[0], a[1] == 0))
                elif 0 in a[1]:
                    outs.append((q[0], False))
        self.flow.settle(s, outs)
        self.flow.alerts = {}
        s[1][:] = [q for q in s[1] if not (q[0] == i.id)]
        self.flow.step(s, i)
        for (iid, obj), (miss, what) in self.flow.alerts.items():
            if obj == self.obj and (self.only is None or iid in self.only):
                if not self.cleared(st, i, miss):
                    self.hits.setdefault(iid, (miss, what, st.trail))
        st.ts = (s[0].get(self.obj, 0), tuple(q for q in s[1] if q[1] == self.obj))
        if i.op == 'ret':
            self.at_ret(st, i)
        return None

    def cleared(self, st, i, miss):
        return False

    def at_ret(self, st, i):
        pass


class Local(Track):
    """a use inside a called function counts only if the function really gets there with what the caller stored"""
    def __init__(self, p, f, mods, flow, obj, flows, only, depth=0):
        Track.__init__(self, p, f, mods, flow, obj, only)
        self.flows = flows
        self.depth = depth

    def cleared(self, st, i, miss):
        if i.op != 'call' or not self.prog.targets(self.f, i):
            return False
        tg = self.prog.targets(self.f, i)
        if len(tg) != 1 or tg[0] not in self.flows:
            return False
        t = tg[0]
        g = self.prog.defined[t]
        seen = False
        for k, o in enumerate(i.args):
            if o[0] != 'i':
                continue
            a = self.flow.addr(o)
            if a.obj != self.obj or a.var:
                continue
            R = self.flow.summ[t].R.get(k, 0)
            bad = (R << (8 * a.off)) & miss
            if not bad:
                continue
            seen = True
            entry = {}
            for (ad, sz, ty), v in [(q, w) for q, w in st.mem.items() if q[0] != 'zero']:
                n = self.constof(st, v)
                if n is None:
                    continue
                base, off = (ad[1], ad[2]) if ad[0] == 'gep' and not ad[3] else (ad, 0)
                if base == self.obj and off >= a.off:
                    entry[self.at(('a', k), off - a.off, ad), sz, ty] = ('c', n, sz * 8)
            have = st.ts[0] >> (8 * a.off)
            e = Inside(self.prog, g, self.mods, self.flows[t], ('a', k), have, entry)
            e.run()
            if e.hits or e.overflow:
                return False
        return seen

    def at(self, base, off, ad):
        tag = ad[4] if ad[0] == 'gep' else None
        if off == 0 and tag is None:
            return base
        return ('gep', base, off, (), tag)


class Inside(Track):
    def __init__(self, p, f, mods, flow, obj, have, entry):
        Track.__init__(self, p, f, mods, flow, obj, None, entry)
        self.have = have

    def start(self, st):
        st.ts = (self.have, ())
        st.mem.update(self.entry)


class Filled(Track):
    """an element handed out by a growing array: all its bits are set when the function ends"""
    def __init__(self, p, f, mods, flow, obj, want):
        Track.__init__(self, p, f, mods, flow, obj, ())
        self.want = want
        self.miss = None
        self.raw = False
        flow.size[obj] = want.bit_length() // 8
        flow.addr_cache.clear()

    def start(self, st):
        st.ts = (None, ())

    def on_instr(self, st, i):
        if i.v == self.obj:
            st.ts = (0, ())
            self.cnt = self.canon(st, i.args[1]) if len(i.args) > 1 else None
            return None
        if st.ts[0] is None:
            return None
        if i.op == 'store' and i.args[1][0] in ('i', 'a') and self.canon(st, i.args[1]) == self.cnt:
            st.ts = (None, ())     # the element is given back
            return None
        return Track.on_instr(self, st, i)

    def keep(self, st):
        return [self.obj] + Track.keep(self, st) if st.ts[0] is not None else []

    def at_ret(self, st, i):
        if st.ts[0] is None:
            return
        a = self.abs(st, self.canon(st, self.obj))
        if a and a[0] == '=' and a[1] == 0:
            return
        miss = self.want & ~st.ts[0]
        if miss == self.want and i.args and self.canon(st, i.args[0]) == self.obj:
            self.raw = True
            return                 # a mere wrapper of the growing call: judged in its callers
        if miss and self.miss is None:
            self.miss = (miss, st.trail)


class Scalar(Explorer):
    """registers that may hold no value: a use is reported on a feasible path only"""
    cap = 24
    max_steps = 60000

    def start(self, st):
        st.ts = frozenset()
        self.hits = {}

    def phis(self, st, b, pred):
        und = set(st.ts)
        new = {}
        for i in self.f.blocks[b]:
            if i.op != 'phi':
                break
            for v, q in i.args:
                if q == pred:
                    new[i.id] = v == ('u',) or (v[0] == 'i' and v[1] in und)
        Explorer.phis(self, st, b, pred)
        for k, u in new.items():
            (und.add if u else und.discard)(k)
        st.ts = frozenset(und)

    def on_instr(self, st, i):
        und = set(st.ts)
        bad = [o for o in self.f.operands(i) if i.op != 'phi' and (o == ('u',) or (o[0] == 'i' and o[1] in st.ts))]
        if bad and i.op in ('trunc', 'zext', 'sext', 'bitcast', 'select', 'insertvalue', 'freeze', 'and', 'or'):
            if i.op == 'insertvalue' and bad == [('u',)]:
                bad = []
            elif i.op == 'select':
                a = self.abs(st, self.canon(st, i.args[0]))
                pick = [i.args[1]] if a and a[0] == '=' and a[1] else [i.args[2]] if a and a[0] == '=' else list(i.args)
                bad = [o for o in bad if o in pick]
            if bad:
                und.add(i.id)
            else:
                und.discard(i.id)
            st.ts = frozenset(und)
            return None
        if bad and i.op == 'store' and bad == [('u',)] and self.addr_root(self.canon(st, i.args[1]))[0] == 'i' and \
                self.is_alloca(self.addr_root(self.canon(st, i.args[1]))):
            bad = []               # judged by the rule for objects
        if bad:
            self.hits.setdefault(i.id, st.trail)
        if i.id in und:
            und.discard(i.id)
            st.ts = frozenset(und)
        return None


def mine(p, f):
    return p.mine(f) and not scope.generated(f)


def repo_site(i):
    return not i.loc or '/src/' in i.loc[0] or 'witness' in i.loc[0]


def wrappers(p, F, summ):
    """functions that hand on the element a growing call gave them"""
    w = {}
    for n, f in p.defined.items():
        for i in f.calls():
            if f.callee(i) == 'mr_rarray_allocate_element' and const_int(i.args[3]):
                vals = [o for t in f.instrs() if t.op == 'ret' for o in t.args]
                vals += [a[0] for o in vals if o[0] == 'i' and f.ins[o[1]].op == 'phi' for a in f.ins[o[1]].args]
                if i.v in vals:
                    e = Filled(p, f, F.mods, uninit.Flow(p, f, summ), i.v, rng(0, const_int(i.args[3])))
                    e.run()
                    if e.raw:
                        w[n] = const_int(i.args[3])
    return w


def data_bits(p, f, i, W):
    """(size, bits that matter) of an element handed out by a growing array"""
    c = f.callee(i)
    if c in W:
        return W[c], rng(0, W[c])
    if c is None or scope.base(c) != 'mr_rarray_allocate_element':
        return None
    n = const_int(i.args[3])
    if not n or n > 4096:
        return None
    # filled through the array itself at a computed place: not judged here
    arr = uninit.Flow(p, f, {}).addr(i.args[0])
    for j in f.instrs():
        d = j.args[1] if j.op == 'store' else j.args[0] if j.op == 'call' and (f.callee(j) or '').startswith('llvm.mem') else ('n',)
        if d[0] == 'i':
            b, steps = gep_parts(f, d)
            if b[0] == 'i' and f.ins[b[1]].op == 'load' and steps:
                a = uninit.Flow(p, f, {}).addr(f.ins[b[1]].args[0])
                if a.obj is not None and (a.obj, a.off, a.var) == (arr.obj, arr.off, arr.var):
                    return None
    return n, rng(0, n)


WRITERS = ('llvm.memset', 'llvm.memcpy', 'llvm.memmove', 'vsnprintf', 'snprintf', 'strcpy', 'strncpy', 'xdr_opaque', 'xdr_bytes', 'fread', 'stpcpy')


def from_block(f, b):
    seen = set()
    w = list(f.succs[b])
    while w:
        x = w.pop()
        if x not in seen:
            seen.add(x)
            w += f.succs[x]
    return seen


class Block(Explorer):
    """the block of one allocation site: written into, or recorded as spare capacity, before the function ends with it"""
    cap = 24
    max_steps = 60000

    def __init__(self, p, f, mods, site, marks, none):
        Explorer.__init__(self, p, f, mods)
        self.site = site
        self.marks = marks
        self.none = none            # the block itself and its length: zero means there is no block to fill
        self.miss = None

    def start(self, st):
        st.ts = None

    def keep(self, st):
        return [self.site.v] if st.ts else []

    def on_edge(self, st, b, s):
        t = self.f.blocks[b][-1]
        if not st.ts or t.op != 'br' or len(t.raw['s']) != 2 or t.raw['s'][0] == t.raw['s'][1] or t.args[0][0] != 'i':
            return
        j = self.f.ins[t.args[0][1]]
        if j.op == 'icmp' and j.raw['p'] in ('eq', 'ne') and any(o in self.none for o in j.args) and \
                any(const_int(o) == 0 or o[0] in ('n', 'z') for o in j.args):
            if (s == t.raw['s'][0]) == (j.raw['p'] == 'eq'):
                st.ts = None

    def on_instr(self, st, i):
        if i.id == self.site.id:
            st.ts = True
        elif st.ts and i.id in self.marks:
            st.ts = None
        elif st.ts and i.op == 'ret' and self.miss is None:
            a = self.abs(st, self.canon(st, self.site.v))
            if not (a and a[0] == '=' and a[1] == 0):
                self.miss = st.trail
        return None


def filled_block(p, F, f, i):
    """None, or a path on which a block whose new part holds no value yet is left so: neither filled, byte by byte or at once, nor
    recorded as spare capacity"""
    n = i.args[-1]
    seen = {i.v}
    cells = set()
    ch = True
    after = from_block(f, i.blk)
    while ch:
        ch = False
        for j in f.instrs():
            if j.op in ('phi', 'bitcast', 'select') and any(o in seen for o in f.operands(j)) and j.v not in seen:
                seen.add(j.v)
                ch = True
            elif j.op == 'getelementptr' and j.args[0] in seen and j.v not in seen:
                seen.add(j.v)
                ch = True
            elif j.op == 'store' and j.args[0] in seen and tagof(p, f, j.args[1]) not in cells:
                cells.add(tagof(p, f, j.args[1]))
                ch = True
            elif j.op == 'load' and j.ty == 'ptr' and j.v not in seen and tagof(p, f, j.args[0]) in cells and (j.blk in after or j.blk == i.blk):
                seen.add(j.v)
                ch = True
    marks = set()
    lens = {n}
    ch = True
    while ch:                       # widened, narrowed or kept in a bit field: still the length
        ch = False
        for j in f.instrs():
            if j.op in ('zext', 'sext', 'trunc', 'and') and (j.op != 'and' or const_int(j.args[1]) is not None):
                for x, y in ((j.v, j.args[0]), (j.args[0], j.v)):
                    if x in lens and y not in lens and y[0] == 'i':
                        lens.add(y)
                        ch = True
    for j in f.instrs():
        if not (j.blk in after or (j.blk == i.blk and j.idx > i.idx)):
            continue
        if j.op == 'store':
            if j.args[0] in lens and j.args[1] not in seen:
                marks.add(j.id)
            if j.args[1] in seen and j.raw['sz'] == 1:
                marks.add(j.id)
        if j.op == 'call' and (f.callee(j) or '').startswith(WRITERS) and any(o in seen for o in j.args):
            marks.add(j.id)
        if j.op == 'call' and F.alloc.kind(f, j) in ('free', 'realloc') and any(o in seen for o in j.args):
            marks.add(j.id)        # given back
    held = {tagof(p, f, j.args[1]) for j in f.instrs() if j.op == 'store' and j.args[0] in lens}
    held |= {tagof(p, f, f.ins[o[1]].args[0]) for o in lens if o[0] == 'i' and f.ins[o[1]].op == 'load'}
    none = seen | lens | {j.v for j in f.instrs() if j.op == 'load' and tagof(p, f, j.args[0]) in held}
    none |= {j.v for j in f.instrs() if j.op in ('and', 'zext', 'trunc', 'sext') and j.args[0] in none}
    e = Block(p, f, F.mods, i, marks, none)
    e.run()
    return e.miss


def tagof(p, f, v):
    b, steps = gep_parts(f, v)
    t = [p.field_name(s[1], s[2]) for s in steps if s[0] == 'f']
    return tuple(t) if t else b


def view(c, p, F):
    summ, flows = uninit.summaries(p)
    for fl in flows.values():
        fl.summ = summ
    return summ, flows


def locals_of(p, F, flows):
    jobs = []
    for n in sorted(flows):
        f = p.defined[n]
        by = {}
        for (iid, obj), (miss, what) in flows[n].local.items():
            if repo_site(f.ins[iid]):
                by.setdefault(obj, set()).add(iid)
        for obj, ids in sorted(by.items()):
            jobs.append((n, obj, frozenset(ids)))

    def one(j):
        n, obj, ids = j
        e = Local(p, p.defined[n], F.mods, flows[n], obj, flows, ids)
        e.run()
        return [(iid, miss, what, tr) for iid, (miss, what, tr) in e.hits.items()]
    return list(zip(jobs, pmap(one, jobs)))


def scalars_of(p, F):
    jobs = []
    for n, f in sorted(p.defined.items()):
        if any(o == ('u',) for i in f.instrs() for o in f.operands(i) if i.op not in ('insertvalue',)):
            jobs.append(n)

    def one(n):
        e = Scalar(p, p.defined[n], F.mods)
        e.run()
        return list(e.hits.items())
    return list(zip(jobs, pmap(one, jobs)))


def var_name(p, f, obj):
    return f.ins[obj[1]].raw.get('dn') or f.ins[obj[1]].raw.get('at', '')


def member(p, f, obj, miss):
    t = f.ins[obj[1]].raw.get('at', '')
    lo = ((miss & -miss).bit_length() - 1)
    d = p.ditypes.get(t)
    name = ''
    while d and d.get('m'):
        for m in d['m']:
            if m[1] * 8 <= lo:
                name = m[0]
        break
    return 'member %s' % name if name else 'byte %d' % (lo // 8)


def layout(p, at):
    d = p.ditypes.get(at)
    return at if d is None else (d['size'], tuple((m[1], m[2]) for m in d['m']))


def same(p, k, got):
    """the finding is there in the view with small functions inlined, too: at the same place, or for the same kind of object where
    the function that holds it was not inlined itself"""
    for (l, at, fn) in got:
        if l == k[0] or ((at == k[1] or layout(p, at) == layout(p, k[1])) and at != 'scalar' and (fn == k[2] or k[2] not in p.defined)):
            return True
    return False


def run(c):
    c.rule('object', 'every bit of a local object is written on every feasible path before it is read, passed to a function that '
           'reads it first, or returned')
    c.rule('scalar', 'every local scalar holds a value on every feasible path on which it is used')
    c.rule('element', 'an element handed out by a growing array is completely filled when the function that asked for it returns')
    c.rule('block', 'a block that is not zeroed by its allocation is filled by the function that asked for it, or recorded as spare capacity')
    bad = {}
    for v in ('plain', 'inline'):
        p, F = c.prog(v), c.fail(v)
        summ, flows = view(c, p, F)
        got = {}
        for (n, obj, ids), hits in locals_of(p, F, flows):
            f = p.defined[n]
            for iid, miss, what, tr in hits:
                i = f.ins[iid]
                key = (tuple(i.loc[:2]) if i.loc else n, f.ins[obj[1]].raw.get('at'), n)
                got[key] = ('object', scope.base(n), member(p, f, obj, miss), i.where(),
                            '%s of the local object (%s) is %s but not set on a path to here' % (member(p, f, obj, miss), f.ins[obj[1]].raw.get('at'), what), c.path_text(f, tr))
        for n, hits in scalars_of(p, F):
            f = p.defined[n]
            for iid, tr in hits:
                i = f.ins[iid]
                if not repo_site(i):
                    continue
                got[(tuple(i.loc[:2]) if i.loc else n, 'scalar', n)] = ('scalar', scope.base(n), 'scalar', i.where(), 'a local value is used that is not set on a path to here', c.path_text(f, tr))
        bad[v] = got
        W = wrappers(p, F, summ) if v == 'plain' else {}
        if True:
            for n, f in p.defined.items():
                for i in f.instrs():
                    if v == 'plain' and i.op == 'alloca':
                        c.ok('object')
                    if v == 'plain' and i.op == 'phi':
                        c.ok('scalar')
                    if v == 'plain' and i.op == 'call' and F.alloc.kind(f, i) == 'realloc':
                        c.ok('block')
                        miss = filled_block(p, F, f, i)
                        if miss is not None:
                            c.report('block:%s' % scope.base(n), 'block', i.where(), 'the block allocated here is not zeroed and its new part is left unfilled', c.path_text(f, miss))
                    w = data_bits(p, f, i, W) if i.op == 'call' and v == 'plain' else None
                    if w:
                        if v == 'plain':
                            c.ok('element')
                        e = Filled(p, f, F.mods, uninit.Flow(p, f, summ), i.v, w[1])
                        e.run()
                        if e.miss:
                            got[(tuple(i.loc[:2]) if i.loc else n, 'element', n)] = ('element', scope.base(n), 'element', i.where(), 'the new element may be left without byte %d' % (((e.miss[0] & -e.miss[0]).bit_length() - 1) // 8), c.path_text(f, e.miss[1]))
    p0 = c.prog('inline')
    for k in sorted(bad['plain'], key=str):
        if k in bad['inline'] or same(p0, k, bad['inline']) or bad['plain'][k][0] == 'element':
            rule, fn, mem, where, text, path = bad['plain'][k]
            c.report('%s:%s:%s' % (rule, fn, mem), rule, where, text, path)
        else:
            c.notes.append('excluded by following the calls: %s at %s' % (bad['plain'][k][4], bad['plain'][k][3]))
    c.floor('object', 300)
    c.floor('scalar', 800)
    c.floor('element', 5)
    c.floor('block', 4)
