"""Every block a function obtains, directly or in a field of a record of its own, is followed over every path to its release, to the
place it is recorded for someone else, or to the return that hands it out. Which calls produce, keep, fill and release blocks is computed
by summaries over the whole program."""
import own, scope
from ir import gep_parts, const_int
from own import const_addr
from paths import Explorer
from par import pmap

USER = ('mr_ptrdes_t.data', 'mr_ptr_t.ptr')    # places of the user's data
VALUES = 'mr_ptrdes_t.params'
NODES = 'mr_ra_ptrdes_t'
LISTS = (NODES, 'mr_save_data_t')


def sites(p, O):
    out = []
    for n, f in sorted(p.defined.items()):
        if scope.generated(f) or n in ('mr_calloc', 'mr_realloc', 'mr_free'):
            continue
        for i in f.instrs():
            if O.is_source(f, i):
                out.append(('v', n, i.id, None, None))
            elif i.op == 'alloca':
                for j, off in O.fills_of(f, i.v):
                    if j.op in ('call', 'invoke') and off is not None:
                        x = ('b', n, j.id, i.id, off)
                        if x not in out:
                            out.append(x)
    return out


def judge(p, F, O, ss):
    def one(s):
        k, n, i, a, off = s
        f = p.defined[n]
        if k == 'v':
            e = own.LeakEdge(p, f, F, O, f.ins[i])
            e.go()
            return [(j.id, how, tr, 'ok') for j, how, tr in e.lost], e.overflow, {'ok'}
        r, ov, done = [], False, set()
        for oc in ('ok', 'fail'):
            e = own.BoxEdge(p, f, F, O, f.ins[i], ('i', a), off, oc)
            if oc == 'fail' and (F.site(f, f.ins[i]) in (None, 'sret') or e.habit(f.ins[i]) not in ('keeps', 'mixed')):
                continue
            e.go()
            done.add(oc)
            r += [(j.id, how, tr, oc) for j, how, tr in e.lost]
            ov |= e.overflow
        return r, ov, done
    return pmap(one, ss)


def field(p, O, f, s):
    T = O.record(f, ('i', s[3]))
    x = O.fields_at(T, s[4]) if T else []
    return x[-1] if x else 'offset %d' % s[4]


def ftag(p, f, a):
    t = [p.field_name(x[1], x[2]) for x in gep_parts(f, a)[1] if x[0] == 'f']
    return t[-1] if t else None


def freed_fields(p, O):
    """field -> [(function, free)] for blocks released through the field that records them"""
    out = {}
    for n, f in p.defined.items():
        for i in f.calls():
            if O.alloc.kind(f, i) == 'free':
                for l in O.origins(f, i.args[3]):
                    if l[0] == 'i' and f.ins[l[1]].op == 'load':
                        out.setdefault(ftag(p, f, f.ins[l[1]].args[0]), []).append((n, i))
    return out


def nested(p, t):
    d, m = t.split('.', 1)
    return any(x[0] == m and x[5] and x[5] in p.ditypes and x[2] > 64 for x in p.ditypes.get(d, {'m': []})['m'])


def recorded_fields(p, O):
    """field -> [(function, instruction)] that record an allocated block in a record outliving the function or growing in place"""
    out = {}
    for n, f in sorted(p.defined.items()):
        for i in f.instrs():
            a = None
            if i.op == 'store' and i.raw['st'] == 'ptr' and O.is_fresh_value(f, i.args[0]):
                a = i.args[1]
            elif i.op == 'call' and any((0, 0) in O.fill.get(t, ()) and O.ftag[t, 0, 0] == {None} for t in O.tg(f, i)) and i.args:
                a = i.args[0]
            t = a and ftag(p, f, a)
            if t and t not in USER and not nested(p, t):
                out.setdefault(t, []).append((n, i))
    return out


def kind_load(p, f, v):
    while v[0] == 'i' and f.ins[v[1]].op in ('zext', 'sext', 'trunc'):
        v = f.ins[v[1]].args[0]
    return v[0] == 'i' and f.ins[v[1]].op == 'load' and (ftag(p, f, f.ins[v[1]].args[0]) or '').endswith('.value_type')


def cases(p, f, blk):
    """values of a node's kind of value under which a block runs, None when it is not decided by them"""
    out = None
    for d in f.dom.get(blk, ()):
        t = f.blocks[d][-1]
        if t.op == 'switch':
            e = [(int(v), s) for v, s in t.raw['cases']]
            x = t.args[0]
        elif t.op == 'br' and len(t.raw['s']) == 2 and t.args[0][0] == 'i' and f.ins[t.args[0][1]].op == 'icmp':
            j = f.ins[t.args[0][1]]
            k = const_int(j.args[1])
            if k is None or j.raw['p'] not in ('eq', 'ne'):
                continue
            e = [(k, t.raw['s'][0 if j.raw['p'] == 'eq' else 1])]
            x = j.args[0]
        else:
            continue
        if kind_load(p, f, x):
            got = {v for v, s in e if s == blk or s in f.dom.get(blk, ())}
            if got:
                out = got if out is None else out & got
    return out


def kinds_stored(p, f, i):
    """constants stored as kind of value along with the block stored by i"""
    out = set()
    for j in f.instrs():
        if j.op == 'store' and j.blk == i.blk and (ftag(p, f, j.args[1]) or '').endswith('.value_type'):
            k = const_int(j.args[0])
            if k is not None:
                out.add(k)
    return out or cases(p, f, i.blk)


def own_list(O, f, a):
    b, _ = const_addr(f, a)
    return O.is_alloca(f, b) and O.record(f, b) in LISTS


def callers_of(p, O, S):
    """S and everything that calls into it, directly or by passing the node list to a handler"""
    S = set(S)
    ch = True
    while ch:
        ch = False
        for n, f in p.defined.items():
            if n in S:
                continue
            for i in f.calls():
                t = f.callee(i)
                if any(own_list(O, f, a) for a in i.args):
                    continue            # judged here
                if t in S or not t and any(O.record(f, const_addr(f, a)[0]) in LISTS for a in i.args) and any(t in S for t in O.tg(f, i)):
                    S.add(n)
                    ch = True
                    break
    return S


class Deep(Explorer):
    """follows a node list of the function from a call that may record blocks in its nodes to the call that releases them"""
    cap = 16
    max_steps = 20000

    def __init__(self, p, f, F, O, site, box, rel, ok, tag):
        super().__init__(p, f, F.mods)
        self.O, self.F, self.site, self.box, self.rel, self.ok, self.tag = O, F, site, box, rel, ok, tag
        self.lost = []

    def cycle(self, h, b):
        """b is part of a loop with header h"""
        f = self.f
        seen, work = set(), [b]
        while work:
            for s in f.succs[work.pop()]:
                if s == h:
                    return h in f.dom.get(b, ())
                if s not in seen and h in f.dom.get(s, ()):
                    seen.add(s)
                    work.append(s)
        return False

    def go(self):
        def init(st):
            st.ts = 'before'
        self.start = init
        self.heads = self.loops()
        self.run()

    def on_edge(self, st, b, s):
        if s in self.heads and st.ts == 'held':
            st.ts = 'gone'

    def of_box(self, a):
        while True:
            a, _ = const_addr(self.f, a)
            if a == self.box:
                return True
            i = self.f.ins.get(a[1]) if a[0] == 'i' else None
            if i is None or i.op != 'load':
                return False
            a = i.args[0]

    def gone(self, i):
        if i is self.site:
            return False
        if self.O.alloc.kind(self.f, i) == 'free':
            return any(l[0] == 'i' and self.f.ins[l[1]].op == 'load' and ftag(self.prog, self.f, self.f.ins[l[1]].args[0]) == self.tag and self.of_box(l)
                       for l in self.O.origins(self.f, i.args[3]))
        return self.f.callee(i) in self.rel and any(self.of_box(a) for a in i.args)

    def loops(self):
        """headers of the loops whose body releases"""
        f = self.f
        out = set()
        for i in f.calls():
            if self.gone(i):
                for h in f.dom.get(i.blk, ()):
                    if self.cycle(h, i.blk) and not self.cycle(h, self.site.blk):
                        out.add(h)
        return out

    def on_call(self, st, i):
        if i is self.site and st.ts == 'before':
            st.ts = 'held'
            v = self.F.site(self.f, i)
            self.kill_call(st, i)
            if v is not None and v != 'sret' and i.ty != 'void' and self.ok:
                st.env[i.v] = ('=', 0) if v == 'nz' or v == 1 else ('=', 1) if v == -1 else ('!', frozenset((v,)))
            return [st]
        if st.ts == 'held' and self.gone(i):
            return []
        return None

    def on_ret(self, st, i, val):
        if st.ts == 'held':
            self.lost.append((i, st.trail))


def short(p, f, frees):
    """a counted loop over the nodes of a list that provably leaves out a node other than the first: text, or None"""
    for i in frees:
        for d in [i.blk] + list(f.dom.get(i.blk, ())):
            for j in f.blocks[d]:
                if j.op != 'phi' or len(j.args) != 2 or not j.ty.startswith('i'):
                    continue
                st = [f.ins[a[0][1]] for a in j.args if a[0][0] == 'i' and f.ins[a[0][1]].op in ('add', 'sub') and j.v in f.ins[a[0][1]].args]
                st = [x for x in st if x.args[0] == j.v and const_int(x.args[1]) is not None]
                first = [a[0] for a in j.args if not (a[0][0] == 'i' and f.ins[a[0][1]] in st)]
                if len(st) != 1 or len(first) != 1 or not used_as_index(p, f, j):
                    continue
                k = const_int(st[0].args[1]) * (1 if st[0].op == 'add' else -1)
                bits = int(j.ty[1:])
                if k >= 1 << (bits - 1):
                    k -= 1 << bits
                c0 = const_int(first[0])
                if abs(k) != 1:
                    return 'visits only every %dth node' % abs(k)
                if k == 1 and c0 is not None and c0 > 1:
                    return 'starts at node %d' % c0
                t = f.blocks[j.blk][-1]
                if k == -1 and t.op == 'br' and len(t.raw['s']) == 2 and t.args[0][0] == 'i' and f.ins[t.args[0][1]].op == 'icmp':
                    m = f.ins[t.args[0][1]]
                    n = const_int(m.args[1])
                    if m.args[0] == j.v and n is not None:
                        low = {'ugt': n + 1, 'sgt': n + 1, 'uge': n, 'sge': n, 'ne': n + 1}.get(m.raw['p'])
                        if low is not None and low > 1:
                            return 'ends at node %d' % low
    return None


def used_as_index(p, f, j):
    vs = {j.v}
    for u in f.uses.get(j.v, ()):
        if u.op in ('zext', 'sext'):
            vs.add(u.v)
    return any(u.op == 'getelementptr' and u.args[0] not in vs for v in vs for u in f.uses.get(v, ()))


def recorded(c, p, F, O):
    R = freed_fields(p, O)
    S = recorded_fields(p, O)
    for t, ss in sorted(S.items()):
        n, i = ss[0]
        c.ok('recorded-released')
        c.sample('%s: recorded by %s, released by %s' % (t, ', '.join(sorted({x for x, _ in ss})[:3]), ', '.join(sorted({x for x, _ in R.get(t, ())})[:3])))
        if t not in R:
            c.report(t, 'recorded-released', p.defined[n].where(i), 'a block is recorded in %s, which nothing releases' % t)
    c.require(VALUES in S and 'mr_ud_set_t.@0' in S, 'recorded blocks of nodes')
    # blocks recorded in nodes are released for every kind of value they are recorded with
    need = {}
    for n, i in S.get(VALUES, ()):
        f = p.defined[n]
        if i.op == 'store':
            for k in kinds_stored(p, f, i) or ():
                need.setdefault(k, f.where(i))
    have = set()
    for n, i in R.get(VALUES, ()):
        x = cases(p, p.defined[n], i.blk)
        have |= set(need) if x is None else x
    for k, at in sorted(need.items()):
        c.ok('recorded-released')
        if R.get(VALUES) and k not in have:
            c.report('value:%d' % k, 'recorded-released', at, 'a block is recorded in a node with a kind of value (%d) for which %s releases nothing' % (k, ', '.join(sorted({n for n, _ in R[VALUES]}))))
    # the releases visit every node
    for t in (VALUES, 'mr_ud_set_t.@0'):
        base = {n for n, _ in R.get(t, ())}
        for n in sorted(callers_of(p, O, base)):
            f = p.defined[n]
            fr = [i for m, i in R.get(t, ()) if m == n] + [i for i in f.calls() if f.callee(i) in base and any(O.record(f, const_addr(f, a)[0]) != NODES and f.callee(i) != n for a in i.args[:1])]
            c.ok('every-node')
            x = short(p, f, fr)
            if x:
                c.report('%s:%s' % (n, t), 'every-node', f.where(fr[0]), 'the loop over the nodes of the list %s, so the block another node records is lost' % x)


def drops(p, F, O, fill, rel, t, tag):
    """function t, given a node list, releases what it recorded before it fails"""
    f = p.defined.get(t)
    if f is None or t not in F.failing:
        return False
    rk = F.ret_kind(f)
    if not any(f.callee(i) in rel for i in f.calls()):
        return False
    for i in f.calls():
        if f.callee(i) in fill and f.callee(i) not in rel:
            e = Drop(p, f, F, O, i, rel, rk, tag)
            e.go()
            if e.lost or e.overflow:
                return False
    return True


class Drop(Deep):
    def __init__(self, p, f, F, O, site, rel, rk, tag):
        super().__init__(p, f, F, O, site, None, rel, False, tag)
        self.rk = rk

    def of_box(self, a):
        return const_addr(self.f, a)[0][0] == 'a'

    def on_ret(self, st, i, val):
        import fail
        a = self.abs(st, val) if val is not None else None
        if st.ts == 'held' and not (a and a[0] == '=' and self.rk is not None and not fail.fails_with(a[1], self.rk)):
            self.lost.append((i, st.trail))


def deep(p, F, O):
    R = freed_fields(p, O)
    S = recorded_fields(p, O)
    out = []
    for t in (VALUES, 'mr_ud_set_t.@0'):
        fill = callers_of(p, O, {n for n, _ in S.get(t, ())})
        rel = callers_of(p, O, {n for n, _ in R.get(t, ())})
        jobs = []
        for n, f in sorted(p.defined.items()):
            for i in f.calls():
                if f.callee(i) in fill:
                    for b in sorted({const_addr(f, a)[0] for a in i.args if own_list(O, f, a)}):
                        for ok in (True, False):
                            if ok or not drops(p, F, O, fill, rel, f.callee(i), t):
                                jobs.append((n, i.id, b, ok))

        def one(j):
            f = p.defined[j[0]]
            e = Deep(p, f, F, O, f.ins[j[1]], j[2], {x for x in rel if x != f.callee(f.ins[j[1]])}, j[3], t)
            e.go()
            return [(x.id, tr) for x, tr in e.lost], e.overflow
        out += [(t, j, r) for j, r in zip(jobs, pmap(one, jobs))]
    return out


def run(c):
    c.rule('block-owned', 'an allocated block is released, recorded for someone else or returned on every path')
    c.rule('recorded-released', 'every field that records an allocated block is released somewhere, for every kind of value it is recorded with')
    c.rule('every-node', 'the release of what nodes record visits every node')
    c.rule('values-released', 'a function that gives up a node list first releases what its nodes record')
    c.rule('holder-emptied', 'a block put into a field of a local record is released, handed over or returned on every path')
    p = c.prog('plain')
    F = c.fail('plain')
    O = own.Own(p, F)
    ss = sites(p, O)
    bad = {}
    funcs = set()
    for s, (lost, ov, _) in zip(ss, judge(p, F, O, ss)):
        f = p.defined[s[1]]
        i = f.ins[s[2]]
        c.require(not ov, 'a bounded number of paths from ' + f.where(i))
        c.ok('block-owned' if s[0] == 'v' else 'holder-emptied')
        funcs.add(scope.base(s[1]))
        c.sample('%s: followed to its release' % f.where(i))
        if lost:
            bad[s] = lost
    if bad:
        p2 = c.prog('inline')
        F2 = c.fail('inline')
        O2 = own.Own(p2, F2)
        at = {}
        for s in sites(p2, O2):
            i = p2.defined[s[1]].ins[s[2]]
            if i.loc:
                at.setdefault((s[0],) + tuple(i.loc[:2]), []).append(s)
        for s, lost in bad.items():
            f = p.defined[s[1]]
            i = f.ins[s[2]]
            again = at.get((s[0],) + tuple(i.loc[:2]), []) if i.loc else []
            if again:
                x = judge(p2, F2, O2, again)
                if not any(l or ov for l, ov, _ in x):
                    lost = [l for l in lost if not all(l[3] in d for _, _, d in x)]
            seen = set()
            for j, how, tr, _ in lost:
                k = (f.where(f.ins[j]), how)
                if k in seen:
                    continue
                seen.add(k)
                what = 'the block obtained at %s' % f.where(i)
                if s[0] == 'b':
                    what += ' (in %s of a local record)' % field(p, O, f, s)
                c.report('%s:%s:%s' % (scope.base(f.name), s[4], how), 'block-owned' if s[0] == 'v' else 'holder-emptied',
                         f.where(f.ins[j]), '%s %s' % (what, how), c.path_text(f, tr))
    recorded(c, p, F, O)
    values(c, p, F, O)
    c.floor('block-owned', 30)
    c.floor('holder-emptied', 35)
    c.floor('recorded-released', 10)
    c.floor('every-node', 2)
    c.floor('values-released', 6)
    for n in ('mr_save', 'mr_copy_recursively', 'mr_ud_add', 'mr_set_crossrefs', 'mr_json_save', 'xdr_load_pointer'):
        c.require(n in funcs, 'allocation in ' + n)


def values(c, p, F, O):
    bad = []
    for t, j, (lost, ov) in deep(p, F, O):
        f = p.defined[j[0]]
        c.require(not ov, 'a bounded number of paths from ' + f.where(f.ins[j[1]]))
        c.ok('values-released')
        if lost:
            bad.append((t, j, lost))
    if not bad:
        return
    p2 = c.prog('inline')
    F2 = c.fail('inline')
    again = {}
    for t, j, (lost, ov) in deep(p2, F2, own.Own(p2, F2)):
        again.setdefault((t, scope.base(j[0])), []).append(bool(lost or ov))
    for t, j, lost in bad:
        f = p.defined[j[0]]
        x = again.get((t, scope.base(j[0])))
        if x and not any(x):
            continue
        i = f.ins[j[1]]
        c.report('%s:%s:deep' % (j[0], t), 'values-released', f.where(f.ins[lost[0][0]]),
                 'blocks the call at %s may have recorded in %s of the nodes are not released when the list is given up' % (f.where(i), t), c.path_text(f, lost[0][1]))
