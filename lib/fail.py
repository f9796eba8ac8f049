"""Failure discipline: which calls can fail, and where the failing edge of each goes."""
import collections
from ir import Prog, T, gep_parts, const_int
import paths
from paths import Explorer, State, Contradiction
from par import pmap

CALLOC = 'ptr (ptr, ptr, i32, i64, i64)'
REALLOC = 'ptr (ptr, ptr, i32, ptr, i64)'
FREE = 'void (ptr, ptr, i32, ptr)'


class Alloc:
    """recognises calls through the configurable memory hooks"""

    def __init__(self, prog):
        self.prog = prog
        lay = prog.ditypes.get('mr_mem_t')
        self.conf = None

    def kind(self, f, i):
        """'calloc' | 'realloc' | 'free' for a call through mr_conf.mr_mem.*, else None"""
        c = i.raw.get('c')
        if not c:
            return None
        fty = i.raw.get('fty')
        if c[0] == 'i':
            ld = f.ins[c[1]]
            if ld.op != 'load':
                return None
            tag = None
            base, steps = gep_parts(f, ld.args[0])
            for s in steps:
                if s[0] == 'f':
                    tag = self.prog.field_name(s[1], s[2])
            if base[0] == 'g' and base[1] == 'mr_conf' and (tag is None or tag.startswith('mr_mem_t.')):
                return {CALLOC: 'calloc', REALLOC: 'realloc', FREE: 'free'}.get(fty)
        elif c[0] == 'F':
            # hook implementations called directly (caught by the hook-ownership rule) behave the same
            return {'mr_calloc': 'calloc', 'mr_realloc': 'realloc', 'mr_free': 'free'}.get(c[1])
        return None

    def is_alloc(self, f, i):
        return self.kind(f, i) in ('calloc', 'realloc')


EXT_FAIL = {
    # external functions whose failure the library must honour: failing value
    'xmlNewDoc': 0, 'xmlNewNode': 0, 'xmlParseMemory': 0, 'xmlGetProp': None, 'xmlSetProp': 0, 'xmlAddChild': 0,
    'xmlDocGetRootElement': 0,
    'yaml_emitter_initialize': 0, 'yaml_emitter_emit': 0, 'yaml_parser_initialize': 0, 'yaml_parser_parse': 0,
    'yaml_stream_start_event_initialize': 0, 'yaml_document_start_event_initialize': 0,
    'yaml_document_end_event_initialize': 0, 'yaml_stream_end_event_initialize': 0,
    'yaml_sequence_end_event_initialize': 0, 'yaml_mapping_end_event_initialize': 0,
    'yaml_scalar_event_initialize': 0, 'yaml_alias_event_initialize': 0,
    'yaml_sequence_start_event_initialize': 0, 'yaml_mapping_start_event_initialize': 0,
    'xdr_opaque': 0, 'xdr_int': 0, 'xdr_double': 0, 'xdr_float': 0, 'xdr_int32_t': 0, 'xdr_uint32_t': 0,
    'xdr_uint16_t': 0, 'xdr_int16_t': 0, 'xdr_u_int': 0,
}
EXT_FAIL = {k: v for k, v in EXT_FAIL.items() if v is not None}


# diagnostics: a message that cannot be formatted is dropped, by design
DIAG = {'mr_message', 'mr_message_format', 'mr_vasprintf'}


# growing a resizable array: on failure nothing the caller owns has changed
UNTOUCHED = {'mr_rarray_allocate_element', 'mr_rarray_append', 'mr_add_ptr_to_list'}


def is_parse(f):
    """a bison parser entry point: any non-zero result is a failure"""
    return f.name.startswith('mr_') and f.name.endswith('_parse') and f.rty == 'i32' and f.file.endswith('.tab.c')


def fails_with(r, rk):
    """does constant return r (None: unknown, ('!', set): excludes) mean failure of kind rk"""
    if rk in ('nz', 1):
        return (isinstance(r, int) and r != 0) or (isinstance(r, tuple) and r[0] == '!' and 0 in r[1])
    if rk == 'sret':
        rk = 0
    if rk == -1:
        return isinstance(r, int) and r < 0
    return isinstance(r, int) and r == rk


class Found(Exception):
    pass


class Fail:
    def __init__(self, prog, view_name):
        self.prog = prog
        self.alloc = Alloc(prog)
        self.mods = paths.ModInfo(prog, self.alloc.is_alloc)
        self.failing = {}       # function -> failing return value
        self.evidence = collections.defaultdict(list)
        self.cg = collections.defaultdict(set)
        self._cf = {}
        self._relay = {}
        # write callbacks handed to the YAML emitter: 0 is the failing result
        self.writers = set()
        for f in prog.defined.values():
            for i in f.calls():
                if f.callee(i) == 'yaml_emitter_set_output' and i.args[1][0] == 'F':
                    self.writers.add(i.args[1][1])

    def ret_kind(self, f):
        """what a failing return of f looks like: value or None when f cannot report failure"""
        dt = f.ditypes[0] if f.ditypes else ''
        if is_parse(f):
            return 'nz'
        if f.sret:
            return 'sret' if self.sret_offset(f) is not None else None
        if f.name in self.writers:
            return 0
        if dt == 'mr_status_t':
            return 1
        if dt == 'bool_t':
            return 0
        if f.rty == 'ptr':
            return 0
        if dt == 'mr_idx_t':
            return 0
        if dt == 'int' and f.rty == 'i32':
            return -1
        if dt in ('unsigned int', 'unsigned') and f.rty == 'i32' and f.local and self.returns_zero(f):
            return 0
        return None

    def returns_zero(self, f):
        """an index whose zero means that no element could be added"""
        for r in f.instrs():
            if r.op == 'ret' and r.args:
                v = r.args[0]
                vs = [v] if v[0] != 'i' or f.ins[v[1]].op != 'phi' else [a[0] for a in f.ins[v[1]].args]
                if any(const_int(x) == 0 for x in vs):
                    return True
        return False

    def sret_offset(self, f):
        """offset of the array pointer inside a resizable-array structure returned by value: NULL there is the failing result"""
        dt = f.ditypes[0] if f.ditypes else ''
        di = self.prog.ditypes.get(dt)
        if not di:
            return None
        for m in di['m']:
            if m[0] in ('ra', 'data'):
                return m[1] // 8 if m[1] >= 8 and False else m[1]
        return None

    def site(self, f, i, prelim=False):
        """failing value of call i in f, or None when the call cannot fail"""
        k = self.alloc.kind(f, i)
        if k in ('calloc', 'realloc'):
            return 0
        if k == 'free':
            return None
        vals = set()
        for t in self.prog.targets(f, i):
            if t in EXT_FAIL:
                vals.add(EXT_FAIL[t])
            elif t in self.failing:
                if i.ty == 'i32' and not prelim:
                    k = self.relay(t)
                    if k is not None and k < len(i.args) and i.args[k][0] == 'F' and i.args[k][1] in self.prog.defined and not self.can_fail(self.prog.defined[i.args[k][1]]):
                        continue
                vals.add(self.failing[t])
            elif prelim and t in self.prog.defined and self.prog.defined[t].ditypes and self.prog.defined[t].ditypes[0] == 'mr_status_t':
                if self.can_fail(self.prog.defined[t]):
                    vals.add(1)
        if len(vals) == 1:
            return vals.pop()
        return None

    def is_comparator(self, f):
        """an ordering callback: its int result is an order, never an error code"""
        d = f.ditypes
        return len(d) == 4 and d[0] == 'int' and d[1] == d[2] == 'mr_ptr_t'

    def can_fail(self, f):
        """a status function some return of which may be other than MR_SUCCESS"""
        if f.name not in self._cf:
            self._cf[f.name] = True
            rets = [i for i in f.instrs() if i.op == 'ret' and i.args]
            self._cf[f.name] = any(self.may_nz(f, r.args[0], set()) for r in rets)
        return self._cf[f.name]

    def may_nz(self, f, v, seen):
        c = const_int(v)
        if c is not None:
            return c != 0
        if v[0] != 'i':
            return v[0] != 'u'
        if v in seen:
            return False
        seen.add(v)
        i = f.ins[v[1]]
        if i.op == 'phi':
            return any(self.may_nz(f, a[0], seen) for a in i.args)
        if i.op == 'select':
            return any(self.may_nz(f, a, seen) for a in i.args[1:])
        if i.op == 'call':
            return self.site(f, i, True) is not None or not self.prog.targets(f, i)
        return True

    def relay(self, t):
        """status functions that fail only when the callback passed as parameter k does: k, else None"""
        if t not in self._relay:
            self._relay[t] = None
            f = self.prog.defined.get(t)
            if f is not None and f.ditypes and f.ditypes[0] == 'mr_status_t':
                ks = set()
                ok = True
                for i in f.calls():
                    c = T(i.raw.get('c'))
                    if c and c[0] == 'a' and i.ty == 'i32':
                        ks.add(c[1])
                    elif self.site(f, i) is not None:
                        ok = False
                if ok and len(ks) == 1:
                    ex = NoFail(self.prog, f, self.mods)
                    ex.run()
                    if not ex.bad and not ex.overflow:
                        self._relay[t] = ks.pop()
        return self._relay[t]

    def infer(self):
        """least fixpoint of 'this function reports a failure of something it calls'"""
        prog = self.prog
        for n, f in prog.defined.items():
            if n in self.writers:
                self.failing[n] = 0
            elif is_parse(f):
                self.failing[n] = 'nz'
            elif f.ditypes and f.ditypes[0] == 'mr_status_t':
                if self.can_fail(f):
                    self.failing[n] = 1
            elif f.ditypes and f.ditypes[0] == 'bool_t':
                self.failing[n] = 0
        for n, f in prog.defined.items():
            for i in f.calls():
                for t in prog.targets(f, i):
                    self.cg[t].add(n)
        reach = self.allocates()
        todo = {n for n, f in prog.defined.items() if n not in self.failing and self.ret_kind(f) is not None and not self.is_comparator(f) and n in reach}

        def one(n):
            f = prog.defined[n]
            rk = self.ret_kind(f)
            for i in f.calls():
                v = self.site(f, i)
                if v is None:
                    continue
                if not self.alloc.is_alloc(f, i) and not any(t in reach or t in EXT_FAIL for t in prog.targets(f, i)):
                    continue
                ex = FailEdge(prog, f, self.mods, i, v, self.sret_offset(f) if f.sret else None)
                ex.want = rk if rk != 'sret' else 0
                try:
                    ex.go()
                except Found:
                    return i.id
            return None
        todo0 = set(todo)
        while todo:
            work = sorted(todo)
            todo = set()
            for n, r in zip(work, pmap(one, work)):
                if r is not None:
                    f = prog.defined[n]
                    self.failing[n] = self.ret_kind(f)
                    self.evidence[n].append(f.ins[r])
                    todo |= self.cg[n]
            todo = {n for n in todo if n in todo0 and n not in self.failing}

    def allocates(self):
        """functions from which an allocation hook or fallible library call is reachable, diagnostics aside"""
        prog = self.prog
        r = set()
        for n, f in prog.defined.items():
            if n in DIAG:
                continue
            if any(self.alloc.is_alloc(f, i) or f.callee(i) in EXT_FAIL for i in f.calls()):
                r.add(n)
        work = list(r)
        while work:
            n = work.pop()
            for c in self.cg[n]:
                if c not in r and c not in DIAG and not self.is_comparator(prog.defined[c]):
                    r.add(c)
                    work.append(c)
        return r

    def explore(self, f, i, v):
        """[(constant return | None, ret instr, trail)] over all paths from call i when it yields v"""
        so = self.sret_offset(f) if f.sret else None
        ex = FailEdge(self.prog, f, self.mods, i, v, so)
        ex.go()
        rk = self.ret_kind(f)
        if rk is not None and all(fails_with(r, rk) for r, _, _ in ex.rets):
            return ex.rets
        # not convincing from the site alone: take the paths from the entry, which know more
        e2 = EntryEdge(self.prog, f, self.mods, i, v, so)
        e2.go()
        return ex.rets if e2.overflow else e2.rets


class FailEdge(Explorer):
    cap = 24
    max_steps = 20000
    want = None

    def __init__(self, prog, f, mods, site, val, sret_off=None):
        super().__init__(prog, f, mods)
        self.site = site
        self.val = val
        self.rets = []
        self._seen = set()
        self.sret_off = sret_off

    def go(self):
        f = self.f
        site = self.site
        pure = ('getelementptr', 'bitcast', 'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr')

        # straight-line prefix: every block on it is entered from the previous one only
        chain = [site.blk]
        while chain[0] != 0 and len(f.preds[chain[0]]) == 1 and f.preds[chain[0]][0] not in chain:
            chain.insert(0, f.preds[chain[0]][0])

        def init(st):
            # addresses computed on every path to the site
            for b in sorted(f.dom[site.blk], key=lambda b: len(f.dom[b])):
                if b in chain:
                    continue
                for i in f.blocks[b]:
                    if i.op in pure:
                        self.execute(st, i)
            for k, b in enumerate(chain):
                for i in f.blocks[b]:
                    if i is site:
                        return
                    if i.op == 'phi':
                        continue
                    if k + 1 < len(chain) and i is f.blocks[b][-1]:
                        for s, st2 in self.branch(st, i):
                            if s == chain[k + 1]:
                                st.env, st.can, st.mem = st2.env, st2.can, st2.mem
                                break
                    elif i.op not in ('br', 'switch'):
                        self.execute(st, i)
        self.started = False
        self.run(entry=site.blk, first=site.idx, init=init)

    def on_call(self, st, i):
        if i is self.site and not self.started:
            self.started = True
            if self.val == 'sret':
                self.kill_call(st, i)
                d = self.canon(st, i.args[0])
                off = None
                for t in self.prog.targets(self.f, i):
                    g = self.prog.defined.get(t)
                    di = g and self.prog.ditypes.get(g.ditypes[0])
                    for m in (di['m'] if di else ()):
                        if m[0] in ('ra', 'data') and off is None:
                            off = m[1]
                a = self.offset_addr(d, off or 0)
                self.kill_store(st, a, 8, 'ptr')
                st.mem[(a, 8, 'ptr')] = ('n',)
                return [st]
            if self.val != 'nz' and self.val < 0:
                st.env[i.v] = ('=', self.val)
            elif self.val == 'nz':
                st.env[i.v] = ('!', frozenset((0,)))
            else:
                st.env[i.v] = ('=', self.val)
            if not self.untouched(i):
                self.kill_call(st, i)
            return [st]
        if i is self.site:
            # a later execution of the same site (loop): independent outcome, stop following
            return None
        return None

    def untouched(self, i):
        """the failing callee leaves the caller's memory as it was: growing a resizable array"""
        return self.f.callee(i) in UNTOUCHED

    def on_ret(self, st, i, val):
        if self.sret_off is not None:
            # the structure returned by value: its array pointer
            o = self.sret_off
            ad = ('gep', ('a', 0), o, (), None) if o else ('a', 0)
            a = None
            for k, w in st.mem.items():
                if k[0] == 'zero':
                    if self.addr_root(k[1]) == ('a', 0):
                        ko = k[1][2] if k[1][0] == 'gep' else 0
                        if ko <= o and o + 8 <= ko + k[2]:
                            a = ('=', 0)
                elif self.addr_root(k[0]) == ('a', 0) and (k[0][2] if k[0][0] == 'gep' else 0) == o and k[1] == 8:
                    a = self.abs(st, w)
        else:
            a = self.abs(st, val) if val is not None else None
        r = a[1] if a and a[0] == '=' else None
        if a and a[0] == '!':
            r = a
        if self.want is not None and fails_with(r, self.want):
            raise Found()
        if (r, i.id) not in self._seen:
            self._seen.add((r, i.id))
            self.rets.append((r, i, st.trail))


class EntryEdge(FailEdge):
    """the same question with the paths followed from the function entry; only those on which the site failed count"""
    cap = 40
    max_steps = 60000

    def go(self):
        self.started = True
        self.run()

    def on_call(self, st, i):
        if i is self.site and st.ts is None:
            s2 = st.copy()
            s2.ts = 'failed'
            self.started = False
            super().on_call(s2, i)
            self.started = True
            self.kill_call(st, i)
            if self.val not in ('nz', 'sret') and self.val != 1:
                pass
            return [s2, st]
        return None

    def on_ret(self, st, i, val):
        if st.ts == 'failed':
            super().on_ret(st, i, val)


class NoFail(Explorer):
    """every callback succeeds: can the function still fail?"""
    cap = 24
    max_steps = 20000
    bad = False

    def after_call(self, st, i):
        c = i.raw.get('c')
        if c and c[0] == 'a' and i.ty == 'i32':
            st.env[i.v] = ('=', 0)

    def on_ret(self, st, i, val):
        a = self.abs(st, val)
        if not (a and a == ('=', 0)):
            self.bad = True
