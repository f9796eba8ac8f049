"""Path-sensitive typestate of everything the library opens in another library: from every call that acquires (a parser, an
emitter, an event, a document, a node, a property text, a scanner, a variadic argument list) all paths on which it succeeded are
followed; the object must be released exactly once, or handed over, before the function returns or acquires into the same place
again, and it is not used or released after its release. Helpers are followed through summaries (a helper that releases its
parameter on every path counts as the release)."""
import scope
from fail import FailEdge
from paths import Explorer
from par import pmap

# call -> (kind, which, success, releases)
#   kind 'arg': the object is argument `which`; 'val': the object is the result; 'cell': the object is stored where argument `which` points
#   success: 'nz' result non-zero, 0 result zero, None always
YEV = {'yaml_event_delete': 0, 'yaml_emitter_emit': 1}
SPEC = {
    'yaml_parser_initialize': ('arg', 0, 'nz', {'yaml_parser_delete': 0}),
    'yaml_emitter_initialize': ('arg', 0, 'nz', {'yaml_emitter_delete': 0}),
    'yaml_document_initialize': ('arg', 0, 'nz', {'yaml_document_delete': 0, 'yaml_emitter_dump': 1}),
    'yaml_parser_load': ('arg', 1, 'nz', {'yaml_document_delete': 0}),
    'yaml_parser_parse': ('arg', 1, 'nz', {'yaml_event_delete': 0}),
    'yaml_parser_scan': ('arg', 1, 'nz', {'yaml_token_delete': 0}),
    'xmlNewDoc': ('val', None, 'nz', {'xmlFreeDoc': 0}),
    'xmlParseMemory': ('val', None, 'nz', {'xmlFreeDoc': 0}),
    'xmlReadMemory': ('val', None, 'nz', {'xmlFreeDoc': 0}),
    'xmlParseDoc': ('val', None, 'nz', {'xmlFreeDoc': 0}),
    'xmlNewNode': ('val', None, 'nz', {'xmlFreeNode': 0, 'xmlAddChild': 1, 'xmlDocSetRootElement': 1}),
    'xmlGetProp': ('val', None, 'nz', {'xmlFree': 0}),
    'xmlNodeGetContent': ('val', None, 'nz', {'xmlFree': 0}),
    'xmlDocDumpFormatMemory': ('cell', 1, None, {'xmlFree': 0}),
    'xmlDocDumpMemory': ('cell', 1, None, {'xmlFree': 0}),
    'backtrace_symbols': ('val', None, 'nz', {'free': 0}),
    'llvm.va_start': ('arg', 0, None, {'llvm.va_end': 0}),
    'llvm.va_copy': ('arg', 0, None, {'llvm.va_end': 0}),
    'fopen': ('val', None, 'nz', {'fclose': 0}),
    'dlopen': ('val', None, 'nz', {'dlclose': 0}),
}
for s in ('document_start', 'document_end', 'stream_start', 'stream_end', 'alias', 'scalar', 'sequence_start', 'sequence_end',
          'mapping_start', 'mapping_end'):
    SPEC['yaml_%s_event_initialize' % s] = ('arg', 0, 'nz', YEV)
# releases that only move ownership when they succeed: (result that means "not taken")
ON_FAIL = {'xmlAddChild': 0}


def spec(n):
    if n is None:
        return None
    b = scope.base(n)
    if b in SPEC:
        return SPEC[b]
    if b.endswith('lex_init') or b.endswith('lex_init_extra'):
        k = 1 if b.endswith('extra') else 0
        return ('cell', k, 0, {b[:b.index('lex_init')] + 'lex_destroy': 0})
    return None


def callee_name(f, i):
    n = f.callee(i)
    if n:
        return scope.base(n) if not n.startswith('llvm.') else '.'.join(n.split('.')[:2])
    c = i.raw.get('c')
    if c and c[0] == 'i':
        l = f.ins[c[1]]
        if l.op == 'load' and l.args[0][0] == 'g':
            return l.args[0][1]
    return None


TOKEN = ('i', -7)


class PairEdge(FailEdge):
    cap = 24
    max_steps = 15000

    def __init__(self, prog, f, mods, site, sp, cons):
        super().__init__(prog, f, mods, site, 0)
        self.kind, self.which, self.succ, self.rel = sp
        self.cons = cons            # summaries: (function, frozenset(release items)) -> params released on every path
        self.began = False
        self.lost = []
        self._k = set()
        self.obj = None

    def keep(self, st):
        return tuple(x for x in (self.obj, self.site.v if self.kind == 'val' else None, TOKEN if self.kind == 'cell' else None) if x)

    def lose(self, st, i, how):
        if (i.id, how) not in self._k:
            self._k.add((i.id, how))
            self.lost.append((i, how, st.trail))

    def is_obj(self, st, a):
        v = self.canon(st, a)
        if self.kind == 'val':
            return v == self.site.v
        if self.kind == 'arg':
            return v == self.obj or (v[0] == 'gep' and self.obj[0] == 'gep' and v[1:4] == self.obj[1:4])
        if v == TOKEN:
            return True
        if a[0] == 'i' and self.f.ins[a[1]].op == 'load':
            return self.canon(st, self.f.ins[a[1]].args[0]) == self.obj
        return False

    def on_call(self, st, i):
        n = callee_name(self.f, i)
        if i is self.site and not self.began:
            self.began = True
            if self.kind == 'val':
                self.obj = i.v
            else:
                self.obj = self.canon(st, i.args[self.which])
            if not n.startswith('llvm.'):
                self.kill_call(st, i)
            if self.succ == 'nz':
                st.env[i.v] = ('!', frozenset((0,)))
            elif self.succ == 0:
                st.env[i.v] = ('=', 0)
            if self.kind == 'cell':
                self.kill_store(st, self.obj, 8, 'ptr')
                st.mem[(self.obj, 8, 'ptr')] = TOKEN
                st.env[TOKEN] = ('!', frozenset((0,)))
            st.ts = 'held'
            return [st]
        if st.ts is None:
            return []
        if i is self.site or (spec(n) and spec(n)[0] in ('arg', 'cell') and self.kind != 'val' and self.canon(st, i.args[spec(n)[1]]) == self.obj):
            if st.ts == 'held':
                self.lose(st, i, 'is still open when %s is called again' % n)
            return []
        if n in self.rel and len(i.args) > self.rel[n] and self.is_obj(st, i.args[self.rel[n]]):
            if st.ts == 'gone':
                self.lose(st, i, 'is released a second time')
                return []
            out = []
            if n in ON_FAIL:
                s2 = st.copy()
                self.kill_call(s2, i)
                s2.env[i.v] = ('=', ON_FAIL[n])
                out.append(s2)
                self.kill_call(st, i)
                st.env[i.v] = ('!', frozenset((ON_FAIL[n],)))
                st.ts = None            # belongs to the other object now
                return out
            self.kill_call(st, i)
            st.ts = 'gone'
            return [st]
        hit = [k for k, a in enumerate(i.args) if self.is_obj(st, a)]
        if hit:
            ts = [t for t in self.prog.targets(self.f, i) if t in self.prog.defined]
            if st.ts == 'gone' and not (self.kind == 'arg' and (spec(n) or n.startswith('llvm.memset'))):
                self.lose(st, i, 'is used after its release')
                return []
            for t in ts:
                if hit[0] in self.cons(t, self.rel):
                    self.kill_call(st, i)
                    st.ts = 'gone'
                    return [st]
        return None

    def on_instr(self, st, i):
        if self.began and st.ts is None:
            return []
        if self.began and i.op == 'store' and self.kind == 'val' and st.ts == 'held' and self.canon(st, i.args[0]) == self.site.v:
            r = self.addr_root(self.canon(st, i.args[1]))
            if not self.is_alloca(r) or r[1] in self.esc:
                st.ts = None
                return []
        return None

    def on_ret(self, st, i, val):
        if st.ts != 'held':
            return
        if self.kind == 'cell' and val == TOKEN:
            return
        if self.kind == 'val':
            if val is not None and val == self.site.v:
                return
            if self.abs(st, self.site.v) == ('=', 0):
                return
        elif not self.is_alloca(self.addr_root(self.obj)):
            return      # opened on behalf of the caller: judged at the call of this function
        self.lose(st, i, 'is not released on this path')


class Releases(Explorer):
    """is parameter k released on every path?"""
    cap = 16
    max_steps = 4000

    def __init__(self, prog, f, mods, k, rel, cons):
        super().__init__(prog, f, mods)
        self.k, self.rel, self.cons = k, rel, cons
        self.leak = False

    def on_call(self, st, i):
        n = callee_name(self.f, i)
        if n in self.rel and len(i.args) > self.rel[n] and self.canon(st, i.args[self.rel[n]]) == ('a', self.k):
            return []
        for t in self.prog.targets(self.f, i):
            if t in self.prog.defined:
                for k, a in enumerate(i.args):
                    if self.canon(st, a) == ('a', self.k) and k in self.cons(t, self.rel):
                        return []
        return None

    def on_ret(self, st, i, val):
        self.leak = True


class Cons:
    def __init__(self, p, mods):
        self.p, self.mods, self.memo = p, mods, {}

    def __call__(self, t, rel):
        key = (t, tuple(sorted(rel.items())))
        if key not in self.memo:
            self.memo[key] = ()
            f = self.p.defined[t]
            r = []
            for k in range(f.nargs):
                if f.raw['aty'][k] == 'ptr' and f.uses.get(('a', k)):
                    e = Releases(self.p, f, self.mods, k, rel, self)
                    e.run()
                    if not e.leak and not e.overflow:
                        r.append(k)
            self.memo[key] = tuple(r)
        return self.memo[key]


class Opens(Explorer):
    """does a helper leave parameter k open when it returns successfully?  (acquires into it and does not release)"""
    pass


def openers(p, mods, cons):
    """library functions that open an object in a parameter: they act as acquirers for their callers"""
    return {}


def sites(p):
    for n, f in p.defined.items():
        if scope.generated(f):
            continue
        for i in f.calls():
            sp = spec(callee_name(f, i))
            if sp:
                yield n, i, sp


def judge(p, mods, cons, ss):
    def one(s):
        n, k = s
        f = p.defined[n]
        e = PairEdge(p, f, mods, f.ins[k], spec(callee_name(f, f.ins[k])), cons)
        e.go()
        return [(i.id, how, tr) for i, how, tr in e.lost]
    return pmap(one, ss)


def run(c):
    c.rule('released-once', 'an object opened in another library is released exactly once, or handed over, on every path')
    p = c.prog('plain')
    F = c.fail('plain')
    cons = Cons(p, F.mods)
    ss = [(n, i.id) for n, i, sp in sites(p)]
    kinds = set()
    bad = {}
    for s, lost in zip(ss, judge(p, F.mods, cons, ss)):
        f = p.defined[s[0]]
        i = f.ins[s[1]]
        nm = callee_name(f, i)
        kinds.add(nm)
        c.ok('released-once')
        c.sample('%s: %s followed to its release' % (i.where(), nm))
        if lost:
            bad[s] = lost
    if bad:
        p2 = c.prog('inline')
        F2 = c.fail('inline')
        c2 = Cons(p2, F2.mods)
        at = {}
        for n, i, sp in sites(p2):
            if i.loc:
                at.setdefault(tuple(i.loc[:2]), []).append((n, i.id))
        for s, lost in bad.items():
            f = p.defined[s[0]]
            i = f.ins[s[1]]
            again = at.get(tuple(i.loc[:2]) if i.loc else None, [])
            if again and not any(judge(p2, F2.mods, c2, again)):
                continue
            for j, how, tr in lost:
                c.report('%s:%s:%s' % (scope.base(f.name), callee_name(f, i), how), 'released-once', f.ins[j].where(),
                         'what %s opened (%s) %s' % (callee_name(f, i), i.where(), how), c.path_text(f, tr))
    c.floor('released-once', 25)
    for need in ('yaml_parser_initialize', 'yaml_emitter_initialize', 'yaml_parser_parse', 'xmlNewDoc', 'xmlGetProp', 'xmlParseMemory', 'llvm.va_start'):
        c.require(need in kinds, 'a call of ' + need)
