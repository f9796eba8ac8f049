"""Interprocedural tracking of pointers that come straight from the data field of a node (text of a declared size lives there, without a
guarantee of a terminator): every library call, helper and hand-written loop that reads text through such a pointer is classified by
how it finds the end. Readers that stop only at a terminator are rejected unless the recorded size is known to be zero on that path;
readers with a limit must take the limit from the recorded size of the same node (or of its type), shown by linear arithmetic."""
import collections
import lin, scope
from ir import gep_parts, leaves, const_int
from lin import add, C
from p_bounds import Part, cname
from p_state import kind, origins
from par import pmap

DATA = 'mr_ptrdes_t.data'
SIZES = {'mr_ptrdes_t.mr_size', 'mr_stype_t.size', 'mr_td_t.size', 'mr_enum_param_t.size_effective'}
# functions of the C library that stop at a terminator: text arguments
UNBOUNDED = {'strlen': (0,), 'strcmp': (0, 1), 'strcasecmp': (0, 1), 'strcpy': (1,), 'stpcpy': (1,), 'strcat': (0, 1), 'strdup': (0,), '__strdup': (0,), 'strchr': (0,),
             'strrchr': (0,), 'strstr': (0, 1), 'strpbrk': (0, 1), 'strspn': (0, 1), 'strcspn': (0, 1), 'strtok': (0,), 'atoi': (0,), 'atol': (0,),
             'atoll': (0,), 'atof': (0,), 'strtol': (0,), 'strtoul': (0,), 'strtoll': (0,), 'strtoull': (0,), 'strtod': (0,), 'strtold': (0,),
             'strtof': (0,), 'strcoll': (0, 1), 'puts': (0,), 'fputs': (0,), 'rawmemchr': (0,), 'sscanf': (0,), '__isoc99_sscanf': (0,), '__isoc23_sscanf': (0,),
             'xmlStrdup': (0,), 'xmlNewText': (0,), 'dlsym': (1,), 'regexec': (1,), 'strsep': (0,)}
# functions with a limit: (text arguments, argument that is the limit)
BOUNDED = {'strnlen': ((0,), 1), 'strncpy': ((1,), 2), 'strncmp': ((0, 1), 2), 'strncasecmp': ((0, 1), 2), 'memcmp': ((0, 1), 2), 'bcmp': ((0, 1), 2),
           'memchr': ((0,), 2), 'strndup': ((0,), 1), 'strncat': ((1,), 2), 'memcpy': ((1,), 2), 'memmove': ((1,), 2), 'stpncpy': ((1,), 2), 'fwrite': ((0,), None)}
FORMATTED = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'mr_ra_printf': 1, 'asprintf': 1, 'dprintf': 1}
COMPAR = 'types_compar_fn'


class Raw:
    """values that point straight at the bytes of a node"""

    def __init__(self, p):
        self.p = p
        self.v = {n: set() for n in p.defined}
        self.cells = {n: set() for n in p.defined}
        tab = [g for g in p.find_global(COMPAR)]
        self.compar = set()
        for g in tab:
            for o, x in p.ginit(g).items():
                if x[1][0] == 'F' and x[1][1] in p.defined:
                    self.compar.add(x[1][1])
        for n in self.compar:
            self.v[n] |= {('a', 0), ('a', 1)}
        ch = True
        while ch:
            ch = False
            for n, f in p.defined.items():
                if scope.generated(f):
                    continue
                ch |= self.step(n, f)

    def is_raw(self, n, o):
        return any(l in self.v[n] for l in leaves(o))

    def step(self, n, f):
        v = self.v[n]
        k0 = len(v) + len(self.cells[n])
        ch = False
        for i in f.instrs():
            if i.op == 'load' and i.ty == 'ptr' and i.v not in v:
                for b, t in origins(f, i.args[0]):
                    if t and t[-1] == DATA or cell(f, b, t) in self.cells[n]:
                        v.add(i.v)
            elif i.op in ('getelementptr', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint'):
                if self.is_raw(n, i.args[0]):
                    v.add(i.v)
            elif i.op == 'phi':
                if i.ty == 'ptr' and any(self.is_raw(n, a[0]) for a in i.args):
                    v.add(i.v)
            elif i.op == 'select':
                if i.ty == 'ptr' and any(self.is_raw(n, a) for a in i.args[1:]):
                    v.add(i.v)
            elif i.op == 'store':
                if i.raw['st'] == 'ptr' and self.is_raw(n, i.args[0]):
                    for b, t in origins(f, i.args[1]):
                        if b[0] == 'i' and f.ins[b[1]].op == 'alloca' and DATA not in t:
                            self.cells[n].add(cell(f, b, t))
            elif i.op in ('call', 'invoke'):
                for x in self.p.targets(f, i):
                    if x not in self.p.defined or known_empty(f, i):
                        continue
                    for k, a in enumerate(i.args):
                        if k < self.p.defined[x].nargs and ('a', k) not in self.v[x] and a[0] in 'iae' and self.is_raw(n, a):
                            self.v[x].add(('a', k))
                            ch = True
        return ch or len(v) + len(self.cells[n]) != k0


def cell(f, b, t):
    if b[0] == 'i' and 'mr_ptr_t' in str(f.ins[b[1]].raw.get('at', '')):
        return (b, ())                    # a union of pointers
    return (b, tuple(t))


def size_loads(f, v, seen=None):
    """leaves of a size value; None when something else than recorded sizes and zero flows in"""
    seen = seen if seen is not None else set()
    out = []
    for l in leaves(v):
        if l[0] == 'c':
            if const_int(l) != 0:
                return None
            continue
        if l in seen:
            continue
        seen.add(l)
        if l[0] != 'i':
            return None
        i = f.ins[l[1]]
        if i.op in lin.CASTS:
            r = size_loads(f, i.args[0], seen)
        elif i.op == 'phi':
            r = []
            for a in i.args:
                x = size_loads(f, a[0], seen)
                if x is None:
                    return None
                r += x
        elif i.op == 'select':
            r = []
            for a in i.args[1:]:
                x = size_loads(f, a, seen)
                if x is None:
                    return None
                r += x
        elif i.op == 'load':
            t = [f.prog.field_name(s[1], s[2]) for s in gep_parts(f, i.args[0])[1] if s[0] == 'f']
            if not t or t[-1] not in SIZES:
                return None
            r = [i]
        else:
            return None
        if r is None:
            return None
        out += r
    return out


def known_empty(f, i):
    """the size recorded for the text is zero wherever control reaches this instruction: it is not a text of a declared size"""
    for b in f.dom.get(i.blk, ()):
        t = f.blocks[b][-1]
        if t.op != 'br' or len(f.succs[b]) < 2 or t.args[0][0] != 'i':
            continue
        c = f.ins[t.args[0][1]]
        if c.op != 'icmp' or c.raw.get('p') not in ('eq', 'ne'):
            continue
        x, y = c.args
        if x[0] == 'c':
            x, y = y, x
        if y[0] != 'c' or const_int(y) != 0:
            continue
        if not size_loads(f, x):
            continue
        s = f.succs[b][0 if c.raw['p'] == 'eq' else 1]
        if s in f.dom.get(i.blk, ()) and f.preds[s] == [b]:
            return True
    return False


def node_of(f, L, addr, last):
    """canonical name of the node a field address belongs to"""
    k = L.addrkey(addr)
    if k[0] != 'A':
        return None
    t = list(k[2])
    while t and t[-1] != last:
        t.pop()
    return (k[1], tuple(t[:-1])) if t else None


def data_nodes(f, L, v, seen=None):
    """nodes whose data field a raw pointer was loaded from; None among them when unknown"""
    seen = seen if seen is not None else set()
    out = set()
    for l in leaves(v):
        if l in seen:
            continue
        seen.add(l)
        if l[0] == 'a':
            out.add(None)
            continue
        if l[0] != 'i':
            continue
        i = f.ins[l[1]]
        if i.op == 'load':
            b, st = gep_parts(f, i.args[0])
            t = [f.prog.field_name(s[1], s[2]) for s in st if s[0] == 'f']
            out.add(node_of(f, L, i.args[0], DATA) if t and t[-1] == DATA else None)
        elif i.op == 'phi':
            for a in i.args:
                out |= data_nodes(f, L, a[0], seen)
        elif i.op == 'select':
            for a in i.args[1:]:
                out |= data_nodes(f, L, a, seen)
        elif i.op in ('getelementptr', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint'):
            out |= data_nodes(f, L, i.args[0], seen)
        else:
            out.add(None)
    return out


def size_nodes(f, L, i):
    """the node a recorded size belongs to, None when it is reached another way (a type or field descriptor given separately)"""
    a = i.args[0]
    for d in range(6):
        k = L.addrkey(a)
        if k[0] == 'A' and isinstance(k[2][-1], str):
            for j in range(len(k[2]) - 1, -1, -1):
                if isinstance(k[2][j], str) and k[2][j].startswith('mr_ptrdes_t.'):
                    return (k[1], tuple(k[2][:j]))
        b, st = gep_parts(f, a)
        if b[0] == 'i' and f.ins[b[1]].op == 'load':
            a = f.ins[b[1]].args[0]
            continue
        return None
    return None


class Limits:
    def __init__(self, p, raw):
        self.p = p
        self.raw = raw
        self.need = {}           # function -> {(text param, size param)}: callers supply a limit

    def ok(self, n, f, L, blk, length, texts, depth=0):
        """None, or why the limit is not the declared size of the text"""
        nodes = set()
        for t in texts:
            nodes |= data_nodes(f, L, t)
        r = self.leafwise(n, f, L, length, nodes)
        if r is None:
            return None
        # not more than the recorded size, shown by arithmetic
        want = L.lin(length)
        for i in f.instrs():
            if i.op == 'load' and i.ty in ('i32', 'i64') and f.dominates(i, f.blocks[blk][-1]):
                t = [f.prog.field_name(s[1], s[2]) for s in gep_parts(f, i.args[0])[1] if s[0] == 'f']
                if t and t[-1] in SIZES and self.same(nodes, size_nodes(f, L, i)):
                    if L.prove(add(L.lin(i.v), want, -1), blk):
                        return None
        return r

    def same(self, nodes, s):
        return s is None or None in nodes or s in nodes

    def leafwise(self, n, f, L, v, nodes, seen=None):
        seen = seen if seen is not None else set()
        for l in leaves(v):
            if l in seen:
                continue
            seen.add(l)
            if l[0] == 'c':
                if const_int(l) not in (0,):
                    return 'the limit is the constant %s' % l[1]
                continue
            if l[0] == 'a':
                continue                      # obligation of the callers
            if l[0] != 'i':
                return 'the limit is not a recorded size'
            i = f.ins[l[1]]
            if i.op in lin.CASTS:
                r = self.leafwise(n, f, L, i.args[0], nodes, seen)
            elif i.op == 'phi':
                r = None
                for a in i.args:
                    r = r or self.leafwise(n, f, L, a[0], nodes, seen)
            elif i.op == 'select':
                r = None
                for a in i.args[1:]:
                    r = r or self.leafwise(n, f, L, a, nodes, seen)
            elif i.op in ('call', 'invoke') and cname(f, i) == 'strnlen':
                r = self.leafwise(n, f, L, i.args[1], nodes, seen)
            elif i.op == 'load':
                b, st = gep_parts(f, i.args[0])
                t = [f.prog.field_name(s[1], s[2]) for s in st if s[0] == 'f']
                if t and t[-1] in SIZES:
                    if not self.same(nodes, size_nodes(f, L, i)):
                        return 'the limit is the size of another node'
                    r = None
                elif n in self.raw.compar and self.context(f, i):
                    r = None
                else:
                    return 'the limit is not a recorded size'
            else:
                return 'the limit is computed, not a recorded size'
            if r:
                return r
        return None

    def context(self, f, i):
        """the size a sort passes to its comparator"""
        b, st = gep_parts(f, i.args[0])
        return b == ('a', 2) and not [s for s in st if s[0] == 'f']


def text_loops(f, raw):
    """loads of single characters through raw pointers that decide whether a loop goes on"""
    for i in f.instrs():
        if i.op != 'load' or i.ty != 'i8':
            continue
        if not any(l in raw for l in leaves(i.args[0])):
            continue
        b, st = gep_parts(f, i.args[0])
        for h, body in loops(f).items():
            if i.blk not in body:
                continue
            if not varies(f, i.args[0], h, body):
                continue
            if decides(f, i, body):
                yield i, h, body
                break


_loops = {}


def loops(f):
    if f not in _loops:
        r = {}
        for b in range(len(f.blocks)):
            for s in f.succs[b]:
                if s in f.dom.get(b, ()):
                    body = r.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += f.preds[x]
        _loops[f] = r
    return _loops[f]


def varies(f, v, h, body, depth=0):
    if depth > 8:
        return False
    for l in leaves(v):
        if l[0] != 'i':
            continue
        i = f.ins[l[1]]
        if i.blk not in body:
            continue
        if i.op == 'phi':
            return True
        if i.op in lin.CASTS or i.op in ('getelementptr', 'add', 'sub', 'mul', 'shl'):
            if any(varies(f, a, h, body, depth + 1) for a in i.args if isinstance(a, tuple) and a and a[0] == 'i'):
                return True
        if i.op == 'getelementptr':
            for s in gep_parts(f, l)[1]:
                if s[0] == 'x' and varies(f, s[1], h, body, depth + 1):
                    return True
            if varies(f, gep_parts(f, l)[0], h, body, depth + 1):
                return True
    return False


def decides(f, i, body):
    seen, st = set(), [i.v]
    while st:
        v = st.pop()
        if v in seen:
            continue
        seen.add(v)
        for u in f.uses.get(v, ()):
            if u.blk not in body:
                continue
            if u.op in ('br', 'switch'):
                return True
            elif u.op in lin.CASTS or u.op in ('icmp', 'phi', 'select', 'and', 'or', 'xor', 'sub'):
                st.append(u.v)
    return False


def string_params(p):
    """parameters of library functions that are read up to a terminator"""
    S = {}
    ch = True
    while ch:
        ch = False
        for n, f in p.defined.items():
            if scope.generated(f):
                continue
            for i in f.calls():
                ks = set(UNBOUNDED.get(cname(f, i) or '', ()))
                for t in p.targets(f, i):
                    ks |= S.get(t, set())
                if ks and known_empty(f, i):
                    continue
                for k in ks:
                    if k < len(i.args):
                        for b, t in origins(f, i.args[k]):
                            if b[0] == 'a' and not t and b[1] not in S.setdefault(n, set()):
                                S[n].add(b[1])
                                ch = True
    return S


def percent(fmt):
    """conversion letters of a format, with the precision"""
    out, i = [], 0
    while i < len(fmt):
        if fmt[i] == '%':
            j = i + 1
            prec = None
            while j < len(fmt) and fmt[j] in '-+ #0123456789.*hlLqjzt':
                if fmt[j] == '*':
                    out.append(('*', None))
                if fmt[j] == '.':
                    prec = fmt[j + 1:j + 2]
                j += 1
            if j < len(fmt) and fmt[j] != '%':
                out.append((fmt[j], prec))
            i = j
        i += 1
    return out


def judge(p, view):
    raw = Raw(p)
    lim = Limits(p, raw)
    S = string_params(p)
    names = [n for n, f in sorted(p.defined.items()) if raw.v[n] and not scope.generated(f)]

    def one(n):
        r = Part()
        f = p.defined[n]
        L = lin.Lin(p, f)
        for i in f.calls():
            t = cname(f, i)
            ks = set(UNBOUNDED.get(t or '', ()))
            who = t
            for x in p.targets(f, i):
                if S.get(x):
                    ks |= S[x]
                    who = scope.base(x)
            if t in FORMATTED and len(i.args) > FORMATTED[t]:
                s = p.cstr(i.args[FORMATTED[t]])
                if s is not None:
                    for k, (cv, pr) in enumerate(percent(s.decode('latin1') if isinstance(s, bytes) else s)):
                        if cv == 's' and pr is None:
                            ks.add(FORMATTED[t] + 1 + k)
            for k in sorted(ks):
                if k < len(i.args) and raw.is_raw(n, i.args[k]):
                    r.ok('reads-to-terminator', at=f.where(i))
                    if not known_empty(f, i):
                        r.report('%s:%s' % (scope.base(n), who), 'reads-to-terminator', f.where(i),
                                 '%s reads text straight from a node up to a terminator; a text that fills its array has none' % who)
            if t in BOUNDED:
                ts, k = BOUNDED[t]
                ts = [i.args[x] for x in ts if x < len(i.args) and raw.is_raw(n, i.args[x])]
                if ts and k is not None:
                    if const_int(i.args[k]) is not None:
                        if t in ('strncpy', 'strncmp', 'strnlen', 'strndup', 'strncat', 'strncasecmp', 'memchr'):
                            r.ok('limit-is-size', at=f.where(i))
                            r.report('%s:%s' % (scope.base(n), t), 'limit-is-size', f.where(i), '%s reads text of a node with a constant limit' % t)
                        continue               # a value of a fixed width, not text
                    if t in ('memcpy', 'memmove') and None in data_nodes(f, L, ts[0]) and not wants_text(f, i.args[k]):
                        continue               # a helper: its callers are judged
                    r.ok('limit-is-size', at=f.where(i))
                    why = lim.ok(n, f, L, i.blk, i.args[k], ts)
                    if why:
                        r.report('%s:%s' % (scope.base(n), t), 'limit-is-size', f.where(i), '%s reads text of a node, and %s' % (t, why))
            for x in p.targets(f, i):
                for k, s in helper_limits(p, x, raw):
                    if k < len(i.args) and s < len(i.args) and raw.is_raw(n, i.args[k]) and const_int(i.args[s]) is None:
                        if not textual(f, raw.v[n], i.args[s]):
                            continue
                        r.ok('limit-is-size', at=f.where(i))
                        why = lim.ok(n, f, L, i.blk, i.args[s], [i.args[k]])
                        if why:
                            r.report('%s:%s' % (scope.base(n), scope.base(x)), 'limit-is-size', f.where(i), '%s reads text of a node, and %s' % (scope.base(x), why))
        for i, h, body in text_loops(f, raw.v[n]):
            r.ok('walk-inside', at=f.where(i))
            why = walk(f, L, i, h, body, raw.v[n], lim)
            if why and not known_empty(f, i):
                r.report('%s:walk' % scope.base(n), 'walk-inside', f.where(i), 'a loop reads text straight from a node, %s' % why)
        return r
    counts, reports, judged = collections.Counter(), [], set()
    for r in pmap(one, names):
        counts.update(r.counts)
        reports += r.reports
        judged |= r.judged
    return counts, reports, judged, raw


def wants_text(f, v):
    """the limit was found by looking at the text"""
    for l in leaves(v):
        if l[0] == 'i' and f.ins[l[1]].op in lin.CASTS:
            l = f.ins[l[1]].args[0]
        if l[0] == 'i' and f.ins[l[1]].op in ('call', 'invoke') and cname(f, f.ins[l[1]]) in ('strnlen', 'strlen'):
            return True
    return False


def textual(f, raw, v):
    """the limit depends on the text or on a recorded size (not the size of a scalar)"""
    return const_int(v) is None and not all(l[0] == 'c' for l in leaves(v))


def helper_limits(p, x, raw):
    """(text, limit) parameters of a function of the library that hands both to a reader with a limit"""
    f = p.defined.get(x)
    if f is None or scope.generated(f):
        return
    if scope.base(x) == 'mr_hash_block':
        yield 0, 1
        return
    for i in f.calls():
        t = cname(f, i)
        if t in BOUNDED and BOUNDED[t][1] is not None and BOUNDED[t][1] < len(i.args):
            s = i.args[BOUNDED[t][1]]
            for l in leaves(s):
                if l[0] == 'i' and f.ins[l[1]].op in lin.CASTS:
                    l = f.ins[l[1]].args[0]
                if l[0] == 'a':
                    for k in BOUNDED[t][0]:
                        for b, tg in origins(f, i.args[k]):
                            if b[0] == 'a' and not tg and b != l:
                                yield b[1], l[1]


def lockstep(f, L, h, body):
    """relations between a pointer merged at a loop header and a counter kept in memory that both advance once per round"""
    out = []
    latches = [b for b in f.preds[h] if b in body]
    for q in f.blocks[h]:
        if q.op != 'phi' or q.ty != 'ptr':
            continue
        inits = [a for a, b in q.args if b not in body]
        steps = [add(L.lin(a), {q.v: 1, None: 0}, -1) for a, b in q.args if b in body]
        if len(inits) != 1 or not steps or any(s != steps[0] for s in steps) or set(steps[0]) != {None}:
            continue
        for al in [i for i in f.instrs() if i.op == 'alloca']:
            us = [u for u in f.uses.get(al.v, ()) if u.blk in body]
            st = [u for u in us if u.op == 'store' and u.args[1] == al.v]
            if len(st) != 1 or any(u.op not in ('load', 'store') or (u.op == 'store' and u is not st[0]) for u in us):
                continue
            w = st[0]
            if not all(w.blk in f.dom.get(b, ()) for b in latches) or w.args[0][0] != 'i':
                continue
            if any(j.op in ('call', 'invoke') and not (f.callee(j) or '').startswith('llvm.') for b in body for j in f.blocks[b]):
                continue
            ld = f.ins[w.args[0][1]]
            if ld.op != 'add':
                continue
            src = ld.args[0]
            k = const_int(ld.args[1]) if ld.args[1][0] == 'c' else None
            if k != steps[0][None] or src[0] != 'i' or f.ins[src[1]].op != 'load' or f.ins[src[1]].args[0] != al.v or f.ins[src[1]].blk not in body:
                continue
            before = [u for u in f.uses.get(al.v, ()) if u.op == 'store' and u.args[1] == al.v and u.blk not in body and u.blk in f.dom.get(h, ())]
            before = [u for u in before if not any(u is not x and f.dominates(u, x) for x in before)]
            if len(before) != 1 or any(L.passes(before[0], u, f.blocks[h][0]) for u in f.uses.get(al.v, ()) if u.op not in ('load',) and u is not before[0] and u.blk not in body):
                continue
            for u in us:
                if u.op == 'load' and not after(f, w, u, h, body):
                    e = add(add(L.lin(u.v), L.lin(before[0].args[0]), -1), add({q.v: 1, None: 0}, L.lin(inits[0]), -1), -1)
                    out += [e, lin.scale(e, -1)]
    return out


def after(f, w, u, h, body):
    """u may run after w in the same round"""
    if u.blk == w.blk:
        return u.idx > w.idx
    seen, st = set(), list(f.succs[w.blk])
    while st:
        b = st.pop()
        if b in seen or b == h or b not in body:
            continue
        seen.add(b)
        st += f.succs[b]
    return u.blk in seen


def walk(f, L, i, h, body, raw, lim):
    """None, or why the character read is not shown to be inside the declared size"""
    starts = [v for v in raw if v[0] == 'a' or (v[0] == 'i' and f.ins[v[1]].op == 'load')]
    pos = L.lin(i.args[0])
    nodes = data_nodes(f, L, i.args[0])
    cands = [('a', k) for k in range(f.nargs)]
    for j in f.instrs():
        if j.op == 'load' and f.dominates(j, i):
            t = [f.prog.field_name(s[1], s[2]) for s in gep_parts(f, j.args[0])[1] if s[0] == 'f']
            if t and t[-1] in SIZES and lim.same(nodes, size_nodes(f, L, j)):
                cands.append(j.v)
    extra = lockstep(f, L, h, body)
    for s in starts:
        off = add(pos, L.lin(s), -1)
        for k in cands:
            if k == s:
                continue
            if L.prove(add(add(L.lin(k), off, -1), C(1), -1), i.blk, extra):
                return None
    return 'not shown to stop at the declared size'


def comparators(c, p, raw):
    """every sort of basic values hands its comparators the size of an element"""
    n = 0
    for fn, f in p.defined.items():
        for i in f.calls():
            if not any(scope.base(t) == 'mr_hsort' for t in p.targets(f, i)):
                continue
            cmp = [t for l in [i.args[3]] for t in fnset(p, f, l)]
            if not set(cmp) & raw.compar:
                continue
            n += 1
            c.ok('element-size-known')
            if not holds_size(p, f, i.args[4], i.args[2]):
                c.report('%s:sort' % scope.base(fn), 'element-size-known', f.where(i), 'the comparator of texts is not given the size of an element')
    return n


def fnset(p, f, o):
    if o[0] in ('f', 'F'):
        return [o[1]]
    if o[0] == 'i' and f.ins[o[1]].op in ('call', 'invoke'):
        return [x for t in p.targets(f, f.ins[o[1]]) if t in p.defined and scope.base(t) == 'mr_type_compar_fn' for x in p.defined]
    if o[0] == 'i':
        out = []
        for l in leaves(o):
            if l != o:
                out += fnset(p, f, l)
            elif f.ins[l[1]].op == 'phi':
                for a in f.ins[l[1]].args:
                    if a[0] != o:
                        out += fnset(p, f, a[0])
            elif f.ins[l[1]].op == 'load':
                b, st = gep_parts(f, f.ins[l[1]].args[0])
                if b[0] == 'g' and COMPAR in b[1]:
                    out += list(p.defined)
        return out
    return []


def holds_size(p, f, ctx, size):
    b, st = gep_parts(f, ctx)
    if b[0] != 'i' or f.ins[b[1]].op != 'alloca':
        return False
    vals = set()
    for i in f.instrs():
        if i.op == 'store' and gep_parts(f, i.args[1])[0] == b:
            vals.add(i.args[0])
    def same(x):
        if x in vals:
            return True
        return x[0] == 'i' and f.ins[x[1]].op == 'load' and gep_parts(f, f.ins[x[1]].args[0])[0] == b
    return bool(vals) and same(size) and all(v[0] in 'a' or v == size for v in vals)


def node_key(L, addr):
    return node_of(L.f, L, addr, 'mr_ptrdes_t.mr_size')


def element_sizes(p):
    """places where the size of an element is separated from the size of the rest of its array: (function, instr, complaint or None)"""
    for n, f in sorted(p.defined.items()):
        if scope.generated(f):
            continue
        for i in f.instrs():
            if i.op != 'store':
                continue
            t = [p.field_name(s[1], s[2]) for s in gep_parts(f, i.args[1])[1] if s[0] == 'f']
            if not t or t[-1] != 'mr_ptrdes_t.mr_size' or i.args[0][0] != 'i':
                continue
            v = f.ins[i.args[0][1]]
            while v.op in lin.CASTS and v.args[0][0] == 'i':
                v = f.ins[v.args[0][1]]
            if v.op != 'sub' or not all(a[0] == 'i' and f.ins[a[1]].op == 'load' for a in v.args):
                continue
            L = lin.Lin(p, f)
            a, b = (f.ins[x[1]] for x in v.args)
            me, x, y = node_key(L, i.args[1]), node_key(L, a.args[0]), node_key(L, b.args[0])
            if None in (me, x, y) or x != me or y == me:
                continue
            nxt = next_of(f, L, b.args[0])
            if nxt is None or nxt != me:
                continue
            yield f, i, guarded(f, L, i)


def next_of(f, L, addr):
    """the node whose successor an element address designates"""
    for s in gep_parts(f, addr)[1]:
        if s[0] == 'x':
            for l in leaves(s[1]):
                while l[0] == 'i' and f.ins[l[1]].op in lin.CASTS:
                    l = f.ins[l[1]].args[0]
                if l[0] == 'i' and f.ins[l[1]].op == 'load':
                    t = [f.prog.field_name(q[1], q[2]) for q in gep_parts(f, f.ins[l[1]].args[0])[1] if q[0] == 'f']
                    if t and t[-1] == 'mr_ptrdes_t.next':
                        return node_of(f, L, f.ins[l[1]].args[0], 'mr_ptrdes_t.next')
    return None


ALLOWED = {'mr_ptrdes_t.mr_type', 'mr_ptrdes_t.parent', 'mr_ptrdes_t.next', 'mr_stype_t.mr_type', 'mr_ra_ptrdes_t.ra', 'mr_ra_ptrdes_t.mr_size', 'mr_ptrdes_t.idx'}


def guarded(f, L, i):
    p = f.prog
    vec = (1 << p.enumval['MR_TYPE_ARRAY']) | (1 << p.enumval['MR_TYPE_POINTER'])
    for b in f.dom.get(i.blk, ()):
        t = f.blocks[b][-1]
        if t.op not in ('br', 'switch') or len(f.succs[b]) < 2:
            continue
        if not any(s in f.dom.get(i.blk, ()) and f.preds[s] == [b] for s in f.succs[b]):
            continue
        seen, st = set(), [t.args[0]]
        while st:
            v = st.pop()
            if v in seen or v[0] != 'i':
                continue
            seen.add(v)
            x = f.ins[v[1]]
            if x.op == 'load':
                tg = [p.field_name(s[1], s[2]) for s in gep_parts(f, x.args[0])[1] if s[0] == 'f']
                if tg and tg[-1] not in ALLOWED:
                    return 'only when a condition on %s holds' % tg[-1]
            elif x.op == 'lshr' and x.args[0][0] == 'c':
                if int(x.args[0][1]) & vec != vec:
                    return 'not for both arrays and pointers to several elements'
            else:
                st += [a for a in x.args if isinstance(a, tuple)]
                if x.op == 'phi':
                    st += [a[0] for a in x.args]
    return None


def run(c):
    c.rule('reads-to-terminator', 'a reader that stops only at a terminator is given text straight from a node only where its recorded size is known to be zero')
    c.rule('limit-is-size', 'a reader with a limit takes the limit for text of a node from the recorded size of that node or of its type')
    c.rule('walk-inside', 'a loop over text of a node looks at a character only below the recorded size')
    c.rule('element-of-array', 'a saved element of an array of texts gets its own size, whatever else holds for the node')
    c.rule('element-size-known', 'a sort of texts gives its comparator the size of an element')
    p = c.prog('plain')
    counts, reports, _, raw = judge(p, 'plain')
    c.require(raw.compar, 'comparators of basic types')
    if reports:
        counts2, again, judged, _ = judge(c.prog('inline'), 'inline')
        still = {(x[1], x[2].split(' ')[0]) for x in again}
        reports = [x for x in reports if (x[1], x[2].split(' ')[0]) in still or (x[1], x[2].split(' ')[0]) not in judged]
    for k, n in counts.items():
        c.ok(k, n)
    for x in reports:
        c.report(*x)
    comparators(c, p, raw)
    got = list(element_sizes(p))
    good = [x for x in got if x[2] is None]
    if not good:
        got2 = list(element_sizes(c.prog('inline')))
        good = [x for x in got2 if x[2] is None]
    if good:
        c.ok('element-of-array', len(good))
    else:
        f = next((f for n, f in sorted(p.defined.items()) if scope.base(n) == 'mr_post_process_node'), None)
        at = got[0][0].where(got[0][1]) if got else 'mr_save.c (%s)' % (f.name if f else 'mr_save')
        c.report('element-size', 'element-of-array', at, 'elements of an array of texts keep the size of the rest of the array%s' % (', except ' + got[0][2] if got else ''))
    c.floor('limit-is-size', 10)
    c.floor('element-size-known', 1)
    c.counts['pointers straight at the bytes of a node'] = sum(len(x) for x in raw.v.values())
