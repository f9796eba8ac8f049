"""Interprocedural taint analysis of pointers into the user's data: every pointer loaded from the data field of a node, from a key a
hash or ordering callback receives, or through such a pointer is followed through address arithmetic, merges, calls and returns in
all functions that save, hash, compare, print, copy from or free data. No store, memory intrinsic or writing library call may use
such a pointer as its target. Handlers shared with loading may write only under the decoding direction of the stream."""
import scope
from ir import gep_parts, leaves
from p_state import kind, origins

ROOTS = ('mr_save', 'mr_hash_struct', 'mr_cmp_structs', 'mr_generic_hash', 'mr_generic_cmp', 'mr_copy_recursively', 'mr_free_recursively', 'mr_print_value',
         'mr_cinit_save', 'mr_json_save', 'mr_scm_save', 'mr_xml1_save', 'mr_xml2_save', 'mr_yaml_save', 'mr_xdr_save')
SAVERS = ('cinit_save', 'json_save', 'scm_save', 'xml1_save', 'xml2_save', 'yaml_save', 'xdr_save')
LOADS = ('mr_load', 'mr_xdr_load', 'xdr_load_inner', 'cinit_load', 'json_load', 'scm_load', 'xml1_load', 'xml2_load', 'yaml_load')
# (function, parameter) that receive the user's object itself
PARAMS = {'mr_save': (1,), 'mr_generic_hash': (0,), 'mr_generic_cmp': (0, 1)}
# writers of other libraries: argument written
EXT = {'llvm.memcpy': 0, 'llvm.memset': 0, 'llvm.memmove': 0, 'memcpy': 0, 'memset': 0, 'memmove': 0, 'strcpy': 0, 'strncpy': 0, 'strcat': 0,
       'sprintf': 0, 'snprintf': 0, 'vsnprintf': 0, 'fread': 0, 'strtok': 0, 'qsort': 0, 'realloc': 0}
XDRS = {'xdr_int', 'xdr_opaque', 'xdr_float', 'xdr_double', 'xdr_int16_t', 'xdr_uint16_t', 'xdr_int32_t', 'xdr_uint32_t', 'xdr_bytes', 'xdr_string'}
DATA = 'mr_ptrdes_t.data'


class Taint:
    def __init__(self, p, funcs, roots):
        self.p = p
        self.F = funcs
        self.t = {n: set() for n in funcs}          # tainted values
        self.ret = set()
        self.dpar = {}                               # function -> params whose node's data field it writes through
        for n, ks in roots.items():
            for k in ks:
                self.t[n].add(('a', k))
        self.cells = {n: set() for n in funcs}       # local slots that may hold tainted pointers
        self.out = set()                             # (function, parameter): points the caller's node at the user's data
        ch = True
        while ch:
            ch = False
            for n in funcs:
                if self.step(n):
                    ch = True

    def own_node(self, f, base):
        """a node descriptor built locally: its data points where this function made it point"""
        return base[0] == 'i' and f.ins[base[1]].op == 'alloca'

    def tainted(self, n, o):
        return any(l in self.t[n] for l in leaves(o))

    def load_tainted(self, f, n, i):
        b, st = gep_parts(f, i.args[0])
        tags = [self.p.field_name(s[1], s[2]) for s in st if s[0] == 'f']
        for ob, ot in origins(f, i.args[0]):
            if ob in self.t[n]:
                return True
            if DATA in ot:
                if self.own_node(f, ob):
                    if (ob, 'data') in self.cells[n]:
                        return True
                    continue
                return True
            if self.own_node(f, ob) and (ob, tuple(ot)) in self.cells[n]:
                return True
        return False

    def step(self, n):
        f = self.F[n]
        t = self.t[n]
        k0 = (len(t), len(self.cells[n]), len(self.ret), len(self.out), sum(len(x) for x in self.t.values()))
        for i in f.instrs():
            if i.op == 'load':
                if i.ty == 'ptr' and i.v not in t and self.load_tainted(f, n, i):
                    t.add(i.v)
            elif i.op in ('getelementptr', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint'):
                if self.tainted(n, i.args[0]):
                    t.add(i.v)
            elif i.op == 'phi':
                if i.ty == 'ptr' and any(self.tainted(n, a[0]) for a in i.args):
                    t.add(i.v)
            elif i.op == 'select':
                if i.ty == 'ptr' and any(self.tainted(n, a) for a in i.args[1:]):
                    t.add(i.v)
            elif i.op == 'store':
                if i.raw['st'] == 'ptr' and self.tainted(n, i.args[0]):
                    for ob, ot in origins(f, i.args[1]):
                        if self.own_node(f, ob):
                            self.cells[n].add((ob, 'data' if DATA in ot else tuple(ot)))
                        elif ob[0] == 'a' and DATA in ot:
                            self.out.add((n, ob[1]))
            elif i.op in ('call', 'invoke'):
                for x in self.p.targets(f, i):
                    if kind(x) in ('llvm.memcpy', 'llvm.memmove'):
                        # a copy of a node copies its data pointer
                        for ob, ot in origins(f, i.args[0]):
                            if self.own_node(f, ob):
                                for sb, stg in origins(f, i.args[1]):
                                    if not self.own_node(f, sb) and struct_of(f, ob) == 'mr_ptrdes_t':
                                        self.cells[n].add((ob, 'data'))
                                    if self.own_node(f, sb):
                                        self.cells[n] |= {(ob, r) for q, r in self.cells[n] if q == sb}
                        continue
                    if x not in self.F or decode_only(self.p, f, i):
                        continue
                    for k, a in enumerate(i.args):
                        if k < self.F[x].nargs and self.tainted(n, a):
                            self.t[x].add(('a', k))
                        if (x, k) in self.out:
                            for ob, ot in origins(f, a):
                                if self.own_node(f, ob):
                                    self.cells[n].add((ob, 'data'))
                                elif ob[0] == 'a':
                                    self.out.add((n, ob[1]))
                    if x in self.ret and i.ty == 'ptr':
                        t.add(i.v)
            elif i.op == 'ret' and i.args and f.rty == 'ptr' and self.tainted(n, i.args[0]):
                self.ret.add(n)
        return (len(t), len(self.cells[n]), len(self.ret), len(self.out), sum(len(x) for x in self.t.values())) != k0


def struct_of(f, ob):
    a = f.ins[ob[1]].raw.get('at', '')
    return a.replace('%struct.', '').split('.')[0]


def decode_only(p, f, i):
    """the instruction runs only when the stream is being decoded"""
    for b in f.dom.get(i.blk, ()):
        t = f.blocks[b][-1]
        if t.op not in ('br', 'switch') or len(f.succs[b]) < 2:
            continue
        v = t.args[0]
        if v[0] != 'i':
            continue
        for s in f.succs[b]:
            if s in f.dom.get(i.blk, ()) and f.preds[s] == [b]:
                if xop_implies_decode(p, f, v, s == f.succs[b][0]) if t.op == 'br' else False:
                    return True
                if t.op == 'switch' and xop(p, f, v) and [c for c, d in t.raw['cases'] if d == s and str(c) == '1'] and t.raw['s'][0] != s:
                    return True
    return False


def xop(p, f, v):
    if v[0] != 'i':
        return False
    i = f.ins[v[1]]
    if i.op == 'load':
        b, st = gep_parts(f, i.args[0])
        tags = [p.field_name(s[1], s[2]) for s in st if s[0] == 'f']
        return bool(tags) and tags[-1].endswith('.x_op') or (not st and b[0] == 'a' and f.raw['ditypes'] and 'XDR' in str(f.raw['ditypes'][1 + b[1]:2 + b[1]]))
    return False


def xop_implies_decode(p, f, v, taken, depth=0):
    i = f.ins[v[1]] if v[0] == 'i' else None
    if i is None or depth > 5:
        return False
    if i.op == 'icmp':
        x, y = i.args
        if x[0] == 'c':
            x, y = y, x
        if not xop(p, f, x) or y[0] != 'c':
            return False
        k, pr = int(y[1]), i.raw.get('p')
        return (pr == 'eq' and k == 1 and taken) or (pr == 'ne' and k == 1 and not taken)
    if i.op == 'select' and taken:
        return xop_implies_decode(p, f, i.args[0], True, depth + 1) or (i.args[2] == ('c', '0', 1) and xop_implies_decode(p, f, i.args[1], True, depth + 1))
    if i.op == 'and' and taken:
        return any(xop_implies_decode(p, f, a, True, depth + 1) for a in i.args)
    if i.op == 'phi' and taken:
        # short-circuit conjunction: false on every edge but one
        rest = [(a, b) for a, b in i.args if not (a[0] == 'c' and int(a[1]) == 0)]
        if len(rest) == 1:
            a, b = rest[0]
            if xop_implies_decode(p, f, a, True, depth + 1):
                return True
            return decode_only(p, f, f.blocks[b][-1])
    return False


def writes(p, f, n, T):
    """(instr, how) for stores whose target is tainted"""
    for i in f.instrs():
        if i.op == 'store' and T.tainted(n, i.args[1]):
            yield i, 'stores through it'
        elif i.op in ('atomicrmw', 'cmpxchg') and T.tainted(n, i.args[0]):
            yield i, 'stores through it'
        elif i.op in ('call', 'invoke'):
            for t in p.targets(f, i):
                if t in p.defined:
                    continue
                k = kind(t)
                if k in EXT and EXT[k] < len(i.args) and T.tainted(n, i.args[EXT[k]]):
                    yield i, 'passes it to %s to be written' % k
                elif k in XDRS and len(i.args) > 1 and T.tainted(n, i.args[1]):
                    yield i, 'xdr'


def run(c):
    p = c.prog('plain')
    c.rule('data-read-only', 'no function that only saves, hashes, compares, prints, copies from or frees data writes through a pointer into that data')
    c.rule('shared-handler', 'a handler used for saving and loading writes through such a pointer only when the stream is decoding')
    c.rule('callee-writes-node', 'a helper that writes where a node descriptor points is given, while saving, only descriptors of local variables')
    saves = reach_saving(p, [n for n in p.defined if scope.base(n) in ROOTS or scope.base(n) in SAVERS])
    c.require(len([n for n in p.defined if scope.base(n) in ROOTS]) >= 7, 'the operations that read data')
    for r in ('mr_save', 'mr_hash_struct', 'mr_cmp_structs', 'mr_copy_recursively', 'mr_free_recursively'):
        c.require(r in p.defined, r)
    fs = {n: p.defined[n] for n in saves}
    roots = {n: ks for n, ks in PARAMS.items() if n in fs}
    T = Taint(p, fs, roots)
    # helpers that write where their node parameter points
    wn = {}
    for n, f in p.defined.items():
        for i in f.instrs():
            if i.op != 'store':
                continue
            for ob, ot in origins(f, i.args[1]):
                if ob[0] == 'i' and f.ins[ob[1]].op == 'load':
                    for b2, t2 in origins(f, f.ins[ob[1]].args[0]):
                        if b2[0] == 'a' and DATA in t2:
                            wn.setdefault(n, {})[b2[1]] = i
    ntaint = 0
    for n, f in sorted(fs.items()):
        ntaint += len(T.t[n])
        if T.t[n]:
            c.ok('data-read-only')
        for i, how in writes(p, f, n, T):
            if n in wn and i.op == 'store' and all(through_param(f, i, k) for k in list(wn[n])[:1]):
                continue
            if how == 'xdr':
                continue            # the direction of the stream decides; encoding streams do not store
            if decode_only(p, f, i):
                c.ok('shared-handler')
            else:
                c.report('%s:write' % n, 'data-read-only', f.where(i), 'a pointer into the data being processed: %s %s' % (n, how))
        for i in f.calls():
            for t in p.targets(f, i):
                for k, w in wn.get(t, {}).items():
                    if k >= len(i.args) or decode_only(p, f, i):
                        continue
                    c.ok('callee-writes-node')
                    for ob, ot in origins(f, i.args[k]):
                        if T.own_node(f, ob) and (ob, 'data') not in T.cells[n]:
                            continue
                        if ob[0] == 'a' and n in wn and ob[1] in wn[n]:
                            continue
                        c.report('%s:%s' % (n, scope.base(t)), 'callee-writes-node', f.where(i), '%s writes where the node passed to it points, and that is the data being saved' % t)
    c.counts['pointers into data followed'] = ntaint
    c.sample('%d functions may run while data is only read' % len(fs))
    c.floor('data-read-only', 60)
    c.floor('pointers into data followed', 300)


def through_param(f, i, k):
    def via(o, d):
        os = origins(f, o)
        return bool(os) and all((b[0] == 'a' and b[1] == k and (DATA in t or d)) or (b[0] == 'i' and f.ins[b[1]].op == 'load' and via(f.ins[b[1]].args[0], d + 1) and d < 4)
                                or (b[0] == 'i' and f.ins[b[1]].op == 'alloca') for b, t in os)
    return via(i.args[1], 0)


def reach_saving(p, roots):
    """functions that may run while saving: calls made only when a stream decodes are not followed"""
    seen = set()
    st = list(roots)
    while st:
        n = st.pop()
        if n in seen or n not in p.defined or scope.base(n) in LOADS:
            continue
        seen.add(n)
        f = p.defined[n]
        for i in f.calls():
            if not decode_only(p, f, i):
                st += p.targets(f, i)
    return seen
