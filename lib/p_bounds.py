"""Every access of run-time extent or at a run-time place to memory the accessing function can see the size of (local arrays, arrays
sized at run time, blocks it just allocated or reserved in a growing array, constant and static tables) is shown to stay inside that
memory by linear arithmetic over the values involved, the conditions that dominate the access, and inductive relations between the
variables of the loops around it. Text put into such memory by a copy that does not terminate it is terminated before anything reads it
as text. Decoders of a text of known length get a destination of that length and an end. Growing arrays record what they allocated."""
import collections, re
import lin, scope
from lin import add, scale, C, f_op
from ir import gep_parts, leaves, T, const_int, strip
from p_state import kind
import fail
from par import pmap

COPY = {'memcpy': 2, 'memmove': 2, 'memset': 2, 'strncpy': 2, 'fread': None}
BASE = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8, 'float': 4, 'double': 8, 'x86_fp80': 16, 'i128': 16, 'i24': 4}


def esize(p, ty):
    """allocation size of an element type as written by the IR dumper"""
    ty = ty.strip().replace('%struct.', '').replace('%union.', '')
    m = re.match(r'\[(\d+) x (.*)\]$', ty)
    if m:
        e = esize(p, m.group(2))
        return None if e is None else int(m.group(1)) * e
    if ty in BASE:
        return BASE[ty]
    m = re.match(r'\{ (.*) \}$', ty)
    if m:
        n = 0
        for x in m.group(1).split(', '):
            e = esize(p, x)
            if e is None:
                return None
            n = (n + e - 1) // e * e + e
        return n
    lay = p.layouts.get(ty)
    return lay['size'] if lay else None


def cname(f, i):
    t = f.callee(i)
    if not t:
        return None
    return re.sub(r'(\.p0)*(\.i\d+)?$', '', t).replace('llvm.', '')


class Objects:
    """memory a function provides for itself"""

    def __init__(self, p, alloc, reserve):
        self.p = p
        self.alloc = alloc
        self.reserve = reserve       # callee -> argument that is the number of bytes the result provides

    def capacity(self, f, L, v):
        """linear form of the size of the object v is the start of, or None"""
        if v[0] == 'g' and self.p.globals.get(v[1], {}).get('size'):
            return C(self.p.globals[v[1]]['size'])
        if v[0] != 'i':
            return None
        i = f.ins[v[1]]
        if i.op == 'alloca':
            e = esize(self.p, i.raw['at'])
            n = L.lin(i.args[0]) if i.args else C(1)
            return None if e is None else (scale(n, e) or C(0))
        if i.op in ('call', 'invoke'):
            k = self.alloc.kind(f, i)
            if k == 'calloc':
                a, b = L.lin(i.args[3]), L.lin(i.args[4])
                if set(a) == {None}:
                    a, b = b, a
                return (scale(a, b[None]) or C(0)) if set(b) == {None} else None
            if k == 'realloc':
                return L.lin(i.args[4])
            t = f.callee(i)
            if t in self.reserve:
                return L.lin(i.args[self.reserve[t]])
        if i.op == 'load' and i.ty == 'ptr':
            s = self.stored_before(f, L, i)
            return self.capacity(f, L, s) if s else None
        return None

    def stored_before(self, f, L, i):
        """block this function allocated and stored to the place a pointer is loaded from, nothing else stored there since"""
        memo = L.__dict__.setdefault('blocks_stored', None)
        if memo is None:
            memo = L.blocks_stored = [s for s in f.instrs() if s.op == 'store' and s.args[0][0] == 'i' and f.ins[s.args[0][1]].op in ('call', 'invoke')
                                      and self.alloc.is_alloc(f, f.ins[s.args[0][1]])]
            L.fwd = {}
        if i.id in L.fwd:
            return L.fwd[i.id]
        L.fwd[i.id] = None
        for s in memo:
            if f.dominates(s, i) and L.addrkey(s.args[1]) == L.addrkey(i.args[0]):
                tag = (L.place(i.args[0]) or [None])[-1]
                if not L.overwritten(s, i, tag):
                    L.fwd[i.id] = s.args[0]
        return L.fwd[i.id]


def skeleton(f, i):
    """a line of the scanner or parser skeleton"""
    l = i.loc
    return bool(l) and ('.tab.' in l[0] or '.lex.' in l[0] or 'bison' in l[0])


class Part:
    """findings of one function"""

    def __init__(self):
        self.counts = collections.Counter()
        self.reports = []
        self.judged = set()

    def ok(self, rule, n=1, at=None):
        self.counts[rule] += n
        if at:
            self.judged.add((rule, at.split(' ')[0]))

    def report(self, *a):
        self.reports.append(a)


def run(c):
    c.rule('access-fits', 'an access of run-time extent or at a run-time place to memory whose size the function can see stays inside that memory')
    c.rule('range-kept', 'the size recorded for the dimensions of an array never exceeds the room there is for them')
    c.rule('decoder-room', 'the destination of a decoded text has room for the text and its end')
    c.rule('terminated', 'text copied into memory of the function without its end is ended right after the copied part before it is read as text')
    c.rule('element-room', 'text or bytes of run-time length stored into a field stay within its size or what was just allocated for it')
    c.rule('walk-fits', 'positions a loop counts through stay below the recorded size of the array they index')
    c.rule('recorded', 'the allocated size recorded for a growing array is not more than was allocated')
    c.rule('handed-out', 'a growing array hands out room only inside the block it owns')
    counts, reports, _ = analyse(c, 'plain')
    if reports:
        # a buffer may be filled or ended by a helper: judge the helpers in place; what is shown to hold there holds
        _, again, judged = analyse(c, 'inline')
        still = {(x[1], x[2].split(' ')[0]) for x in again}
        reports = [x for x in reports if (x[1], x[2].split(' ')[0]) in still or (x[1], x[2].split(' ')[0]) not in judged]
    for k, n in counts.items():
        c.ok(k, n)
    for x in reports:
        c.report(*x)
    c.floor('access-fits', 1200)
    c.floor('decoder-room', 5)
    c.floor('range-kept', 8)
    c.floor('terminated', 8)
    c.floor('walk-fits', 200)
    c.floor('recorded', 2)
    c.floor('element-room', 2)
    c.floor('handed-out', 1)


def analyse(c, view):
    p = c.prog(view)
    c.require('mr_rarray_allocate_element' in p.defined, 'growing array')
    alloc = fail.Alloc(p)
    reserve = {'mr_rarray_allocate_element': 3, 'mr_rarray_append': 1}
    obj = Objects(p, alloc, reserve)
    lay = p.layouts.get('mr_array_dimensions_t')
    c.require(lay, 'array dimensions')
    di = {m[0]: m for m in p.ditypes['mr_array_dimensions_t']['m']}
    c.require('dim' in di and 'size' in di, 'array dimensions')
    ranges = {'mr_array_dimensions_t.size': (0, di['dim'][2] // 8)}
    c.require('MR_TYPE_LAST' in p.enumval and 'MR_MESSAGE_LAST' in p.enumval, 'kinds of data and messages')
    assumed = {'mr_stype_t.mr_type_aux': (0, p.enumval['MR_TYPE_LAST'] - 1), 'mr_substr_t.length': (0, 1 << 62)}
    lens = []
    for g in p.find_global('esc_char_map'):
        lens += [len(p.cstr(x) or b'') for o, (n, x) in p.ginit(g).items()]
    c.require(lens, 'table of XML escapes')
    assumed['mr_xml_esc_t.length'] = (min(lens), max(lens))
    c.assumptions[:] = ['the kind recorded for the elements of a field is one of the enumerated kinds',
                      'texts found by a parser have a length of zero or more',
                      'enumerators of the message table have the values of their declaration',
                      'trees are balanced: positions on a path from the root of a tree fit its fixed-size path array']
    pair = pairs(p)
    c.require('mr_ra_ptrdes_t.ra' in pair and 'mr_ic_hash_t.hash_table' in pair, 'arrays and their recorded sizes')
    names = [n for n, f in sorted(p.defined.items()) if not scope.generated(f) and not n.startswith('wit_')]
    names.sort(key=lambda n: -len(p.defined[n].ins))

    def one(n):
        r = Part()
        f = p.defined[n]
        L = lin.Lin(p, f)
        L.capacity = lambda v: obj.capacity(f, L, v)
        L.ranges = dict(ranges, **assumed)
        if scope.base(n) == 'mr_message_format':
            L.ranges['mr_ed_t.value'] = (0, p.enumval['MR_MESSAGE_LAST'])
        contract(r, p, f, L)
        for i in f.instrs():
            if not skeleton(f, i):
                for what, addr, size in accesses(f, L, i):
                    fits(r, f, L, i, what, addr, size)
        kept(r, p, f, L, ranges)
        terminated(r, p, f, L)
        recorded(r, p, f, L, alloc)
        elements(r, f, L, alloc)
        walks(r, f, L, pair)
        unwrapped(r, f, L, alloc)
        ended(r, p, f, L, alloc)
        if scope.base(n) == 'mr_rarray_allocate_element':
            handed_out(r, p, f, L)
        return r
    counts, reports, judged = collections.Counter(), [], set()
    for r in pmap(one, names):
        counts.update(r.counts)
        reports += r.reports
        judged |= r.judged
    return counts, reports, judged


def accesses(f, L, i):
    """(kind, address, extent) of the memory an instruction touches"""
    if i.op == 'load':
        return [('read', i.args[0], C(BASE.get(i.ty, 1)))]
    if i.op == 'store':
        return [('write', i.args[1], C(i.raw.get('sz') or BASE.get(i.raw['st'], 1)))]
    if i.op in ('call', 'invoke'):
        t = cname(f, i)
        if t in ('memcpy', 'memmove'):
            n = L.lin(i.args[2])
            return [(t, i.args[0], n), ('source of ' + t, i.args[1], n)]
        if t in ('vsnprintf', 'snprintf') and i.args[0][0] == 'i':
            return [(t, i.args[0], L.lin(i.args[1]))]
        if t in ('memset', 'strncpy'):
            return [(t, i.args[0], L.lin(i.args[2]))]
        if t in ('memcmp', 'bcmp'):
            n = L.lin(i.args[2])
            return [(t, i.args[0], n), (t, i.args[1], n)]
        if t == 'strcpy':
            return [(t, i.args[0], add({('S', L.key(i.args[1])): 1, None: 0}, C(1)))]
    return []


def fits(c, f, L, i, what, addr, size):
    room = L.room(addr, L.capacity)
    if room is None:
        return
    on_path = f.file == 'mr_btree.c' or any('mr_tree_traverse_t' in str(f.ins[x[1]].raw.get('at')) for x in L.sources(addr)
                                            if x[0] == 'i' and f.ins[x[1]].op == 'alloca')
    if on_path and set(size) == {None}:
        return                       # positions on a path through a tree: bounded by its balance, not by a condition
    if fail.is_parse(f) and set(room) != {None} and not any(x[0] == 'i' and f.ins[x[1]].op == 'alloca' and f.ins[x[1]].args[0][0] != 'c' for x in L.sources(addr)) \
            and any(x[0] == 'i' and f.ins[x[1]].op == 'alloca' for x in L.sources(addr)):
        return                       # the value stacks of the parser skeleton
    c.ok('access-fits', at=f.where(i))
    if not L.prove(add(room, size, -1), i.blk):
        c.report('%s:%s' % (f.name, what), 'access-fits', f.where(i), '%s of %s bytes where %s bytes are left, not shown to fit' % (what, lin.show(size), lin.show(room)))
        return
    b, st = gep_parts(f, addr)
    cap = L.capacity(b)
    rel = L.gep(st)
    if cap is not None and set(rel) != {None} and set(room) != {None} and not L.prove(rel, i.blk):
        c.report('%s:%s-start' % (f.name, what), 'access-fits', f.where(i), '%s in memory of %s bytes starts at %s, not shown to be inside' % (what, lin.show(cap), lin.show(rel)))


MEM = {'memcpy', 'memmove', 'memset', 'memcmp', 'bcmp', 'memchr', 'strncpy', 'strncmp', 'strnlen', 'strncasecmp', 'strndup', 'mr_hash_block', 'lifetime.start',
       'lifetime.end', 'stackrestore', 'fwrite', 'fread', 'dbg.declare', 'sscanf', '__isoc99_sscanf', '__isoc23_sscanf', 'snprintf', 'vsnprintf', 'sprintf', 'strcpy'}


def terminated(c, p, f, L):
    """buffers of text filled by a copy of known length"""
    for i in f.calls():
        t = cname(f, i)
        if t not in ('memcpy', 'strncpy'):
            continue
        n = L.lin(i.args[2])
        b, st = gep_parts(f, i.args[0])
        if b[0] != 'i' or f.ins[b[1]].op != 'alloca' or not re.search(r'\bi8\b', f.ins[b[1]].raw['at']):
            continue
        if set(n) == {None} and t == 'memcpy':
            continue                 # copies of whole objects
        at = L.gep(st)
        ends = []
        for s in f.instrs():
            if s.op == 'store' and s.args[0][0] == 'c' and int(s.args[0][1]) == 0 and s.raw.get('sz', 1) == 1:
                sb, ss = gep_parts(f, s.args[1])
                if sb == b and add(L.gep(ss), add(at, n), -1) == C(0):
                    ends.append(s)
        for u in readers(f, b):
            if u is i or not (f.dominates(i, u) or u.blk == i.blk and u.idx > i.idx or reaches(f, i, u)):
                continue
            c.ok('terminated', at=f.where(i))
            if not any(f.dominates(s, u) for s in ends):
                c.report('%s:%s' % (f.name, cname(f, u) or 'call'), 'terminated', f.where(i), 'the text copied here is read at %s without being ended at %s' % (f.where(u), lin.show(add(at, n))))


def ended(c, p, f, L, alloc):
    """text copied into a block the function allocated has its end: copied with it, stored behind it, or left over from zeroed memory"""
    for i in f.calls():
        if cname(f, i) not in ('memcpy', 'memmove', 'strncpy'):
            continue
        b, st = gep_parts(f, i.args[0])
        cap = L.capacity(b) if b[0] == 'i' and f.ins[b[1]].op in ('load', 'call', 'invoke') else None
        n = L.lin(i.args[2])
        if cap is None or set(n) == {None}:
            continue
        k = L.key(i.args[1])
        if ('S', k) not in n and (k[0] != 'L' or k[2][-1:] != ('mr_substr_t.str',)):
            continue
        c.ok('terminated', at=f.where(i))
        end = add(L.gep(st), n)
        if L.prove(add(add(n, C(1), -1), {('S', k): 1, None: 0}, -1), i.blk):
            continue
        src = f.ins[b[1]]
        if src.op == 'load':
            src = f.ins[p_stored(L, src)[1]]
        if alloc.kind(f, src) == 'calloc' and L.prove(add(add(cap, end, -1), C(1), -1), i.blk):
            continue
        if any(s.op == 'store' and s.args[0][0] == 'c' and int(s.args[0][1]) == 0 and s.raw.get('sz', 1) == 1
               and L.key(gep_parts(f, s.args[1])[0]) == L.key(b) and add(L.gep(gep_parts(f, s.args[1])[1]), end, -1) == C(0) for s in f.instrs()):
            continue
        c.report('%s:block' % f.name, 'terminated', f.where(i), 'text of %s bytes is copied to an allocated block without its end' % lin.show(n))


def p_stored(L, i):
    return L.fwd[i.id]


def reaches(f, a, b):
    return b.blk in lin.between(f, a, b) or b.blk == a.blk


def fixed(f, v):
    b, st = gep_parts(f, v)
    return f_op(f, b) != 'phi' and not any(s[0] == 'x' and s[1][0] != 'c' for s in st)


def readers(f, b):
    """calls that get the buffer as text"""
    r, st, seen = [], [b], {b}
    while st:
        v = st.pop()
        for u in f.uses.get(v, ()):
            if u.op in ('getelementptr', 'bitcast', 'phi', 'select') and u.v not in seen:
                seen.add(u.v)
                st.append(u.v)
            elif u.op in ('call', 'invoke') and cname(f, u) not in MEM:
                r.append(u)
            elif u.op == 'load' and u.ty == 'i8' and f_op(f, u.args[0]) in ('phi', 'getelementptr') and not fixed(f, u.args[0]):
                r.append(u)
    return r


def recorded(c, p, f, L, alloc):
    """size recorded as allocated next to an allocation"""
    sites = [i for i in f.calls() if alloc.is_alloc(f, i)]
    for i in f.instrs():
        if i.op != 'store' or i.raw['st'] not in ('i64', 'i32'):
            continue
        b, st = gep_parts(f, i.args[1])
        tags = L.place(i.args[1])
        named = tags and tags[-1].endswith('alloc_size') or (not tags and b == ('a', 2) and scope.base(f.name) == 'mr_rarray_allocate_element')
        if not named:
            continue
        v = L.lin(i.args[0])
        if v == C(0) or (set(v) == {None} and v[None] < 0):
            continue
        near = [s for s in sites if f.dominates(s, i)]
        if not near:
            continue
        c.ok('recorded', at=f.where(i))
        if not any((lambda cap: cap is not None and L.prove(add(cap, v, -1), i.blk))(L.capacity(s.v)) for s in near):
            c.report('%s:alloc_size' % f.name, 'recorded', f.where(i), 'the array is recorded as having %s bytes, the block was allocated with %s' % (lin.show(v), ' / '.join(lin.show(L.capacity(s.v) or C(0)) for s in near)))


def handed_out(c, p, f, L):
    """the element handed out lies inside the block: the block passed in has as many bytes as recorded for it"""
    cap = L.capacity
    held = {v.v for v in f.instrs() if v.op == 'load' and v.ty == 'ptr' and v.args[0] == ('a', 0)}
    rec = [v for v in f.instrs() if v.op == 'load' and v.args[0] == ('a', 2)]
    c.ok('handed-out')
    if not rec or not held:
        c.report('%s:anchor' % f.name, 'handed-out', f.where(None), 'the block and its recorded size are not read')
        return
    L.phiroom.clear()
    L.capacity = lambda v: L.lin(rec[0].v) if v in held else cap(v)
    for i in f.instrs():
        if i.op == 'ret' and i.args:
            room = L.room(i.args[0], L.capacity)
            if room is None or not L.prove(add(room, L.lin(('a', 3)), -1), i.blk):
                c.report('%s:ret' % f.name, 'handed-out', f.where(i), 'the element of %s bytes handed out has %s bytes, not shown to be enough' % (lin.show(L.lin(('a', 3))), lin.show(room) if room else 'unknown'))
    L.capacity = cap
    L.phiroom.clear()


def substr_dst(f):
    """index of the destination a text of known length is decoded to: (source, destination) parameters"""
    if f.decl or f.rty != 'void':
        return None
    dt = f.ditypes[1:]
    if len(dt) == 2 and 'mr_substr_t*' in dt and 'char*' in dt:
        k = ('a', dt.index('char*'))
        if any(i.op == 'store' and gep_parts(f, i.args[1])[0] == k for i in f.instrs()):
            return dt.index('mr_substr_t*'), dt.index('char*')
    return None


def pairs(p):
    """pointer field -> field of the same record that holds the number of bytes behind it"""
    r = {}
    for s, d in p.ditypes.items():
        m = {x[0]: x[3] for x in d.get('m', ())}
        for a, ty in m.items():
            if not ty.endswith('*'):
                continue
            for z in (a + '_size', 'size'):
                if z in m and not m[z].endswith('*') and (z != 'size' or len([b for b, t in m.items() if t.endswith('*')]) == 1):
                    r['%s.%s' % (s, a)] = '%s.%s' % (s, z)
                    break
    return r


def counted(f, L, a):
    """a value this function counts through positions with: the merge of a loop that steps by a constant or wraps a remainder"""
    if f_op(f, a) == 'urem':
        return True
    if f_op(f, a) in ('udiv', 'lshr'):
        # the slot for the zero key; elsewhere the element behind the recorded ones is a spare one a search key is kept in
        return any(field_of(L, f, x) == 'mr_ic_hash_t.size' for x in L.lin(f.ins[a[1]].args[0]) if x is not None)
    if f_op(f, a) != 'phi':
        return False
    i = f.ins[a[1]]
    if not any(i.blk in f.dom.get(b, ()) for v, b in i.args):
        return False
    st, seen = [v for v, b in i.args], {a}
    while st:
        v = st.pop()
        if v in seen:
            continue
        seen.add(v)
        if f_op(f, v) == 'urem' or f_op(f, v) in ('add', 'sub', 'getelementptr') and set(add(L.lin(v), L.lin(a), -1)) == {None}:
            return True
        if f_op(f, v) in ('phi', 'select'):
            j = f.ins[v[1]]
            st += [x for x, b in j.args] if j.op == 'phi' else j.args[1:]
    return False


def walks(c, f, L, pair):
    """positions counted through stay below the recorded size of the array"""
    sizes = None
    for i in f.instrs():
        if skeleton(f, i):
            continue
        for what, addr, size in accesses(f, L, i):
            b, st = gep_parts(f, addr)
            if f_op(f, b) != 'load':
                continue
            g = f.ins[b[1]]
            tag = (L.place(g.args[0]) or [None])[-1]
            if tag not in pair:
                continue
            rel = L.gep(st)
            moved = 'mem' in what and any(a is not None and str(pair[tag]) in str(field_of(L, f, a)) for a in size)
            if not moved and not any(counted(f, L, a) for a in rel if a is not None):
                continue
            if sizes is None:
                sizes = [j for j in f.instrs() if j.op == 'load' and (L.place(j.args[0]) or [None])[-1] in pair.values()]
            k = L.addrkey(g.args[0])
            forms = []
            for j in sizes:
                if (L.place(j.args[0]) or [None])[-1] == pair[tag] and f.dominates(j, i) and same_record(k, L.addrkey(j.args[0])):
                    for v in [j.v] + [u.v for u in f.uses.get(j.v, ()) if u.op == 'and']:
                        if L.lin(v) not in forms:
                            forms.append(L.lin(v))
            if not forms:
                continue             # ends at an end mark, or at a number of elements kept elsewhere
            c.ok('walk-fits', at=f.where(i))
            end = add(rel, size)
            if tag == 'mr_struct_param_t.fields' and 'mem' in what:
                end = add(end, C(-8))     # blocks of fields are moved with the end mark that follows them
            if not any(L.prove(add(z, end, -1), i.blk) for z in forms):
                c.report('%s:%s' % (f.name, what), 'walk-fits', f.where(i), '%s up to byte %s of %s, not shown to stay below its recorded size' % (what, lin.show(end), tag))


def unwrapped(c, f, L, alloc):
    """sizes of allocations made from a greatest value found in the data, or from a number that was read, are not computed in a narrower type that wraps"""
    for i in f.calls():
        k = alloc.kind(f, i)
        if k not in ('calloc', 'realloc'):
            continue
        for x in i.args[3:]:
            if f_op(f, x) not in ('zext', 'sext'):
                continue
            s = f.ins[f.ins[x[1]].args[0][1]] if f.ins[x[1]].args[0][0] == 'i' else None
            if s is None or s.op not in ('add', 'mul', 'shl') or s.ty != 'i32':
                continue
            for a in L.lin(s.v):
                if a is None:
                    continue
                read = False
                if f_op(f, a) == 'load':
                    b, st = gep_parts(f, f.ins[a[1]].args[0])
                    read = f_op(f, b) == 'alloca' and any(u.op in ('call', 'invoke') and not (f.callee(u) or '').startswith('llvm.') for u in f.uses.get(b, ()))
                if read or any(L.maximum(t) == a for t in {y for y in map(lambda j: (L.place(j.args[0]) or [None])[-1], [j for j in f.instrs() if j.op == 'load']) if y}):
                    c.report('%s:wrap' % f.name, 'access-fits', f.where(i), 'the size of the block, %s, is computed in 32 bits and may wrap' % lin.show(L.lin(s.v)))


def field_of(L, f, a):
    if isinstance(a, tuple) and a[0] == 'B':
        a = a[1]
    if isinstance(a, tuple) and a[0] == 'L' and a[2]:
        return a[2][-1]
    if isinstance(a, tuple) and f_op(f, a) == 'load':
        return (L.place(f.ins[a[1]].args[0]) or [None])[-1]
    return None


def same_record(a, b):
    if a[0] == 'A' and b[0] == 'A':
        return a[1] == b[1] and a[2][:-1] == b[2][:-1]
    return a[0] != 'A' and b[0] != 'A'


SIZES = ('mr_stype_t.size', 'mr_td_t.size')


def elements(c, f, L, alloc):
    """writes of run-time extent through the data pointer of a node: not more than the size of its field, or what was just allocated for it"""
    cand = None
    for i in f.instrs():
        for what, addr, size in accesses(f, L, i):
            if 'read' in what or 'source' in what:
                continue
            b, st = gep_parts(f, addr)
            g = f.ins.get(b[1]) if b[0] == 'i' else None
            if g is None or g.op != 'load' or (L.place(g.args[0]) or [None])[-1] != 'mr_ptrdes_t.data':
                continue
            end = add(L.gep(st), size)
            if set(end) == {None}:
                continue
            c.ok('element-room', at=f.where(i))
            if cand is None:
                cand = []
                for j in f.instrs():
                    if j.op == 'load' and (L.place(j.args[0]) or [None])[-1] in SIZES and j.v not in cand:
                        cand.append(j.v)
                    elif j.op in ('phi', 'select') and j.ty in ('i64', 'i32'):
                        cand.append(j.v)
                cand = [v for v in cand if element_size(f, L, v, alloc)]
            if not any(L.prove(add(L.lin(v), end, -1), i.blk) for v in cand):
                c.report('%s:%s' % (f.name, what), 'element-room', f.where(i), '%s up to byte %s of a field, not shown to stay within its size or what was allocated for it' % (what, lin.show(end)))


def element_size(f, L, v, alloc, seen=None):
    """the value is the size of the field, zero, or on a way through an allocation for the node not more than what was allocated"""
    seen = set() if seen is None else seen
    if v in seen:
        return True
    seen.add(v)
    if v[0] == 'c':
        return int(v[1]) == 0
    if v[0] != 'i':
        return False
    i = f.ins[v[1]]
    if i.op in ('zext', 'sext', 'trunc', 'freeze'):
        return element_size(f, L, i.args[0], alloc, seen)
    if i.op == 'load':
        return (L.place(i.args[0]) or [None])[-1] in SIZES
    if i.op == 'select':
        return all(element_size(f, L, x, alloc, seen) for x in i.args[1:])
    if i.op != 'phi':
        return False
    for x, blk in i.args:
        if element_size(f, L, x, alloc, seen):
            continue
        ok = False
        for s in f.calls():
            if alloc.is_alloc(f, s) and s.blk in f.dom.get(blk, ()) and any(u.op == 'store' and u.args[0] == s.v and (L.place(u.args[1]) or [None])[-1] == 'mr_ptrdes_t.data' and u.blk in f.dom.get(blk, ()) for u in f.uses.get(s.v, ())):
                cap = L.capacity(s.v)
                ok = ok or cap is not None and L.prove(add(cap, L.lin(x), -1), blk)
        if not ok:
            return False
    return True


def same_place(L, f, k, tag, at):
    """atom of an earlier load of field tag of the object named k, not overwritten before instruction at"""
    if tag not in L.stored:
        return ('L', k[1], k[2] + (tag,)) if k[0] == 'A' else ('L', k, (tag,))
    want = ('A', k[1], k[2] + (tag,)) if k[0] == 'A' else ('A', k, (tag,))
    for i in f.instrs():
        if i.op == 'load' and f.dominates(i, at) and L.addrkey(i.args[0]) == want and not L.overwritten(i, at, tag):
            return L.loadkey(i)
    return ('none', str(k))


def contract(c, p, f, L):
    """decoders of a text of known length: the destination has room for that many bytes and an end; every caller provides that room"""
    tag = 'mr_substr_t.length'
    sd = substr_dst(f)
    if sd:
        cap = L.capacity
        L.capacity = lambda v: {('L', ('a', sd[0]), (tag,)): 1, None: 1} if v == ('a', sd[1]) else cap(v)
    for i in f.calls():
        t = p.defined.get(f.callee(i) or '')
        s = substr_dst(t) if t else None
        if not s:
            continue
        k = L.addrkey(i.args[s[0]])
        need = {same_place(L, f, k, tag, i): 1, None: 1}
        room = L.room(i.args[s[1]], L.capacity)
        c.ok('decoder-room', at=f.where(i))
        if room is None or not L.prove(add(room, need, -1), i.blk):
            c.report('%s:%s' % (f.name, scope.base(t.name)), 'decoder-room', f.where(i), '%s may write %s bytes, the destination has %s' % (t.name, lin.show(need), lin.show(room) if room else 'no known size'))


def kept(c, p, f, L, ranges):
    """every store to a field with a declared range keeps it"""
    for i in f.instrs():
        if i.op != 'store':
            continue
        t = L.place(i.args[1])
        if t and t[-1] in ranges:
            lo, hi = ranges[t[-1]]
            v = L.lin(i.args[0])
            c.ok('range-kept', at=f.where(i))
            if not L.prove(add(C(hi), v, -1), i.blk):
                c.report('%s:%s' % (f.name, t[-1]), 'range-kept', f.where(i), '%s is set to %s, not shown to stay within %d' % (t[-1], lin.show(v), hi))
