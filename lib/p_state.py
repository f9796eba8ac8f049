"""Who-may-write analysis of everything that outlives a call: every store, memory intrinsic and call that may write through its
argument (by callee summaries) whose target is a global or static object, or a record of the type registry, in a function that can
run as part of an operation. Only one-time tables are allowed: written under a flag, from constants and other globals only, never
cleared, with the flag stored after the last entry. Records of the registry are written only while types are registered."""
import scope
from ir import T, gep_parts, leaves

WRITES = {'llvm.memcpy': 0, 'llvm.memset': 0, 'llvm.memmove': 0, 'memcpy': 0, 'memset': 0, 'memmove': 0, 'strcpy': 0, 'strncpy': 0, 'strcat': 0,
          'sprintf': 0, 'snprintf': 0, 'vsnprintf': 0, 'fread': 0, 'xdr_int': 1, 'xdr_opaque': 1, 'xdr_float': 1, 'xdr_double': 1}
HIDDEN = {'strtok', 'setlocale', 'setenv', 'putenv', 'unsetenv', 'localtime', 'gmtime', 'asctime', 'ctime', 'rand', 'srand', 'random', 'srandom',
          'strerror', 'tmpnam', 'signal', 'xmlCleanupParser', 'xmlKeepBlanksDefault', 'xmlSetGenericErrorFunc', 'xmlSubstituteEntitiesDefault',
          'xmlIndentTreeOutput', 'chdir', 'umask', 'fesetround', 'getenv', 'dlclose', 'atexit', 'setbuf', 'setvbuf'}
REGS = {'mr_td_t', 'mr_fd_t', 'mr_ed_t', 'mr_stype_t', 'mr_struct_param_t', 'mr_enum_param_t', 'mr_hashed_string_t', 'mr_func_param_t'}
# the opt-in memo of resolved function names (off unless the program asks for it)
MEMO = {'mr_serialize_func': ('cache', 'ra_fn')}
# public steps of registration: they exist to change the registry
REG_API = ('mr_add_dwarf', 'mr_type_void_fields_impl', 'mr_conf_init')


def kind(n):
    return '.'.join(n.split('.')[:2]) if n.startswith('llvm.') else scope.base(n)


def origins(f, o, seen=None):
    """base objects an address may designate, through phi/select"""
    seen = seen if seen is not None else set()
    b, st = gep_parts(f, o)
    if b in seen:
        return []
    seen.add(b)
    tags = [f.prog.field_name(s[1], s[2]) for s in st if s[0] == 'f']
    if b[0] == 'i':
        i = f.ins[b[1]]
        if i.op == 'phi':
            return [(x, t + tags) for a in i.args for x, t in origins(f, a[0], seen)]
        if i.op == 'select':
            return [(x, t + tags) for a in i.args[1:] for x, t in origins(f, a, seen)]
    return [(b, tags)]


class Writes:
    def __init__(self, p):
        self.p = p
        self.par = {}          # function -> {param: representative instr}
        self.at = {}
        ch = True
        while ch:
            ch = False
            for n, f in p.defined.items():
                for i, o in self.sites(f):
                    for b, tags in origins(f, o):
                        if b[0] == 'a' and b[1] not in self.par.setdefault(n, {}):
                            self.par[n][b[1]] = (i, tags)
                            ch = True

    def sites(self, f):
        """(instr, address) pairs that may be written by this function"""
        for i in f.instrs():
            if i.op == 'store':
                yield i, i.args[1]
            elif i.op in ('atomicrmw', 'cmpxchg'):
                yield i, i.args[0]
            elif i.op in ('call', 'invoke'):
                for t in self.p.targets(f, i):
                    if t in self.p.defined:
                        for k in list(self.par.get(t, ())):
                            if k < len(i.args) and i.args[k][0] not in ('c', 'n'):
                                yield i, i.args[k]
                    elif kind(t) in WRITES and WRITES[kind(t)] < len(i.args):
                        yield i, i.args[WRITES[kind(t)]]


def slice_args(f, o, out, seen, depth=0):
    """function arguments and non-global loads a value depends on"""
    for l in leaves(o):
        if l[0] == 'a':
            out.add(f.param_name(l[1]))
        elif l[0] == 'i' and l not in seen:
            seen.add(l)
            i = f.ins[l[1]]
            if i.op == 'alloca':
                for s in f.uses.get(l, ()):
                    if s.op == 'store' and s.args[1] == l:
                        slice_args(f, s.args[0], out, seen)
                continue
            if i.op in ('call', 'invoke'):
                for a in i.args:
                    slice_args(f, a, out, seen)
                continue
            for a in f.operands(i):
                slice_args(f, a, out, seen)


def controls(f, blk, g):
    """blk only runs when a branch on a load of global g was taken one way"""
    for b in f.dom.get(blk, ()):
        t = f.blocks[b][-1]
        if t.op in ('br', 'switch') and len(f.succs[b]) > 1 and t.args:
            vs, seen = [t.args[0]], set()
            dep = False
            while vs:
                v = vs.pop()
                if v[0] != 'i' or v in seen:
                    continue
                seen.add(v)
                i = f.ins[v[1]]
                if i.op == 'load' and gep_parts(f, i.args[0])[0] == ('g', g):
                    dep = True
                elif i.op in ('icmp', 'trunc', 'zext', 'and', 'or', 'xor', 'phi', 'select', 'freeze'):
                    vs += [a[0] if i.op == 'phi' else a for a in i.args]
            if dep:
                for s in f.succs[b]:
                    if s in f.dom.get(blk, ()) and f.preds[s] == [b]:
                        return True
    return False


def after(f, i):
    """instructions that may run after i"""
    seen, st = set(), [(i.blk, i.idx + 1)]
    while st:
        b, k = st.pop()
        for j in f.blocks[b][k:]:
            yield j
        for s in f.succs[b]:
            if s not in seen:
                seen.add(s)
                st.append((s, 0))


def memo_field(p, f, i, depth=0):
    """the write only fills the hash value kept beside a string, which is always the hash of that string"""
    if i.op == 'store':
        for b, tags in origins(f, i.args[1]):
            return bool(tags) and tags[-1] == 'mr_hashed_string_t.hash_value'
    if i.op in ('call', 'invoke') and depth < 4:
        ts = [t for t in p.targets(f, i) if t in p.defined]
        w = _W[0]
        ks = [(t, k) for t in ts for k in w.par.get(t, ())]
        return bool(ks) and all(memo_field(p, p.defined[t], w.par[t][k][0], depth + 1) for t, k in ks)
    return False


_W = [None]


def taken_by(p):
    m = {}
    for n, f in p.defined.items():
        for i in f.instrs():
            for o in (i.args if i.op != 'phi' else [a[0] for a in i.args]):
                for l in leaves(o):
                    if l[0] == 'F':
                        m.setdefault(l[1], set()).add(n)
    for g, d in p.globals.items():
        for off, sz, k in d.get('init', []) if g not in ('llvm.global_ctors', 'llvm.global_dtors') else ():
            for l in leaves(T(k)):
                if l[0] == 'F':
                    m.setdefault(l[1], set()).add('')
    return m


def run(c):
    p = c.prog('plain')
    c.rule('no-hidden-state', 'no operation writes a global or static object, except one-time tables that always get the same content')
    c.rule('one-time-table', 'a one-time table is written under its flag, from constants only, never cleared, and the flag is stored last')
    c.rule('registry-read-only', 'no operation writes a record of the type registry; descriptors are changed only in local copies')
    c.rule('no-process-state', 'no operation calls a function that changes or depends on hidden state of the process')
    c.rule('init-once', 'the work of the initialiser is entered through an atomic test-and-set')
    W = Writes(p)
    _W[0] = W
    tk = taken_by(p)
    reg = scope.registration(p)
    special = set()
    for g in ('llvm.global_ctors', 'llvm.global_dtors'):
        if g in p.globals:
            for off, sz, k in p.globals[g]['init']:
                for l in leaves(T(k)):
                    if l[0] == 'F':
                        special.add(l[1])
    callers = p.callers
    ops = {}
    for n, f in p.defined.items():
        b = scope.base(n)
        if n in reg or n in special or b in REG_API or b.startswith('_mr_init') or f.raw.get('section'):
            continue
        ops[n] = f
    # helpers only registration uses
    reg_all = scope.reach(p, [n for n in p.defined if scope.base(n) in REG_API or n in special or n in reg])
    opsroots = [n for n, f in ops.items() if n not in reg_all or n.startswith('wit_')] + [n for n, f in ops.items() if not f.local and n in reg_all and not
                (callers.get(n) and all(x.name in reg_all and x.name not in ops for x, _ in callers[n]))]
    live = scope.reach(p, opsroots, tuple(scope.REG_ROOTS) + REG_API)
    nop = 0
    for n in sorted(live):
        f = p.defined[n]
        if n not in ops and n in special:
            continue
        if f.local and tk.get(n) and all(x in reg or x in special for x in tk[n]) and all(x.name in reg or x.name in special or f.taken for x, _ in callers.get(n, [])):
            continue        # a visitor only registration or clean-up uses
        nop += 1
        tables = {}
        for i, o in W.sites(f):
            for b, tags in origins(f, o):
                if b[0] == 'g':
                    g = p.globals[b[1]]
                    c.ok('no-hidden-state')
                    if g.get('const'):
                        # a table declared constant: storing there is a crash, not hidden state; parsers copy from such defaults
                        if i.op == 'store':
                            c.report('%s:%s' % (n, b[1]), 'no-hidden-state', f.where(i), 'stores into the constant object %s' % b[1])
                        continue
                    if g.get('tls'):
                        continue
                    if b[1] in MEMO.get(scope.base(n), ()):
                        continue
                    if (p.defined[n].file.endswith('.tab.c') or f.file.endswith('.tab.c')) and (g.get('dn') or '').startswith('yy'):
                        continue
                    tables.setdefault(b[1], []).append((i, o, tags))
                elif b[0] == 'i' and f.ins[b[1]].op == 'alloca':
                    pass
                elif tags or b[0] == 'i':
                    rt = [t for t in tags if t.split('.')[0] in REGS]
                    if memo_field(p, f, i):
                        rt = []
                    if rt and b[0] != 'a':
                        c.ok('registry-read-only')
                        src = f.ins[b[1]] if b[0] == 'i' else None
                        c.report('%s:%s' % (n, rt[-1]), 'registry-read-only', f.where(i), 'writes %s of a registered descriptor%s' % (
                            rt[-1], ' obtained from ' + (f.callee(src) or src.op) if src is not None else ''))
        # writes through parameters whose arguments are registry records are charged to the call (W.sites propagates them with tags of the callee)
        for i in f.calls():
            for t in p.targets(f, i):
                for k, (wi, wt) in W.par.get(t, {}).items():
                    if k >= len(i.args) or memo_field(p, p.defined[t], wi) or not any(x.split('.')[0] in REGS for x in wt):
                        continue
                    for b, tags in origins(f, i.args[k]):
                        c.ok('registry-read-only')
                        if b[0] == 'i' and f.ins[b[1]].op == 'load' or b[0] == 'i' and f.ins[b[1]].op in ('call', 'invoke') and not fresh(p, f, f.ins[b[1]]):
                            c.report('%s:%s:arg%d' % (n, scope.base(t), k), 'registry-read-only', f.where(i), '%s writes %s of the registered descriptor passed to it' % (t, wt[-1]))
        for g, ws in sorted(tables.items()):
            dn = p.globals[g].get('dn') or g
            c.ok('one-time-table')
            key = '%s:%s' % (scope.base(n), dn)
            first = ws[0][0]
            scalar = p.globals[g]['size'] <= 8
            flags = [h for h in p.globals if not p.globals[h].get('const') and p.globals[h]['size'] <= 8 and not p.globals[h].get('decl')
                     and all(controls(f, i.blk, h) for i, o, t in ws)] if not scalar else ([g] if all(controls(f, i.blk, g) for i, o, t in ws) else [])
            if not p.globals[g].get('local') or not flags:
                c.report(key, 'no-hidden-state', f.where(first), 'an operation writes the %s object %s, so it depends on what ran before and on other threads' % (
                    'static' if p.globals[g].get('local') else 'global', dn))
                continue
            for i, o, t in ws:
                out = set()
                if i.op == 'store':
                    slice_args(f, i.args[0], out, set())
                    slice_args(f, i.args[1], out, set())
                    if out:
                        c.report(key, 'one-time-table', f.where(i), 'an entry of the one-time table %s depends on %s' % (dn, ', '.join(sorted(out))))
                else:
                    cal = f.callee(i) or 'a callback'
                    c.report(key, 'one-time-table', f.where(i), 'the one-time object %s is %s while other threads may already read it' % (
                        dn, 'cleared or copied over by ' + cal if cal.startswith('llvm.mem') or cal.startswith('mem') else 'filled in place by ' + cal))
            if not scalar:
                fl = flags[0]
                for s in f.instrs():
                    if s.op == 'store' and gep_parts(f, s.args[1])[0] == ('g', fl):
                        ids = {id(i) for i, o, t in ws}
                        for j in after(f, s):
                            if id(j) in ids:
                                c.report(key, 'one-time-table', f.where(s), 'the flag %s is set before the table %s is complete' % (p.globals[fl].get('dn') or fl, dn))
                                break
        for i in f.calls():
            t = f.callee(i)
            if t and t not in p.defined:
                c.ok('no-process-state')
                if scope.base(t) in HIDDEN:
                    c.report('%s:%s' % (n, t), 'no-process-state', f.where(i), 'calls %s, which works on hidden state of the process' % t)
    # external variables of other libraries
    for g, d in p.globals.items():
        if d.get('decl') and g not in ('stderr', 'stdout', 'stdin'):
            c.ok('no-process-state')
    # initialiser entered once
    init = p.defined.get('mr_conf_init')
    c.require(init is not None, 'the initialiser of the registry')
    rmw = [i for i in init.instrs() if i.op in ('atomicrmw', 'cmpxchg')]
    work = [i for i in init.calls() if f.callee(i) != 'x' and any(t in p.defined for t in p.targets(init, i))]
    c.require(work, 'registration work in the initialiser')
    for i in work:
        c.ok('init-once')
        if not any(init.dominates(r, i) and guarded(init, r, i) for r in rmw):
            c.report('mr_conf_init:once', 'init-once', init.where(i), 'registration work can run twice: it is not behind an atomic test-and-set')
            break
    c.counts['operation functions'] = nop
    c.sample('%d functions run as part of operations; %d only during registration' % (nop, len(reg)))
    c.floor('operation functions', 300)
    c.floor('one-time-table', 4)
    c.floor('registry-read-only', 5)


def fresh(p, f, i):
    t = f.callee(i)
    return t is None or 'alloc' in t or t.startswith('mr_strdup')


def guarded(f, r, i):
    """a branch on the result of the atomic operation decides whether i runs"""
    der, ch = {r.v}, True
    while ch:
        ch = False
        for j in f.instrs():
            if j.v not in der and j.op in ('icmp', 'trunc', 'zext', 'and', 'xor', 'or', 'extractvalue', 'phi', 'select') and any(l in der for a in f.operands(j) for l in leaves(a)):
                der.add(j.v)
                ch = True
    for b in f.dom.get(i.blk, ()):
        t = f.blocks[b][-1]
        if t.op == 'br' and t.args and t.args[0] in der and any(s in f.dom[i.blk] and f.preds[s] == [b] for s in f.succs[b]):
            return True
    return False
