"""Who-may-call analysis: no function of the library calls or takes the address of a libc allocator except the two
default hook implementations (the functions stored in the static initialiser of the hook record) and the generated
scanner skeletons' work buffers; every call through a hook-typed pointer loads the pointer from the configured hook
record at the moment of the call; and blocks never cross between the hooks and a foreign allocator
(libxml2, backtrace_symbols): what a foreign allocator returned is never given to the hook that frees or resizes, and
what the hooks returned is never given to a foreign release function."""
from ir import T, leaves, gep_parts
import fail

DENY = {'malloc', 'calloc', 'realloc', 'reallocarray', 'free', 'cfree', 'strdup', 'strndup', '__strdup', '__strndup', 'wcsdup',
        'asprintf', 'vasprintf', '__asprintf_chk', '__vasprintf_chk', 'memalign', 'aligned_alloc', 'posix_memalign', 'valloc', 'pvalloc',
        'open_memstream', 'getline', 'getdelim', 'sbrk', 'brk', 'mmap', 'mremap', 'xmlMalloc', 'xmlRealloc', 'xmlStrdup', 'xmlStrndup',
        'xmlMemMalloc', 'xmlMemFree', 'g_malloc', 'mr_calloc', 'mr_realloc', 'mr_free'}
FOREIGN_NEW = {'backtrace_symbols', 'xmlGetProp', 'xmlNodeGetContent', 'xmlNodeListGetString', 'xmlDocDumpMemory', 'xmlBufferContent', 'xmlStrdup',
               'xmlNewDoc', 'xmlNewNode', 'xmlParseMemory', 'realpath', 'get_current_dir_name', 'strdup', 'strndup', 'malloc', 'calloc', 'realloc'}
FOREIGN_FREE = {'free', 'xmlFreeDoc', 'xmlFreeNode', 'xmlFree', 'cfree'}


def sources(f, o, seen=None):
    """call instructions a value may come from inside f (through phis, selects, casts, locals)"""
    seen = set() if seen is None else seen
    if o in seen:
        return set()
    seen.add(o)
    r = set()
    for l in leaves(o):
        if l[0] != 'i':
            continue
        i = f.ins[l[1]]
        if i.op in ('call', 'invoke'):
            r.add(i.id)
        elif i.op == 'phi':
            for a in i.args:
                r |= sources(f, a[0], seen)
        elif i.op == 'select':
            for a in i.args[1:]:
                r |= sources(f, a, seen)
        elif i.op in ('bitcast', 'getelementptr'):
            r |= sources(f, i.args[0], seen)
        elif i.op == 'load':
            base, steps = gep_parts(f, i.args[0])
            if base[0] == 'i' and f.ins[base[1]].op == 'alloca':
                for u in f.uses.get(base, ()):
                    if u.op == 'store' and u.args[1] == i.args[0]:
                        r |= sources(f, u.args[0], seen)
    return r


def origin(p, A, f, i, seen):
    """what a call result is: {'hook'} or names of external functions, through wrapper returns"""
    if A.kind(f, i):
        return {'hook'}
    n = f.callee(i)
    if n is None:
        return set()
    g = p.defined.get(n)
    if g is None:
        return {n}
    if n in seen:
        return set()
    seen = seen | {n}
    r = set()
    for j in g.instrs():
        if j.op == 'ret' and j.args:
            for s in sources(g, j.args[0]):
                r |= origin(p, A, g, g.ins[s], seen)
    return r


def run(c):
    p = c.prog('plain')
    A = fail.Alloc(p)
    c.rule('no-foreign-allocator', 'no reference to a libc allocation or release function outside the default hook implementations')
    c.rule('hook-loaded-at-call', 'a call through a hook-typed pointer loads it from the configured record')
    c.rule('no-crossing', 'blocks never cross between the hooks and a foreign allocator')
    c.rule('hook-defaults', 'the static initialiser of the hook record names the default implementations')
    # default implementations: functions in the initialiser of the hook record
    lay = p.layouts.get('mr_mem_t') or p.layouts.get('struct.mr_mem_t')
    conf = p.globals.get('mr_conf')
    c.require(conf and conf.get('init'), 'the library configuration record')
    defaults = set()
    for o, (n, cc) in p.ginit('mr_conf').items():
        for l in leaves(cc):
            if l[0] == 'F' and l[1] in p.defined:
                d = p.defined[l[1]]
                sig = '%s (%s)' % (d.rty, ', '.join(d.raw['aty']))
                if sig in (fail.CALLOC, fail.REALLOC, fail.FREE):
                    defaults.add(l[1])
                    c.ok('hook-defaults')
    c.floor('hook-defaults', 3)
    # libc use inside the defaults, and in functions only they call
    priv = set(defaults)
    ch = True
    while ch:
        ch = False
        for n, f in p.defined.items():
            if n not in priv and f.local and not f.taken:
                cs = p.callers.get(n, [])
                if cs and all(g.name in priv for g, _ in cs):
                    priv.add(n)
                    ch = True
    positive = 0
    for n, f in p.defined.items():
        if n.startswith('wit_'):
            continue
        gen = f.file.endswith(('.lex.c', '.tab.c')) and n.startswith('mr_') and ('yy' in n or n.endswith(('alloc', 'free', 'parse')))
        for i in f.instrs():
            refs = set()
            for o in f.operands(i):
                for l in leaves(o):
                    if l[0] in ('F', 'g'):
                        refs.add(l[1])
            bad = sorted(x for x in refs if x in DENY or x in defaults)
            c.ok('no-foreign-allocator')
            if not bad:
                continue
            if n in priv and not (set(bad) & defaults):
                positive += 1
                continue
            if f.file.endswith('.lex.c') and n.startswith('mr_'):
                positive += 1
                continue        # flex: yyalloc/yyrealloc/yyfree
            if f.file.endswith('.tab.c') and bad == ['free'] or f.file.endswith('.tab.c') and bad == ['malloc']:
                # bison parser stack growth
                if n.endswith('_parse'):
                    positive += 1
                    continue
            cal = f.callee(i)
            if bad == ['free'] and cal == 'free':
                src = sources(f, i.args[0])
                if src and all(f.callee(f.ins[s]) == 'backtrace_symbols' for s in src):
                    c.ok('no-crossing')
                    continue
            c.report('%s:%s' % (f.name, ','.join(bad)), 'no-foreign-allocator', i.where(),
                     '%s %s %s, bypassing the configured memory hooks' % (f.name, 'calls' if cal in bad else 'takes the address of', ', '.join(bad)))
    c.require(positive >= 3, 'the libc calls inside the default hook implementations (positive example of the rule)')
    # globals holding allocators
    for n, g in p.globals.items():
        for o, sz, cc in g.get('init', []):
            for l in leaves(T(cc)):
                if l[0] == 'F' and (l[1] in DENY) and not (n == 'mr_conf' and l[1] in defaults):
                    c.report('global %s:%s' % (n, l[1]), 'no-foreign-allocator', n, 'table %s holds the address of %s' % (g.get('dn', n), l[1]))
    # hook calls
    for n, f in p.defined.items():
        for i in f.calls():
            fty = i.raw.get('fty')
            k = A.kind(f, i)
            if k and not f.callee(i):
                c.ok('hook-loaded-at-call')
                if len(c.samples) < 8:
                    c.sample('%s hook call at %s' % (k, i.where()))
                if k in ('free', 'realloc'):
                    arg = i.args[3]
                    for s in sources(f, arg):
                        c.ok('no-crossing')
                        for t in sorted(origin(p, A, f, f.ins[s], frozenset()) & FOREIGN_NEW):
                            c.report('%s:%s->%s' % (f.name, t, k), 'no-crossing', i.where(), 'block returned by %s is passed to the %s hook' % (t, k))
                # recorded location is informative only
            elif fty in (fail.CALLOC, fail.REALLOC, fail.FREE) and i.raw['c'][0] != 'F':
                # a hook-typed pointer from elsewhere
                if n in p.defined and not f.file.endswith(('.tab.c', '.lex.c')):
                    c.report('%s:stale-hook' % f.name, 'hook-loaded-at-call', i.where(), 'memory hook is called through a copy, not through the configured record')
            cal = f.callee(i)
            if cal in FOREIGN_FREE or (cal is None and i.raw['c'][0] == 'i' and strip_global(f, T(i.raw['c'])) == 'xmlFree'):
                for s in (sources(f, i.args[0]) if i.args else ()):
                    c.ok('no-crossing')
                    si = f.ins[s]
                    if 'hook' in origin(p, A, f, si, frozenset()):
                        c.report('%s:hook->%s' % (f.name, cal or 'xmlFree'), 'no-crossing', i.where(), 'block obtained through the hooks is released by %s' % (cal or 'xmlFree'))
    c.floor('hook-loaded-at-call', 60)
    # nobody but user code writes the hook record
    c.rule('hook-record-read-only', 'no library function stores to the hook record')
    for n, f in p.defined.items():
        for i in f.instrs():
            addr = None
            if i.op == 'store':
                addr = i.args[1]
            elif i.op == 'call' and (f.callee(i) or '').startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')):
                addr = i.args[0]
            if addr is None:
                continue
            base, steps = gep_parts(f, addr)
            if base == ('g', 'mr_conf'):
                tags = [p.field_name(s[1], s[2]) for s in steps if s[0] == 'f']
                c.ok('hook-record-read-only')
                if not tags or tags[0] == 'mr_conf_t.mr_mem' or any(t.startswith('mr_mem_t.') for t in tags):
                    c.report('%s:hook-record' % f.name, 'hook-record-read-only', i.where(), 'library code overwrites the configured memory hooks')
    c.floor('hook-record-read-only', 1)


def strip_global(f, o):
    if o[0] == 'i' and f.ins[o[1]].op == 'load' and f.ins[o[1]].args[0][0] == 'g':
        return f.ins[o[1]].args[0][1]
    return None
