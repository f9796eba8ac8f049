"""Interprocedural failure propagation: starting from the memory hooks and the fallible calls into libyaml, libxml2 and the
XDR streams, a least fixpoint finds every function that reports failure and its failing value; then for every call that can
fail, all control-flow paths on which it does fail are followed (path-sensitive dataflow with nullness and constant facts)
to the returns of the calling function, each of which must deliver the calling function's own failing value."""
import fail
import scope
from par import pmap

# calls whose failing value means "not found" to the caller, which carries on by design
LOOKUPS = {
    'mr_serialize_func': 'no symbol name: the address is written instead',
    'mr_ud_foreach': 'the visitor answers whether a discriminator matches',
    'mr_tree_reserve': 'pre-sizing only, growth is checked again on insertion',
}


def is_lookup(p, f, i):
    """an index result that comes with a found flag through a bool pointer, or a named lookup"""
    ts = p.targets(f, i)
    for t in ts:
        g = p.defined.get(t)
        if g is None:
            return False
        if scope.base(t) in LOOKUPS:
            continue
        d = g.ditypes
        if d and d[0] == 'mr_idx_t' and any(x in ('bool*', '_Bool*', 'bool *') for x in d[1:]):
            continue
        return False
    return bool(ts)


def no_channel(F, f):
    """functions whose result type cannot report failure by design: hash values, orderings, printing, debug validation"""
    n = scope.base(f.name)
    d = f.ditypes[0] if f.ditypes else ''
    if d == 'mr_hash_value_t' or F.is_comparator(f):
        return True
    return n.startswith(('mr_print', 'mr_btree_is_valid', 'mr_generic_hash', 'mr_generic_cmp', 'wit_hash', 'wit_cmp', 'wit_print', 'wit_copy2', 'wit_free', 'mr_udo_')) or f.name in fail.DIAG


def sites(p, F):
    reg = scope.registration(p)
    out = []
    for n, f in p.defined.items():
        if scope.generated(f) or f.name in fail.DIAG or n in reg or no_channel(F, f):
            continue
        for i in f.calls():
            v = F.site(f, i)
            if v is not None:
                out.append((n, i.id, v))
    return out


def const_cmp(p, f, i):
    """creation of an indexed collection whose comparator and hash are fixed: allocates nothing"""
    ts = p.targets(f, i)
    return bool(ts) and all(scope.base(t) == 'mr_ic_new' for t in ts)


def judge(p, F, s):
    n, i, v = s
    f = p.defined[n]
    i = f.ins[i]
    if is_lookup(p, f, i):
        return []
    nm = f.callee(i) or F.alloc.kind(f, i) or 'indirect call'
    if not f.uses.get(i.v) and index_checked_by_pointer(p, f, i):
        return []
    if v != 'sret' and not f.uses.get(i.v) and f.callee(i) not in fail.UNTOUCHED:
        return [('dropped', None, '', 'the result of %s is ignored' % scope.base(nm), ())]
    rk = F.ret_kind(f) if n in F.failing else None
    if rk is None:
        return [('dropped', None, '', '%s may fail but %s has no way to report it' % (scope.base(nm), f.name), ())]
    out = []
    for r, ri, tr in F.explore(f, i, v):
        if not fail.fails_with(r, rk):
            out.append(('swallowed', r, ri.where(), 'when %s fails, %s still returns %s' % (
                scope.base(nm), f.name, 'an unknown value' if r is None else r), tr))
    return out


def index_checked_by_pointer(p, f, i):
    """an index-returning growth whose caller tests the grown array's pointer right away instead of the index"""
    ts = [p.defined.get(t) for t in p.targets(f, i)]
    if not ts or not all(t is not None and t.ditypes and t.ditypes[0] in ('unsigned', 'unsigned int') for t in ts):
        return False
    t = f.blocks[i.blk][-1]
    if t.op != 'br' or not t.args or t.args[0][0] != 'i':
        return False
    cmp = f.ins[t.args[0][1]]
    if cmp.op != 'icmp' or cmp.raw['p'] not in ('eq', 'ne'):
        return False
    a = [x for x in cmp.args if x[0] == 'i']
    if len(a) != 1 or ('n',) not in cmp.args:
        return False
    ld = f.ins[a[0][1]]
    return ld.op == 'load' and ld.blk == i.blk and ld.idx > i.idx and ld.ty == 'ptr'


def run(c):
    c.rule('failure-reported', 'every path on which a fallible call fails returns the failing value of the enclosing function')
    bad = {}
    good_inline = None
    p = c.prog('plain')
    F = c.fail('plain')
    ss = sites(p, F)
    for s, o in zip(ss, pmap(lambda s: judge(p, F, s), ss)):
        f = p.defined[s[0]]
        i = f.ins[s[1]]
        c.ok('failure-reported')
        if len(c.samples) < 12:
            c.sample('%s: %s fails with %s' % (i.where(), f.callee(i) or F.alloc.kind(f, i) or 'indirect', s[2]))
        if o:
            bad[s] = o
    # constant-function creations of collections are the one accepted ignored result
    kept = {}
    for s, o in bad.items():
        f = p.defined[s[0]]
        i = f.ins[s[1]]
        if o[0][0] == 'dropped' and const_cmp(p, f, i):
            c.ok('collection created without allocation')
            continue
        if o[0][0] == 'dropped' and cannot_fail_visitor(p, F, f, i):
            continue
        kept[s] = o
    if kept:
        # judge again with local helpers inlined into their callers: a helper that records the failure elsewhere is fine
        p2 = c.prog('inline')
        F2 = c.fail('inline')
        s2 = sites(p2, F2)
        locs = {}
        for s in s2:
            f = p2.defined[s[0]]
            locs.setdefault(tuple(f.ins[s[1]].loc[:2]) if f.ins[s[1]].loc else None, []).append(s)
        for s, o in kept.items():
            f = p.defined[s[0]]
            i = f.ins[s[1]]
            if s[0] not in p2.defined or f.local:
                inst = locs.get(tuple(i.loc[:2]) if i.loc else 0, [])
                if inst and all(s3[0] != s[0] for s3 in inst) and not any(judge(p2, F2, s3) for s3 in inst):
                    c.ok('failure-reported (helper judged in its callers)')
                    continue
            for kind, r, w, text, tr in o:
                c.report('%s:%s:%s' % (scope.base(f.name), scope.base(f.callee(i) or F.alloc.kind(f, i) or 'indirect'), kind), 'failure-reported', i.where(),
                         text + (' (return at %s)' % w if w else ''), c.path_text(f, tr))
    c.floor('failure-reported', 450)
    c.notes.append('fallible calls by design treated as lookups: ' + '; '.join('%s (%s)' % x for x in LOOKUPS.items()))
    c.assumptions.append('type registration (mr_conf_init, mr_add_type, mr_detect_type and what only they call) is outside this property')


def cannot_fail_visitor(p, F, f, i):
    ts = p.targets(f, i)
    for t in ts:
        if not ('foreach' in t or 'walk' in t):
            return False
        vs = [a[1] for a in i.args if a[0] == 'F']
        if len(vs) != 1 or vs[0] not in p.defined or F.can_fail(p.defined[vs[0]]):
            return False
    return bool(ts)
