"""Path-sensitive nullness dataflow: for every call that can yield NULL - the memory hooks, functions that report failure by
NULL (found by the interprocedural fixpoint), and lookups that return NULL for "not found" (types, fields, enum values,
XML properties) - all paths on which the result is NULL are followed, and no instruction on them may read or write through
that NULL or hand it to a function that dereferences the parameter on every path (summaries computed for the library's own
functions, a table for libc)."""
import nullness
import scope
from par import pmap

EXT_MAY = {'xmlGetProp', 'xmlDocGetRootElement', 'strchr', 'strstr', 'strrchr', 'memchr', 'xmlNodeGetContent', 'getenv', 'bsearch'}


def may_null(p, F):
    """functions some return of which is NULL, beyond those that report failure that way"""
    may = {n for n in F.failing if p.funcs[n].rty == 'ptr'}

    def mn(f, o, seen):
        if o in seen:
            return False
        seen.add(o)
        if o[0] == 'n':
            return True
        if o[0] == 'i':
            i = f.ins[o[1]]
            if i.op == 'phi':
                return any(mn(f, a[0], seen) for a in i.args)
            if i.op == 'select':
                return any(mn(f, a, seen) for a in i.args[1:])
            if i.op == 'call':
                return any(x in may or x in EXT_MAY for x in p.targets(f, i))
        return False
    ch = True
    while ch:
        ch = False
        for n, f in p.defined.items():
            if f.rty == 'ptr' and n not in may:
                if any(i.op == 'ret' and i.args and mn(f, i.args[0], set()) for i in f.instrs()):
                    may.add(n)
                    ch = True
    return may


def collect(p, F):
    may = may_null(p, F)
    out = []
    for n, f in p.defined.items():
        if scope.generated(f):
            continue
        for i in f.calls():
            if i.ty != 'ptr':
                continue
            if F.site(f, i) == 0:
                out.append((n, i.id, 'failure'))
            elif any(x in may or x in EXT_MAY for x in p.targets(f, i)):
                out.append((n, i.id, 'lookup'))
        for i, arm in nullness.null_arms(p, f):
            out.append((n, i.id, 'missing', arm))
    return out


def what(F, f, i):
    if i.op in ('phi', 'select'):
        return 'a conditional value'
    return scope.base(f.callee(i) or F.alloc.kind(f, i) or 'indirect call')


def judge_all(c, p, F, ss):
    S = nullness.param_summaries(p, F.mods)

    def one(s):
        f = p.defined[s[0]]
        if s[2] == 'missing':
            e = nullness.NullArm(p, f, F.mods, f.ins[s[1]], s[3], S)
        else:
            e = nullness.DerefEdge(p, f, F.mods, f.ins[s[1]], 0, S)
        e.go()
        return [(j.id, how, tr) for j, how, tr in e.hits.values()]
    return pmap(one, ss)


def run(c):
    c.rule('failure', 'the NULL of a failed allocation or failed operation is never dereferenced')
    c.rule('lookup', 'the NULL of an unsuccessful lookup is never dereferenced')
    c.rule('missing', 'a pointer that the code itself sets to NULL when something is missing (p = q ? q->x : NULL) is not dereferenced while it is NULL')
    p = c.prog('plain')
    F = c.fail('plain')
    ss = collect(p, F)
    bad = {}
    for s, h in zip(ss, judge_all(c, p, F, ss)):
        f = p.defined[s[0]]
        i = f.ins[s[1]]
        c.ok(s[2])
        if len(c.samples) < 16 and c.counts[s[2]] % 9 == 1:
            c.sample('%s: result of %s followed as NULL' % (i.where(), what(F, f, i)))
        if h:
            bad[s] = h
    if bad:
        p2 = c.prog('inline')
        F2 = c.fail('inline')
        locs = {}
        for s in collect(p2, F2):
            i = p2.defined[s[0]].ins[s[1]]
            if i.loc:
                locs.setdefault(tuple(i.loc[:2]), []).append(s)
        for s, h in bad.items():
            f = p.defined[s[0]]
            i = f.ins[s[1]]
            again = locs.get(tuple(i.loc[:2]) if i.loc else None, [])
            if again and not any(judge_all(c, p2, F2, again)):
                continue
            nm = what(F, f, i)
            for j, how, tr in h:
                j = f.ins[j]
                c.report('%s:%s:%s' % (scope.base(f.name), nm, how), s[2], j.where(),
                         'the result of %s (%s) may be NULL here and is %s' % (nm, i.where(), how), c.path_text(f, tr))
    c.floor('failure', 80)
    c.floor('lookup', 90)
    c.floor('missing', 60)
