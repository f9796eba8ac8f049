"""Every comparison function of the library (those handed to a collection, a sort or a search, and the ones they delegate to) is
unfolded into a decision tree over terms read from either element (lib/order.py), once per kind of value where it looks at the kind, and the
tree is tabulated over representative positions of the quantities it compares. The table must be a total preorder, like must be compared with
like, and the hash function handed over together with it must depend only on what makes two elements equal. A comparison whose terms the
domain cannot express is counted as not judged."""
import collections, itertools, zlib
import kinds, order
from order import X, Y, S, Tree, Space, Eval, Undecided, Uncovered, sides, mirror, canon, bare, show, sgn
from par import pmap

PTR = 'mr_ptr_t'


def isptr(t):
    return '*' in t or PTR in t


def base(t):
    return t.replace('const ', '').replace(' const', '').strip()


def comparators(p):
    """functions of two elements of one type that return a sign: handed over as comparison function, or called by one on parts of both"""
    sig = [n for n, f in p.defined.items() if f.ditypes and f.ditypes[0] == 'int' and len(f.ditypes) == 4 and base(f.ditypes[1]) == PTR
           and base(f.ditypes[2]) == PTR and base(f.ditypes[3]) == 'void*' and p.mine(f)]
    return sig


def hashes(p):
    return {n for n, f in p.defined.items() if f.ditypes and len(f.ditypes) == 3 and base(f.ditypes[1]) == PTR and base(f.ditypes[2]) == 'void*'
            and 'hash' in str(f.ditypes[0])}


def tagged(p, name):
    f = p.defined[name]
    return {order.Run(p, None, {}, []).tag(f, i) for i in f.instrs() if i.op == 'load'} - {None}


class Judge:
    def __init__(self, p):
        self.p = p
        self.info = order.Info(p)

    def args(self, name):
        n = len(self.p.defined[name].ditypes) - 1
        return [('p', X, 0), ('p', Y, 0)] + [('p', S, 0)] * (n - 2)

    def tree(self, name, bind, args=None):
        return Tree(self.p, self.info, name, args or self.args(name), bind)

    def htree(self, name, bind, args=None):
        return Tree(self.p, self.info, name, args or [('p', X, 0), ('p', S, 0)], bind)

    def space(self, *trees, cap=900):
        terms = [t for tr in trees for t in tr.terms]
        sp = Space([], cap)
        sp = Space(terms, cap)
        for tr in trees:
            for a, b, w in tr.subs:
                pass
        return sp

    def table(self, tree, sp, leafval):
        xs = [a for a in sp.keys if 'x' in sides(a)]
        ss = [a for a in sp.keys if not sides(a)]
        vecs = list(itertools.product(*(sp.dom[a] for a in xs)))
        dicts = [dict(zip(xs, v)) for v in vecs]
        for sv in itertools.product(*(sp.dom[a] for a in ss)):
            s = dict(zip(ss, sv))
            yield xs, dicts, s

    def sign(self, tree, ev):
        lf = tree.leaf(lambda c: ev.int(c) & 1)
        v = sgn(ev.int(lf[1]), 32)
        return (v > 0) - (v < 0)

    def judge(self, name, bind, hashf=None, cap=250, hargs=None, cargs=None, hleaf=None):
        """list of (rule, function, instruction or None, text), obligations"""
        out, n = [], collections.Counter()
        t = self.tree(name, bind, cargs)
        n['paths'] = t.leaves
        f0 = self.p.defined[name]
        for (a, b), (same, f, i) in t.pairs.items():
            n['like'] += 1
            if not same:
                out.append(('like-with-like', f, i, 'compares %s of one element with %s of the other' % (show(a), show(b))))
        ht = self.htree(hashf, bind, hargs) if hashf else None
        sp = self.space(*([t] + ([ht] if ht else [])), cap=cap)
        if not any('x' in sides(a) for a in sp.keys):
            raise Undecided('compares nothing')
        seen = set()
        for xs, ds, s in itertools.islice(self.table(t, sp, None), 9):
            N = len(ds)
            n['positions'] += N
            sg = [[0] * N for _ in range(N)]
            for a in range(N):
                for b in range(N):
                    sg[a][b] = self.sign(t, Eval(sp, ds[a], ds[b], s))
            n['table'] += N * N
            sc = [sum(1 for b in range(N) if sg[b][a] < 0) for a in range(N)]
            for a in range(N):
                for b in range(N):
                    w = None
                    if sg[a][b] != -sg[b][a]:
                        w = ('antisymmetric', 'says %s of two elements and %s of the same two the other way round' % (WORD[sg[a][b]], WORD[sg[b][a]]), (a, b))
                    elif sg[a][b] != (sc[a] > sc[b]) - (sc[a] < sc[b]):
                        c = next((c for c in range(N) if sg[a][c] <= 0 and sg[c][b] <= 0 and (sg[a][b] > 0 or sg[a][b] == 0 and (sg[a][c] < 0 or sg[c][b] < 0))), None)
                        if c is not None:
                            w = ('transitive', 'puts a first element before or level with a second and the second with a third, but the first %s the third'
                                 % ('after' if sg[a][b] > 0 else 'level with'), (a, c, b))
                    if w and w[0] not in seen:
                        seen.add(w[0])
                        out.append((w[0], f0, None, w[1] + ': ' + self.words(xs, [ds[q] for q in w[2]])))
            if ht is not None:
                hv = []
                for a in range(N):
                    ev = Eval(sp, ds[a], ds[a], s)
                    lf = ht.leaf(lambda c: ev.int(c) & 1)
                    hv.append(self.hash(hleaf(lf) if hleaf else lf[1], ev))
                n['hash'] += N
                for a in range(N):
                    for b in range(N):
                        if (sg[a][b] == 0 and hv[a] != hv[b] or hv[a] is None and sg[a][a] == 0) and 'hash' not in seen:
                            seen.add('hash')
                            out.append(('hash-agrees', self.p.defined[hashf], None, 'two elements that %s finds equal are hashed differently: %s' %
                                        (f0.name, self.words(xs, (ds[a], ds[b])))))
        return out, n

    def hash(self, t, ev):
        try:
            return ev.val(t)
        except Uncovered as e:
            return None     # bytes the comparison does not look at

    def words(self, xs, ds):
        diff = [a for a in xs if len({str(d[a]) for d in ds}) > 1] or xs[:1]
        return '; '.join('%s = %s' % (show(a)[:60], ' / '.join(POS(d[a]) for d in ds)) for a in diff[:4])


def POS(v):
    if isinstance(v, tuple):
        return {'n1': 'nan', 'n2': 'another nan', '+0': '0.0', '-0': '-0.0', 'a': '-1.0', 'b': '1.0'}.get(v[1], str(v[1]))
    return str(v)


WORD = {0: '"equal"', 1: '"after"', -1: '"before"'}


def binds(p, K, names):
    """bindings under which a function that looks at the kind of a value is unfolded"""
    out = []
    val = K.val
    for k in val:
        if k in ('END_ANON_UNION', 'LAST'):
            continue
        auxs = list(kinds.INTS) if k in ('ENUM', 'BITFIELD') else [None]
        for a in auxs:
            b = {(s, 'mr_type'): val[k] for s in ('mr_ptrdes_t', 'mr_stype_t', 'mr_td_t')}
            b.update({(s, 'mr_type_aux'): val[a] if a else 0 for s in ('mr_ptrdes_t', 'mr_stype_t')})
            if a:
                b[('mr_enum_param_t', 'size_effective')] = kinds.INTS[a][0]
            out.append(((k, a), b))
    return out


LOOPS = ('STRUCT', 'ARRAY', 'POINTER', 'UNION', 'ANON_UNION', 'NAMED_ANON_UNION')
NODE, LIST = 'mr_ptrdes_t', 'mr_ra_ptrdes_t'
STRUCT_CMP, STRUCT_HASH = 'mr_cmp_structs', 'node_hash'
NONNULL = ((NODE, 'fdp'), ('mr_stype_t', 'tdp'), (LIST, 'ra'))
GENERIC = ('mr_generic_cmp', 'mr_generic_hash')


def run(c):
    p = c.prog('plain')
    c.rule('like-with-like', 'wherever what one element holds meets what the other holds, in a comparison or a difference, it is the same quantity of both')
    c.rule('antisymmetric', 'swapping the two elements swaps the answer')
    c.rule('transitive', 'the answers over all representative positions of the compared quantities are those of one ranking; differences that wrap, '
           'not-a-number and quantities that are looked at for some elements only included')
    c.rule('hash-agrees', 'two elements the comparison finds equal get the same value from every hash function handed over together with it: each quantity or byte '
           'the hash depends on is one that equality fixes (two zeros and two not-a-numbers are different bytes)')
    c.rule('pairs', 'hash and comparison functions handed over together')
    c.rule('comparisons', 'comparison functions judged, once per kind of value where they look at the kind')
    c.rule('not-judged', 'comparison functions whose terms the order domain cannot express')
    C = set(comparators(p))
    H = hashes(p)
    two = [n for n, f in p.defined.items() if f.ditypes and f.ditypes[0] == 'int' and len(f.ditypes) == 3 and '*' in f.ditypes[1]
           and base(f.ditypes[1]) == base(f.ditypes[2]) and p.mine(f) and not n.startswith('wit_')]
    pairs = collections.defaultdict(set)
    for f in p.defined.values():
        for i in f.calls():
            fs = [a[1] for a in i.args if isinstance(a, tuple) and a[0] == 'F']
            for b in fs:
                if b in C:
                    pairs[b] |= {a for a in fs if a in H}
    c.require(all(g in p.defined for g in GENERIC), 'generic comparison and hash')
    pairs[GENERIC[0]].add(GENERIC[1])
    c.require(STRUCT_CMP in p.defined and STRUCT_HASH in p.defined, 'comparison and hash of whole data')
    K = kinds.Kinds(p)
    size = [int(st[2]) for i in p.defined[STRUCT_CMP].instrs() if i.op == 'getelementptr' for st in i.raw['g'] if st[0] == 'x' and int(st[2]) > 16]
    c.require(size, 'node size in ' + STRUCT_CMP)
    nsize = max(set(size), key=size.count)
    jobs = []
    for n in sorted(C) + sorted(two):
        per = (NODE, 'mr_type') in tagged(p, n)
        hs = sorted(pairs.get(n, ())) or [None]
        nn = {('nonnull', 'args'): 1} if n in two else {}
        if n == STRUCT_CMP:
            hs = [STRUCT_HASH]
        if not per:
            jobs += [(n, h, None, nn) for h in hs]
            continue
        for kd, b in binds(p, K, None):
            b = dict(b)
            b.update(nn)
            b.update({('nonnull', q): 1 for q in NONNULL})
            if n == STRUCT_CMP:
                b[(NODE, 'idx')] = 1
                b[(LIST, 'size')] = nsize * (3 if 'COMPLEX' not in kd[0] else 2)
            else:
                b = {k: v for k, v in b.items() if k != ('nonnull', (NODE, 'fdp'))}
            jobs += [(n, None if kd[0] in LOOPS else h, kd, b) for h in hs]
    J = Judge(p)
    post = p.enumval.get('MR_DFS_POST_ORDER')
    c.require(post is not None, 'MR_DFS_POST_ORDER')

    def one(job):
        k, r = one_(job)
        return k, r if isinstance(r, str) else ([(q[0], q[1].name, i_of(q), q[3]) for q in r[0]], r[1])

    def i_of(q):
        return q[2].id if q[2] is not None else None

    def one_(job):
        n, h, kd, b = job
        try:
            cargs = [('p', X, 0), ('p', Y, 0)] if n in two else None
            if h == STRUCT_HASH:
                hargs = [('p', X, 0), ('c', 1), ('c', 0), ('c', post), ('p', S, 0)]
                return job[:3], J.judge(n, b, h, cargs=cargs, hargs=hargs, hleaf=lambda lf: lf[2][-1][1] if lf[2] else ('c', 0))
            return job[:3], J.judge(n, b, h, cargs=cargs)
        except Undecided as e:
            return job[:3], str(e)
    c.touched = set()
    for (n, h, kd), r in pmap(one, jobs):
        k = ' of kind ' + kd[0] + (' of ' + kd[1] if kd[1] else '') if kd else ''
        if isinstance(r, str):
            c.ok('not-judged')
            c.notes.append('not judged: %s%s: %s' % (n, k, r[:100]))
            continue
        c.touched |= {n} | ({h} if h else set())
        out, cnt = r
        c.ok('comparisons')
        c.ok('like-with-like', cnt['like'])
        c.ok('antisymmetric', cnt['table'])
        c.ok('transitive', cnt['positions'])
        if h:
            c.ok('pairs')
            c.ok('hash-agrees', cnt['hash'])
        c.sample('%s%s%s: %d paths, %d representative elements' % (n, k, ' with ' + h if h else '', cnt['paths'], cnt['positions']))
        for rule, f, i, t in out:
            f = p.defined[f]
            i = f.ins[i] if i is not None else None
            c.report('%s:%s%s' % (rule, f.name, ':' + kd[0] if kd else ''), rule, f.where(i), '%s%s %s' % (f.name, ' (elements%s)' % k if k else '', t))
    c.floor('comparisons', 110)
    c.floor('pairs', 45)
    c.floor('like-with-like', 200)
    for n in GENERIC[:1] + (STRUCT_CMP, 'mr_hashed_string_cmp'):
        c.require(n in c.touched, n + ' can be judged')
