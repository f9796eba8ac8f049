"""Where does a NULL go: dereferences of a value assumed to be NULL, in the function and in its callees."""
import paths
from fail import FailEdge
from paths import Explorer
from ir import leaves
from par import pmap

# external functions that dereference these parameters unconditionally
EXT_DEREF = {'strlen': (0,), 'strcmp': (0, 1), 'strncmp': (0, 1), 'strcasecmp': (0, 1), 'strncasecmp': (0, 1), 'strchr': (0,), 'strrchr': (0,),
             'strcpy': (0, 1), 'strncpy': (0, 1), 'strcat': (0, 1), 'strstr': (0, 1), 'strtol': (0,), 'strtoul': (0,), 'strtod': (0,), 'strtof': (0,),
             'strtold': (0,), 'sscanf': (0, 1), 'sprintf': (0, 1), 'atoi': (0,), 'xmlAddChild': (0, 1), 'strspn': (0, 1), 'strcspn': (0, 1), 'strpbrk': (0, 1), 'memchr': (0,)}
MEMOPS = ('llvm.memcpy', 'llvm.memmove', 'llvm.memset')


class DerefEdge(FailEdge):
    """explores from a call that yields its failing value; records dereferences of the NULL"""
    max_steps = 12000

    def __init__(self, prog, f, mods, site, val, summ=None):
        super().__init__(prog, f, mods, site, val)
        self.hits = {}
        self.summ = summ or {}

    def is_null(self, st, a):
        root = self.addr_root(a)
        if root[0] == 'n':
            return True
        if root != self.site.v:
            return False        # some other value the path believes NULL: a shape invariant, not this failure
        return self.abs(st, root) == ('=', 0)

    def hit(self, st, i, how):
        if i.id not in self.hits:
            self.hits[i.id] = (i, how, st.trail)

    def on_load(self, st, i, addr):
        if self.is_null(st, addr):
            self.hit(st, i, 'read through')

    def on_store(self, st, i, addr, val):
        if self.is_null(st, addr):
            self.hit(st, i, 'written through')

    def check_args(self, st, i):
        if i is self.site and not getattr(self, 'began', False):
            return
        c = self.f.callee(i)
        if c and c.startswith(MEMOPS):
            n = self.canon(st, i.args[2])
            a = self.abs(st, n)
            if a == ('=', 0):
                return
            for k in ((0,) if c.startswith('llvm.memset') else (0, 1)):
                if self.is_null(st, self.canon(st, i.args[k])):
                    self.hit(st, i, 'passed to ' + c.split('.')[1])
            return
        for t in self.prog.targets(self.f, i):
            for k in self.summ.get(t, EXT_DEREF.get(t, ())):
                if k < len(i.args) and self.is_null(st, self.canon(st, i.args[k])):
                    self.hit(st, i, 'passed to %s, which dereferences it' % t)

    def on_call(self, st, i):
        if not (i is self.site):
            self.check_args(st, i)
        return super().on_call(st, i)


class ParamDeref(Explorer):
    """parameters dereferenced on every path when NULL (so passing NULL always crashes)"""
    cap = 12
    max_steps = 4000

    def __init__(self, prog, f, mods, k, summ):
        super().__init__(prog, f, mods)
        self.k = k
        self.summ = summ
        self.clean = False      # some path reaches a return without dereferencing

    def start(self, st):
        st.env[('a', self.k)] = ('=', 0)

    def bad(self, st, a):
        return self.addr_root(a) == ('a', self.k)

    def on_instr(self, st, i):
        if i.op == 'load' and self.bad(st, self.canon(st, i.args[0])):
            return []
        if i.op == 'store' and self.bad(st, self.canon(st, i.args[1])):
            return []
        if i.op in ('call', 'invoke'):
            c = self.f.callee(i)
            if c and c.startswith(MEMOPS):
                n = self.canon(st, i.args[2])
                if self.constof(st, n):
                    for k in ((0,) if c.startswith('llvm.memset') else (0, 1)):
                        if self.bad(st, self.canon(st, i.args[k])):
                            return []
            for t in self.prog.targets(self.f, i) if c else ():
                for k in self.summ.get(t, EXT_DEREF.get(t, ())):
                    if k < len(i.args) and self.bad(st, self.canon(st, i.args[k])):
                        return []
        return None

    def on_ret(self, st, i, val):
        self.clean = True


def param_summaries(prog, mods):
    """function -> parameters it always dereferences when they are NULL"""
    summ = {}
    todo = [(n, k) for n, f in prog.defined.items() for k in range(f.nargs) if f.raw['aty'][k] == 'ptr' and not f.file.endswith(('.lex.c',))]

    def one(nk):
        n, k = nk
        f = prog.defined[n]
        if not f.uses.get(('a', k)):
            return False
        e = ParamDeref(prog, f, mods, k, summ)
        e.run()
        return not e.clean and not e.overflow
    # two rounds: direct, then through callees
    for _ in range(3):
        ch = False
        left = [nk for nk in todo if nk[1] not in summ.get(nk[0], ())]
        for nk, r in zip(left, pmap(one, left)):
            if r:
                summ.setdefault(nk[0], []).append(nk[1])
                ch = True
        if not ch:
            break
    return {n: tuple(v) for n, v in summ.items()}


class NullArm(DerefEdge):
    """a merge that yields NULL on one of its incoming edges (or a select with a NULL arm): `p = q ? q->x : NULL`"""

    def __init__(self, prog, f, mods, site, arm, summ=None):
        super().__init__(prog, f, mods, site, 0, summ)
        self.arm = arm          # predecessor block of a phi, operand index of a select
        self.began = True

    def go(self):
        f, site = self.f, self.site
        chain = [self.arm if site.op == 'phi' else site.blk]
        while chain[0] != 0 and len(f.preds[chain[0]]) == 1 and f.preds[chain[0]][0] not in chain:
            chain.insert(0, f.preds[chain[0]][0])
        last = chain[-1]
        pure = ('getelementptr', 'bitcast', 'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr')

        def init(st):
            for b in sorted(f.dom[last], key=lambda b: len(f.dom[b])):
                if b in chain:
                    continue
                for i in f.blocks[b]:
                    if i.op in pure:
                        self.execute(st, i)
            for k, b in enumerate(chain):
                for i in f.blocks[b]:
                    if i.op == 'phi' or i is site:
                        continue
                    if i is f.blocks[b][-1]:
                        if b == last:
                            return
                        for s, st2 in self.branch(st, i):
                            if s == chain[k + 1]:
                                st.env, st.can, st.mem = st2.env, st2.can, st2.mem
                                break
                    elif b == last and site.op == 'select' and i.idx > site.idx:
                        return
                    else:
                        self.execute(st, i)
        self.fresh_start = True
        if site.op == 'phi':
            self.run(entry=last, first=len(f.blocks[last]) - 1, init=init)
        else:
            def init2(st):
                init(st)
                c, a = site.args[0], self.arm
                st.env[self.canon(st, c)] = ('=', 1 if a == 1 else 0)
                st.can.pop(site.id, None)
                st.env[site.v] = ('=', 0)
            self.run(entry=last, first=site.idx + 1, init=init2)

    def branch(self, st, t):
        r = super().branch(st, t)
        if self.fresh_start and self.site.op == 'phi' and t.blk == self.arm:
            if not st.ts:
                r = [(s, x) for s, x in r if s == self.site.blk]
                for s, x in r:
                    x.ts = 'go'
        return r

    def phis(self, st, b, pred):
        super().phis(st, b, pred)
        if self.site.op == 'phi' and b == self.site.blk and pred == self.arm and st.ts:
            st.can.pop(self.site.id, None)
            st.env[self.site.v] = ('=', 0)

    def is_null(self, st, a):
        root = self.addr_root(a)
        return root == self.site.v and self.abs(st, root) == ('=', 0)


def null_arms(p, f):
    for i in f.instrs():
        if i.op == 'phi' and i.ty == 'ptr':
            for v, b in i.args:
                if v[0] == 'n':
                    yield i, b
        elif i.op == 'select' and i.ty == 'ptr':
            for k in (1, 2):
                if i.args[k][0] == 'n':
                    yield i, k
