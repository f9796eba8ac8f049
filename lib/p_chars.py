"""What the text formats make of a value.  Every handler of the saving tables of the text formats (found by their type) is propagated
through with its helpers spliced in, in a domain where a quantity that depends on one character of the value is the whole table of its
256 results, so that a branch on the character splits the set of characters that reach the code behind it, and `isprint` and the escape
tables are tables themselves.  What results is, for every character, the text the handler makes of it; it must be one that the
conventions on the reading side (the escape table the reader inverts, the numeric patterns it scans for) take back to the same
character, whatever text comes next.  Numbers: the conversion the writer uses must fit the width, signedness and precision of what is
loaded.  Containers: the text that opens one and the text stored to close it must match.  Nothing is run: loops contribute one turn."""
import re
from ir import T, gep_parts, const_int
from p_wire import closure, globs

ALL = frozenset(range(1, 256))
PRINT = frozenset(range(32, 127))
CT = {0x100: str.isupper, 0x200: str.islower, 0x400: str.isalpha, 0x800: str.isdigit, 0x1000: lambda c: c in '0123456789abcdefABCDEF',
      0x2000: lambda c: c in ' \t\n\v\f\r', 0x4000: lambda c: 32 <= ord(c) < 127, 0x8000: lambda c: 32 < ord(c) < 127,
      1: lambda c: c in ' \t', 2: lambda c: ord(c) < 32 or ord(c) == 127,
      4: lambda c: 32 < ord(c) < 127 and not c.isalnum(), 8: str.isalnum}
CTYPE = tuple(sum(b for b, t in CT.items() if v < 128 and t(chr(v))) for v in range(256))
IDENT = tuple(range(256))
APPEND = {'mr_ra_append_char': 'c', 'mr_ra_append_string': 's', 'mr_ra_printf': 'f'}
INTS = {'INT8': (8, 1), 'UINT8': (8, 0), 'INT16': (16, 1), 'UINT16': (16, 0), 'INT32': (32, 1), 'UINT32': (32, 0), 'INT64': (64, 1), 'UINT64': (64, 0)}
FLOATS = {'float': 9, 'double': 17, 'x86_fp80': 21}
CHARS = ('CHAR', 'CHAR_ARRAY', 'STRING')
BOXES = ('STRUCT', 'ARRAY', 'POINTER', 'UNION', 'ANON_UNION', 'NAMED_ANON_UNION', 'VOID', 'NONE')
FLT = ('FLOAT', 'DOUBLE', 'LONG_DOUBLE', 'COMPLEX_FLOAT', 'COMPLEX_DOUBLE', 'COMPLEX_LONG_DOUBLE')
FORMATS = ('json', 'cinit', 'scm', 'xml1', 'xml2', 'yaml')
CONV = re.compile(r"%(%|([-+ #0']*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|L|q|j|z|t)?([diouxXeEfFgGaAcspn]))")
LEN = {None: 32, 'hh': 8, 'h': 16, 'l': 64, 'll': 64, 'q': 64, 'j': 64, 'z': 64, 't': 64, 'L': 80}
BASE = {'o': 8, 'x': 16, 'X': 16, 'd': 10, 'u': 10, 'i': 10}
DIGITS = '0123456789abcdefABCDEF'


SCAN = ('sscanf', '__isoc99_sscanf', '__isoc23_sscanf')


class Path:
    __slots__ = ('B', 'ops', 'mem', 'close')

    def __init__(self, B=ALL, ops=(), mem=None, close=None):
        self.B, self.ops, self.mem, self.close = B, ops, mem or {}, close

    def copy(self):
        return Path(self.B, self.ops, dict(self.mem), self.close)


class Text:
    """the outputs of one handler"""
    limit = 6000

    def __init__(self, p, fixed):
        self.p = p
        self.fixed = fixed          # globals that are never written
        self.frames = 0

    def run(self, name):
        self.steps = 0
        self.broken = None
        out = []
        self.call(name, ['ra', ('P', 'node')], Path(), 0, lambda st, v, done: out.append((st, done)))
        return out

    # ---- values: int, ('v', table, bits), ('n', type, bits, sign), ('P', base), ('D',), ('s', frame, id, off), ('g', name, off), None
    def string(self, g):
        x = self.p.globals.get(g)
        if not x or not x.get('init') or g not in self.fixed:
            return None
        if len(x['init']) != 1 or x['init'][0][2][0] != 's':
            return None
        return x['init'][0][2][1]

    def table(self, g, n):
        """contents of a constant table of n-byte elements"""
        x = self.p.globals.get(g)
        if not x or g not in self.fixed:
            return None
        r = {}
        for o, sz, k in x.get('init') or ():
            if k[0] == 's':
                for j, ch in enumerate(k[1]):
                    r[o + j] = ord(ch) & 255
            elif k[0] == 'c':
                r[o] = int(k[1])
            else:
                r[o] = T(k)
        return [r.get(j, 0) for j in range(0, int(x['size']), n)]

    def call(self, name, args, st, depth, k):
        f = self.p.defined[name]
        self.frames += 1
        fr = self.frames
        self.block(f, fr, 0, None, {('a', n): a for n, a in enumerate(args)}, st, {}, depth, k)

    def val(self, f, fr, env, o):
        if o[0] in ('i', 'a'):
            return env.get((o[0], o[1]))
        if o[0] in ('c', 'n'):
            return const_int(o) & ((1 << 128) - 1) if const_int(o) is not None else None
        if o[0] == 'g':
            return ('g', o[1], 0)
        if o[0] == 'F':
            return ('F', o[1])
        if o[0] == 'e' and o[1] == 'getelementptr':
            b, s = gep_parts(f, o)
            return self.gep(f, fr, env, self.val(f, fr, env, b), s)
        return None

    def gep(self, f, fr, env, b, steps):
        off, var = 0, None
        for s in steps:
            s = T(s)
            if s[0] == 'f':
                off += s[3]
            else:
                v = self.val(f, fr, env, T(s[1]))
                if isinstance(v, int):
                    v = v - (1 << 64) if v >> 63 & 1 else v
                    off += v * s[2]
                elif isinstance(v, tuple) and v[0] == 'v' and var is None:
                    var = (v[1], s[2])
                else:
                    var = 'any'
        if b is None or b == 'ra':
            return None
        if b[0] == 'D':
            return ('D',)
        if b[0] == 'P':
            return ('P', b[1], b[2] + off if len(b) > 2 else off) if var is None else None
        if b[0] in ('g', 's') and var is None:
            return b[:-1] + (b[-1] + off,)
        if b[0] == 'g' and var != 'any' and off == 0:
            return ('ge', b[1]) + var
        if b[0] == 's':
            return b[:-1] + (None,)
        if b[0] == 'ct' and off == 0 and var and var != 'any' and var[1] == 2:
            return ('cte', var[0])
        return None

    def load(self, st, a, ty, n):
        if a is None or isinstance(a, (int, str)):
            return None
        if a[0] == 'D':
            if ty == 'i8':
                return ('v', IDENT, 8)
            if ty == 'ptr':
                return ('D',)
            return ('n', ty, int(ty[1:]), None) if re.match(r'i\d+$', ty) else ('n', ty, 0, None)
        if a[0] == 'P':
            return ('D',) if ty == 'ptr' and len(a) > 2 and a[2] == self.o_data else None
        if a[0] == 's':
            if a[3] is not None and a in st.mem:
                return st.mem[a]
            if ty == 'ptr' and a[3] == self.o_data:
                return ('D',)
            if ty == 'i8' and st.mem.get(('copy', a[1], a[2])):
                return ('v', IDENT, 8)
            return None
        if a[0] == 'ge':
            t = self.table(a[1], a[3])
            if t and len(t) >= 256 and all(0 <= x < len(t) for x in a[2]):
                t = tuple(t[x] for x in a[2])
                if a[3] == 1 and ty == 'i8':
                    return ('v', t, 8)
                if a[3] == 8 and ty == 'ptr':
                    return ('vs', t)
            return None
        if a[0] == 'ctl':
            return ('ct',)
        if a[0] == 'cte':
            return ('v', tuple(CTYPE[x if x < 256 else (x & 255)] for x in a[1]), 16)
        return None

    def un(self, f, i, v):
        ft = int(i.raw['ft'][1:]) if re.match(r'i\d+$', i.raw.get('ft', '')) else 0
        to = int(i.ty[1:]) if re.match(r'i\d+$', i.ty) else 0
        if v is None or not ft or not to:
            return v if v and v[0] == 'n' and i.op == 'fpext' else None
        m = (1 << to) - 1
        sg = lambda x: (x & ((1 << ft) - 1)) - (1 << ft) if x >> (ft - 1) & 1 else x & ((1 << ft) - 1)
        cv = (lambda x: sg(x) & m) if i.op == 'sext' else (lambda x: x & ((1 << ft) - 1) & m)
        if isinstance(v, int):
            return cv(v)
        if v[0] == 'v':
            return ('v', tuple(map(cv, v[1])), to)
        if v[0] == 'n':
            if i.op == 'trunc':
                return ('n', v[1], to, 'cut')
            return ('n', v[1], to, v[3] or ('s' if i.op == 'sext' else 'u'))
        return None

    def binop(self, op, x, y, bits, p=None):
        m = (1 << bits) - 1
        sg = lambda a: (a & m) - (1 << bits) if a >> (bits - 1) & 1 else a & m

        def one(a, b):
            a, b = a & m, b & m
            if op == 'icmp':
                if p[0] == 's':
                    a, b = sg(a), sg(b)
                return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'lt': a < b, 'ge': a >= b, 'le': a <= b}[p if p in ('eq', 'ne') else p[1:]])
            return {'add': a + b, 'sub': a - b, 'and': a & b, 'or': a | b, 'xor': a ^ b, 'mul': a * b,
                    'shl': a << min(b, 127), 'lshr': a >> b, 'ashr': sg(a) >> b}[op] & m
        if op not in ('icmp', 'add', 'sub', 'and', 'or', 'xor', 'mul', 'shl', 'lshr', 'ashr') or not bits:
            return None
        isv = [isinstance(a, tuple) and a[0] == 'v' for a in (x, y)]
        if all(isinstance(a, int) or v for a, v in zip((x, y), isv)):
            if not any(isv):
                return one(x, y)
            g = lambda a, n: a if isinstance(a, int) else a[1][n]
            return ('v', tuple(one(g(x, n), g(y, n)) for n in range(256)), 1 if op == 'icmp' else bits)
        return None

    def compare_ptr(self, x, y, p):
        if isinstance(x, tuple) and x[0] == 'vs' and y == 0:
            t = tuple(int(e != 0) for e in x[1])
        elif isinstance(y, tuple) and y[0] == 'vs' and x == 0:
            t = tuple(int(e != 0) for e in y[1])
        else:
            return None
        return ('v', t if p == 'ne' else tuple(1 - a for a in t), 1)

    def decide(self, st, v):
        """(path, truth) for every way a condition can go"""
        if isinstance(v, int):
            return [(st, bool(v))]
        if isinstance(v, tuple) and v[0] == 'v':
            r = []
            for w in (True, False):
                B = frozenset(b for b in st.B if bool(v[1][b]) == w)
                if B:
                    s = st.copy()
                    s.B = B
                    r.append((s, w))
            return r
        return [(st.copy(), True), (st.copy(), False)]

    def block(self, f, fr, b, pred, env, st, seen, depth, k):
        while True:
            self.steps += 1
            if self.steps > self.limit:
                self.broken = 'too many paths'
                return
            seen = dict(seen)
            seen[b] = seen.get(b, 0) + 1
            if seen[b] > 2:
                k(st, None, False)
                return
            env = dict(env)
            new = {}
            for i in f.blocks[b]:
                if i.op == 'phi':
                    for a, s in i.args:
                        if s == pred:
                            new[('i', i.id)] = self.val(f, fr, env, T(a))
                    continue
                if new is not None:
                    env.update(new)
                    new = None
                self.site = i
                r = self.step(f, fr, b, i, env, st, seen, depth, k)
                if r == 'forked':
                    return
                if r is not None:
                    pred, b = b, r
                    break

    def step(self, f, fr, b, i, env, st, seen, depth, k):
        V = lambda o: self.val(f, fr, env, T(o))
        if i.op == 'ret':
            k(st, V(i.args[0]) if i.args else None, True)
            return 'forked'
        if i.op == 'unreachable':
            return 'forked'
        if i.op == 'br':
            s = i.raw['s']
            if len(s) == 1:
                return s[0]
            for w, t in self.decide(st, V(i.args[0])):
                self.block(f, fr, s[0] if t else s[1], b, env, w, seen, depth, k)
            return 'forked'
        if i.op == 'switch':
            v = V(i.args[0])
            cases = [(int(x), t) for x, t in i.raw['cases']]
            rest = [t for t in i.raw['s'] if t not in [y for _, y in cases]] or [i.raw['s'][0]]
            known = isinstance(v, tuple) and v[0] == 'v'
            m = (1 << v[2]) - 1 if known else (1 << 64) - 1
            for t in sorted({t for _, t in cases} | {rest[0]}):
                w = st.copy()
                vals = {x & m for x, y in cases if y == t}
                if known:
                    B = {x for x in st.B if v[1][x] in vals or (t == rest[0] and v[1][x] not in {y & m for y, _ in cases})}
                    if not B:
                        continue
                    w.B = frozenset(B)
                elif isinstance(v, int) and v not in vals and not (t == rest[0] and v not in {y & m for y, _ in cases}):
                    continue
                self.block(f, fr, t, b, env, w, seen, depth, k)
            return 'forked'
        key = ('i', i.id)
        if i.op == 'alloca':
            env[key] = ('s', fr, i.id, 0)
        elif i.op == 'getelementptr':
            env[key] = self.gep(f, fr, env, V(i.args[0]), i.raw['g'])
        elif i.op == 'load':
            env[key] = self.load(st, V(i.args[0]), i.ty, i.raw.get('sz'))
        elif i.op == 'store':
            a, v = V(i.args[1]), V(i.args[0])
            if isinstance(a, tuple) and a[0] == 's':
                if a[3] is not None:
                    st.mem[a] = v
            elif isinstance(a, tuple) and a[0] == 'P' and isinstance(v, tuple) and v[0] == 'g' and len(a) > 2 and a[2] == self.o_res:
                st.close = self.string(v[1])
        elif i.op in ('sext', 'zext', 'trunc', 'fpext', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            env[key] = V(i.args[0]) if i.op in ('freeze', 'bitcast') else self.un(f, i, V(i.args[0]))
        elif i.op == 'select':
            for w, t in self.decide(st, V(i.args[0])):
                e = dict(env)
                e[key] = V(i.args[1 if t else 2])
                self.rest(f, fr, b, i, e, w, seen, depth, k)
            return 'forked'
        elif i.op == 'icmp':
            x, y = V(i.args[0]), V(i.args[1])
            env[key] = self.compare_ptr(x, y, i.raw['p'])
            if env[key] is None:
                w = [int(t[2]) for t in i.args if t[0] == 'c' and len(t) > 2] + [v[2] for v in (x, y) if isinstance(v, tuple) and v[0] == 'v']
                env[key] = self.binop('icmp', x, y, w[0] if w else 64, i.raw['p'])
        elif i.op == 'call':
            return self.docall(f, fr, b, i, env, st, seen, depth, k)
        elif re.match(r'i\d+$', i.ty or '') and len(i.args) == 2:
            env[key] = self.binop(i.op, V(i.args[0]), V(i.args[1]), int(i.ty[1:]))
        return None

    def rest(self, f, fr, b, i, env, st, seen, depth, k):
        """the instructions of the block behind i"""
        bl = f.blocks[b]
        n = next(j for j, x in enumerate(bl) if x.id == i.id)
        env = dict(env)
        for x in bl[n + 1:]:
            r = self.step(f, fr, b, x, env, st, seen, depth, k)
            if r == 'forked':
                return
            if r is not None:
                self.block(f, fr, r, b, env, st, seen, depth, k)
                return

    def text(self, st, v):
        """text in a local buffer, as far as it is known what was put there"""
        if not (isinstance(v, tuple) and v[0] == 's'):
            return v
        if st.mem.get(('copy', v[1], v[2])):
            return ('D',)
        r = []
        for k in range(64):
            x = st.mem.get(v[:3] + (v[3] + k,)) if v[3] is not None else None
            if x is None:
                return None
            if x == 0:
                return ('buf', tuple(r))
            r.append(x)
        return None

    def docall(self, f, fr, b, i, env, st, seen, depth, k):
        V = lambda o: self.val(f, fr, env, T(o))
        n = f.callee(i)
        key = ('i', i.id)
        if n is None:
            return 'forked'             # the user's own conversion
        if n in APPEND:
            a = [self.text(st, V(o)) for o in i.args[1:]]
            st.ops = st.ops + ((APPEND[n], tuple(a), (f.name, i)),)
            env[key] = 1
            return None
        if n == '__ctype_b_loc':
            env[key] = ('ctl',)
            return None
        if n in ('isprint', 'isalnum', 'isalpha', 'isdigit', 'isgraph', 'ispunct', 'isspace', 'iscntrl', 'isxdigit', 'isupper', 'islower'):
            bit = {'isupper': 0x100, 'islower': 0x200, 'isalpha': 0x400, 'isdigit': 0x800, 'isxdigit': 0x1000, 'isspace': 0x2000, 'isprint': 0x4000,
                   'isgraph': 0x8000, 'iscntrl': 2, 'ispunct': 4, 'isalnum': 8}[n]
            v = V(i.args[0])
            env[key] = ('v', tuple(CTYPE[x & 255] & bit for x in v[1]), 32) if isinstance(v, tuple) and v[0] == 'v' else None
            return None
        if n.startswith(('llvm.memcpy', 'llvm.memmove')) or n in ('strncpy', 'memcpy', 'memmove', 'strcpy'):
            d, s = V(i.args[0]), V(i.args[1])
            if isinstance(d, tuple) and d[0] == 's' and isinstance(s, tuple) and s[0] == 'D':
                st.mem[('copy', d[1], d[2])] = True
            env[key] = d
            return None
        a = [V(o) for o in i.args]
        if i.ty == 'ptr' and ('D',) in a:
            env[key] = ('D',)           # a copy of the text
        small = n in self.p.defined and sum(map(len, self.p.defined[n].blocks)) <= 80 and any(isinstance(x, tuple) and x[0] == 'P' for x in a)
        if n in self.p.defined and depth < 6 and (any(self.writes(n)) or small):
            e0 = env

            def back(s, v, done):
                if not done:
                    k(s, None, False)
                    return
                e = dict(e0)
                e[key] = v
                self.rest(f, fr, b, i, e, s, seen, depth, k)
            self.call(n, [('ra' if x < 1 and V(o) == 'ra' else V(o)) for x, o in enumerate(i.args)], st, depth + 1, back)
            return 'forked'
        return None

    _w = None

    def writes(self, n):
        if self._w is None:
            self._w = {}
        if n not in self._w:
            self._w[n] = bool(set(APPEND) & {c for m in closure(self.p, n) for c in [self.p.defined[m].callee(i) for i in self.p.defined[m].calls()] if c})
        return [1] if self._w[n] and n not in APPEND else []


def split(fmt):
    """literal and conversion pieces of a format"""
    r, pos = [], 0
    for m in CONV.finditer(fmt):
        if m.start() > pos:
            r.append(fmt[pos:m.start()])
        r.append('%' if m.group(1) == '%' else m)
        pos = m.end()
    if pos < len(fmt):
        r.append(fmt[pos:])
    return r


def pieces(X, op):
    """an append as literals (str), characters ('c', table), choice of strings ('t', table), conversions ('x', match, value)"""
    kind, a, at = op
    if kind == 'c':
        v = a[0]
        if isinstance(v, int):
            return [chr(v & 255)]
        return [('c', tuple(x & 255 for x in v[1]))] if isinstance(v, tuple) and v[0] == 'v' else [('?',)]
    if kind == 's':
        v = a[0]
        if isinstance(v, tuple) and v[0] == 'buf':
            return [y for x in v[1] for y in pieces(X, ('c', (x,), at))]
        return [text_of(X, v)]
    s = text_of(X, a[0])
    if not isinstance(s, str):
        return [('?',)]
    r, n = [], 1
    for x in split(s):
        if isinstance(x, str):
            r.append(x)
            continue
        for g in (3, 4):
            if x.group(g) == '*':
                n += 1
        v = a[n] if n < len(a) else None
        n += 1
        if x.group(6) == 's':
            r.append('' if x.group(3) == '*' and text_of(X, v) == '' else text_of(X, v))
        elif x.group(6) == 'c':
            r += pieces(X, ('c', (v,), at))
        else:
            r.append(('x', x, v))
    return r


def text_of(X, v):
    if isinstance(v, tuple):
        if v[0] == 'g' and v[2] == 0 and X.string(v[1]) is not None:
            return X.string(v[1]).rstrip('\0')
        if v[0] == 'vs':
            return ('t', v[1])
        if v[0] == 'D':
            return ('raw',)
    return ('?',)


def render(m, n):
    """what a conversion makes of a known number"""
    fl, w, c = m.group(2), int(m.group(3) or 0), m.group(6)
    b = LEN[m.group(5)]
    n &= (1 << b) - 1
    if c in 'di':
        s = str(n - (1 << b) if n >> (b - 1) else n)
    else:
        s = {'o': '%o', 'x': '%x', 'X': '%X', 'u': '%d'}[c] % n
    if m.group(4):
        s = s.rjust(int(m.group(4)), '0')
    return s.ljust(w) if '-' in fl else s.rjust(w, '0' if '0' in fl else ' ')


def produced(X, path):
    """character -> (text made of it) or a complaint"""
    out = {}
    ps = [(q, o[2]) for o in path.ops for q in pieces(X, o)]
    for b in path.B:
        t = []
        for q, at in ps:
            if isinstance(q, str):
                t.append(q)
            elif q[0] == 'c':
                t.append(chr(q[1][b]))
            elif q[0] == 't':
                e = q[1][b]
                s = text_of(X, ('g', e[1], 0)) if isinstance(e, tuple) and e[0] == 'g' else None
                if not isinstance(s, str):
                    return None, ('?', at)
                t.append(s)
            elif q[0] == 'x' and q[1].group(6) in BASE and isinstance(q[2], (tuple, int)):
                v = q[2] if isinstance(q[2], int) else q[2][1][b] if q[2][0] == 'v' else None
                if v is None:
                    return None, ('?', at)
                t.append(render(q[1], v))
            else:
                return None, (q[0], at)
        out[b] = ''.join(t)
    return out, None


class Reader:
    """the conventions of the reading side of one format"""

    def __init__(self, p, X, roots, tables):
        self.fns = sorted({n for r in roots for n in closure(p, r)})
        self.patterns, self.tables = [], {}
        for n in self.fns:
            f = p.defined[n]
            for i in f.calls():
                if f.callee(i) in SCAN and len(i.args) > 1 and i.args[1][0] == 'g':
                    s = X.string(i.args[1][1])
                    if s and '%n' in s:
                        self.patterns.append((s.rstrip('\0'), n))
            used = {g for i in f.instrs() for o in f.operands(i) for g in globs(o)}
            for t in tables & used:
                self.tables.setdefault(t, set()).add(n)

    def numeric(self, s):
        """(value, where the scan stops, self-delimiting) of the text behind the escape character"""
        for pat, n in self.patterns:
            w = split(pat)
            pre = ''
            while w and isinstance(w[0], str):
                pre += w.pop(0)
            pre = pre.lstrip('\\&') if pre[:1] in '\\&' else pre
            if not w or not s.startswith(pre) or w[0].group(6) not in BASE:
                continue
            base = BASE[w[0].group(6)]
            width = int(w[0].group(3)) if w[0].group(3) else 10 ** 6
            d = ''
            for ch in s[len(pre):]:
                if ch in DIGITS and len(d) < width and int(ch, 16) < base:
                    d += ch
                else:
                    break
            if not d:
                continue
            rest = s[len(pre) + len(d):]
            term = ''.join(x for x in w[1:] if isinstance(x, str))
            return int(d, base), rest == term, len(d) == width or bool(rest) and rest[0] not in DIGITS, (pat, n)
        return None


def inverse(p, n, t):
    """stores of the index at the place the table's entry names; largest index covered"""
    f = p.defined[n]

    def strip(o):
        while o[0] == 'i' and f.ins[o[1]].op in ('zext', 'sext', 'trunc', 'freeze'):
            o = f.ins[o[1]].args[0]
        return o
    r = []
    for i in f.instrs():
        if i.op != 'store':
            continue
        b, s = gep_parts(f, i.args[1])
        for x in s:
            if x[0] != 'x':
                continue
            e = strip(T(x[1]))
            if e[0] == 'i' and f.ins[e[1]].op == 'load':
                tb, ts = gep_parts(f, f.ins[e[1]].args[0])
                idx = [strip(T(y[1])) for y in ts if y[0] == 'x' and T(y[1])[0] != 'c']
                if tb == ('g', t) and idx and strip(T(i.args[0])) == idx[0]:
                    top = 255
                    for j in f.instrs():
                        if j.op == 'icmp' and idx[0] in [strip(T(a)) for a in j.args]:
                            k = [const_int(T(a)) for a in j.args if T(a)[0] == 'c']
                            if k and j.raw['p'] in ('ult', 'slt', 'ne'):
                                top = min(top, k[0] - 1)
                            elif k and j.raw['p'] in ('ule', 'sle'):
                                top = min(top, k[0])
                    r.append(top)
    return r


class Turn:
    """the loop of a function that undoes escapes: what one turn consumes and produces on every path"""

    def __init__(self, X, f, call):
        self.X, self.f, self.call = X, f, call

    def lin(self, o, env, depth=0):
        o = T(o)
        k = const_int(o)
        if k is not None:
            b = o[2] if o[0] == 'c' and len(o) > 2 else 64
            return {(): k - (1 << b) if k > 0 and k >> (b - 1) & 1 else k}
        if o[0] == 'i' and depth < 30:
            if o[1] in env:
                return env[o[1]]
            i = self.f.ins[o[1]]
            if i.op in ('zext', 'sext', 'trunc', 'freeze'):
                return self.lin(i.args[0], env, depth + 1)
            if i.op in ('add', 'sub'):
                x, y = self.lin(i.args[0], env, depth + 1), self.lin(i.args[1], env, depth + 1)
                r = dict(x)
                for q, v in y.items():
                    r[q] = r.get(q, 0) + (v if i.op == 'add' else -v)
                return {q: v for q, v in r.items() if v or q == ()}
            if i.op == 'load':
                b, s = gep_parts(self.f, i.args[0])
                if b[0] == 'i' and self.f.ins[b[1]].op == 'alloca' and not s:
                    return {('L', b[1]): 1, (): 0}
        return {o: 1, (): 0}

    def index(self, a, env):
        """offset of an address behind a loaded pointer or an argument"""
        b, s = gep_parts(self.f, a)
        r = {(): 0}
        for x in s:
            x = T(x)
            v = {(): x[3]} if x[0] == 'f' else self.lin(x[1], env)
            for q, k in v.items():
                r[q] = r.get(q, 0) + k
        return b, {q: v for q, v in r.items() if v or q == ()}

    def paths(self):
        """(header, blocks) of every way round the innermost loop around the call"""
        f = self.f
        succ = lambda b: [] if f.blocks[b][-1].op in ('ret', 'unreachable') else sorted(set(f.blocks[b][-1].raw['s']))
        cb = next(b for b, bl in enumerate(f.blocks) if any(i.id == self.call.id for i in bl))
        best = None
        for h in range(len(f.blocks)):
            seen, w = set(), [cb]
            while w:                    # from the call to h
                x = w.pop()
                for s in succ(x):
                    if s not in seen:
                        seen.add(s)
                        if s != h:
                            w.append(s)
            if h not in seen or not any(i.op == 'phi' for i in f.blocks[h]):
                continue
            out, todo = [], [(h, (h,))]
            while todo and len(out) < 400:
                b, p = todo.pop()
                for s in succ(b):
                    if s == h:
                        out.append(p)
                    elif s not in p and len(p) < 60:
                        todo.append((s, p + (s,)))
            if any(cb in p for p in out):
                z = max(map(len, out))
                if best is None or z > best[0]:
                    best = (z, h, out)
        return best

    def fixed(self, o, env, depth=0):
        """the value of a condition the path itself decides"""
        o = T(o)
        v = self.lin(o, env)
        if set(v) == {()}:
            return v[()]
        if o[0] != 'i' or depth > 5:
            return None
        i = self.f.ins[o[1]]
        if i.op == 'icmp' and i.raw['p'] in ('eq', 'ne'):
            x, y = (self.fixed(a, env, depth + 1) for a in i.args)
            return None if x is None or y is None else int((x == y) == (i.raw['p'] == 'eq'))
        if i.op == 'xor':
            x, y = (self.fixed(a, env, depth + 1) for a in i.args)
            return None if x is None or y is None else (x ^ y) & 1
        if i.op in ('trunc', 'zext', 'freeze'):
            return self.fixed(i.args[0], env, depth + 1)
        return None

    def turns(self):
        z = self.paths()
        if not z:
            return None
        _, h, ps = z
        f = self.f
        res = []
        for p in ps:
            env = {i.id: {('i', i.id): 1, (): 0} for i in f.blocks[h] if i.op == 'phi'}
            taken, stores, at, given = [], [], None, False
            feasible = False
            for n, b in enumerate(p):
                for i in f.blocks[b]:
                    if i.op == 'phi' and b != h:
                        for a, s in i.args:
                            if s == p[n - 1]:
                                env[i.id] = self.lin(a, env)
                    elif i.op == 'call' and i.id == self.call.id:
                        at = self.index(i.args[0], env)
                    elif i.op == 'call' and f.callee(i) != 'mr_message' and not (f.callee(i) or '').startswith(('llvm.dbg', 'llvm.lifetime')) and any(
                            self.index(T(a), env)[0] in (('a', k) for k in range(1, 9)) for a in i.args):
                        given = True
                    elif i.op == 'store' and i.raw.get('st') == 'i8':
                        a, x = self.index(i.args[1], env)
                        if a[0] == 'a' or a[0] == 'i' and f.ins[a[1]].op in ('load', 'phi'):
                            stores.append((a, x))
                t = f.blocks[b][-1]
                nx = p[n + 1] if n + 1 < len(p) else h
                if t.op == 'br' and len(t.raw['s']) == 2 and t.raw['s'][0] != t.raw['s'][1]:
                    k = self.fixed(t.args[0], env)
                    if k is not None and bool(k) != (nx == t.raw['s'][0]):
                        break
                    taken.append((T(t.args[0]), nx == t.raw['s'][0]))
            else:
                feasible = True
            if not feasible:
                continue
            nxt = {}
            for i in f.blocks[h]:
                if i.op == 'phi':
                    for a, s in i.args:
                        if s == p[-1]:
                            nxt[i.id] = self.lin(a, env)
            res.append((p, taken, stores, at, nxt, given))
        return h, res

    def truth(self, cond, v):
        """what a condition taken says: ('char', constant, equal), ('scan', matched) or None"""
        f = self.f
        if cond[0] != 'i' or f.ins[cond[1]].op != 'icmp' or f.ins[cond[1]].raw['p'] not in ('eq', 'ne'):
            return None
        i = f.ins[cond[1]]
        eq = (i.raw['p'] == 'eq') == v
        for a, b in (i.args, i.args[::-1]):
            k, a = const_int(T(b)), T(a)
            while a[0] == 'i' and f.ins[a[1]].op in ('sext', 'zext', 'trunc', 'freeze'):
                a = T(f.ins[a[1]].args[0])
            if k is None or a[0] != 'i':
                continue
            if a[1] == self.call.id:
                return ('scan', eq == (k == 1)) if k in (0, 1) else None
            if f.ins[a[1]].op == 'load' and f.ins[a[1]].raw.get('sz') == 1:
                return ('char', k, eq)
        return None


def unescape(c, p, X, pat, n, fmt):
    f = p.defined[n]
    tail = ''.join(x for x in split(pat.split('%n', 1)[1]) if isinstance(x, str))
    e = 38 if fmt in ('xml1', 'xml2') else 92
    for call in f.calls():
        if f.callee(call) not in SCAN or call.args[1][0] != 'g' or (X.string(call.args[1][1]) or '').rstrip('\0') != pat:
            continue
        tn = Turn(X, f, call)
        z = tn.turns()
        if not z:
            continue
        h, ts = z
        pos = sum(1 for x in split(pat) if not isinstance(x, str) and x.group(0) != '%n' and x.group(3) != '*')
        sz = T(call.args[2 + pos]) if len(call.args) > 2 + pos else None
        # the index is what the place scanned depends on
        idx = {q for _, _, _, at, _, _ in ts if at for q in at[1] if q and q[0] == 'i' and q[1] in {i.id for i in f.blocks[h]}}
        if len(idx) != 1 or not sz or sz[0] != 'i':
            continue
        ix = next(iter(idx))
        for path, taken, stores, at, nxt, given in ts:
            fact = [x for x in (tn.truth(a, v) for a, v in taken) if x]
            if any(('char', x[1], not x[2]) in fact for x in fact if x[0] == 'char' and x[1] == e):
                continue
            d = dict(nxt.get(ix[1], {}))
            d[ix] = d.get(ix, 0) - 1
            d = {q: v for q, v in d.items() if v or q == ()}
            esc = ('char', e, True) in fact
            bad = None
            if at and stores and ('scan', True) in fact:
                want = dict(at[1])
                want[ix] = want.get(ix, 0) - 1
                want[('L', sz[1])] = want.get(('L', sz[1]), 0) + 1
                want[()] = want.get((), 0) + len(tail)
                if d != {q: v for q, v in want.items() if v or q == ()}:
                    bad = 'a numeric escape is not consumed exactly'
            elif not esc and ('char', e, False) in fact and d != {(): 1}:
                bad = 'a plain character is not consumed exactly'
            elif esc and e == 92 and d != {(): 2}:
                bad = 'an escape letter is not consumed exactly'
            c.ok('undo')
            outs = {x for _, st in [(0, s[1]) for s in stores] for x in st if x and x[0] == 'i' and x != ix}
            if not bad and len(stores) > 1:
                bad = 'more than one character is made of one'
            for o in outs:
                g = dict(nxt.get(o[1], {}))
                g[o] = g.get(o, 0) - 1
                if not bad and {q: v for q, v in g.items() if v or q == ()} != {(): 1}:
                    bad = 'the place of the next character does not move on by one'
            if not bad and not stores and not given and (e == 92 or not esc):
                bad = 'a character is dropped'
            if bad:
                c.report('undo:%s' % n, 'undo', n, 'undoing the escapes of the %s format, %s' % (fmt, bad))
                return


def run(c):
    c.rule('undo', 'every turn of a loop that undoes escapes consumes exactly one plain character or one whole escape and yields one character')
    c.rule('character', 'the text made of a character is the character itself where that is safe, or an escape the reader of the format takes back to that very character, whatever follows')
    c.rule('reader', 'the reader undoes the escape table the writer uses, all of it, and no two characters have the same escape')
    c.rule('number', 'the conversion used for a number fits its width and signedness; for floating point it keeps enough digits to restore the value')
    c.rule('quote', 'the text of a scalar value is closed the way it was opened')
    c.rule('bracket', 'what opens a container and what is stored to close it match')
    p = c.prog('plain')
    X = Text(p, set())
    off = lambda t, m: [x[1] for x in p.ditypes[t]['m'] if x[0] == m][0]
    X.o_data = [k for k, v in p.anon.items() if v == 'data'][0]
    X.o_res = [k for k, v in p.anon.items() if v == 'params'][0] + off('mr_typed_ptr_t', 'data')
    written = set()
    for f in p.defined.values():
        for i in f.instrs():
            if i.op == 'store':
                b, _ = gep_parts(f, i.args[1])
                if b[0] == 'g':
                    written.add(b[1])
    X.fixed = set(p.globals) - written
    tabs = [n for n, g in p.globals.items() if g.get('dt', '').startswith('mr_ra_printf_t[') and g.get('init') and not n.startswith('mr_conf')]
    c.require(len(tabs) >= 3, 'tables of the handlers of the text formats')
    kn = {int(v): k[8:] for k, v in p.enumval.items() if k.startswith('MR_TYPE_') and k != 'MR_TYPE_LAST' and not k.endswith('_CLASS')}
    esc = {n for n, g in p.globals.items() if n in X.fixed and g.get('dt') in ('char[256]', 'char*[256]', 'unsigned char[256]', 'const char[256]', 'const char*[256]') and g.get('init')}
    done = set()
    for t in sorted(tabs):
        users = [n for n, f in p.defined.items() if any(t in globs(o) for i in f.instrs() for o in f.operands(i))]
        fmts = [x for x in FORMATS for s in ('mr_%s_save' % x,) if s in p.defined and set(users) & refs(p, s)]
        roots = ['mr_%s_load' % x for x in fmts if 'mr_%s_load' % x in p.defined]
        c.require(fmts, 'the format that uses %s' % t)
        R = Reader(p, X, roots, esc)
        init = {o // 8: x[1] for o, s, x in p.globals[t]['init'] if x[0] == 'F'}
        wt = set()
        for k, h in sorted(init.items()):
            kind = kn.get(k, str(k))
            if h not in p.defined or (fmts[0], kind, h) in done:
                continue
            done.add((fmts[0], kind, h))
            X.kind = kind
            if kind in CHARS:
                outs = X.run(h)
                characters(c, X, R, fmts[0], kind, h, outs)
                wt |= {g for n in closure(p, h) for i in p.defined[n].instrs() for o in p.defined[n].operands(i) for g in globs(o)} & esc
            elif kind in INTS or kind in FLT:
                numbers(c, X, fmts[0], kind, h, X.run(h))
            elif kind in BOXES or kind == 'BOOL':
                boxes(c, X, fmts[0], kind, h, X.run(h))
        for pat, n in R.patterns:
            if (pat, n) not in done:
                done.add((pat, n))
                unescape(c, p, X, pat, n, fmts[0])
        for e in sorted(wt):
            tables(c, p, X, R, fmts[0], e)
    c.floor('undo', 8)
    c.floor('character', 800)
    c.floor('reader', 6)
    c.floor('number', 25)
    c.floor('quote', 25)
    c.floor('bracket', 12)


_R = {}


def refs(p, root):
    """functions reachable, those passed as callbacks included"""
    if (id(p), root) not in _R:
        _R[id(p), root] = closure(p, root)
    return _R[id(p), root]


def where(o):
    return '%s:%s' % (o[0], o[1].loc if hasattr(o[1], 'loc') else '')


def name(b):
    return repr(chr(b)) if 32 <= b < 127 else '0x%02x' % b


def characters(c, X, R, fmt, kind, h, outs):
    key = '%s:%s' % (fmt, kind.lower())
    res = {}
    for st, done in outs:
        m, bad = produced(X, st)
        if bad and bad[0] == 'raw':
            c.report('raw:%s' % key, 'character', bad[1][0], 'the %s format writes the text of a %s value without escaping it' % (fmt, kind.lower()))
            continue
        if m is None:
            continue            # not known: the floor below tells if nothing is
        for b, s in m.items():
            res.setdefault(b, set()).add((s, done, st.ops[-1][2] if st.ops else None))
    xml = fmt in ('xml1', 'xml2')
    failed = False
    for b in sorted(ALL):
        for s, done, at in sorted(res.get(b, ()), key=lambda x: x[:2]):
            one = s
            # a scalar that stands for a missing value, or the end of a string: no character in it
            if xml:
                e, spec = '&', '&<>"'
                if s == '' or (kind != 'CHAR' and done):
                    continue
            elif s[:1] in ('"', "'"):
                e, spec = '\\', '\\' + s[0]
                q, one = s[0], s[1:]
                if kind == 'CHAR':
                    c.ok('quote')
                    if not one.endswith(q) or len(one) < 2:
                        c.report('quote:%s' % key, 'quote', h, 'the %s format does not close the text of %s' % (fmt, name(b)))
                        continue
                    one = one[:-1]
                elif done:
                    c.ok('quote')
                    if one[-1:] != q:
                        c.report('quote:%s' % key, 'quote', h, 'the %s format does not close the text of a %s value' % (fmt, kind.lower()))
                    continue
            elif s.startswith('#\\'):
                one, e, spec = s[2:], '', ''
            else:
                continue        # a word
            if kind != 'CHAR':
                # two turns of the loop
                if len(one) % 2 == 0 and one[:len(one) // 2] == one[len(one) // 2:]:
                    one = one[:len(one) // 2]
            c.ok('character')
            w = judge(R, b, one, e, spec, X, fmt)
            if w and not failed:
                failed = True
                c.report('character:%s' % key, 'character', '%s in %s' % (h, at[0] if at else h), 'the %s format writes %s of a %s value as %s, %s' % (fmt, name(b), kind.lower(), one, w))


def judge(R, b, s, e, spec, X, fmt):
    if len(s) == 1 and ord(s) == b:
        if b not in PRINT:
            return 'which is not printable'
        return 'which has a meaning of its own there' if s in spec else None
    if e == '':
        r = None
        for pat in ('x%x',):
            m = re.match(r'x([0-9a-f]+)$', s)
            r = int(m.group(1), 16) if m else None
        return None if r == b else 'which does not name it'
    if not s.startswith(e):
        return 'which is read back as something else'
    t = s[len(e):]
    num = R.numeric(t)
    letters = {}
    for g in R.tables:
        tb = X.table(g, 1 if X.p.globals[g]['size'] in (256, '256') else 8)
        for k, v in enumerate(tb or ()):
            if v:
                letters.setdefault(chr(v) if isinstance(v, int) else text_of(X, ('g', v[1], 0)), set()).add(k)
    if fmt in ('xml1', 'xml2'):
        if s in letters:
            return None if letters[s] == {b} else 'which is read back as something else'
    elif len(t) == 1:
        if t in letters:
            return None if letters[t] == {b} else 'which is read back as something else'
        if num:
            return 'which the reader takes for a number'
        return None if ord(t) == b else 'which is read back as something else'
    if num is None:
        return 'which the reader has no escape for'
    if num[0] != b:
        return 'which the reader takes for %s' % num[0]
    if not num[2]:
        return 'which runs into the characters that follow (reader: %s)' % num[3][0]
    return None if num[1] else 'of which the reader leaves a part behind (reader: %s)' % num[3][0]


def tables(c, p, X, R, fmt, e):
    size = int(p.globals[e]['size']) // 256
    t = X.table(e, size)
    used = [k for k, v in enumerate(t) if v]
    img = [text_of(X, ('g', t[k][1], 0)) if size == 8 else t[k] for k in used]
    c.ok('reader')
    if len(set(img)) != len(img):
        c.report('reader:%s:twice' % fmt, 'reader', e, 'two characters have the same escape')
    if size == 8:
        c.ok('reader', len(img))
        for s in img:
            if not (isinstance(s, str) and re.match(r'&[a-z]+;$', s)):
                c.report('reader:%s:form' % fmt, 'reader', e, 'the escape %s is not an entity' % s)
    ns = R.tables.get(e, set())
    c.ok('reader')
    if ns and size == 1:
        tops = [x for n in ns for x in inverse(p, n, e)]
        if tops and max(tops) < max(used):
            c.report('reader:%s:inverse' % fmt, 'reader', sorted(ns)[0], 'the reader of the %s format leaves out the escapes of characters above %d' % (fmt, max(tops)))


def numbers(c, X, fmt, kind, h, outs):
    for st, done in outs:
        txt = ''
        for o in st.ops:
            for q in pieces(X, o):
                if isinstance(q, str):
                    txt += q
                    continue
                if q[0] != 'x':
                    continue
                m, v = q[1], q[2]
                cv, at = m.group(6), o[2][0]
                key = 'number:%s' % at
                if not isinstance(v, tuple) or v[0] not in ('n', 'v'):
                    continue
                c.ok('number')
                if v[0] == 'n' and v[1] in FLOATS:
                    prec = FLOATS[v[1]]
                    if cv in 'aA' and not m.group(4):
                        continue
                    if cv not in 'gGeE':
                        c.report(key, 'number', at, 'floating point number written with %s' % m.group(0))
                    elif not m.group(4) or m.group(4) == '*' or int(m.group(4)) + (cv in 'eE') < prec:
                        c.report(key, 'number', at, '%s keeps fewer digits than a %s needs (%d)' % (m.group(0), v[1], prec))
                    elif (m.group(5) == 'L') != (v[1] == 'x86_fp80'):
                        c.report(key, 'number', at, '%s does not fit a %s' % (m.group(0), v[1]))
                    continue
                if kind not in INTS:
                    continue
                bits, sign = INTS[kind]
                if v[0] == 'v':
                    sg = v[1][255] != 255
                    got = 8
                else:
                    sg, got = v[3] in ('s',), int(v[1][1:])
                    if v[3] is None:
                        sg = bool(sign)
                if got != bits or v[0] == 'n' and v[3] == 'cut':
                    c.report(key, 'number', at, 'only %d bits of a %s are written' % (min(got, v[2]), kind.lower()))
                elif LEN[m.group(5)] < bits:
                    c.report(key, 'number', at, '%s does not fit a %s' % (m.group(0), kind.lower()))
                elif cv not in ('di' if sign else 'u' if LEN[m.group(5)] == bits else 'diu') or (sg != bool(sign) and LEN[m.group(5)] > bits):
                    c.report(key, 'number', at, '%s writes a %s with the wrong sign' % (m.group(0), kind.lower()))
        if done:
            c.ok('quote')
            if txt.count('"') % 2 or txt.count("'") % 2:
                c.report('quote:%s:%s' % (fmt, kind.lower()), 'quote', h, 'the %s format does not close the text of a %s value' % (fmt, kind.lower()))


def boxes(c, X, fmt, kind, h, outs):
    for st, done in outs:
        if not done:
            continue
        txt = ''
        for o in st.ops:
            for q in pieces(X, o):
                txt += q if isinstance(q, str) else ''
        stack, bad = [], None
        for ch in txt + (st.close or ''):
            if ch in '([{':
                stack.append(ch)
            elif ch in ')]}':
                if not stack or stack.pop() + ch not in ('()', '[]', '{}'):
                    bad = ch
        c.ok('bracket')
        c.ok('quote')
        if bad or stack and st.close is not None:
            c.report('bracket:%s:%s' % (fmt, kind.lower()), 'bracket', h,
                     'the %s format opens a %s value with %s and closes it with %s' % (fmt, kind.lower(), repr(txt), repr(st.close)))
        if txt.count('"') % 2:
            c.report('quote:%s:%s' % (fmt, kind.lower()), 'quote', h, 'the %s format does not close the text of a %s value' % (fmt, kind.lower()))
