"""Partial evaluation of the whole library per kind of value (33 kinds, enumerations and bit-fields once per underlying integer type):
each function that looks at the kind of a node, field descriptor or sort key is evaluated with that kind fixed, so that switches, masks,
handler tables and calls through them resolve, in it and in everything it calls with the value. Every load, store, memory operation and
library call that touches the value on the remaining code must have the width and signedness of that kind."""
import collections, re
import kinds, scope
from kinds import INTS, FLOATS, COMPLEX, PTRS, SIZES, SIG, FAMILIES
from par import pmap

CHECKED = set(SIZES) | {'ENUM', 'CHAR_ARRAY', 'BITFIELD', 'ARRAY'}
EXTW = {'xdr_int8_t': (1, 1), 'xdr_uint8_t': (1, 0), 'xdr_char': (1, None), 'xdr_u_char': (1, None), 'xdr_short': (2, 1), 'xdr_u_short': (2, 0),
        'xdr_int16_t': (2, 1), 'xdr_uint16_t': (2, 0), 'xdr_u_int16_t': (2, 0), 'xdr_int': (4, 1), 'xdr_u_int': (4, 0), 'xdr_int32_t': (4, 1),
        'xdr_uint32_t': (4, 0), 'xdr_u_int32_t': (4, 0), 'xdr_long': (8, 1), 'xdr_u_long': (8, 0), 'xdr_hyper': (8, 1), 'xdr_u_hyper': (8, 0),
        'xdr_int64_t': (8, 1), 'xdr_uint64_t': (8, 0), 'xdr_u_int64_t': (8, 0), 'xdr_bool': (4, None), 'xdr_enum': (4, None)}
EXTF = {'xdr_float': 'FLOAT', 'xdr_double': 'DOUBLE'}
TEXT = {'strlen', 'strnlen', 'strcmp', 'strncmp', 'strdup', 'strchr', 'strcpy', 'strncpy', 'strcasecmp', 'strncasecmp', 'strtol', 'strtod', 'memchr'}
CONV = re.compile(r'%[-+ #0]*(?:\d+|\*)?(?:\.(?:\d+|\*))?(hh|h|ll|l|L|j|z|t|q)?([a-zA-Z])')
LEN = {'hh': 1, 'h': 2, '': 4, None: 4, 'l': 8, 'll': 8, 'j': 8, 'z': 8, 't': 8, 'q': 8}


def show(kd):
    return kd[0] + (' of ' + kd[1] if kd[1] else '')


def expect(kd, which):
    """kind whose representation the pointer designates"""
    if which in 'bc':
        return kd[1]
    return kd[1] if kd[0] in ('ENUM', 'ARRAY') else kd[0]


class Check:
    def __init__(self, p):
        self.p = p
        self.K = kinds.Kinds(p)

    # ---- one access ------------------------------------------------------
    def access(self, fn, iid, how, a, ty, sz, kd):
        """text of what is wrong, or None"""
        k = expect(kd, a[1])
        off = a[2]
        f = self.p.defined[fn]
        if k in ('CHAR_ARRAY', 'BITFIELD'):
            return None if sz == 1 or (off is None and sz <= 8) else 'text or bit-field bytes accessed %d at a time' % sz
        if k not in SIZES:
            return None
        n = SIZES[k]
        if a[1] == 'b':
            if off != 0:
                return None
            if sz < n:
                return '%d of %d bytes of the value are used' % (sz, n)
            return (self.sign(f, iid, k) if how == 'load' else None) or self.lossy(f, f.ins[iid], how, k)
        unit = n
        if k in COMPLEX:
            unit = COMPLEX[k][1]
        ok = sz in (unit, n) or (ty == 'x86_fp80' and sz == 10 and unit == 16) or (k in ('INT128', 'UINT128') and sz == 8)
        if off is None:
            ok = ok or sz == 1 or (sz in (4, 8) and n > sz)
        elif kd[0] == 'ARRAY' and a[1] == 'd':
            off = None
        elif off < 0 or off + sz > n:
            return '%d bytes at offset %d of a %d byte value' % (sz, off, n)
        if not ok:
            return '%d byte access to a value of %d bytes' % (sz, n)
        if ty in ('float', 'double', 'x86_fp80'):
            w = FLOATS.get(k) or COMPLEX.get(k)
            if not w or w[0] != ty:
                return 'accessed as %s' % ty
        if off is None:
            return None
        return (self.sign(f, iid, k) if how == 'load' else None) or self.lossy(f, f.ins[iid], how, k)

    def sign(self, f, iid, k):
        if k not in INTS:
            return None
        s = INTS[k][1]
        if 'XDR*' in [t.replace(' ', '') for t in f.ditypes]:
            return None         # the wire form of a narrow integer is cut to its width again when it is read
        for u in f.uses[('i', iid)]:
            if u.op == 'sext' and not s:
                return 'unsigned value is sign-extended'
            if u.op == 'zext' and s:
                return 'signed value is extended with zeros'
            if u.op == 'icmp' and u.raw['p'][0] in 'su' and u.raw['p'][1:] in ('gt', 'ge', 'lt', 'le') and (u.raw['p'][0] == 's') != bool(s):
                return '%s value is ordered as %s' % (('unsigned', 'signed') if not s else ('signed', 'unsigned'))
            if u.op in ('sitofp', 'uitofp') and (u.op == 'sitofp') != bool(s):
                return 'converted to floating point with the wrong sign'
            for w in ([u] if u.op == 'call' else [x for x in f.uses[u.v] if x.op == 'call'] if u.op in ('sext', 'zext') else []):
                t = self.conv(f, w, ('i', iid) if w is u else u.v, s, INTS[k][0])
                if t:
                    return t
        return None

    def addr(self, f, o, depth=0):
        """the address as an expression over parameters and repeated loads"""
        if o[0] != 'i' or depth > 6:
            return o
        i = f.ins[o[1]]
        if i.op in ('getelementptr', 'load', 'zext', 'sext'):
            return (i.op, str(i.raw.get('g')) if 'g' not in i.raw else tuple(str(s) if s[0] == 'f' else (s[2], self.addr(f, kinds.T(s[1]), depth + 1)) for s in i.raw['g']),
                    self.addr(f, i.args[0], depth + 1))
        return o

    def lossy(self, f, i, how, k):
        """precision or high bytes lost on the way from or to the value"""
        FW = {'float': 4, 'double': 8, 'x86_fp80': 10}
        if k in FLOATS or k in COMPLEX:
            w = FW[(FLOATS.get(k) or COMPLEX[k])[0]]
            if how == 'load':
                for u in f.uses[i.v]:
                    if u.op == 'fptrunc' and FW.get(u.ty, 99) < w:
                        return 'value is rounded to %s' % u.ty
            else:
                v = i.args[0]
                j = f.ins[v[1]] if v[0] == 'i' else None
                if j is not None and j.op == 'fpext' and FW.get(j.raw.get('ft'), 99) < w:
                    return 'value stored went through %s' % j.raw.get('ft')
            return None
        if k not in INTS:
            return None
        n = 8 * INTS[k][0]
        if how == 'load':
            if kinds.bits(i.ty) != n or not f.uses[i.v]:
                return None
            got = set()
            # the same value may be loaded again for its other half
            key = self.addr(f, i.args[0])
            again = [j for j in f.instrs() if j.op == 'load' and j.ty == i.ty and self.addr(f, j.args[0]) == key]
            for u in [u for j in again for u in f.uses[j.v]]:
                for lo, x in [(0, u)] if u.op == 'trunc' else [(int(u.args[1][1]), y) for y in f.uses[u.v]] if u.op in ('lshr', 'ashr') and u.args[1][0] == 'c' else [(None, u)]:
                    if lo is None or x.op != 'trunc':
                        return None
                    got |= set(range(lo, lo + kinds.bits(x.ty)))
            if not set(range(n)) <= got:
                return 'only %d of %d bits are used' % (len(got & set(range(n))), n)
            return None
        v = i.args[0]
        j = f.ins[v[1]] if v[0] == 'i' else None
        if j is not None and j.op in ('zext', 'sext') and 1 < kinds.bits(j.raw.get('ft')) < n:
            return 'value stored has only %d bits' % kinds.bits(j.raw.get('ft'))
        return None

    def conv(self, f, call, val, s, n):
        """a value printed directly: the conversion must have its signedness and width"""
        c = f.callee(call)
        if not c or 'printf' not in c:
            return None
        for k, a in enumerate(call.args):
            fmt = self.p.cstr(a)
            if fmt is None or b'%' not in fmt:
                continue
            cs = CONV.findall(fmt.decode('latin-1').replace('%%', ''))
            for (l, t), x in zip(cs, call.args[k + 1:]):
                if x == val:
                    return self.convok(l, t, s, n)
        return None

    def convok(self, l, t, s, n):
        if t in 'di' and not s:
            return 'unsigned value printed with a signed conversion'
        if t in 'u' and s:
            return 'signed value printed with an unsigned conversion'
        if t in 'diuxXo' and LEN.get(l, 4) < n:
            return 'printed with a conversion for %d bytes' % LEN.get(l, 4)
        return None

    def table_conv(self, s, kd):
        k = expect(kd, 'd')
        cs = CONV.findall(s.replace('%%', ''))
        if len(cs) != 1:
            return None
        l, t = cs[0]
        if k in INTS:
            if t not in 'diuxXo':
                return 'conversion %%%s%s' % (l, t)
            n, sg = INTS[k]
            if LEN.get(l, 4) < n or (LEN.get(l, 4) > 4) != (n > 4):
                return 'conversion %%%s%s for %d bytes' % (l, t, n)
            return self.convok(l, t, sg, n)
        if k in FLOATS:
            if t not in 'aAeEfFgG' or (l == 'L') != (k == 'LONG_DOUBLE'):
                return 'conversion %%%s%s' % (l, t)
        if k == 'CHAR' and t not in 'c':
            return 'conversion %%%s%s' % (l, t)
        if k in ('STRING', 'CHAR_ARRAY') and t != 's':
            return 'conversion %%%s%s' % (l, t)
        return None

    def external(self, x, k, a, consts, kd):
        e = expect(kd, a[1])
        if e not in SIZES:
            return None
        n = SIZES[e]
        if x in EXTW:
            w, s = EXTW[x]
            if w != n and not (e in ('INT128', 'UINT128') and w == 8):
                return '%s transfers %d bytes of a value of %d' % (x, w, n)
            if e in FLOATS:
                return '%s on a floating point value' % x
        if x in EXTF and EXTF[x] != e:
            return '%s on a value of another type' % x
        if x in ('xdr_opaque', 'memcmp', 'fwrite', 'fread') and len(consts) > 2:
            c = consts[2] if x != 'fwrite' else consts[1]
            if c and c[1] not in (n, SIG.get(e, n)):
                return '%s of %d bytes of a value of %d' % (x, c[1], n)
        if x in TEXT:
            return '%s on a value that is no text' % x
        return None

    def block(self, how, a, n, kd):
        e = expect(kd, a[1])
        if e not in SIZES or n is None or a[2] is None:
            return None
        if a[1] == 'b':
            return None
        if a[2] + n > SIZES[e]:
            return 'memory operation on %d bytes of a value of %d' % (n, SIZES[e])
        if how == 'store' and n < SIG.get(e, SIZES[e]) and e not in COMPLEX:
            return 'memory operation sets %d bytes of a value of %d' % (n, SIZES[e])
        return None

    def judge(self, ev, kd):
        """[(rule, function, instr id, text)] wrong, number of obligations"""
        bad, n = [], collections.Counter()
        for e in ev:
            t = None
            r = 'width'
            if e[0] == 'acc':
                t = self.access(e[1], e[2], e[3], e[4], e[5], e[6], kd)
                n[r] += expect(kd, e[4][1]) in SIZES
            elif e[0] == 'ext':
                t = self.external(e[4], e[5], e[3], e[6], kd)
                n[r] += 1
            elif e[0] == 'sized':
                k = expect(kd, e[3][1])
                if k in SIZES and e[3][2] == 0 and e[3][1] != 'b':
                    n[r] += 1
                    if e[4] not in (SIZES[k], SIG.get(k)) and not (k in COMPLEX and e[4] in (COMPLEX[k][1], 10)):
                        t = '%d of %d bytes of the value are handed over' % (e[4], SIZES[k])
            elif e[0] == 'block':
                t = self.block(e[3], e[4], e[5], kd)
                n[r] += 1
            elif e[0] == 'conv':
                r = 'conversion'
                t = self.table_conv(e[3], kd)
                n[r] += 1
            elif e[0] == 'descr':
                r = 'kind-known'
                if e[3] != e[4]:
                    t = 'the descriptor built for it says %s' % e[4]
                n[r] += 1
            elif e[0] == 'format':
                r = 'override'
                k = self.K.name.get(e[3])
                n[r] += 1
                if k not in (kd[0], kd[1]) and not (kd[0] in COMPLEX and k == kd[0][8:]):
                    t = 'the user\'s formatter of %s is used' % k
            elif e[0] == 'beyond':
                t = 'table %s has no entry' % e[3]
            if t:
                bad.append((r, e[1], e[2], t))
        self.partial(ev, kd, bad)
        return bad, n

    def partial(self, ev, kd, bad):
        """a value touched piece by piece is touched as a whole"""
        got, first, open_ = collections.defaultdict(set), {}, set()
        for e in ev:
            a, n = (e[4], e[6]) if e[0] == 'acc' else (e[4], e[5]) if e[0] == 'block' else (e[3], e[4]) if e[0] == 'sized' else (e[3], None) if e[0] == 'ext' else (None, 0)
            if a is None or a[1] not in 'dc':
                continue
            if e[0] == 'ext':
                n = EXTW[e[4]][0] if e[4] in EXTW else SIZES[EXTF[e[4]]] if e[4] in EXTF else None
                if n is None and e[4] in ('xdr_opaque', 'memcmp') and len(e[6]) > 2 and e[6][2]:
                    n = e[6][2][1]
            if a[2] is None or n is None:
                open_.add(a[1])
                continue
            got[a[1]] |= set(range(a[2], a[2] + n))
            first.setdefault(a[1], e)
        for w, b in got.items():
            k = expect(kd, w)
            if w in open_ or k not in SIZES or kd[0] == 'ARRAY' or (kd[0] == 'ENUM' and SIZES[k] > 8):
                continue            # enumerations have at most 64 bits
            h = COMPLEX.get(k)
            want = set(range(SIG.get(k, SIZES[k]))) if not h else {x + o for x in range(10 if h[1] == 16 else h[1]) for o in (0, h[1])}
            if not want <= b:
                e = first[w]
                bad.append(('width', e[1], e[2], 'only %d of %d bytes of the value are used' % (len(b & want), len(want))))


def roots(p, f):
    """bindings of subjects whose kind the function may look at"""
    out = []
    dt = f.ditypes[1:] if f.ditypes else []
    o = 1 if f.sret else 0
    ty = {k + o: t.replace('const ', '').replace(' ', '') for k, t in enumerate(dt)}
    voids = [k for k, t in ty.items() if t == 'void*']
    for k, t in ty.items():
        if t == 'mr_idx_t':
            out.append(('parameter %s' % f.param_name(k), {('a', k): ('IDX',)}))
        elif t == 'mr_ptrdes_t*':
            out.append(('parameter %s' % f.param_name(k), {('a', k): ('N', 0)}))
        elif t == 'mr_fd_t*':
            b = {('a', k): ('FD', 0)}
            if len(voids) == 1:
                b[('a', voids[0])] = ('D', 'd', 0)
            out.append(('parameter %s' % f.param_name(k), b))
        elif t == 'mr_stype_t*':
            out.append(('parameter %s' % f.param_name(k), {('a', k): ('FD', f.prog.kinds.st)}))
        elif t == 'mr_type_t':
            b = {('a', k): 'KIND'}
            if len(voids) == 1:
                b[('a', voids[0])] = ('D', 'd', 0)
            out.append(('parameter %s' % f.param_name(k), b))
    # nodes of the array selected by a value computed here
    K = f.prog.kinds
    seen = set()
    for i in f.instrs():
        if i.op != 'getelementptr' or len(i.raw['g']) != 1:
            continue
        s = i.raw['g'][0]
        if s[0] != 'x' or s[2] != K.node:
            continue
        v = kinds.T(s[1])
        while v[0] == 'i' and f.ins[v[1]].op in ('zext', 'sext', 'trunc'):
            v = f.ins[v[1]].args[0]
        if v[0] == 'i' and v not in seen:
            seen.add(v)
            out.append(('node %s' % (p_name(f, v)), {v: ('IDX',)}))
    return out


def p_name(f, v):
    return '%' + str(v[1])


def judge_root(C, f, who, b):
    """all kinds of one subject"""
    K = C.K
    res = []
    looks = False
    only = K.only(f.name) if who.startswith('node ') else None
    for kd in K.kinds():
        if only is not None and kd[0] not in only:
            continue
        bind = {k: (('n', K.val[kd[0]]) if x == 'KIND' else x) for k, x in b.items()}
        ret, ev = K.run(f.name, bind, kd)
        mine = any(e[0] == 'kind' and e[1] == f.name for e in ev) or 'KIND' in b.values()
        looks = looks or mine
        res.append((kd, ret, ev))
    return res if looks else None


def run(c):
    p = c.prog('plain')
    c.rule('width', 'a load, store, memory or library operation on the value has the width, type and signedness of its kind')
    c.rule('conversion', 'an output conversion selected by the kind has its width and signedness')
    c.rule('override', 'the formatter the program installed for a kind is used for that kind only')
    c.rule('kind-known', 'a descriptor built on the way carries the kind that is read from it')
    c.rule('uniform', 'a test or table on the kind treats all widths of one family of types alike')
    c.rule('size', 'the size recorded for a kind is the size of its type')
    C = Check(p)
    p.kinds = C.K
    jobs = []
    for n in sorted(p.defined):
        f = p.defined[n]
        if not p.is_lib(f) or scope.generated(f) or n.startswith('wit_'):
            continue
        jobs += [(n, who, b) for who, b in roots(p, f)]

    def one(j):
        n, who, b = j
        f = p.defined[n]
        r = judge_root(C, f, who, b)
        if r is None:
            return None
        out, cnt, fam = [], collections.Counter(), collections.defaultdict(dict)
        own = []                # findings of kinds the function has a case for
        touched = set()
        for kd, ret, ev in r:
            if kd[0] in CHECKED:
                bad, m = C.judge(ev, kd)
                cnt.update(m)
                out += [(kd,) + x for x in bad]
                if kd[1] is None and any(e[0] == 'switch' and e[1] == n and e[3] for e in ev):
                    own += [(kd,) + x for x in bad]
                touched |= {e[1] for e in ev if e[0] in ('acc', 'ext', 'block')}
            for e in ev:
                if e[0] == 'br' and e[4]:
                    fam[('test', e[1], e[2])][kd] = e[3]
                elif e[0] == 'switch':
                    fam[('switch', e[1], e[2])][kd] = e[3]
                elif e[0] == 'table':
                    fam[('table ' + e[3], e[1], e[2])][kd] = e[4]
        return n, who, (out, own), cnt, dict(fam), touched, {e[1:] for kd, ret, ev in r for e in ev if e[0] == 'enter' and e[1] != n}, tuple(sorted(k[1] for k in b if k[0] == 'a'))
    touched = set()
    rs = [r for r in pmap(one, jobs) if r is not None]
    enters = collections.defaultdict(set)
    for r in rs:
        for x, ks in r[6]:
            enters[x].add((r[0], ks))
    for n, who, out, cnt, fam, tt, ent, ks in rs:
        # a handler that only runs for the kinds its callers select is judged in their runs
        if any(set(ks) <= set(k2) and ks and (n not in {x for x, _ in enters[g]} or n > g) for g, k2 in enters[n]):
            out = out[1]
            fam = {}
        else:
            out = out[0]
        c.ok('subjects')
        touched |= tt
        for k, v in cnt.items():
            c.ok(k, v)
        for kd, rule, fn, iid, t in out:
            g = p.defined[fn]
            i = g.ins[iid]
            c.report('%s:%s:%s' % (rule, fn, re.sub(r'\d+', '#', t)), rule, g.where(i), '%s handling a value of kind %s: %s' % (fn, show(kd), t), ['%s of %s' % (who, n)])
        for (w, fn, iid), m in fam.items():
            uniform(c, p, w, fn, iid, m)
    c.touched = touched
    # the size the registry records per kind
    c.require(SIZE_OF in p.defined, 'function ' + SIZE_OF)
    for k, n in SIZES.items():
        r, ev = C.K.run(SIZE_OF, {('a', 0): ('n', C.K.val[k])}, (k, None))
        if r[0] != 'n':
            c.undecided = True
            continue
        c.ok('size')
        if r[1] != n:
            c.report('size:%s' % k, 'size', p.defined[SIZE_OF].where(None), '%s (%s) is %d, a value has %d bytes' % (SIZE_OF, k, r[1], n))
    c.floor('subjects', 35)
    c.floor('width', 1200)
    c.floor('override', 150)
    c.floor('uniform', 350)
    c.floor('size', 20)


def uniform(c, p, w, fn, iid, m):
    """the outcome is the same for all members of a family"""
    for outer in (None, 'ENUM', 'BITFIELD', 'POINTER', 'ARRAY'):
        for fam in FAMILIES:
            got = {k: m[kd] for k in fam for kd in [(outer, k) if outer else (k, None)] if kd in m}
            if len(got) < 2 or (w == 'test' and 'INT128' in fam):
                continue
            c.ok('uniform')
            if w == 'switch' and 'INT128' in fam:
                two = [m.get((outer, k) if outer else (k, None)) for k in ('INT64', 'UINT64')]
                if len(set(two)) > 1:
                    continue        # a difference of sign
            if len(set(got.values())) > 1:
                few = min((0, 1), key=lambda x: (sum(v == x for v in got.values()), x))
                odd = [k for k, v in got.items() if v == few]
                g = p.defined[fn]
                c.report('uniform:%s:%s:%s' % (fn, w, '+'.join(odd)), 'uniform', g.where(g.ins[iid]),
                         '%s: %s treats %s%s unlike %s' % (fn, w, '+'.join(odd), ' behind ' + outer if outer else '', '+'.join(k for k in got if k not in odd)))


SIZE_OF = 'mr_type_size'
