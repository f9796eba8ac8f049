"""Types are declared in a witness unit through every declaration macro of the
public header (plain and qualified members of every basic type, pointers, arrays
of one to four dimensions, bit-fields, excluded members, named and unnamed
anonymous unions, functions, enumerations, packed and aligned types, long lists,
types of other origin) and compiled with the library.  The initial value of
every type descriptor, of the witness and of the library itself, is then read
from the IR and compared, record by record, with the layout the compiler wrote
into the debug information: nothing is run.  What registration completes later at
run time is not part of this rule."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
import frontend
from frontend import VERIF, AnalysisError

R_TYPE = 'the record of a type has its name, size, kind and its note and resource'
R_LIST = 'members and constants are recorded completely, in order, and the list is closed'
R_MEMBER = 'the record of a member has its name, position and size'
R_KIND = 'the record of a member has the kind of its type and of the type it points to'
R_SHAPE = 'the record of an array has its dimensions'
R_BITS = 'the image of a bit-field has exactly the bits of the field'
R_NOTE = 'notes and resources are recorded with the member they were written for'
R_ENUM = 'the record of a constant has its name and value'
R_SIG = 'the record of a function lists the result and every argument with its type'
R_REG = 'every descriptor is registered by a constructor'

CV = ('DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_restrict_type', 'DW_TAG_atomic_type')


class Unit:
    def __init__(self, view):
        self.di = view['di']
        self.gl = view['globals']
        self.fn = view['functions']
        self.byname = {}
        for k, t in enumerate(self.di):
            n = t['n']
            if not n or t['fwd']:
                continue
            if t['tag'] == 'DW_TAG_typedef':
                self.byname[n] = k
            elif t['tag'] in ('DW_TAG_structure_type', 'DW_TAG_union_type', 'DW_TAG_enumeration_type', 'DW_TAG_base_type'):
                self.byname.setdefault(n, k)
                self.byname.setdefault({'DW_TAG_structure_type': 'struct ', 'DW_TAG_union_type': 'union ', 'DW_TAG_enumeration_type': 'enum '}.get(t['tag'], '') + n, k)
        self._img = {}
        self._path = {}
        self.mrtypes = {}
        for t in self.di:
            if t['tag'] == 'DW_TAG_enumeration_type':
                for e in t['e']:
                    if e[0] == 'e' and e[1].startswith('MR_'):
                        self.mrtypes[e[1]] = e[2]
        # one basic type can be spelled several ways

    # ---- types --------------------------------------------------------------
    def strip(self, k, typedefs=True):
        while k >= 0 and (self.di[k]['tag'] in CV or (typedefs and self.di[k]['tag'] == 'DW_TAG_typedef')):
            k = self.di[k]['b']
        return k

    def size(self, k):
        k = self.strip(k)
        if k < 0:
            return 0
        t = self.di[k]
        if t['tag'] == 'DW_TAG_pointer_type':
            return 8
        return t['sz'] // 8

    def member(self, tid, name):
        """(bit offset, bit size, type) of a member, looking into unnamed unions"""
        key = (tid, name)
        if key in self._path:
            return self._path[key]
        out = None
        t = self.di[self.strip(tid)]
        for e in t.get('e', []):
            if e[0] != 'm':
                continue
            m = self.di[e[1]]
            if m['tag'] != 'DW_TAG_member':
                continue
            if m['n'] == name:
                out = (m['off'], m['sz'], m['b'])
                break
            if not m['n']:
                sub = self.member(m['b'], name)
                if sub:
                    out = (m['off'] + sub[0], sub[1], sub[2])
                    break
        self._path[key] = out
        return out

    def field(self, tname, path):
        off, tid = 0, self.byname.get(tname)
        if tid is None:
            raise AnalysisError('anchor not found: type ' + tname)
        sz = 0
        for n in path.split('.'):
            m = self.member(tid, n)
            if m is None:
                raise AnalysisError('anchor not found: member %s of %s' % (path, tname))
            off += m[0]
            sz, tid = m[1], m[2]
        return off, sz

    # ---- initial values -------------------------------------------------------
    def image(self, g):
        if g not in self._img:
            b = bytearray(self.gl[g]['size'])
            ptr = {}
            for o, n, c in self.gl[g].get('init', []):
                if c[0] == 'c':
                    b[o:o + n] = (int(c[1]) % (1 << (8 * n))).to_bytes(n, 'little')
                elif c[0] == 's':
                    raw = c[1].encode('latin-1') if all(ord(x) < 256 for x in c[1]) else c[1].encode()
                    b[o:o + len(raw)] = raw
                elif c[0] != 'n':
                    ptr[o] = c
            self._img[g] = (bytes(b), ptr)
        return self._img[g]

    def num(self, g, base, tname, path):
        off, sz = self.field(tname, path)
        b, _ = self.image(g)
        v = int.from_bytes(b[base:base + (off + sz + 7) // 8], 'little') >> off
        return v & ((1 << sz) - 1)

    def ptr(self, g, base, tname, path):
        off, _ = self.field(tname, path)
        return self.image(g)[1].get(base + off // 8)

    def target(self, c):
        """(global, offset) a pointer constant designates"""
        if c is None:
            return None
        if c[0] == 'g':
            return c[1], 0
        if c[0] == 'e' and c[1] == 'getelementptr' and len(c) > 4:
            t = self.target(c[2][0])
            return (t[0], t[1] + c[4]) if t else None
        if c[0] == 'e' and c[1] in ('bitcast', 'addrspacecast'):
            return self.target(c[2][0])
        return None

    def text(self, c):
        t = self.target(c)
        if t is None:
            return None
        if t[0] not in self.gl:
            return None
        b = self.image(t[0])[0][t[1]:]
        return b.split(b'\0')[0].decode('latin-1')

    def str(self, g, base, tname, path):
        c = self.ptr(g, base, tname, path)
        return self.text(c) if c is not None else None

    def plist(self, g, base, tname, path):
        """globals a NULL-terminated list of pointers names; the second result tells whether it is closed"""
        t = self.target(self.ptr(g, base, tname, path))
        if t is None:
            return None, False
        n = self.gl[t[0]]['size'] // 8
        _, ptr = self.image(t[0])
        out = []
        for k in range(n):
            c = ptr.get(t[1] + 8 * k)
            if c is None:
                return out, k == n - 1
            out.append(self.target(c))
        return out, False


BASES = {'bool': '_Bool'}


def canon(words):
    """canonical form of the words of a basic type, None if it is not one"""
    w = [x for x in words if x not in ('const', 'volatile', '__const', '__volatile', '__const__', '__volatile__', 'restrict', 'signed', '__signed__')]
    cx = [x for x in w if x in ('_Complex', '__complex__', 'complex')]
    sg = 'signed' in words or '__signed__' in words
    w = [BASES.get(x, x) for x in w if x not in ('_Complex', '__complex__', 'complex')]
    un = 'unsigned' in w
    w = [x for x in w if x != 'unsigned']
    if any(x not in ('char', 'short', 'int', 'long', 'float', 'double', '_Bool', '__int128', 'void') for x in w):
        return None
    if not w and not un and not sg:
        return None
    if 'char' in w:
        return ('uchar' if un else 'schar' if sg else 'char')
    if 'void' in w or '_Bool' in w:
        return w[0]
    if 'float' in w or 'double' in w:
        return ('c' if cx else '') + ('f' if 'float' in w else 'ld' if 'long' in w else 'd')
    if '__int128' in w:
        return ('u' if un else '') + '128'
    return ('u' if un else '') + ('short' if 'short' in w else 'll' if w.count('long') > 1 else 'l' if 'long' in w else 'int')


class Judge:
    def __init__(self, c, u, expect):
        self.c, self.u, self.expect = c, u, expect
        K = u.mrtypes
        self.K = K
        for n in ('MR_TYPE_NONE', 'MR_TYPE_STRUCT', 'MR_TYPE_UNION', 'MR_TYPE_ENUM', 'MR_TYPE_FUNC', 'MR_TYPE_FUNC_TYPE', 'MR_TYPE_BITFIELD', 'MR_TYPE_VOID', 'MR_TYPE_ANON_UNION',
                  'MR_TYPE_NAMED_ANON_UNION', 'MR_TYPE_END_ANON_UNION', 'MR_TYPE_STRING', 'MR_TYPE_CHAR', 'MR_TYPE_INT8', 'MR_TYPE_UINT64', 'MR_TYPE_COMPLEX_LONG_DOUBLE', 'MR_TDP_MACRO'):
            c.require(n in K, n)
        self.kname = {v: n for n, v in K.items() if n.startswith('MR_TYPE_') and not n.endswith('_CLASS')}

    def bad(self, rule, td, what, text, g):
        gl = self.u.gl[self.cur]
        f = gl.get('file') or '?'
        self.c.report('%s:%s' % (td, what), rule, '%s:%s %s' % (os.path.basename(f), gl.get('line', 0), td), text)

    # ---- expected kinds ---------------------------------------------------------
    def kind(self, k):
        """set of acceptable kinds for a type"""
        u, K = self.u, self.K
        if k < 0:
            return {K['MR_TYPE_VOID']}
        k = u.strip(k)
        if k < 0:
            return {K['MR_TYPE_VOID']}
        t = u.di[k]
        if t['tag'] == 'DW_TAG_base_type':
            n = t['sz'] // 8
            e = t['enc']
            if e == 'DW_ATE_boolean':
                return {K['MR_TYPE_BOOL']}
            if t['n'] == 'char':
                return {K['MR_TYPE_CHAR']}
            if e in ('DW_ATE_signed', 'DW_ATE_signed_char'):
                return {K['MR_TYPE_INT%d' % (8 * n)]}
            if e in ('DW_ATE_unsigned', 'DW_ATE_unsigned_char'):
                return {K['MR_TYPE_UINT%d' % (8 * n)]}
            if e == 'DW_ATE_float':
                return {K[{4: 'MR_TYPE_FLOAT', 8: 'MR_TYPE_DOUBLE', 16: 'MR_TYPE_LONG_DOUBLE'}[n]]}
            if e == 'DW_ATE_complex_float':
                return {K[{8: 'MR_TYPE_COMPLEX_FLOAT', 16: 'MR_TYPE_COMPLEX_DOUBLE', 32: 'MR_TYPE_COMPLEX_LONG_DOUBLE'}[n]]}
            return {0}
        if t['tag'] == 'DW_TAG_pointer_type':
            p = u.strip(t['b']) if t['b'] >= 0 else -1
            if p >= 0 and u.di[p]['tag'] == 'DW_TAG_base_type' and u.di[p]['n'] == 'char':
                return {K['MR_TYPE_STRING']}
            return {0}
        if t['tag'] == 'DW_TAG_enumeration_type':
            return {0} | self.kind(t['b'])
        if t['tag'] == 'DW_TAG_array_type':
            if len(t['e']) == 1 and self.kind(t['b']) == {K['MR_TYPE_CHAR']}:
                return {K['MR_TYPE_CHAR_ARRAY']}
            return {0}
        return {0}

    def pkind(self, k):
        """kinds of the pointee of a pointer type; 0 for other types"""
        u = self.u
        k = u.strip(k) if k >= 0 else -1
        if k < 0 or u.di[k]['tag'] != 'DW_TAG_pointer_type':
            return {0}
        return self.kind(u.di[k]['b'])

    def names(self, ks):
        return '/'.join(sorted(self.kname.get(k, str(k)) for k in ks))

    # ---- type names ---------------------------------------------------------------
    def spelled(self, text, k):
        """does the spelled type text denote type k?  None if it cannot be told"""
        u = self.u
        if text is None or '__typeof' in text or '(' in text or '[' in text:
            return None
        stars = text.count('*')
        # the base comes before the first star
        base = text.split('*')[0].split()
        while stars:
            if k >= 0 and u.di[k]['tag'] in CV:
                k = u.strip(k, False)
            if k >= 0 and u.di[k]['tag'] == 'DW_TAG_typedef':
                k = u.strip(k)
            if k < 0 or u.di[k]['tag'] != 'DW_TAG_pointer_type':
                return False
            k = u.di[k]['b']
            stars -= 1
        base = [w for w in base if w not in ('const', 'volatile', '__const', '__volatile', '__const__', '__volatile__')]
        can = canon(base)
        if can is not None:
            k = u.strip(k) if k >= 0 else -1
            if k < 0:
                return can == 'void'
            t = u.di[k]
            if t['tag'] == 'DW_TAG_base_type' and t['enc'] == 'DW_ATE_complex_float':
                return can == {8: 'cf', 16: 'cd', 32: 'cld'}.get(t['sz'] // 8)
            return t['tag'] == 'DW_TAG_base_type' and canon(t['n'].split()) == can
        name = ' '.join(base)
        while k >= 0:
            t = u.di[k]
            if t['n'] == name or ('struct ' + t['n']) == name or ('union ' + t['n']) == name or ('enum ' + t['n']) == name:
                return True
            if t['tag'] in CV or t['tag'] == 'DW_TAG_typedef':
                k = t['b']
                continue
            break
        return False

    # ---- one structured type (member type, result or argument) ---------------------
    def stype(self, td, what, g, base, T, path, k, rule):
        """kind and pointed kind of a structured type record"""
        u = self.u
        got = u.num(g, base, T, path + 'mr_type')
        if got not in self.kind(k):
            self.bad(rule, td, what + ':kind', '%s: recorded kind %s, the type is %s' % (what, self.kname.get(got, got), self.names(self.kind(k))), g)
        aux = u.num(g, base, T, path + 'mr_type_aux')
        if aux not in self.pkind(k):
            self.bad(rule, td, what + ':aux', '%s: recorded kind of the pointed type %s, it is %s' % (what, self.kname.get(aux, aux), self.names(self.pkind(k))), g)
        sp = u.str(g, base, T, path + 'type')
        if self.spelled(sp, k) is False or sp is None:
            self.bad(rule, td, what + ':type', '%s: recorded type name %r does not denote its type' % (what, sp), g)

    def signature(self, td, what, g, base, T, path, k):
        """result and arguments of a function type k"""
        u, K = self.u, self.K
        want = list(u.di[k].get('a', []))
        got, closed = u.plist(g, base, T, path)
        if got is None or not closed:
            self.bad(R_SIG, td, what + ':list', '%s: the list of argument types is missing or not closed' % what, g)
            return
        self.c.ok(R_SIG)
        if len(want) == 1 and len(got) == 2:
            # (void) is recorded as one argument without a value
            if u.num(got[1][0], got[1][1], 'mr_stype_t', 'mr_type') != K['MR_TYPE_VOID']:
                self.bad(R_SIG, td, what + ':void', '%s: an argument is recorded that the function does not have' % what, g)
            got = got[:1]
        if len(got) != len(want):
            self.bad(R_SIG, td, what + ':count', '%s: %d results and arguments recorded, the function has %d' % (what, len(got), len(want)), g)
            return
        for n, (r, t) in enumerate(zip(got, want)):
            sp = u.byname.get(u.str(r[0], r[1], 'mr_stype_t', 'type') or '')
            if sp is not None and u.di[u.strip(sp)]['tag'] == 'DW_TAG_array_type' and t >= 0 and u.di[u.strip(t)]['tag'] == 'DW_TAG_pointer_type':
                continue    # an argument of an array type is passed as a pointer
            w = '%s %s' % (what, 'result' if n == 0 else 'argument %d' % n)
            self.stype(td, w, r[0], r[1], 'mr_stype_t', '', t, R_SIG) if r[0] in u.gl else None
            sz = u.num(r[0], r[1], 'mr_stype_t', 'size')
            ts = u.size(t) if t >= 0 and u.strip(t) >= 0 else 1
            if sz != ts:
                self.bad(R_SIG, td, w + ':size', '%s: recorded size %d, the type has %d' % (w, sz, ts), g)
            self.c.ok(R_SIG)

    # ---- members ------------------------------------------------------------------
    def flatten(self, tid, base=0):
        """expected records: ('f', name, bit offset, bit size, type, is bit-field) / ('a', name) / ('e',)"""
        u = self.u
        ms = [u.di[e[1]] for e in u.di[u.strip(tid)]['e'] if e[0] == 'm']
        ms = [m for m in ms if m['tag'] == 'DW_TAG_member']
        out = []
        k = 0
        while k < len(ms):
            m = ms[k]
            if not m['n']:
                out.append(('a', ''))
                out += self.flatten(m['b'], base + m['off'])
                out.append(('e',))
            else:
                nx = ms[k + 1] if k + 1 < len(ms) else None
                bt = u.di[u.strip(m['b'])] if u.strip(m['b']) >= 0 else None
                if nx is not None and not nx['n'] and m['sz'] == 0 and bt and bt['tag'] == 'DW_TAG_array_type' and self.kind(bt['b']) == {self.K['MR_TYPE_CHAR']}:
                    out.append(('a', m['n']))
                    out += self.flatten(nx['b'], base + nx['off'])
                    out.append(('e',))
                    k += 2
                    continue
                out.append(('f', m['n'], base + m['off'], m['sz'], m['b'], m['bf']))
            k += 1
        return out

    def res(self, td, what, g, base, T, exp, own=True):
        u = self.u
        meta = u.str(g, base, T, 'meta')
        rt = u.str(g, base, T, 'res_type')
        rp = u.ptr(g, base, T, 'res')
        rs = u.num(g, base, T, 'mr_size')
        self.c.ok(R_NOTE)
        if (meta or '') != exp[0]:
            self.bad(R_NOTE, td, what + ':meta', '%s: recorded note %r, declared with %r' % (what, meta, exp[0]), g)
        if not own:
            return      # the record keeps a resource of its own
        if exp[1]:
            if rt != 'string' or u.text(rp) != exp[1] or rs != exp[2]:
                self.bad(R_NOTE, td, what + ':res', '%s: recorded resource %r of type %r and size %d, declared %r, string, %d' % (what, u.text(rp), rt, rs, exp[1], exp[2]), g)
        elif rt or rp or rs:
            self.bad(R_NOTE, td, what + ':res', '%s: a resource is recorded that was not declared' % what, g)

    def fields(self, td, g, tid):
        u, K, c = self.u, self.K, self.c
        T = 'mr_fd_t'
        got, closed = u.plist(g, 0, 'mr_td_t', 'param.struct_param.fields')
        want = self.flatten(tid)
        if got is None or not closed:
            self.bad(R_LIST, td, 'list', 'the list of members is missing or not closed', g)
            return
        c.ok(R_LIST)
        gn = [(r, u.str(r[0], r[1], T, 'name.str')) for r in got]
        wn = [w[1] if w[0] != 'e' else None for w in want]
        if [n for _, n in gn] != wn:
            miss = [n for n in wn if n and n not in [x for _, x in gn]]
            self.bad(R_LIST, td, 'members', 'the recorded members are not the members of the type in order: %s' % ('missing ' + ', '.join(miss[:4]) if miss else 'recorded %s' % [n for _, n in gn][:6]), g)
            return
        exp = self.expect.get(td)
        if exp and len(exp['f']) != len(want):
            raise AnalysisError('witness type %s: %d members expected, %d found' % (td, len(exp['f']), len(want)))
        ssize = u.size(tid)
        for n, ((r, name), w) in enumerate(zip(gn, want)):
            fg, fo = r
            mt = u.num(fg, fo, T, 'stype.mr_type')
            if exp:
                self.res(td, 'member %s' % (name if w[0] != 'e' else 'end of union'), fg, fo, T, exp['f'][n], w[0] != 'a')
            if w[0] == 'a':
                c.ok(R_KIND)
                if mt != K['MR_TYPE_NAMED_ANON_UNION' if name else 'MR_TYPE_ANON_UNION'] or bool(u.num(fg, fo, T, 'unnamed')) != (not name):
                    self.bad(R_KIND, td, 'anon:%s' % name, 'the opening of an anonymous union is recorded as %s' % self.kname.get(mt, mt), g)
                continue
            if w[0] == 'e':
                c.ok(R_KIND)
                if mt != K['MR_TYPE_END_ANON_UNION']:
                    self.bad(R_KIND, td, 'end', 'the end of an anonymous union is recorded as %s' % self.kname.get(mt, mt), g)
                continue
            _, _, off, sz, k, bf = w
            what = 'member ' + name
            void = mt == K['MR_TYPE_VOID'] and (self.kind(k) != {K['MR_TYPE_VOID']})
            st = u.strip(k)
            t = u.di[st] if st >= 0 else None
            isfn = t is not None and t['tag'] == 'DW_TAG_pointer_type' and t['b'] >= 0 and u.di[t['b']]['tag'] == 'DW_TAG_subroutine_type'
            arr = t is not None and t['tag'] == 'DW_TAG_array_type' and u.di[k]['tag'] in CV + ('DW_TAG_array_type',) and u.di[u.strip(k, False)]['tag'] == 'DW_TAG_array_type'
            spell = u.str(fg, fo, T, 'stype.type')
            # -- position and size
            c.ok(R_MEMBER)
            rsz, roff = u.num(fg, fo, T, 'stype.size'), u.num(fg, fo, T, 'offset')
            if bf:
                wsz = u.size(k)
            elif void and arr:
                wsz = u.size(t['b'])
            else:
                wsz = u.size(k)
            if rsz != wsz and not (arr and sz == 0 and void):
                self.bad(R_MEMBER, td, what + ':size', '%s: recorded size %d, it has %d' % (what, rsz, wsz), g)
            if not bf and roff != off // 8 and not (sz == 0 and not exp):
                self.bad(R_MEMBER, td, what + ':offset', '%s: recorded at %d, it is at %d' % (what, roff, off // 8), g)
            # -- kinds
            c.ok(R_KIND)
            isarr = u.num(fg, fo, T, 'stype.is_array')
            isbf = u.num(fg, fo, T, 'stype.is_bitfield')
            aux = u.num(fg, fo, T, 'stype.mr_type_aux')
            if exp and void != (td == 'dw_void_t'):
                self.bad(R_KIND, td, what + ':void', '%s: recorded as %s' % (what, 'excluded' if void else 'included'), g)
                continue
            if void:
                if bool(isarr) or bool(isbf):
                    self.bad(R_KIND, td, what + ':void', '%s: an excluded member is recorded as an array or bit-field' % what, g)
                continue
            if isfn and mt == K['MR_TYPE_FUNC']:
                fk = t['b']
                ret = u.di[fk]['a'][0] if u.di[fk]['a'] else -1
                if self.spelled(spell, ret) is False:
                    self.bad(R_KIND, td, what + ':type', '%s: recorded result type %r does not denote its type' % (what, spell), g)
                self.signature(td, what, fg, fo, T, 'func_param.args', fk)
                continue
            if exp and td == 'dw_func_t':
                self.bad(R_KIND, td, what + ':func', '%s: a function member is recorded as %s' % (what, self.kname.get(mt, mt)), g)
                continue
            if bf:
                ok = (mt == K['MR_TYPE_BITFIELD'] and aux in self.kind(k)) or (isbf and mt in self.kind(k) and not isarr)
                if not ok:
                    self.bad(R_KIND, td, what + ':bitfield', '%s: the bit-field is recorded with kind %s / %s' % (what, self.kname.get(mt, mt), self.kname.get(aux, aux)), g)
                if self.spelled(spell, k) is False:
                    self.bad(R_KIND, td, what + ':type', '%s: recorded type name %r does not denote its type' % (what, spell), g)
                self.bits(td, what, g, fg, fo, T, off, sz, ssize)
                continue
            if isbf:
                self.bad(R_KIND, td, what + ':bitfield', '%s: recorded as a bit-field' % what, g)
            if mt == K.get('MR_TYPE_POINTER') and t is not None and t['tag'] == 'DW_TAG_pointer_type' and not exp:
                continue    # declared explicitly as a plain pointer
            ek = t['b'] if arr else k
            if bool(isarr) != bool(arr):
                self.bad(R_KIND, td, what + ':array', '%s: recorded as %s array' % (what, 'an' if isarr else 'no'), g)
                continue
            if mt not in self.kind(ek):
                self.bad(R_KIND, td, what + ':kind', '%s: recorded kind %s, the type is %s' % (what, self.kname.get(mt, mt), self.names(self.kind(ek))), g)
            if aux not in self.pkind(ek):
                self.bad(R_KIND, td, what + ':aux', '%s: recorded kind of the pointed type %s, it is %s' % (what, self.kname.get(aux, aux), self.names(self.pkind(ek))), g)
            if self.spelled(spell, ek) is False:
                self.bad(R_KIND, td, what + ':type', '%s: recorded type name %r does not denote its type' % (what, spell), g)
            cl = {'DW_TAG_structure_type': 'MR_RECORD_TYPE_CLASS', 'DW_TAG_union_type': 'MR_UNION_TYPE_CLASS', 'DW_TAG_pointer_type': 'MR_POINTER_TYPE_CLASS', 'DW_TAG_array_type': 'MR_POINTER_TYPE_CLASS'}.get(t['tag'] if t else '')
            if cl and cl in K:
                gc = u.num(fg, fo, T, 'stype.mr_type_class')
                if gc != K[cl] & 0x3f:
                    self.bad(R_KIND, td, what + ':class', '%s: recorded class %d, expected %s' % (what, gc, cl), g)
            if arr:
                self.shape(td, what, g, fg, fo, T, t)

    def shape(self, td, what, g, fg, fo, T, t):
        u = self.u
        dims = [e[1] for e in t['e'] if e[0] == 'r']
        off, _ = u.field(T, 'stype.dim.dim')
        b = u.image(fg)[0]
        got = [int.from_bytes(b[fo + off // 8 + 4 * k:fo + off // 8 + 4 * k + 4], 'little') for k in range(4)]
        n = u.num(fg, fo, T, 'stype.dim.size') // 4
        self.c.ok(R_SHAPE)
        if -1 in dims:
            return
        if n != len(dims) or got[:n] != dims:
            self.bad(R_SHAPE, td, what + ':dim', '%s: recorded dimensions %s, declared %s' % (what, got[:max(0, min(n, 4))], dims), g)

    def bits(self, td, what, g, fg, fo, T, off, sz, ssize):
        u = self.u
        self.c.ok(R_BITS)
        t = u.target(u.ptr(fg, fo, T, 'bitfield_param.bitfield'))
        n = u.num(fg, fo, T, 'bitfield_param.size')
        if t is None or n != ssize:
            self.bad(R_BITS, td, what + ':image', '%s: the image of the bit-field is missing or has size %d instead of %d' % (what, n, ssize), g)
            return
        b = u.image(t[0])[0][t[1]:t[1] + n]
        if len(b) < n or int.from_bytes(b, 'little') != ((1 << sz) - 1) << off:
            self.bad(R_BITS, td, what + ':image', '%s: the image marks other bits than the %d bits at %d' % (what, sz, off), g)

    # ---- enumerations -----------------------------------------------------------------
    def enums(self, td, g, tid):
        u, c = self.u, self.c
        t = u.di[u.strip(tid)]
        want = [(e[1], e[2]) for e in t['e'] if e[0] == 'e']
        got, closed = u.plist(g, 0, 'mr_td_t', 'param.enum_param.enums')
        if got is None or not closed:
            self.bad(R_LIST, td, 'list', 'the list of constants is missing or not closed', g)
            return
        c.ok(R_LIST)
        gn = [u.str(r[0], r[1], 'mr_ed_t', 'name.str') for r in got]
        if gn != [n for n, _ in want]:
            self.bad(R_LIST, td, 'constants', 'the recorded constants are not the constants of the type in order: %s' % (gn[:6],), g)
            return
        exp = self.expect.get(td)
        for k, (r, (n, v)) in enumerate(zip(got, want)):
            c.ok(R_ENUM)
            x = u.num(r[0], r[1], 'mr_ed_t', 'value._unsigned')
            if x != v % (1 << 64):
                self.bad(R_ENUM, td, n, 'constant %s: recorded value %d, it is %d' % (n, x, v), g)
            if exp:
                self.res(td, 'constant ' + n, r[0], r[1], 'mr_ed_t', exp['f'][k])
        eff = u.num(g, 0, 'mr_td_t', 'param.enum_param.mr_type_effective')
        if eff not in self.kind(t['b']):
            self.bad(R_TYPE, td, 'effective', 'the integer kind of the enumeration is recorded as %s, it is %s' % (self.kname.get(eff, eff), self.names(self.kind(t['b']))), g)

    # ---- a descriptor -------------------------------------------------------------------
    def td(self, g):
        u, K, c = self.u, self.K, self.c
        self.cur = g
        name = u.str(g, 0, 'mr_td_t', 'type.str')
        if not name:
            self.bad(R_TYPE, g, 'name', 'the descriptor has no type name', g)
            return
        if u.num(g, 0, 'mr_td_t', 'td_producer') != K['MR_TDP_MACRO']:
            if name in self.expect:
                self.bad(R_TYPE, name, 'producer', 'the descriptor is not marked as made by the macros', g)
            return
        tid = u.byname.get(name)
        mt = u.num(g, 0, 'mr_td_t', 'mr_type')
        sz = u.num(g, 0, 'mr_td_t', 'size')
        if tid is None:
            stars = name.count('*')
            can = canon(name.replace('*', ' ').split())
            if can is None and not stars:
                c.ok('types whose layout is not in the debug information are left out')
                return
            self.basic(name, g, can, stars, mt, sz)
            return
        st = u.strip(tid)
        t = u.di[st] if st >= 0 else None
        tag = t['tag'] if t else 'void'
        c.ok(R_TYPE)
        if name in self.expect:
            self.res(name, 'type', g, 0, 'mr_td_t', self.expect[name]['td'])
        if sz != u.size(tid):
            self.bad(R_TYPE, name, 'size', 'recorded size %d, the type has %d' % (sz, u.size(tid)), g)
        isfn = tag == 'DW_TAG_pointer_type' and t['b'] >= 0 and u.di[t['b']]['tag'] == 'DW_TAG_subroutine_type'
        want = {'DW_TAG_structure_type': {K['MR_TYPE_STRUCT']}, 'DW_TAG_union_type': {K['MR_TYPE_UNION']}, 'DW_TAG_enumeration_type': {K['MR_TYPE_ENUM']}}.get(tag, {K['MR_TYPE_FUNC_TYPE']} if isfn else self.kind(tid))
        if mt not in want:
            if tag in ('DW_TAG_structure_type', 'DW_TAG_union_type') and mt == 0 and u.plist(g, 0, 'mr_td_t', 'param.struct_param.fields')[0] == [] :
                c.ok('types registered by name only have no members recorded')
                return
            self.bad(R_TYPE, name, 'kind', 'recorded kind %s, the type is %s' % (self.kname.get(mt, mt), self.names(want)), g)
            return
        if tag in ('DW_TAG_structure_type', 'DW_TAG_union_type'):
            self.fields(name, g, tid)
        elif tag == 'DW_TAG_enumeration_type':
            self.enums(name, g, tid)
        elif isfn:
            self.signature(name, 'type', g, 0, 'mr_td_t', 'param.func_param.args', t['b'])

    SZ = {'char': 1, 'schar': 1, 'uchar': 1, '_Bool': 1, 'void': 1, 'short': 2, 'ushort': 2, 'int': 4, 'uint': 4, 'l': 8, 'ul': 8, 'll': 8, 'ull': 8, '128': 16, 'u128': 16,
          'f': 4, 'd': 8, 'ld': 16, 'cf': 8, 'cd': 16, 'cld': 32}
    KN = {'char': 'CHAR', 'schar': 'INT8', 'uchar': 'UINT8', '_Bool': 'BOOL', 'void': 'VOID', 'short': 'INT16', 'ushort': 'UINT16', 'int': 'INT32', 'uint': 'UINT32', 'l': 'INT64', 'ul': 'UINT64',
          'll': 'INT64', 'ull': 'UINT64', '128': 'INT128', 'u128': 'UINT128', 'f': 'FLOAT', 'd': 'DOUBLE', 'ld': 'LONG_DOUBLE', 'cf': 'COMPLEX_FLOAT', 'cd': 'COMPLEX_DOUBLE', 'cld': 'COMPLEX_LONG_DOUBLE'}

    def basic(self, name, g, can, stars, mt, sz):
        """descriptor of a type spelled with basic words only"""
        self.c.ok(R_TYPE)
        if stars:
            wk, ws = ('STRING' if can == 'char' and stars == 1 else 'NONE'), 8
        else:
            wk, ws = self.KN[can], self.SZ[can]
        if mt != self.K['MR_TYPE_' + wk]:
            self.bad(R_TYPE, name, 'kind', 'recorded kind %s, the type is MR_TYPE_%s' % (self.kname.get(mt, mt), wk), g)
        if sz != ws:
            self.bad(R_TYPE, name, 'size', 'recorded size %d, the type has %d' % (sz, ws), g)

    # ---- registration ---------------------------------------------------------------------
    def registered(self, tds):
        u, c = self.u, self.c
        ctors = [x[2][1] for x in u.gl.get('llvm.global_ctors', {}).get('init', []) if x[2][0] == 'F']
        done = set()
        for f in ctors:
            for b in u.fn[f].get('blocks', []):
                for i in b:
                    if i['o'] == 'call' and i['c'] == ['F', 'mr_add_type'] and i['a']:
                        t = u.target(i['a'][0])
                        if t:
                            done.add(t[0])
        for g in tds:
            c.ok(R_REG)
            if g not in done:
                n = u.str(g, 0, 'mr_td_t', 'type.str')
                self.cur = g
                self.bad(R_REG, n or g, 'registration', 'no constructor registers the descriptor', g)


def run(c):
    for r, t in ((R_TYPE, 'Each descriptor object of the witness and the library, against the type of that name: size, kind (struct, union, enumeration, function, basic), integer kind of enumerations, note and resource as declared.'),
                 (R_LIST, 'The NULL-closed list of member or constant records has one record per member or constant, in order; unnamed and named anonymous unions open and close where the type has them.'),
                 (R_MEMBER, 'Offset (bit-fields have an image instead) and size of every member record equal those in the debug information.'),
                 (R_KIND, 'Kind of the member or array element, kind of the pointed type, array and bit-field marks, excluded members, class of structures, unions and pointers, and the recorded type name, which must denote the type of the member.'),
                 (R_SHAPE, 'Number of dimensions and each dimension.'),
                 (R_BITS, 'The image has the size of the structure and exactly the bits of the field set.'),
                 (R_NOTE, 'Witness declarations carry notes and resources that name their member; each must be found in the record of that member, and nowhere else.'),
                 (R_ENUM, 'Name and 64-bit value of every constant, negative and large values included.'),
                 (R_SIG, 'Function members and function types: result and arguments in order with size, kind, pointed kind and type name; the list is closed.'),
                 (R_REG, 'A constructor of the unit passes the descriptor to the registration function.')):
        c.rule(r, t)
    expect = json.load(open(os.path.join(VERIF, 'witness', 'desc_expect.json')))
    wit = os.path.join(VERIF, 'witness', 'desc_witness.c')
    fr = c.front
    fr.ensure_bc()
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(fr.unit, wit, '--di', cflags_extra=('-fno-eliminate-unused-debug-types',))
        b = ex.submit(fr.view, '--di')
        views = [a.result(), b.result()]
    seen = set()
    for k, v in enumerate(views):
        u = Unit(v)
        j = Judge(c, u, expect if k == 0 else {})
        tds = [g for g, x in u.gl.items() if x.get('dt') == 'mr_td_t' and not x['decl'] and not x.get('fn') and u.ptr(g, 0, 'mr_td_t', 'type.str') is not None]
        for g in sorted(tds, key=lambda g: (u.gl[g].get('file') or '', u.gl[g].get('line') or 0)):
            n = u.str(g, 0, 'mr_td_t', 'type.str')
            if k == 0:
                seen.add(n)
            j.td(g)
        j.registered(tds)
    for n in expect:
        if n not in seen:
            c.report(n + ':absent', R_TYPE, 'witness ' + n, 'no descriptor with this type name is produced by the declaration')
    if c.findings:
        return      # a record that is gone has been reported by name
    for r, n in ((R_TYPE, 220), (R_LIST, 100), (R_MEMBER, 1000), (R_KIND, 1000), (R_SHAPE, 150), (R_BITS, 120), (R_NOTE, 1000), (R_ENUM, 280), (R_SIG, 120), (R_REG, 220)):
        c.floor(r, n)
