"""Format checking over resolved calls: the format of every printf- and scanf-style call (and of every diagnostic, through the
message template of its identifier) is resolved to the constant text it can be; every directive is compared with the width and
class of the argument the compiled call passes. Formats that arrive as a parameter are resolved at every caller. Text formatted
into a buffer of fixed size is bounded by the widest expansion of its directives."""
import re
import scope
from ir import T, gep_parts, const_int

PRINT = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'dprintf': 1, 'mr_ra_printf': 1, '__printf_chk': 1, '__fprintf_chk': 2,
         '__sprintf_chk': 3, '__snprintf_chk': 4, 'asprintf': 1}
VPRINT = {'vprintf': 0, 'vfprintf': 1, 'vsprintf': 1, 'vsnprintf': 2, 'vasprintf': 1}
SCAN = {'scanf': 0, 'fscanf': 1, 'sscanf': 1, '__isoc99_sscanf': 1, '__isoc99_fscanf': 1, '__isoc99_scanf': 0, '__isoc23_sscanf': 1}
DIR = re.compile(rb'%([-+ #0\']*)(\*|\d+)?(?:\.(\*|-?\d+)?)?(hh|h|ll|l|L|q|j|z|t)?([a-zA-Z%])')
SDIR = re.compile(rb'%(\*)?(\d+)?(hh|h|ll|l|L|q|j|z|t|m)?(\[\^?\]?[^\]]*\]|[a-zA-Z%])')
WIDE = (b'l', b'll', b'q', b'j', b'z', b't')


class Bad(Exception):
    pass


def directives(fmt):
    """[(class, directive text, conversion)] consumed by a printf format; dots keep the presence of a precision"""
    out = []
    k = 0
    while True:
        k = fmt.find(b'%', k)
        if k < 0:
            return out
        m = DIR.match(fmt, k)
        if not m:
            raise Bad('the directive at "%s" is not a valid one' % fmt[k:k + 8].decode('latin-1'))
        flags, width, prec, ln, cv = m.groups()
        k = m.end()
        if cv == b'%':
            continue
        t = m.group(0).decode('latin-1')
        if width == b'*':
            out.append(('i32', t, '*'))
        if prec == b'*':
            out.append(('i32', t, '*'))
        if cv in b'diouxX':
            out.append(('i64' if ln in WIDE else 'i32', t, cv.decode()))
        elif cv == b'c':
            out.append(('i32', t, 'c'))
        elif cv in b'eEfFgGaA':
            out.append(('x86_fp80' if ln == b'L' else 'double', t, 'f'))
        elif cv in b'spn':
            out.append(('ptr', t, cv.decode()))
        else:
            raise Bad('"%s" is not a known conversion' % t)


def scan_directives(fmt):
    out = []
    k = 0
    while True:
        k = fmt.find(b'%', k)
        if k < 0:
            return out
        m = SDIR.match(fmt, k)
        if not m:
            raise Bad('the directive at "%s" is not a valid one' % fmt[k:k + 8].decode('latin-1'))
        star, width, ln, cv = m.groups()
        k = m.end()
        if cv == b'%' or star:
            continue
        t = m.group(0).decode('latin-1')
        if cv[:1] in b'diouxXn':
            out.append(({b'hh': 1, b'h': 2}.get(ln, 8 if ln in WIDE else 4), t))
        elif cv[:1] in b'eEfFgGaA':
            out.append(({b'l': 8, b'L': 16}.get(ln, 4), t))
        elif cv[:1] in b's[c':
            if width is None and cv != b'c':
                raise Bad('"%s" reads text of any length into its argument' % t)
            out.append((int(width or 1) + (cv != b'c'), t))
        elif cv == b'p':
            out.append((8, t))
        else:
            raise Bad('"%s" is not a known conversion' % t)


def arg_type(f, a):
    if a[0] == 'i':
        return f.ins[a[1]].ty
    if a[0] == 'a':
        return f.raw['aty'][a[1]]
    if a[0] == 'c':
        return 'i%d' % a[2]
    if a[0] in ('g', 'F', 'n', 'e'):
        return 'ptr'
    if a[0] == 'f' and len(a) > 1:
        return 'float'
    return None


def formats(p, f, o, seen=()):
    """constant texts an operand can be: list of (bytes or None, why, via)"""
    s = p.cstr(o)
    if s is not None:
        return [(s, None)]
    if o[0] == 'n':
        return []           # a missing format is judged where missing values are
    if o[0] == 'i':
        i = f.ins[o[1]]
        if (f.name, o) in seen:
            return []
        seen = seen + ((f.name, o),)
        if i.op == 'phi':
            return [x for a in i.args for x in formats(p, f, a[0], seen)]
        if i.op == 'select':
            return [x for a in i.args[1:] for x in formats(p, f, a, seen)]
        if i.op in ('bitcast', 'freeze'):
            return formats(p, f, i.args[0], seen)
        if i.op == 'load':
            b, st = gep_parts(f, i.args[0])
            if b[0] == 'g':
                g = p.globals.get(b[1], {})
                if g.get('const') or g.get('local'):
                    wr = [1 for fn in p.defined.values() for s in fn.uses.get(b, ()) if s.op == 'store' and gep_parts(fn, s.args[1])[0] == b]
                    if not wr:
                        return [(p.cstr(T(c)), ('table', b[1], o2 // 8)) for o2, n, c in g.get('init', [])]
        return [(None, 'a value computed in %s' % f.name)]
    if o[0] == 'a':
        if (f.name, o) in seen:
            return []
        cs = p.callers.get(f.name, [])
        if not cs:
            return [(None, 'a parameter of the public function %s' % f.name)]
        r = []
        for cf, ci in cs:
            r += formats(p, cf, ci.args[o[1]], seen + ((f.name, o),))
        return r
    return [(None, 'not a constant text')]


def bits_of(f, a, depth=0):
    """(width in bits, signed) of the integer value before promotion"""
    if a[0] == 'i' and depth < 4:
        i = f.ins[a[1]]
        if i.op in ('zext', 'sext'):
            o = i.args[0]
            w = int((arg_type(f, o) or 'i32')[1:])
            return (w, i.op == 'sext')
        if i.op == 'trunc':
            return (int(i.ty[1:]), None)
        if i.op == 'and' and i.args[1][0] == 'c':
            return (int(i.args[1][1]).bit_length(), False)
        return (int(i.ty[1:]) if i.ty[0:1] == 'i' else 64, None)
    if a[0] == 'c':
        return (a[2], None)
    return (64, None)


def widest(p, f, fmt, args):
    """longest expansion of a format in bytes, or None when unbounded"""
    total = 0
    pos = 0
    k = 0
    for m in DIR.finditer(fmt):
        total += m.start() - pos
        pos = m.end()
        flags, width, prec, ln, cv = m.groups()
        if cv == b'%':
            total += 1
            continue
        if width == b'*' or prec == b'*':
            return None
        w = int(width or 0)
        a = args[k] if k < len(args) else None
        k += 1
        if cv in b'diouxX':
            b, sg = bits_of(f, a)
            top = {b'hh': 8, b'h': 16}.get(ln, 64 if ln in WIDE else 32)
            if cv not in b'di' and sg and b < top:
                b = top         # a sign-extended narrow value prints as a large one
            b = min(b, top)
            if cv in b'di':
                n = len(str(1 << b)) + (0 if sg is False and b < top else 1)
            elif cv == b'u':
                n = len(str((1 << b) - 1))
            elif cv == b'o':
                n = (b + 2) // 3
            else:
                n = (b + 3) // 4
            if b'#' in flags:
                n += 2
            total += max(n, w, int(prec or 0))
        elif cv == b'c':
            total += max(1, w)
        elif cv == b'p':
            total += max(18, w)
        elif cv == b's':
            ts = formats(p, f, a) if a is not None else [(None, '')]
            if any(t is None for t, y in ts):
                if prec:
                    total += max(int(prec), w)
                    continue
                return None
            total += max([len(t) for t, y in ts] + [w])
        else:
            return None
    return total + len(fmt) - pos


def buffer_size(p, f, o, depth=0):
    """[(size, where)] of the fixed objects a destination points into; size None when unknown"""
    if depth > 3:
        return []
    b, st = gep_parts(f, o)
    off = 0
    for s in st:
        if s[0] == 'x':
            c = const_int(s[1])
            if c is None:
                return []
            off += c * s[2] if isinstance(s[2], int) else 0
    if b[0] == 'i':
        i = f.ins[b[1]]
        if i.op == 'alloca':
            n = i.raw.get('sz')
            k = None
            if n is None and i.args:
                k = const_int(i.args[0])
                n = k * {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8}.get(i.raw.get('at'), 0) if k is not None else None
            return [(n - off if n else None, f.where(i))]
        if i.op in ('phi', 'select'):
            return []
    if b[0] == 'a' and not off:
        return [x for cf, ci in p.callers.get(f.name, []) for x in buffer_size(p, cf, ci.args[b[1]], depth + 1)]
    if b[0] == 'g':
        return [(p.globals[b[1]].get('size', 0) - off, b[1])]
    return []


def templates(p):
    r = {}
    for n, g in p.globals.items():
        if 'mr_ed_t' not in str(g.get('ty', '')):
            continue
        init = p.ginit(n)
        nm = p.cstr(init[0][1]) if 0 in init else None
        if nm and nm.startswith(b'MR_MESSAGE_'):
            v = const_int(init[16][1]) if 16 in init else 0
            r[v] = (nm.decode(), p.cstr(init[24][1]) if 24 in init else None)
    return r


def check_print(c, p, f, i, fmt, args, rule, what, key):
    try:
        ds = directives(fmt)
    except Bad as e:
        c.report(key, rule, f.where(i), '%s: %s' % (what, e))
        return
    txt = fmt.decode('latin-1').replace('\n', '\\n')
    if len(ds) > len(args):
        c.report(key, rule, f.where(i), '%s "%s" reads %d arguments, the call passes %d' % (what, txt, len(ds), len(args)))
        return
    if len(ds) < len(args):
        c.report(key, rule, f.where(i), '%s "%s" reads %d arguments, the call passes %d: the rest is never shown' % (what, txt, len(ds), len(args)))
        return
    for k, ((want, t, cv), a) in enumerate(zip(ds, args)):
        ty = arg_type(f, a)
        if ty is None:
            continue
        if ty != want:
            c.report(key, rule, f.where(i), '%s "%s": directive %s reads a value of type %s, argument %d is %s' % (what, txt, t, want, k + 1, ty))
            return
        if cv == 'n':
            c.report(key, rule, f.where(i), '%s "%s" stores through an argument' % (what, txt))
            return
        if cv in 'uxXo' and a[0] == 'i' and f.ins[a[1]].op == 'sext' and not re.search(r'h', t):
            c.report(key, rule, f.where(i), '%s "%s": directive %s shows a sign-extended %s, negative values come out %s wide'
                     % (what, txt, t, arg_type(f, f.ins[a[1]].args[0]), ty))
            return
        if cv in 'diuxXo' and a[0] == 'i':
            w, sg = bits_of(f, a)
            top = 8 if 'hh' in t else 16 if 'h' in t else 0
            if top and w > top:
                c.report(key, rule, f.where(i), '%s "%s": directive %s keeps %d bits of a %d bit value' % (what, txt, t, top, w))
                return
            if cv in 'di' and 'h' in t and sg is False and w >= top:
                c.report(key, rule, f.where(i), '%s "%s": directive %s shows an unsigned %d bit value as signed' % (what, txt, t, w))
                return


# how a value of each kind has to be read from a variadic list: (class, conversions)
KINDS = {'MR_TYPE_INT8': ('i32', 'di'), 'MR_TYPE_INT16': ('i32', 'di'), 'MR_TYPE_INT32': ('i32', 'di'), 'MR_TYPE_INT64': ('i64', 'di'),
         'MR_TYPE_UINT8': ('i32', 'uxXo'), 'MR_TYPE_UINT16': ('i32', 'uxXo'), 'MR_TYPE_UINT32': ('i32', 'uxXo'), 'MR_TYPE_UINT64': ('i64', 'uxXo'),
         'MR_TYPE_FLOAT': ('double', 'f'), 'MR_TYPE_DOUBLE': ('double', 'f'), 'MR_TYPE_LONG_DOUBLE': ('x86_fp80', 'f'), 'MR_TYPE_CHAR': ('i32', 'c'),
         'MR_TYPE_BOOL': ('i32', 'diu'), 'MR_TYPE_ENUM': ('i32', 'diuxX'), 'MR_TYPE_CHAR_ARRAY': ('ptr', 's'), 'MR_TYPE_STRING': ('ptr', 's'),
         'MR_TYPE_POINTER': ('ptr', 'p'), 'MR_TYPE_FUNC': ('ptr', 'p'), 'MR_TYPE_FUNC_TYPE': ('ptr', 'p')}


def check_table(c, p, f, i, entries):
    kinds = {v: k for k, v in p.enumval.items() if re.match(r'MR_TYPE_[A-Z0-9_]+$', k) and k not in ('MR_TYPE_LAST',)}
    for s, (x, g, idx) in entries:
        k = kinds.get(idx)
        c.ok('format-arguments')
        if s is None:
            continue
        try:
            ds = directives(s)
        except Bad as e:
            c.report('%s:table:%s' % (f.name, k), 'format-arguments', f.where(i), 'format of %s: %s' % (k, e))
            continue
        want = KINDS.get(k)
        if want is None:
            c.report('%s:table:%s' % (f.name, k), 'format-arguments', f.where(i), 'there is a format for %s, whose values no format reads' % (k or idx))
        elif len(ds) != 1 or ds[0][0] != want[0] or ds[0][2] not in want[1]:
            c.report('%s:table:%s' % (f.name, k), 'format-arguments', f.where(i), 'format "%s" does not read a value of kind %s (type %s, conversion %s)' % (s.decode('latin-1'), k, want[0], want[1]))


def run(c):
    p = c.prog('plain')
    q = c.prog('inline')
    c.rule('format-arguments', 'every directive of the format finds an argument of the type it reads, and no argument is left over')
    c.rule('format-constant', 'the format is a text of the library, never a value that depends on data')
    c.rule('message-template', 'a diagnostic passes the arguments the template of its identifier reads')
    c.rule('scan-targets', 'every scanning directive stores into an object at least as large as what it writes')
    c.rule('fits', 'formatting into a buffer of fixed size fits for every value of the arguments')
    tm = templates(p)
    c.require(len(tm) >= 25, 'message templates of the message identifier enumeration')
    ids = {v: k for k, v in p.enumval.items() if k.startswith('MR_MESSAGE_')}
    for v, n in sorted(ids.items()):
        if n == 'MR_MESSAGE_LAST':
            continue
        c.ok('message-template')
        if v not in tm or tm[v][0] != n:
            c.report('template:' + n, 'message-template', 'mr_protos.h', '%s has no template of its own' % n)
        elif not tm[v][1]:
            c.report('template:' + n, 'message-template', 'mr_protos.h', '%s has an empty template' % n)
    for n, f in sorted(p.defined.items()):
        if f.name.startswith('wit_printf'):
            continue
        for i in f.calls():
            t = f.callee(i)
            if t is None:
                continue
            b = scope.base(t)
            if b == 'mr_message' and len(i.args) > 4:
                vals = []
                st = [i.args[4]]
                while st:
                    o = st.pop()
                    k = const_int(o)
                    if k is not None:
                        vals.append(k)
                    elif o[0] == 'i' and f.ins[o[1]].op == 'select':
                        st += f.ins[o[1]].args[1:]
                    elif o[0] == 'i' and f.ins[o[1]].op == 'phi' and len(vals) < 20:
                        st += [a[0] for a in f.ins[o[1]].args if a[0] != o]
                    else:
                        vals.append(None)
                for v in vals:
                    c.ok('message-template')
                    if v is None:
                        if len(i.args) > 5:
                            c.report('%s:msg' % n, 'message-template', f.where(i), 'the identifier of the diagnostic is not a constant, its arguments cannot match')
                        continue
                    if v not in tm or tm[v][1] is None:
                        c.report('%s:msg:%s' % (n, v), 'message-template', f.where(i), 'diagnostic identifier %s has no template' % v)
                        continue
                    check_print(c, p, f, i, tm[v][1], i.args[5:], 'message-template', 'template of ' + tm[v][0], '%s:%s' % (n, tm[v][0]))
                continue
            if b in PRINT or b in VPRINT:
                k = PRINT.get(b, VPRINT.get(b))
                tab = [x for x in formats(p, f, i.args[k]) if isinstance(x[1], tuple)]
                if b in VPRINT and tab:
                    check_table(c, p, f, i, tab)
                for s, why in formats(p, f, i.args[k]):
                    c.ok('format-constant')
                    if isinstance(why, tuple) and b in VPRINT:
                        continue
                    if s is None and const_int(i.args[k]) == 0:
                        continue
                    if s is None:
                        if b in VPRINT and why.startswith('a parameter of the public function') or (f.name == 'mr_message_format' or (why and 'mr_message_format' in why)):
                            continue        # the library's own variadic interface; its callers are checked where they call it
                        c.report('%s:%s:format' % (n, b), 'format-constant', f.where(i), 'the format passed to %s is %s' % (b, why))
                    elif b in PRINT:
                        c.ok('format-arguments')
                        check_print(c, p, f, i, s, i.args[k + 1:], 'format-arguments', 'format', '%s:%s' % (n, b))
            elif b in SCAN:
                k = SCAN[b]
                for s, why in formats(p, f, i.args[k]):
                    c.ok('scan-targets')
                    key = '%s:%s' % (n, b)
                    if s is None:
                        c.report(key, 'format-constant', f.where(i), 'the format passed to %s is %s' % (b, why))
                        continue
                    try:
                        ds = scan_directives(s)
                    except Bad as e:
                        c.report(key, 'scan-targets', f.where(i), str(e))
                        continue
                    args = i.args[k + 1:]
                    if len(ds) != len(args):
                        c.report(key, 'scan-targets', f.where(i), 'format "%s" stores %d values, the call passes %d targets' % (s.decode('latin-1'), len(ds), len(args)))
                        continue
                    for (sz, t), a in zip(ds, args):
                        for bs, w in buffer_size(p, f, a):
                            if bs is not None and (bs < sz or (bs > sz and bs in (2, 4, 8))):
                                c.report(key, 'scan-targets', f.where(i), 'directive %s of "%s" stores %d bytes, its target has %d' % (t, s.decode('latin-1'), sz, bs))
    # bounded buffers, in the view where sizes are folded
    for n, f in sorted(q.defined.items()):
        for i in f.calls():
            t = f.callee(i)
            b = scope.base(t) if t else None
            if b not in ('sprintf', 'snprintf', '__sprintf_chk'):
                continue
            k = PRINT[b]
            for size, w in buffer_size(q, f, i.args[0]):
                if size is None:
                    continue
                for s, why in formats(q, f, i.args[k]):
                    if s is None:
                        continue
                    c.ok('fits')
                    if b == 'snprintf':
                        lim = const_int(i.args[1])
                        if lim is not None and lim > size:
                            c.report('%s:%s:fits' % (scope.base(n), b), 'fits', f.where(i), 'snprintf may write %d bytes into a buffer of %d' % (lim, size))
                        continue
                    m = widest(q, f, s, i.args[k + 1:])
                    if m is None or m + 1 > size:
                        c.report('%s:%s:fits' % (scope.base(n), b), 'fits', f.where(i), 'format "%s" may expand to %s bytes, the buffer at %s has %d'
                                 % (s.decode('latin-1'), 'any number of' if m is None else m + 1, w, size))
                    else:
                        c.sample('%s: "%s" needs at most %d of %d bytes' % (f.where(i), s.decode('latin-1'), m + 1, size))
    c.floor('message-template', 120)
    c.floor('format-arguments', 40)
    c.floor('scan-targets', 5)
    c.floor('fits', 5)
