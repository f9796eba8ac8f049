"""Which functions belong to which part of the library, from the call graph."""
import re

REG_ROOTS = ('mr_conf_init', 'mr_detect_type', 'mr_add_type', 'mr_cleanup')


def base(n):
    """source name of a function: module-local copies of header functions carry a suffix"""
    return re.sub(r'(\.\d+)+$', '', n)


def reach(p, roots, cut=()):
    g = p.callgraph()
    seen = set()
    st = [r for r in roots if r in p.defined]
    while st:
        n = st.pop()
        if n in seen or base(n) in cut:
            continue
        seen.add(n)
        st += [t for t in g.get(n, ()) if t in p.defined]
    return seen


def registration(p):
    """functions that run only while types are registered or released, not while data is processed"""
    ops = [n for n, f in p.defined.items() if not f.local and base(n) not in REG_ROOTS and not n.startswith('mr_udo_')]
    # exported registration helpers have no callers outside registration
    work = reach(p, REG_ROOTS)
    exported_only_reg = {n for n in work if not p.defined[n].local and p.callers.get(n)
                         and all(c.name in work for c, _ in p.callers[n]) and base(n) not in REG_ROOTS}
    witness = [n for n in p.defined if n.startswith('wit_')]
    oproots = [n for n in ops if n not in exported_only_reg] + witness
    return work - reach(p, oproots, REG_ROOTS)


def generated(f):
    """scanner skeletons and the XDR headers of the C library"""
    return f.file.endswith(('.lex.c', '.lex.h', '/xdr.h')) or f.file == 'xdr.h'
