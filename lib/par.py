"""fork-based parallel map over closures (the analysed program is shared copy-on-write)"""
import multiprocessing, os

_FN = None


def _call(x):
    return _FN(x)


def pmap(fn, items, chunk=1):
    global _FN
    items = list(items)
    n = min(len(items), os.cpu_count() or 4, 8)
    if n <= 1:
        return [fn(x) for x in items]
    _FN = fn
    with multiprocessing.get_context('fork').Pool(n) as p:
        r = p.map(_call, items, chunk)
    return r
