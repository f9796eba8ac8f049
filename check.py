#!/usr/bin/env python3
"""check.py ID [ID...]: decide properties of the tree in /repo.  Exit 0 holds, 1 violated, 2 no answer."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.setrecursionlimit(20000)
import ctx
from frontend import AnalysisError

MODULES = {
    'M01': 'p_hooks',
    'M02': 'p_fail',
    'M03': 'p_null',
    'M04': 'p_init',
    'M05': 'p_pair',
    'M06': 'p_fmt',
    'M07': 'p_state',
    'M08': 'p_ro',
    'M09': 'p_text',
    'M10': 'p_bounds',
    'M11': 'p_stale',
    'M12': 'p_leak',
    'M13': 'p_order',
    'M15': 'p_desc',
    'M14': 'p_kind',
    'M16': 'p_uninit', 'M17': 'p_wire', 'M18': 'p_coll', 'M19': 'p_chars',
}


def one(pid):
    c = ctx.Ctx(pid, os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1') or 1))
    try:
        mod = importlib.import_module(MODULES[pid])
        mod.run(c)
        return c.finish(mod)
    except AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s internal error' % pid)
        return 2
    finally:
        c.front.close()


if __name__ == '__main__':
    ids = sys.argv[1:]
    if ids == ['all']:
        ids = sorted(MODULES)
    sys.exit(max([one(i) for i in ids]))
