#!/usr/bin/env python3
"""Development aid, not a check: applies one-site source mutants to scratch copies of /repo/src and reports which checks notice.
usage: mutate.py PROP [ID...]   mutants are listed in gen/mutants/PROP.txt (kill: the check must report; quiet: it must not)."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))


def load(prop):
    out = []
    cur = None
    for blk in re.split(r'^=== ', open(os.path.join(HERE, 'mutants', prop + '.txt')).read(), flags=re.M)[1:]:
        head, body = blk.split('\n', 1)
        h = head.split()
        parts = re.split(r'^--- ?(.*)\n', body, flags=re.M)
        # body: file1 \n old \n --- \n new  (repeated with '+++ file')
        edits = []
        for sec in re.split(r'^\+\+\+ ', body, flags=re.M)[1:]:
            fn, rest = sec.split('\n', 1)
            old, new = rest.split('\n---\n', 1) if '\n---\n' in rest else (rest.split('\n---')[0], '')
            edits.append((fn.strip(), old, new.rstrip('\n')))
        out.append((h[0], h[1] if len(h) > 1 else 'kill', edits))
    return out


def one(prop, m):
    mid, want, edits = m
    d = tempfile.mkdtemp(prefix='mut.')
    try:
        shutil.copytree(os.environ.get('MUT_BASE', '/repo') + '/src', d + '/src')
        for fn, old, new in edits:
            p = os.path.join(d, 'src', fn)
            s = open(p).read()
            if s.count(old) != 1:
                return mid, want, 'BAD-EDIT(%d in %s)' % (s.count(old), fn), ''
            open(p, 'w').write(s.replace(old, new))
        e = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d)
        e.pop('VERIF_DEVCACHE', None)
        r = subprocess.run([sys.executable, os.path.join(HERE, '..', 'check.py'), prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
        t = r.stdout.decode(errors='replace')
        rep = [l for l in t.splitlines() if '[' in l and ']' in l][:2]
        return mid, want, {0: 'quiet', 1: 'kill', 2: 'ERROR'}.get(r.returncode, 'rc%d' % r.returncode), (rep or t.splitlines()[-3:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    prop = sys.argv[1]
    ms = [m for m in load(prop) if len(sys.argv) < 3 or m[0] in sys.argv[2:]]
    bad = 0
    with ThreadPoolExecutor(3) as ex:
        for mid, want, got, rep in ex.map(lambda m: one(prop, m), ms):
            if got != want:
                bad += 1
            print('%-6s %-28s want %-6s got %-8s %s' % ('ok' if got == want else 'MISS', mid, want, got, '' if got == want and want == 'quiet' else ' | '.join(x[:170] for x in rep)))
    print('%d of %d as wanted' % (len(ms) - bad, len(ms)))
