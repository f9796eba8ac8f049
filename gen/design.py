"""DESIGN.md from gen/design_head.md, the catalogue, the check modules and seeded/*/meta.json: python3 gen/design.py"""
import ast, glob, json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, V + '/gen')
sys.path.insert(0, V)
import catalog
import check
from design_notes import NOTES, TAIL


def rules(src):
    return re.findall(r"c\.rule\('([^']+)',\s*'((?:[^'\\]|\\.)*)'", src)


seeds = {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m))
out = [open(V + '/gen/design_head.md').read().rstrip(), '', '## Properties', '']
for d, tech, note, na in catalog.P:
    out += ['### %s %s' % (d['id'], d['title']), '', d['statement'], '']
    if na:
        out += ['Not applicable: ' + na, '']
        continue
    path = V + '/lib/%s.py' % check.MODULES[d['id']]
    src = open(path).read()
    doc = ' '.join((ast.get_docstring(ast.parse(src)) or '').split())
    out += ['*How it is decided* (`lib/%s.py`; %s). %s' % (check.MODULES[d['id']], tech, doc), '', '*Rules*:', '']
    out += ['- `%s`: %s' % (n, t.replace("\\'", "'")) for n, t in rules(src)]
    out += ['', '*Why tests cannot settle it.* ' + d['why_tests_cant'], '', '*Bounds and trust.* ' + note, '']
    if d['id'] in NOTES:
        out += [NOTES[d['id']].strip(), '']
    for s, m in seeds.get(d['id'], []):
        out += ['*Planted bug caught by this check*: `%s` - %s (needs: %s).' % (s, m['what_it_breaks'].rstrip('.'), m['needs'].rstrip('.')), '']
out += [TAIL.strip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
