"""Front end: turns /repo's current working tree into JSON LLVM IR.

Every run regenerates mr_pp.h and the bison/flex parsers from the tree,
compiles every translation unit of the library (plus the API witness unit that
expands the public macros) with clang to un-optimised bitcode, links it and
dumps it with tool/irx.  Nothing is executed from the tree except mr_pp.sh.
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'
SOURCES = ['metaresc', 'mr_message', 'mr_extra', 'mr_print', 'mr_stringify', 'mr_save', 'mr_load',
           'xml_save', 'cinit_save', 'json_save', 'scm_save', 'mr_ic', 'mr_hsort', 'mr_value',
           'mr_btree', 'mr_udo_init', 'xml2_load', 'yaml_save', 'yaml_load', 'xdr']
PARSERS = ['cinit', 'json', 'scm', 'xml1']
CACHE = os.path.join(VERIF, '.cache')


class AnalysisError(Exception):
    """The analysis cannot give an answer (neither pass nor violation)."""


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode != 0:
        raise AnalysisError('command failed: %s\n%s' % (' '.join(cmd) if isinstance(cmd, list) else cmd,
                                                         p.stderr.decode(errors='replace')[-4000:]))
    return p.stdout


def build_tool(dst):
    src = os.path.join(VERIF, 'tool', 'irx.cpp')
    run([LLVM + '/bin/clang++' if os.path.exists(LLVM + '/bin/clang++') else 'clang++', '-O1', '-std=c++17', '-fno-rtti',
         '-I' + LLVM + '/include', src, '-o', dst, '-L' + LLVM + '/lib', '-lLLVM-18', '-w'])


def tool_path(scratch):
    src = open(os.path.join(VERIF, 'tool', 'irx.cpp'), 'rb').read()
    h = hashlib.sha256(src).hexdigest()[:16]
    p = os.path.join(CACHE, 'irx-' + h)
    if os.path.exists(p):
        return p
    tmp = os.path.join(scratch, 'irx')
    build_tool(tmp)
    try:
        os.makedirs(CACHE, exist_ok=True)
        shutil.copy(tmp, p + '.%d' % os.getpid())
        os.rename(p + '.%d' % os.getpid(), p)
        return p
    except OSError:
        return tmp


def clang():
    return LLVM + '/bin/clang' if os.path.exists(LLVM + '/bin/clang') else 'clang'


def cflags(d):
    return ['-DHAVE_CONFIG_H', '-I' + d, '-I' + os.path.join(REPO, 'src'),
            '-I/usr/include/tirpc', '-I/usr/include/libxml2']


def generate(d):
    src = os.path.join(REPO, 'src')
    for f in ('mr_config.h', 'mr_export.h'):
        shutil.copy(os.path.join(VERIF, 'config', f), d)
    open(os.path.join(d, 'mr_pp.h'), 'wb').write(run(['sh', os.path.join(src, 'mr_pp.sh'), '256']))
    for p in PARSERS:
        run(['bison', '-d', '-o', p + '_load.tab.c', os.path.join(src, p + '_load.y')], cwd=d)
        run(['flex', '--header-file=' + p + '_load.lex.h', '-o', p + '_load.lex.c', os.path.join(src, p + '_load.l')], cwd=d)


def compile_all(d):
    src = os.path.join(REPO, 'src')
    jobs = [(os.path.join(src, s + '.c'), s) for s in SOURCES]
    for p in PARSERS:
        jobs.append((os.path.join(d, p + '_load.tab.c'), p + '_load.tab'))
        jobs.append((os.path.join(d, p + '_load.lex.c'), p + '_load.lex'))
    w = os.path.join(VERIF, 'witness', 'api_witness.c')
    if os.path.exists(w):
        jobs.append((w, 'api_witness'))

    def one(j):
        c, o = j
        run([clang()] + cflags(d) + ['-w', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-c', '-emit-llvm', c,
                                     '-o', os.path.join(d, o + '.bc')], cwd=d)
        return os.path.join(d, o + '.bc')
    # biggest first
    jobs.sort(key=lambda j: -(os.path.getsize(j[0]) if 'witness' not in j[0] else 10**9))
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(one, jobs))
    run([LLVM + '/bin/llvm-link', '-o', os.path.join(d, 'all.bc')] + bcs)
    return os.path.join(d, 'all.bc')


def tree_hash():
    h = hashlib.sha256()
    for base, pat in ((os.path.join(REPO, 'src'), None), (os.path.join(VERIF, 'witness'), None), (os.path.join(VERIF, 'config'), None), (os.path.join(VERIF, 'tool'), None)):
        for f in sorted(os.listdir(base)) if os.path.isdir(base) else []:
            p = os.path.join(base, f)
            if os.path.isfile(p):
                h.update(f.encode() + b'\0')
                h.update(open(p, 'rb').read())
    h.update(open(os.path.abspath(__file__), 'rb').read())
    return h.hexdigest()[:20]


class Front:
    """views: dict name -> irx option list"""

    def __init__(self):
        self.use_cache = bool(os.environ.get('VERIF_DEVCACHE'))
        self.dir = None
        self.bc = None
        self._json = {}
        self.hash = tree_hash() if self.use_cache else None

    def _cached(self, name):
        return os.path.join(CACHE, 'dev', self.hash, name)

    def ensure_bc(self):
        if self.bc:
            return
        if self.use_cache and os.path.exists(self._cached('all.bc')):
            self.bc = self._cached('all.bc')
            self.dir = os.path.dirname(self.bc)
            self.tool = tool_path(self.dir)
            return
        if self.use_cache:
            self.dir = os.path.dirname(self._cached('x'))
            os.makedirs(self.dir, exist_ok=True)
        else:
            self.dir = tempfile.mkdtemp(prefix='mrverif.')
        with ThreadPoolExecutor(2) as ex:
            t = ex.submit(tool_path, self.dir)
            generate(self.dir)
            bc = compile_all(self.dir)
            self.tool = t.result()
        self.bc = bc

    def view(self, *opts):
        key = '_'.join(o.strip('-').replace('=', '.') for o in opts) or 'plain'
        if key in self._json:
            return self._json[key]
        self.ensure_bc()
        out = os.path.join(self.dir, 'v_%s.json' % hashlib.md5(key.encode()).hexdigest()[:10])
        if not (self.use_cache and os.path.exists(out)):
            run([self.tool] + list(opts) + [self.bc, out + '.t'])
            os.rename(out + '.t', out)
        with open(out) as f:
            self._json[key] = json.load(f)
        return self._json[key]

    def unit(self, src, *opts, cflags_extra=()):
        """view of one additional translation unit, compiled on its own"""
        self.ensure_bc()
        stem = os.path.join(self.dir, 'u_' + os.path.basename(src)[:-2])
        if not (self.use_cache and os.path.exists(stem + '.json')):
            run([clang()] + cflags(self.dir) + list(cflags_extra) + ['-w', '-O0', '-g', '-c', '-emit-llvm', src, '-o', stem + '.bc'], cwd=self.dir)
            run([self.tool] + list(opts) + [stem + '.bc', stem + '.json.t'])
            os.rename(stem + '.json.t', stem + '.json')
        with open(stem + '.json') as f:
            return json.load(f)

    def close(self):
        if self.dir and not self.use_cache:
            shutil.rmtree(self.dir, ignore_errors=True)
