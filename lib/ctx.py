"""Shared context of one check run: views of the program, obligations, findings, evidence."""
import collections, json, os, time
import frontend, ir, fail
from frontend import AnalysisError

VERIF = frontend.VERIF


class Finding:
    def __init__(self, key, rule, where, text, path=()):
        self.key = key          # stable identity: no line numbers
        self.rule = rule
        self.where = where
        self.text = text
        self.path = list(path)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.front = frontend.Front()
        self.findings = []
        self.counts = collections.Counter()
        self.rules = collections.OrderedDict()
        self.samples = []
        self.assumptions = []
        self.notes = []
        self._progs = {}
        self._fails = {}
        self.t0 = time.time()

    # ---- program views ----------------------------------------------------
    def prog(self, view='inline'):
        if view not in self._progs:
            opts = {'plain': (), 'inline': ('--inline',)}[view]
            self._progs[view] = ir.Prog(self.front.view(*opts))
        return self._progs[view]

    def fail(self, view='inline'):
        if view not in self._fails:
            F = fail.Fail(self.prog(view), view)
            F.infer()
            self._fails[view] = F
        return self._fails[view]

    # ---- results ------------------------------------------------------------
    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, n=1):
        self.counts[rule] += n

    def report(self, key, rule, where, text, path=()):
        if any(f.key == key and f.where == where for f in self.findings):
            return
        self.findings.append(Finding(key, rule, where, text, path))

    def floor(self, rule, minimum):
        """the rule must have had at least this many instances, confirmed by hand on the reference tree"""
        if self.counts[rule] < minimum:
            raise AnalysisError('rule "%s" matched %d instances, expected at least %d: the code it anchors on is gone'
                                % (rule, self.counts[rule], minimum))

    def require(self, cond, what):
        if not cond:
            raise AnalysisError('anchor not found: ' + what)

    def sample(self, text):
        if len(self.samples) < 40:
            self.samples.append(text)

    def path_text(self, f, trail):
        """source lines of a block trail"""
        out = []
        for b in trail:
            for i in f.blocks[b]:
                if i.loc:
                    s = '%s:%d' % (os.path.basename(i.loc[0]), i.loc[1])
                    if not out or out[-1] != s:
                        out.append(s)
                    break
        return out

    # ---- output ---------------------------------------------------------------
    def known(self):
        p = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(p):
            return []
        d = json.load(open(p))
        return [k for k in d.get('known', []) if k['property'] == self.prop]

    def finish(self, mod):
        kn = {k['key']: k for k in self.known()}
        viol = [f for f in self.findings if f.key not in kn]
        seen = []
        for f in self.findings:
            if f.key in kn and f.key not in seen:
                seen.append(f.key)
                print('KNOWN-FINDING: property=%s %s' % (self.prop, kn[f.key]['what']))
        ev = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        rep = os.path.join(ev, self.prop + '.violations.txt')
        if os.path.exists(rep):
            os.remove(rep)
        cov = {
            'explanation': 'Static analysis of the LLVM IR of the whole library, regenerated from the current tree on this run '
                           '(parsers, scanners and preprocessor tables included; API macros through witness functions). ' + ' '.join(mod.__doc__.split()),
            'rules': dict(self.rules),
            'instances': dict(sorted(self.counts.items())),
            'obligations': sum(self.counts.values()),
            'discharged': sum(self.counts.values()) - len(viol),
            'functions_analysed': len([1 for p in list(self._progs.values())[:1] for f in p.defined.values()]),
            'known_findings': seen,
            'samples': self.samples,
        }
        if self.notes:
            cov['notes'] = self.notes
        json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
                   'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol)},
                  open(os.path.join(ev, self.prop + '.json'), 'w'), indent=1)
        for n, c in sorted(self.counts.items()):
            print('%-60s %6d instances' % (n, c))
        if viol:
            with open(rep, 'w') as o:
                for f in viol:
                    o.write('property %s\nrule: %s\n  %s\nat: %s\nkey: %s\n%s\n' % (self.prop, f.rule, self.rules.get(f.rule, ''), f.where, f.key, f.text))
                    if f.path:
                        o.write('path: %s\n' % ' -> '.join(f.path))
                    o.write('\n')
            for f in viol[:40]:
                print('%s: [%s] %s' % (f.where, f.rule, f.text))
            print('VIOLATION property=%s replay=%s' % (self.prop, rep))
            return 1
        return 0
