"""Check driver: evidence, known findings, verdict."""
import limits
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVD = os.environ.get('VERIF_EVD') or os.path.join(VERIF, 'evidence')


class Check:
    def __init__(self, pid, technique):
        self.pid = pid
        self.technique = technique
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.violations = []  # dicts with key 'id'
        self.cov = {'explanation': '', 'samples': []}
        self.counts = {}
        self.assumptions = []
        self.samples = []
        self.instances = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def violate(self, ident, msg, **kw):
        if all(k['id'] != ident for k in self.known()):
            limits.found()
        d = {'id': ident, 'msg': msg}
        d.update(kw)
        for v in self.violations:
            if v['id'] == ident and v['msg'] == msg:
                return
        self.violations.append(d)

    def require(self, name, n, atleast):
        """a rule that matched fewer instances than were confirmed by hand is a broken analysis"""
        self.counts[name] = n
        if n < atleast:
            raise RuntimeError('analysis broken: %s = %d, expected at least %d' % (name, n, atleast))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def known(self):
        out = []
        p = os.path.join(VERIF, 'known-findings.json')
        if os.path.exists(p):
            with open(p) as f:
                for k in json.load(f)['findings']:
                    if k['property'] == self.pid and k.get('status') == 'known':
                        out.append(k)
        return out

    def engine(self, eng):
        for k, v in eng.stats.items():
            self.count(k, v)
        self.count('instructions', eng.steps)
        self.fns = getattr(self, 'fns', set()) | {eng.mod.fns[f].dem for f in eng.fns_analysed}

    def finish(self, explanation):
        wall = time.time() - self.t0
        kn = self.known()
        new = []
        hit = []
        for v in self.violations:
            m = None
            for k in kn:
                if k['id'] == v['id']:
                    m = k
                    break
            if m:
                if m not in hit:
                    hit.append(m)
            else:
                new.append(v)
        cov = dict(self.counts)
        cov['explanation'] = explanation
        cov['samples'] = self.samples
        cov['technique'] = self.technique
        if hasattr(self, 'fns'):
            lib = sorted(f for f in self.fns if 'dice::template_library' in f)
            cov['functions_analysed'] = len(self.fns)
            cov['library_functions_analysed'] = len(lib)
            cov['library_functions'] = [f[:160] for f in lib[:60]]
        os.makedirs(EVD, exist_ok=True)
        evd = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
               'assumptions': self.assumptions, 'wall_s': round(wall, 3), 'violations': len(new)}
        with open(os.path.join(EVD, self.pid + '.json'), 'w') as f:
            json.dump(evd, f, indent=1, default=str)
            f.write('\n')
        for k in hit:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if new:
            rp = os.path.join(EVD, self.pid + '.violation.json')
            with open(rp, 'w') as f:
                json.dump(new, f, indent=1, default=str)
                f.write('\n')
            for v in new[:40]:
                print('  %s: %s' % (v['id'], v['msg']))
                if v.get('loc'):
                    print('      at %s' % v['loc'])
                for p in (v.get('path') or [])[-8:]:
                    print('        via %s' % p)
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('%s: held; %s' % (self.pid, ', '.join('%s=%s' % x for x in sorted(self.counts.items()))))
        return 0


def main(pid, fn):
    """runs fn(check) and turns every outcome into the interface of the task"""
    import build
    chk = Check(pid, '')
    try:
        expl = fn(chk)
        rc = chk.finish(expl or '')
    except build.WitnessRejected as e:
        # the library's documented interface no longer accepts a witness program; if the header
        # itself does not even compile this is an error of the tree, not of the property
        r = build.header_ok(chk.headers)
        if r.returncode:
            print('error: header does not compile\n' + r.stdout[:2000])
            return 2
        errs = [l for l in e.log.splitlines() if 'error' in l][:6]
        chk.violate('witness-rejected', '%s: %s' % (e, ' | '.join(errs)))
        rc = chk.finish('witness rejected')
    except Exception:
        traceback.print_exc()
        for eng in limits.engines:
            for v in eng.viol.values():
                chk.violate('%s@%s' % (v['kind'], v['fn'].split('(')[0][-60:]), v['msg'], loc=v['loc'], path=v['path'])
        if chk.violations:
            return chk.finish('analysis stopped after a violation') or 2
        print('error: analysis of %s gave no verdict' % pid)
        return 2
    return rc
