"""Collects the verdicts of one property's obligations, writes the evidence file and prints the outcome."""
import json, os, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Check:
    def __init__(self, pid):
        self.pid = pid; self.t0 = time.time(); self.obl = []; self.bad = []; self.und = []; self.facts = {}; self.assume = []
        self.expl = []; self.known = []; self.minimum = {}; self.counts = {}
        self.findings = [l.strip() for l in open(VERIF + '/known-findings.txt') if l.strip() and not l.startswith('#')] if os.path.exists(VERIF + '/known-findings.txt') else []
    def ok(self, rule, what): self.obl.append((rule, what)); self.count(rule)
    def count(self, rule, n=1): self.counts[rule] = self.counts.get(rule, 0) + n
    def violation(self, rule, where, msg, key=None):
        """key: stable identity used to match the known-findings file"""
        self.count(rule)
        key = key or where
        for l in self.findings:
            if l.startswith('known: property=%s ' % self.pid) and ('key=' + key) in l.split():
                self.known.append((key, l)); return
        self.bad.append((rule, where, msg))
    def undecided(self, rule, what, why): self.count(rule); self.und.append((rule, what, why))
    def need(self, rule, n):
        """the rule must have matched at least n instances, else the analysis itself is broken"""
        self.minimum[rule] = n
    def finish(self, explanation, samples=()):
        tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        short = {r: (self.counts.get(r, 0), n) for r, n in self.minimum.items() if self.counts.get(r, 0) < n}
        cov = dict(explanation=explanation, obligations=sum(self.counts.values()), discharged=len(self.obl),
                   violated=len(self.bad), undecided=len(self.und), known_findings=len(self.known), rules=self.counts,
                   instances=[('%s: %s' % o)[:300] for o in self.obl[:400]], undecided_list=['%s: %s (%s)' % u for u in self.und][:100],
                   samples=list(samples)[:20], **self.facts)
        ev = dict(property=self.pid, tier=tier, seed=seed, level='other', coverage=cov, assumptions=self.assume,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.bad))
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open(VERIF + '/evidence/%s.json' % self.pid, 'w'), indent=1)
        print('%s: %d obligations, %d discharged, %d violated, %d undecided, %d known findings (%.1fs)' % (self.pid, sum(self.counts.values()), len(self.obl), len(self.bad), len(self.und), len(self.known), time.time() - self.t0))
        for u in self.und[:20]: print('  undecided %s: %s (%s)' % (u[0], u[1], str(u[2])[:300]))
        for k, l in self.known: print('KNOWN-FINDING: property=%s %s' % (self.pid, l.split(' ', 3)[-1]))
        if self.bad:
            rp = VERIF + '/evidence/%s.replay.txt' % self.pid
            with open(rp, 'w') as f:
                for r, w, m in self.bad: f.write('rule: %s\nwhere: %s\n%s\n\n' % (r, w, m))
            for r, w, m in self.bad[:20]: print('  %s at %s: %s' % (r, w, m[:700]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if short:
            print('analysis broken: rules with too few instances: %s' % short)
            return 2
        return 0
