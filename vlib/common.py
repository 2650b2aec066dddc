"""What every check does at the end: known findings, evidence, verdict."""
import json, os, re, sys, time
from . import run as R

EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(R.VERIF, 'evidence')
KNOWN = os.path.join(R.VERIF, 'known-findings.txt')


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def known(pid):
    """finding lines of the property: 'finding: property=<id> key=<key> <what fails>'"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


class Result:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.violations = []          # (description, replay dict)
        self.findings = {}            # key -> how often seen
        self.extra = {}
        self.t0 = time.time()

    def add_mc(self, name, generated, distinct):
        self.states += distinct
        self.transitions += generated
        self.extra.setdefault('model', {})[name] = dict(states=distinct, transitions=generated)

    def finish(self, level='model_checking', assumptions=(), coverage=None):
        os.makedirs(EVID, exist_ok=True)
        kn = known(self.pid)
        for k in self.findings:
            if k not in kn:
                self.violations.append(('unlisted finding ' + k, dict(finding=k)))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, samples=self.samples[:3])
        cov.update(self.extra)
        cov.update(coverage or {})
        ev = dict(property=self.pid, tier=self.tier, seed=seed(), level=level, coverage=cov, assumptions=list(assumptions),
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, what in kn.items():
            # listed findings are deterministic consequences of a documented limit, whether or not this run met one
            print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        if self.violations:
            d = os.path.join(EVID, 'replay')
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, '%s.json' % self.pid)
            with open(p, 'w') as f:
                json.dump([dict(what=w, **r) for w, r in self.violations[:5]], f, indent=1)
            for w, r in self.violations[:5]:
                print('# ' + w[:1500])
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        print('OK property=%s states=%d transitions=%d traces=%d wall=%.1fs' % (self.pid, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 0
