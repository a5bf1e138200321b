"""Collects obligations and violations of one check run and writes the evidence file."""
import json, os, sys, time
from . import prog as P

KNOWN = os.path.join(P.VERIF, 'known-findings.txt')


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.obl = 0
        self.done = 0
        self.rules = {}
        self.samples = []
        self.viol = []          # (key, where, message)
        self.functions = set()
        self.paths = 0
        self.calls = 0
        self.extra = {}
        self.assumptions = []
        self.unknowns = {}

    def ok(self, rule, where=None):
        self.obl += 1
        self.done += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if len(self.samples) < 12 and rule not in [s['rule'] for s in self.samples]:
            self.samples.append({'rule': rule, 'at': str(where or '')})

    def bad(self, rule, where, msg, key=None):
        self.obl += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        key = key or '%s: %s' % (rule, strip_line(msg))
        if all(k != key or w != where for k, w, _, _ in self.viol):
            self.viol.append((key, where, msg, rule))

    def check(self, cond, rule, where, msg, key=None):
        if cond:
            self.ok(rule, where)
        else:
            self.bad(rule, where, msg, key)
        return cond

    def absorb(self, interp):
        self.functions |= interp.fns_seen
        self.calls += interp.calls_seen
        for why, where in interp.unknowns:
            self.unknowns[why] = self.unknowns.get(why, 0) + 1

    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line.startswith('known: property=%s ' % self.pid):
                    rest = line[len('known: property=%s ' % self.pid):]
                    key, _, text = rest.partition(' :: ')
                    out[key.strip()] = text.strip()
        return out

    def finish(self, explanation):
        known = self.known()
        new, old = [], []
        for v in self.viol:
            (old if v[0] in known else new).append(v)
        ev_dir = os.environ.get('VERIF_EVIDENCE') or os.path.join(P.VERIF, 'evidence')
        os.makedirs(ev_dir, exist_ok=True)
        cov = {
            'explanation': explanation,
            'obligations': self.obl,
            'discharged': self.done,
            'rules': self.rules,
            'functions_analysed': sorted(self.functions),
            'paths': self.paths,
            'call_sites_followed': self.calls,
            'samples': self.samples,
        }
        if self.unknowns:
            cov['not_looked_into'] = dict(sorted(self.unknowns.items(), key=lambda x: -x[1])[:20])
        cov.update(self.extra)
        doc = {
            'property': self.pid,
            'tier': os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other',
            'coverage': cov,
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(new),
        }
        with open(os.path.join(ev_dir, self.pid + '.json'), 'w') as f:
            json.dump(doc, f, indent=1, default=str)
        for k, w, m, r in old:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k] or m))
        rep = os.path.join(ev_dir, self.pid + '.violations.txt')
        if new:
            with open(rep, 'w') as f:
                for k, w, m, r in new:
                    f.write('%s\n  at %s\n  rule: %s\n  key: %s\n' % (m, w, r, k))
            for k, w, m, r in new:
                print('%s: %s  [%s]' % (w, m, r))
            print('VIOLATION property=%s replay=%s' % (self.pid, rep))
            sys.stdout.flush()
            return 1
        if os.path.exists(rep):
            os.remove(rep)
        print('%s holds: %d obligations discharged, %d functions, %d paths' % (self.pid, self.done, len(self.functions), self.paths))
        return 0


def strip_line(s):
    return ' '.join(str(s).split())
