"""Outcome of one check: obligations, violations, known findings, evidence."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report(object):
    def __init__(self, pid):
        self.pid = pid
        self.tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
        if '--thorough' in sys.argv:
            self.tier = 'thorough'
        self.t0 = time.time()
        self.viol = {}      # key -> (text, where)
        self.order = []
        self.counts = {}
        self.samples = []
        self.und = []
        self.rules = []
        self.assume = []
        self.units = set()
        self.obligations = 0

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def rule(self, text):
        self.rules.append(text)

    def assumption(self, text):
        self.assume.append(text)

    def unit(self, *us):
        self.units.update(us)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def ok(self, n=1):
        self.obligations += n

    def undecided(self, what):
        self.und.append(what)

    def violation(self, key, text, where):
        self.obligations += 1
        if key not in self.viol:
            self.viol[key] = (text, where)
            self.order.append(key)

    # ---------------------------------------------------------- finish
    def finish(self):
        known = []
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            with open(kf) as fh:
                known = [k for k in json.load(fh)['findings'] if k['property'] == self.pid and k['status'] == 'known']
        bykey = {}
        for k in known:
            for x in k['keys']:
                bykey[x] = k
        hit, new = {}, []
        for key in self.order:
            if key in bykey:
                hit.setdefault(bykey[key]['id'], (bykey[key], []))[1].append(key)
            else:
                new.append(key)
        for i, (k, keys) in sorted(hit.items()):
            print('KNOWN-FINDING: property=%s %s (%d site%s)' % (self.pid, k['what'], len(keys), '' if len(keys) == 1 else 's'))
        dead = self.obligations == 0 and not new
        if not dead and self.und and not new and self.obligations < len(self.und):
            dead = False
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
                  coverage=dict(
                      explanation='; '.join(self.rules),
                      obligations_decided=self.obligations, undecided=len(self.und),
                      undecided_samples=[str(u)[:300] for u in self.und[:8]],
                      counts=self.counts, samples=self.samples[:12],
                      analysed_units=sorted(self.units),
                      known_findings={i: len(x[1]) for i, x in hit.items()}),
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, sort_keys=True)
        print('%s: %d obligations decided, %d undecided, %d known, %d new violations, %.1f s' % (
            self.pid, self.obligations, len(self.und), sum(len(x[1]) for x in hit.values()), len(new), ev['wall_s']))
        for k, v in sorted(self.counts.items()):
            print('  %s: %s' % (k, v))
        for u in self.und[:5]:
            print('  undecided: %s' % str(u)[:240])
        if new:
            path = os.path.join(VERIF, 'evidence', self.pid + '.violation.json')
            with open(path, 'w') as fh:
                json.dump([dict(key=k, what=self.viol[k][0], where=self.viol[k][1]) for k in new], fh, indent=1)
            for k in new[:25]:
                print('  %s\n    %s\n    at %s' % (k, self.viol[k][0][:400], self.viol[k][1]))
            if len(new) > 25:
                print('  ... and %d more' % (len(new) - 25))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        if dead:
            print('error: nothing was decided (anchors vanished?)')
            return 2
        return 0
