import json
import os
import re
import sys
import time

from ir import VERIF, REPO

KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known(prop):
    """identities of the recorded, unrepaired findings: lines `finding: property=<id> key=<key> <text>`"""
    r = {}
    try:
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return r


class Report:
    def __init__(self, prop, level='other'):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.viol = []
        self.seen = set()
        self.cov = {}
        self.samples = []
        self.obl = {}          # rule -> [instances, proved, undecided]
        self.undecided = []
        self.assume = []

    def ob(self, rule, verdict, what=''):
        """count one decided rule instance: verdict True (holds), False (broken, reported separately), None (undecided)"""
        o = self.obl.setdefault(rule, {'instances': 0, 'holds': 0, 'broken': 0, 'undecided': 0})
        o['instances'] += 1
        o['holds' if verdict else 'broken' if verdict is False else 'undecided'] += 1
        if verdict is None and what and len(self.undecided) < 200:
            self.undecided.append('%s: %s' % (rule, what))
        if verdict and what and len([s for s in self.samples if s.startswith(rule)]) < 3:
            self.samples.append('%s: %s' % (rule, what))

    def violation(self, key, where, text):
        """key identifies the defect (no line numbers)"""
        key = re.sub(r'\s+', '_', key)
        if key in self.seen:
            return
        self.seen.add(key)
        self.viol.append({'key': key, 'where': where, 'text': text})

    def need(self, rule, n):
        """at least n instances of the rule must exist, else the analysis lost its anchors"""
        c = self.obl.get(rule, {'instances': 0})['instances']
        if c >= n or self.viol:
            return
        if not any(o['holds'] for o in self.obl.values()):
            from ir import AnalysisBroken
            raise AnalysisBroken("rule %r matched %d instances, at least %d are known to exist; %s" % (rule, c, n, self.undecided[:3]))
        # the code moved away from the rule's anchors: what is missing is not decided, everything else is
        self.ob(rule, None, 'only %d instances found, %d are known to exist in the tree this was written for' % (c, n))

    def finish(self):
        kn = known(self.prop)
        new = [v for v in self.viol if v['key'] not in kn]
        for v in self.viol:
            if v['key'] in kn:
                print('KNOWN-FINDING: property=%s %s (%s)' % (self.prop, kn[v['key']], v['where']))
        tier = os.environ.get('VERIF_TIER', 'quick')
        tier = tier if tier in ('quick', 'thorough') else 'quick'
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = 1
        n = sum(o['instances'] for o in self.obl.values())
        h = sum(o['holds'] for o in self.obl.values())
        cov = {'explanation': self.cov.pop('explanation', ''), 'rule_instances': n, 'rule_instances_hold': h,
               'rules': self.obl, 'samples': self.samples[:40]}
        if self.undecided:
            cov['undecided'] = self.undecided
        cov.update(self.cov)
        ev = {'property': self.prop, 'tier': tier, 'seed': seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if new:
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, self.prop + '.txt')
            with open(rp, 'w') as f:
                for v in new:
                    f.write('%s\n  at %s\n  %s\n' % (v['key'], v['where'], v['text']))
                f.write('re-run: cd /verif && python3 sa/check.py %s\n' % self.prop)
            for v in new:
                print('%s: %s [%s]' % (v['where'], v['text'], v['key']))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('%s: %d rule instances, %d hold, %d undecided, %.1f s' % (
            self.prop, n, h, sum(o['undecided'] for o in self.obl.values()), time.time() - self.t0))
        return 0
