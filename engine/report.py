"""Collects the verdicts of the analyses of one property, prints them, writes the evidence file."""
import json, os, time, sys, collections, re
from ir import VERIF, AnalysisBroken

class Report:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier
        self.proved = collections.Counter(); self.by_unit = collections.Counter()
        self.viol = []; self.undec = []
        self.functions = set(); self.units = 0
        self.rules = []; self.assumptions = []; self.samples = []
        self.t0 = time.time()
        self.counts = collections.Counter()
        self.floor = []
    def ok(self, kind, n=1, unit=None):
        self.proved[kind] += n
        if unit: self.by_unit[unit] += n
    def violation(self, kind, site, msg, wit=None, entry=None, chain=None):
        self.viol.append(dict(kind=kind, site=site, message=msg, witness=wit, entry=entry, path=chain))
    def undecided(self, kind, site, msg, entry=None):
        self.undec.append(dict(kind=kind, site=site, message=msg, entry=entry))
    def rule(self, text): self.rules.append(text)
    def assume(self, text):
        if text not in self.assumptions: self.assumptions.append(text)
    def need(self, what, have, at_least):
        """the analysis is vacuous below this many instances"""
        self.floor.append((what, have, at_least))
    def absorb(self, ob, kinds, unit=None, only=None):
        """obligations of an Interp result whose kind belongs to this property"""
        for (kind, site), x in ob.items():
            if not kinds(kind): continue
            if x['proved']: self.ok(kind, x['proved'], unit)
            for y in x['violation']: self.violation(kind, site, y[0], y[1], y[2], y[3] if len(y) > 3 else None)
            for y in x['undecided']: self.undecided(kind, site, y[0], y[2])
    def finish(self, level, technique, trusted):
        for what, have, least in self.floor:
            if have < least and not self.viol: raise AnalysisBroken('%s: %d found, at least %d expected' % (what, have, least))
        known = load_known(self.prop)
        new = []; seen = set(); knownhit = []
        for v in self.viol:
            key = (v['kind'], v['site'], v['entry'])
            if key in seen: continue
            seen.add(key)
            k = next((k for k in known if k['kind'] == v['kind'] and k['site'] in str(v['site']) + ' ' + ' '.join(v['path'] or ())), None)
            if k: knownhit.append(k)
            else: new.append(v)
        n_ob = sum(self.proved.values()); n_v = len(new); n_u = len(self.undec)
        cov = dict(obligations=n_ob + n_u + len(seen), discharged=n_ob,
                   checker_cmd='python3 /verif/check.py %s' % self.prop,
                   trusted_base=trusted,
                   by_rule=dict(self.proved), units=self.units, rules=self.rules,
                   functions_analysed=len(self.functions), functions=sorted(self.functions)[:400],
                   undecided=n_u, undecided_samples=self.undec[:12],
                   samples=self.samples[:8])
        cov.update({k: v for k, v in self.counts.items()})
        if level == 'other':
            cov['explanation'] = technique
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level,
                  coverage=cov, wall_s=round(time.time() - self.t0, 2), violations=n_v, assumptions=self.assumptions)
        d = os.path.join(VERIF, 'evidence'); os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
        print('%s: %d obligations discharged over %d entry states/units and %d functions, %d undecided, %.1f s' %
              (self.prop, n_ob, self.units, len(self.functions), n_u, time.time() - self.t0))
        for k in {json.dumps(k, sort_keys=True): k for k in knownhit}.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        if not new: return 0
        path = os.path.join(d, self.prop + '.violation.json')
        with open(path, 'w') as f: json.dump(new, f, indent=1, default=str)
        for v in new[:12]:
            print('  %s: %s: %s' % (v['site'], v['kind'], v['message']))
            if v['entry']: print('      entry: %s' % v['entry'])
            if v['witness']: print('      witness: %s' % v['witness'])
            for c in (v['path'] or ())[:12]: print('      via %s' % c)
        print('VIOLATION property=%s replay=%s' % (self.prop, path))
        return 1

def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) kind=(\S+) site=(\S+) (.*)', l)
            if m and m.group(1) == prop: out.append(dict(kind=m.group(2), site=m.group(3), what=m.group(4)))
    return out
