"""Runs a list of single-function analyses in parallel and absorbs their obligations."""
import ir, par
from fx import Fx

UNROLL = 4
def unsettled(ob, kinds): return any(x['undecided'] and kinds(k[0]) and not x['violation'] for k, x in ob.items())
def add_violations(ob, ob2):
    """Where an over-approximated loop left something open, the first iterations followed
    exactly may still exhibit a definite violation."""
    for k, x in ob2.items():
        if x['violation']:
            z = ob.setdefault(k, dict(proved=0, undecided=[], violation=[]))
            z['violation'] = (z['violation'] + x['violation'])[:4]

def drive(rep, mods, cases, kinds, tier, opts=None, M=None, seconds=60, minimum=None, unitname=None, second=True):
    """cases: (cfg, fn, label, g); kinds: kind -> bool"""
    def f(t):
        cfg, fn, label, g = t
        x = Fx(mods[cfg], fn, label, M=M() if M else None, opts=dict(opts(t) if callable(opts) else (opts or {})), seconds=seconds if tier == 'quick' else 10 * seconds)
        r = g(x, label)
        ob = r.ob
        if second and unsettled(ob, kinds):
            y = Fx(mods[cfg], fn, label, M=M() if M else None, opts=dict(x.ip.opts0, unroll_sym=UNROLL), seconds=min(seconds, 40) if tier == 'quick' else 10 * seconds)
            add_violations(ob, g(y, label).ob)
        return ob, list(r.visited), x.outcomes
    done = 0
    for t, r, dt in par.run(f, cases, limit=600 if tier == 'quick' else 3000):
        unit = '%s [%s]%s' % (t[1], t[2], '' if t[0] == 'full' else ' (%s)' % t[0])
        if r[0] in ('crash', 'late'):
            rep.undecided('analysis', unit, r[1].strip().splitlines()[-1] if len(r) > 1 else 'time limit'); continue
        rep.units += 1
        b = sum(rep.proved.values())
        rep.absorb(r[0], kinds, unit)
        for k, x in r[0].items():
            if k[0] == 'analysis':
                for y in x['undecided']: rep.undecided('analysis', k[1], y[0], y[2])
        rep.functions.update(r[1])
        if sum(rep.proved.values()) > b: done += 1; rep.samples.append('%s: %d obligations, %d outcomes' % (unit, sum(rep.proved.values()) - b, r[2]))
    rep.need('units with discharged obligations', done, max(1, len(cases) // 4) if minimum is None else minimum)
