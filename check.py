#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current source.
exit 0: held on everything analysed; exit 1 + VIOLATION line: broken; 2: the analysis could not be carried out."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import importlib, traceback
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from report import Report
from ir import AnalysisBroken
from registry import REG

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in sys.argv: tier = 'thorough'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    rep = Report(prop, tier)
    try:
        e = REG[prop]
        trust = []
        for modname in e['modules']:
            mod = importlib.import_module(modname)
            mod.run(rep, prop, tier)
            trust += [t for t in mod.TRUST if t not in trust]
        return rep.finish(e['level'], e['technique'], trust)
    except AnalysisBroken as ex:
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, ex)); return 2
    except Exception:
        traceback.print_exc(); return 2
if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
