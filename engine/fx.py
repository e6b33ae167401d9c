"""Analysis of single functions outside the containers: entry states are built by
the caller, every outcome is checked against the function's specification."""
import time
from core import *
import models
from lin import K, ZERO, ONE, fresh
from ir import AnalysisBroken
from rcaops import seq_equal, eq_val, opsite, Cx, NPOS

class ByteWorld:
    es = 1; cls = False

class Fx:
    def __init__(self, mod, fn, label, M=None, budget=200000, seconds=20, opts=None):
        self.mod = mod; self.fn = fn
        self.ip = Interp(mod, M or models.Models(), budget=budget)
        self.ip.entry = '%s [%s]' % (fn, label)
        self.ip.deadline = time.time() + seconds
        if opts: self.ip.opts.update(opts)
        self.ip.opts0 = dict(opts or {})
        if fn not in mod.funcs: raise AnalysisBroken('no function ' + fn)
        self.ip.default_site = opsite(mod, fn)
        self.st = State()
        self.cx = Cx(ByteWorld, self.ip, None)
    # ---- inputs
    def size(self, name, lo=0, hi=NPOS):
        x = fresh(name); self.st.store.add_ge(x - lo); self.st.store.add_ge(K(hi) - x); return x
    def buf(self, name, n, desc=None, const=False, kind='ext', alloc=None, nonul=False):
        """region of n bytes with arbitrary (or given) content; (rid, sid)"""
        sid = None
        if desc is None:
            sid = new_src(name, 8, kind='free')
            if nonul: SRC[sid]['nonul'] = True
            desc = ('src', sid, ZERO)
        r = Region(kind, name, n, 1, ((n, desc),))
        if const: r.flags['const'] = True
        if alloc: r.flags['alloc'] = alloc
        return self.st.add(r), sid
    def cstr(self, name, n=None, const=True, kind='ext', alloc=None):
        n = self.size(name + '.len', 0, MAXOBJ - 1) if n is None else n
        sid = new_src(name, 8, kind='cstr', len=n)
        r = Region(kind, name, n + 1, 1, ((n + 1, ('src', sid, ZERO)),))
        if const: r.flags['const'] = True
        if alloc: r.flags['alloc'] = alloc
        return self.st.add(r), sid, n
    def cell(self, name, v, size=8):
        r = Region('ext', name, K(size)); r.cells = {0: (size, v)}
        return self.st.add(r)
    # ---- run
    def run(self, args, check):
        ip = self.ip
        self.entry_regs = set(self.st.regs)
        self.outcomes = 0
        try:
            for s, kind, v in ip.call_fn(self.st.copy(), self.fn, args):
                if not s.store.sat(): continue
                self.outcomes += 1
                check(s, kind, v)
        except Budget: ip.res.add('analysis', ip.default_site, 'undecided', 'budget exhausted', None, ip.entry)
        except Unsupported as e: ip.res.add('analysis', ip.default_site, 'undecided', 'unsupported: %s' % e, None, ip.entry)
        except RecursionError: ip.res.add('analysis', ip.default_site, 'undecided', 'recursion', None, ip.entry)
        ip.res.visited = ip.visited
        return ip.res
    # ---- obligations
    def same(self, s, kind, e, want, msg):
        """integer equality obligation"""
        d = s.canon(e - want)
        if s.store.entails_eq(d): self.ip.res.add(kind, self.ip.site(), 'proved'); return True
        for x in (d - 1, -d - 1):
            if not s.store.entails_ge(-x - 1): self.ip.fail(s, kind, '%s: %s, expected %s' % (msg, s.canon(e), s.canon(want)), [x])
        return False
    def seq(self, s, kind, rid, lo, n, pieces, what):
        for s2, segs in self.ip.arr_extract(s.copy(), rid, lo, lo + n):
            rel = tuple((hi - lo, self.ip.shift_desc(d, lo)) for hi, d in segs)
            seq_equal(self.cx, s2, n, rel, pieces, kind, what)
    def heap_left(self, s, allowed=()):
        """nothing allocated is lost"""
        for rid, r in s.regs.items():
            if r.kind == 'heap' and r.live and rid not in allowed: self.ip.fail(s, 'leak', '%s is never released' % r.name); return
        self.ip.res.add('leak', self.ip.site(), 'proved')
    def min(self, s, a, b):
        for s1, c in self.cx.cases(s, b - a): yield s1, (a if c == 0 else b)
