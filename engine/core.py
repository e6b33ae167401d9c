"""Abstract interpreter over the JSON form of LLVM IR produced by tool/irdump.

Abstract state = linear-arithmetic store (lin.Store) x regions (structs with
cells, arrays with symbolic segmentation) x events/ghost typestate.
Acyclic control flow is partitioned by trace; loops are generalised to an
inductive state (see loops.py); calls are analysed in context.
"""
import re, time
from fractions import Fraction
from lin import Lin, Store, K, S, ZERO, ONE, fresh, new_sym, sym_name, sym_approx, set_approx
import lin as L
from ir import REPO, AnalysisBroken

OOM = ('_ZTISt9bad_alloc', '_ZTISt20bad_array_new_length', '_ZTISt12length_error')
MAXOBJ = 2 ** 47           # no object is larger than the user address space

# ---------------------------------------------------------------- values
class I:
    """integer of width w whose value is congruent to e modulo 2^w; or, when
    src=(kind, e0, w0), a pending extension of a w0-bit value (kind 's'/'u')"""
    __slots__ = ('e', 'w', 'src')
    def __init__(self, e, w, src=None): self.e = e; self.w = w; self.src = src
    def __repr__(self): return 'I%d(%s)' % (self.w, self.e if self.src is None else self.src)
    def __eq__(self, o): return isinstance(o, I) and self.e == o.e and self.w == o.w and self.src == o.src
    def __hash__(self): return hash((self.e, self.w, self.src))
class P:
    __slots__ = ('r', 'o')
    def __init__(self, r, o): self.r = r; self.o = o
    def __repr__(self): return 'P(%s+%s)' % (self.r, self.o)
    def __eq__(self, x): return isinstance(x, P) and self.r == x.r and self.o == x.o
    def __hash__(self): return hash((self.r, self.o))
class F:
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __repr__(self): return 'F(%s)' % self.n
    def __eq__(self, x): return isinstance(x, F) and self.n == x.n
    def __hash__(self): return hash(self.n)
class C:
    """boolean condition; c is a nested tuple"""
    __slots__ = ('c', 'w')
    def __init__(self, c, w=1): self.c = c; self.w = w
    def __repr__(self): return 'C%s' % (self.c,)
    def __eq__(self, x): return isinstance(x, C) and self.c == x.c
    def __hash__(self): return hash(self.c)
class D:
    """floating point: (num Lin)/den, or opaque when num is None"""
    __slots__ = ('n', 'd', 'tag')
    def __init__(self, n, d=1, tag=None): self.n = n; self.d = d; self.tag = tag
    def __repr__(self): return 'D(%s/%s %s)' % (self.n, self.d, self.tag)
    def __eq__(self, x): return isinstance(x, D) and (self.n, self.d, self.tag) == (x.n, x.d, x.tag)
    def __hash__(self): return hash((self.n, self.d, self.tag))
class A:
    __slots__ = ('v',)
    def __init__(self, v): self.v = tuple(v)
    def __repr__(self): return 'A%s' % (self.v,)
    def __eq__(self, x): return isinstance(x, A) and self.v == x.v
    def __hash__(self): return hash(self.v)
import bits as BT
class B:
    """bit vector: tuple of bits, LSB first; a bit is 0, 1 or an atom (src, n)"""
    __slots__ = ('b',)
    def __init__(self, b): self.b = tuple(b)
    def __repr__(self): return 'B(%s)' % (self.b,)
    def __eq__(self, x): return isinstance(x, B) and self.b == x.b
    def __hash__(self): return hash(self.b)
class Top:
    __slots__ = ('w', 'tag')
    def __init__(self, w=64, tag=None): self.w = w; self.tag = tag
    def __repr__(self): return 'T%s(%s)' % (self.w, self.tag)
    def __eq__(self, x): return isinstance(x, Top) and self.w == x.w and self.tag == x.tag
    def __hash__(self): return hash((self.w, self.tag))

TRUE = C(('k', True)); FALSE = C(('k', False))
NULL = I(ZERO, 64)
def ci(v, w=64): return I(K(v), w)
def cnot(c):
    if c[0] == 'k': return ('k', not c[1])
    if c[0] == 'not': return c[1]
    return ('not', c)

class Region:
    __slots__ = ('kind', 'name', 'size', 'live', 'cells', 'arr', 'es', 'flags')
    def __init__(self, kind, name, size, es=None, arr=None, flags=None):
        self.kind = kind; self.name = name; self.size = size; self.live = True
        self.cells = {}; self.arr = arr; self.es = es; self.flags = flags or {}
    def copy(self):
        r = Region.__new__(Region)
        r.kind = self.kind; r.name = self.name; r.size = self.size; r.live = self.live
        r.cells = dict(self.cells); r.arr = self.arr; r.es = self.es; r.flags = dict(self.flags)
        return r
    def __repr__(self): return '<%s %s%s>' % (self.kind, self.name, '' if self.live else ' dead')

_rid = [0]
def new_rid():
    _rid[0] += 1
    return _rid[0]

SRC = {}     # ghost sequences: sid -> dict(kind, name, len, w, ...)
def new_src(name, w=8, **kw):
    sid = len(SRC) + 1
    SRC[sid] = dict(name=name, w=w, **kw)
    return sid

class State:
    __slots__ = ('store', 'regs', 'elems', 'ev', 'ghost', 'inexact', 'globs')
    def __init__(self):
        self.store = Store(); self.regs = {}; self.elems = {}; self.ev = (); self.ghost = {}
        self.inexact = None; self.globs = {}
    def copy(self):
        n = State.__new__(State)
        n.store = self.store.copy(); n.regs = dict(self.regs); n.elems = dict(self.elems)
        n.ev = self.ev; n.ghost = dict(self.ghost); n.inexact = self.inexact; n.globs = dict(self.globs)
        return n
    def event(self, *e): self.ev = self.ev + (e,)
    def w(self, rid):
        r = self.regs[rid].copy()
        self.regs[rid] = r
        return r
    def add(self, region, rid=None):
        rid = rid or new_rid()
        self.regs[rid] = region
        return rid
    def canon(self, e): return self.store.canon(e)
    def const(self, e):
        e = self.store.canon(e)
        return None if e.t else e.c
    def alloc(self, kind, name, size, es=None, flags=None, content=('raw',)):
        """size in bytes (Lin). es -> array region with a single segment"""
        r = Region(kind, name, size, es, None, flags)
        if es:
            n = div_exact(size, es)
            r.arr = ((n, content),)
        return self.add(r)

def div_exact(e, k):
    if k == 1: return e
    if e.c % k or any(c % k for _, c in e.t): return None
    return Lin(e.c // k, tuple((s, c // k) for s, c in e.t))

class Budget(Exception): pass
class Unsupported(Exception): pass

class Results:
    """collected obligations: key (kind, site) -> counts and worst outcome"""
    def __init__(self):
        self.ob = {}
        self.notes = []
    def add(self, kind, site, status, msg='', wit=None, entry=None, chain=None):
        o = self.ob.setdefault((kind, site), {'proved': 0, 'violation': [], 'undecided': []})
        if status == 'proved': o['proved'] += 1
        elif len(o[status]) < 4: o[status].append((msg, wit, entry, chain))
    def merge(self, other):
        for k, o in other.ob.items():
            m = self.ob.setdefault(k, {'proved': 0, 'violation': [], 'undecided': []})
            m['proved'] += o['proved']
            for x in ('violation', 'undecided'):
                m[x] = (m[x] + o[x])[:4]
        self.notes.extend(other.notes)

class Interp:
    def __init__(self, mod, models, budget=400000, config='full', conc=False, depth=60):
        self.m = mod
        self.models = models
        self.budget = budget
        self.steps = 0
        self.maxdepth = depth
        self.res = Results()
        self.stack = []; self.vstack = []
        self.entry = ''
        self.conc = conc
        self.config = config
        self.visited = set()
        self.gcache = {}
        self.model_cache = {}
        self.witness_syms = []
        self.alloc_fail = False
        self.loopinfo = []
        self.opts = {}
        self.default_site = None
        self.deadline = None
        self.on_fail = None

    # ------------------------------------------------------------ reporting
    def site(self):
        """innermost location inside the repository"""
        for fn, ins in reversed(self.stack):
            f = ins.get('fi') if ins else None
            if f and f.startswith(REPO + '/'):
                return '%s:%s' % (f[len(REPO) + 1:], ins.get('ln', 0))
        if self.default_site: return self.default_site
        for fn, ins in reversed(self.stack):
            f = ins.get('fi') if ins else None
            if f: return '%s:%s' % (f, ins.get('ln', 0))
        return '?'
    def chain(self):
        out = []
        for fn, ins in self.stack:
            f = (ins.get('fi') if ins else None) or ''
            if f.startswith(REPO + '/'): f = f[len(REPO) + 1:]
            out.append('%s (%s:%s)' % (short(fn.dem), f, ins.get('ln', 0) if ins else 0))
        return out
    def ok(self, kind): self.res.add(kind, self.site(), 'proved')
    def show_model(self, st, m):
        d = {}
        for s, v in m.items():
            n = sym_name(s)
            if n.startswith('_') : continue
            d[n] = v if abs(v) < 10**9 else L._big(v)
        return d
    def witness(self, st, extra, depth=4):
        """(model, inconsistent): an integer point in which equal indices of one
        input hold equal values (element symbols are independent in the store)"""
        t = st.store.copy()
        for e in extra:
            if not t.add_ge(e): return None, False
        m = t.model()
        if m is None: return None, False
        def ev(e):
            e = t.canon(e); v = e.c
            for s, k in e.t: v += k * m.get(s, 0)
            return v
        for sid, L_ in st.elems.items():
            seen = {}
            for ix, x in L_:
                i, v = ev(ix), ev(x)
                if i not in seen: seen[i] = (v, ix, x); continue
                if seen[i][0] == v: continue
                _, jx, y = seen[i]
                if depth <= 0: return None, True
                for more in ([x - y, y - x], [ix - jx - 1], [jx - ix - 1]):
                    r, _ = self.witness(st, extra + more, depth - 1)
                    if r is not None: return r, False
                return None, True
        return m, False
    def fail(self, st, kind, msg, extra=(), certain_approx=False):
        """report a failed obligation in state st (with extra constraints e>=0).
        Returns 'violation'/'undecided'/'proved'."""
        m, incons = self.witness(st, list(extra))
        status = 'violation'
        if m is None:
            if incons: self.res.add(kind, self.site(), 'undecided', msg + ' [no consistent witness]', None, self.entry); return 'undecided'
            t = st.store.copy()
            feas = True
            for e in extra:
                if not t.add_ge(e): feas = False
            if not feas or not t.sat():
                self.res.add(kind, self.site(), 'proved'); return 'proved'
            status = 'undecided'
        elif st.inexact:
            status = 'undecided'; msg += ' [imprecise: %s]' % (st.inexact,)
        else:
            syms = set()
            for e in extra: syms |= set(st.canon(e).syms())
            if syms:
                t = st.store.copy()
                for e in extra: t.add_ge(e)
                _, seen = t._component(syms)
            else: seen = ()
            bad = [s for s in seen if sym_approx(s)]
            if bad:
                status = 'undecided'; msg += ' [approximate value %s]' % sym_name(bad[0])
        self.res.add(kind, self.site(), status, msg, self.show_model(st, m) if m else None, self.entry, self.chain())
        if status == 'violation' and self.on_fail and kind in self.UB: self.on_fail(st, kind, msg, extra)
        return status
    UB = {'bounds', 'bounds-r', 'bounds-w', 'null', 'uaf', 'range', 'overlap'}
    def prove_ge(self, st, kind, e, msg):
        """obligation e >= 0; afterwards assume it.  Returns False if path dies."""
        if st.store.entails_ge(e):
            self.res.add(kind, self.site(), 'proved'); return True
        self.fail(st, kind, msg + ' (needs %s >= 0)' % st.canon(e), [-e - 1])
        return st.store.add_ge(e) and st.store.sat_after(e.syms())

    # ------------------------------------------------------------ integers
    def norm(self, st, e, w, signed):
        """e modulo 2^w as a canonical (un)signed representative: [(st, e')]"""
        lo = -(1 << (w - 1)) if signed else 0
        hi = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
        e = st.canon(e)
        if not e.t:
            v = e.c % (1 << w)
            if signed and v > hi: v -= 1 << w
            return [(st, K(v))]
        sto = st.store
        a = sto.entails_ge(e - lo)
        b = sto.entails_ge(hi - e)
        if a and b: return [(st, e)]
        M = 1 << w
        out = []
        q = st.ghost.get(('q', e, w, signed))
        if q is not None: return [(st, e - q * M)]
        # representatives e - k*M, try k = 0, 1, -1, 2
        ql = sto.quick_lo(e); qh = sto.quick_lo(-e)
        if ql is not None and qh is not None:
            kmin = (ql - lo) // M; kmax = (-qh - lo) // M
        else:
            kmin, kmax = -2, 2
            if a: kmin = 0
            if b: kmax = 0
        ks = sorted(range(max(kmin, -2), min(kmax, 2) + 1), key=abs)
        for k in ks:
            s2 = st.copy()
            x = e - k * M
            if s2.store.add_ge(x - lo) and s2.store.add_ge(hi - x) and s2.store.sat_after(e.syms()):
                out.append((s2, x))
        if kmin < -2 or kmax > 2 or (ql is None or qh is None):
            # remaining representatives: existential quotient
            for sign in (1, -1):
                if sign > 0 and (b and kmax <= 2): continue
                if sign < 0 and (a and kmin >= -2): continue
                s2 = st.copy()
                q = fresh('_q')
                x = e - q * M
                if s2.store.add_ge(q * sign - 3) and s2.store.add_ge(x - lo) and s2.store.add_ge(hi - x) and s2.store.sat_after(e.syms()):
                    s2.ghost[('q', e, w, signed)] = q; out.append((s2, x))
        return out
    def raw(self, st, v):
        """[(st, Lin)] a representative modulo 2^w"""
        if isinstance(v, I):
            if v.src is None: return [(st, v.e)]
            k, e0, w0 = v.src
            return self.norm(st, e0, w0, k == 's')
        if isinstance(v, C):
            out = []
            for s2 in self.assume(st, v.c, True): out.append((s2, ONE))
            for s2 in self.assume(st, v.c, False): out.append((s2, ZERO))
            return out
        if isinstance(v, B):
            if all(b in (0, 1) for b in v.b):
                return [(st, K(sum(b << i for i, b in enumerate(v.b))))]
            n = len(v.b); t = v.b[-1]
            if t not in (0, 1) and v.b[-2] == t:
                # sign extension: both signs
                k = n - 1
                while k > 0 and v.b[k - 1] == t: k -= 1
                low = B(v.b[:k] + (0,) * (n - k))
                out = [(s, self.bits_sym(s, low)) for s in self.assume_bit(st.copy(), t, False)]
                return out + [(s, self.bits_sym(s, low) - (1 << k)) for s in self.assume_bit(st, t, True)]
            return [(st, self.bits_sym(st, v))]
        if isinstance(v, Top):
            x = fresh('_top', approx=True)
            st.store.add_ge(x); st.store.add_ge((1 << v.w) - 1 - x)
            return [(st, x)]
        if isinstance(v, P):
            return [(st, self.addr_of(st, v.r) + v.o)]
        if isinstance(v, F):
            x = fresh('_fn'); st.store.add_ge(x - 1); return [(st, x)]
        x = fresh('_opaque', approx=True)
        st.store.add_ge(x); st.store.add_ge((1 << 64) - 1 - x)
        return [(st, x)]
    def bits_sym(self, st, v):
        key = ('bits', v.b)
        x = st.ghost.get(key)
        if x is None:
            free = [b for b in v.b if b not in (0, 1)]
            x = fresh('_bits', approx=not all(b[0] == 'a' for b in free) or len(set(free)) < len(free))
            lo = sum(1 << i for i, b in enumerate(v.b) if b == 1)
            st.store.add_ge(x - lo); st.store.add_ge(lo + sum(1 << i for i, b in enumerate(v.b) if b not in (0, 1)) - x)
            st.ghost[key] = x; st.ghost[('bitsof', x.t[0][0])] = v
        return x
    def addr_of(self, st, rid):
        key = ('addr', rid)
        x = st.ghost.get(key)
        if x is None:
            x = fresh('_addr%d' % rid)
            st.store.add_ge(x - 4096); st.store.add_ge((1 << 47) - x)
            st.ghost[key] = x
        return x
    def ints(self, st, v, w, signed):
        out = []
        for s2, e in self.raw(st, v):
            if isinstance(v, I) and v.src is not None and ((v.src[0] == 's') == signed):
                out.append((s2, e))
            else: out.extend(self.norm(s2, e, w, signed))
        return out

    # ------------------------------------------------------------ conditions
    def assume(self, st, c, truth):
        """list of states in which condition c has the given truth value (st is consumed/copied)"""
        k = c[0]
        if k == 'k':
            return [st] if c[1] == truth else []
        if k == 'not': return self.assume(st, c[1], not truth)
        if k == 'and' or k == 'or':
            if (k == 'and') == truth:
                out = []
                for s in self.assume(st.copy(), c[1], truth): out.extend(self.assume(s, c[2], truth))
                return out
            out = self.assume(st.copy(), c[1], truth)
            for s in self.assume(st.copy(), c[1], not truth): out.extend(self.assume(s, c[2], truth))
            return out
        if k == 'ge':      # Lin >= 0
            return self.split_ge(st, c[1], truth)
        if k == 'eq':
            return self.split_eq(st, c[1], truth)
        if k == 'cmp':
            return self.assume_cmp(st, c[1], c[2], c[3], c[4], truth)
        if k == 'atom':    # uninterpreted boolean, interned
            key = ('atom',) + tuple(c[1:])
            v = st.ghost.get(key)
            if v is None:
                s2 = st.copy(); s2.ghost[key] = truth; return [s2]
            return [st] if v == truth else []
        raise Unsupported('cond %s' % (c,))
    def mark_approx(self, st, e):
        if st.inexact is None:
            for s in st.canon(e).syms():
                if sym_approx(s):
                    st.inexact = 'branch on ' + sym_name(s) + ' at ' + self.site()
                    return
    def split_ge(self, st, e, truth):
        g = e if truth else (-e - 1)
        if st.store.entails_ge(g): return [st]
        if st.store.entails_ge(-g - 1): return []
        s2 = st.copy()
        self.mark_approx(s2, g)
        if s2.store.add_ge(g) and s2.store.sat_after(g.syms()): return [s2]
        return []
    def split_eq(self, st, e, truth):
        e = st.canon(e)
        if truth:
            if st.store.entails_eq(e): return [st]
            if st.store.entails_ne(e): return []
            s2 = st.copy(); self.mark_approx(s2, e)
            sy = e.syms()
            if s2.store.add_eq(e):
                cs = set()
                for s in sy:
                    cs |= set(s2.canon(S(s)).syms())
                if s2.store.sat_after(cs): return [s2]
            return []
        if st.store.entails_ne(e): return [st]
        if st.store.entails_eq(e): return []
        s2 = st.copy(); self.mark_approx(s2, e)
        if s2.store.add_ne(e) and s2.store.sat_after(e.syms()): return [s2]
        return []
    INV = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule',
           'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle'}
    def assume_cmp(self, st, pred, a, b, w, truth):
        if not truth: pred = self.INV[pred]
        # pointers
        if isinstance(a, F) or isinstance(b, F):
            if isinstance(a, F) and isinstance(b, F): r = (a.n == b.n)
            else: r = False
            return [st] if r == (pred == 'eq') else []
        if isinstance(a, P) or isinstance(b, P):
            if isinstance(a, P) and isinstance(b, P):
                if a.r == b.r:
                    d = a.o - b.o
                    return self.cmp_lin(st, pred, d)
                if pred in ('eq', 'ne'): return [st] if pred == 'ne' else []
                # relational comparison of unrelated objects: addresses
                d = self.addr_of(st, a.r) + a.o - self.addr_of(st, b.r) - b.o
                return self.cmp_lin(st, pred, d)
            p, x = (a, b) if isinstance(a, P) else (b, a)
            if pred in ('eq', 'ne'):
                if isinstance(x, I) and x.src is None:
                    cv = st.const(x.e)
                    if cv is not None: return [st] if pred == 'ne' else []
                if isinstance(x, I): return [st] if pred == 'ne' else []
                # unknown pointer
                s2 = st.copy(); s2.inexact = s2.inexact or 'unknown pointer compared at ' + self.site()
                return [s2]
            if isinstance(x, I) and x.src is None and st.const(x.e) == 0:
                gt = {'ugt': True, 'uge': True, 'ult': False, 'ule': False}.get(pred)
                if gt is not None:
                    if p is b: gt = not gt
                    return [st] if gt else []
            s2 = st.copy(); s2.inexact = s2.inexact or 'pointer order at ' + self.site()
            return [s2]
        if isinstance(a, C) and isinstance(b, I) and b.src is None:
            v = st.const(b.e)
            if v is not None and pred in ('eq', 'ne'):
                v %= 1 << w
                if a.w == 1 and w > 1 and False: pass
                tv = 1 if not getattr(a, 'sx', False) else (1 << w) - 1
                if v == 0: return self.assume(st, a.c, pred == 'ne')
                if v == tv: return self.assume(st, a.c, pred == 'eq')
                return [st] if pred == 'ne' else []
        if isinstance(b, C) and isinstance(a, I): 
            sw = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}
            return self.assume_cmp(st, sw.get(pred, pred), b, a, w, True)
        if isinstance(a, B) or isinstance(b, B):
            r = self.bits_cmp(st, pred, a, b, w)
            if r is not None: return r
        if pred in ('eq', 'ne'):
            if isinstance(a, I) and isinstance(b, I):
                # pending extensions of equal kind compare like their sources
                if a.src is not None and b.src is not None and a.src[0] == b.src[0] and a.src[2] == b.src[2]:
                    return self.assume_cmp(st, pred, I(a.src[1], a.src[2]), I(b.src[1], b.src[2]), a.src[2], True)
                for x, y in ((a, b), (b, a)):
                    if x.src is not None and y.src is None:
                        cv = st.const(y.e)
                        if cv is not None:
                            k, e0, w0 = x.src
                            v = cv % (1 << w)
                            if v >= 1 << (w - 1): v -= 1 << w
                            lo, hi = (-(1 << (w0 - 1)), (1 << (w0 - 1)) - 1) if k == 's' else (0, (1 << w0) - 1)
                            if v < lo or v > hi: return [st] if pred == 'ne' else []
                            return self.assume_cmp(st, pred, I(e0, w0), I(K(v % (1 << w0)), w0), w0, True)
                if a.src is None and b.src is None:
                    d = st.canon(a.e - b.e)
                    if not d.t: return [st] if ((d.c % (1 << w) == 0) == (pred == 'eq')) else []
                    # if the difference is small, congruence is equality
                    ql = st.store.quick_lo(d); qh = st.store.quick_lo(-d)
                    if ql is not None and qh is not None and ql > -(1 << w) and -qh < (1 << w):
                        return self.split_eq(st, d, pred == 'eq')
            signed = False
        else: signed = pred[0] == 's'
        out = []
        for s1, x in self.ints(st, a, w, signed):
            for s2, y in self.ints(s1, b, w, signed):
                out.extend(self.cmp_lin(s2, pred, x - y))
        return out
    def cmp_lin(self, st, pred, d):
        p = pred if len(pred) == 2 else pred[1:]
        if p == 'eq': return self.split_eq(st, d, True)
        if p == 'ne': return self.split_eq(st, d, False)
        if p == 'lt': return self.split_ge(st, -d - 1, True)
        if p == 'le': return self.split_ge(st, -d, True)
        if p == 'gt': return self.split_ge(st, d - 1, True)
        if p == 'ge': return self.split_ge(st, d, True)
        raise Unsupported(pred)

    # ------------------------------------------------------------ memory
    def region(self, st, p): return st.regs.get(p.r)
    def glob_ptr(self, st, g, off=0):
        al = self.m.globals.get(g, {}).get('alias')
        if al: g = al
        if g in self.m.funcs: return F(g)
        rid = st.globs.get(g)
        if rid is None:
            rid = self.gcache.get(g)
            j = self.m.globals.get(g)
            if rid is None:
                rid = self.gcache[g] = new_rid()
            st.globs[g] = rid
            if rid not in st.regs:
                st.regs[rid] = self.make_global(g, j)
        return P(rid, K(off))
    def make_global(self, g, j):
        size = j['size'] if j else 0
        fl = {'global': g}
        if j and j.get('const'): fl['const'] = True
        r = Region('global', j.get('dem', g) if j else g, K(size), flags=fl)
        if not j or not j.get('def'):
            r.flags['opaque'] = True
            r.size = K(1 << 40) if not size else K(size)
            return r
        init = j.get('init', [])
        if len(init) == 1 and init[0][2].get('k') == 'seq' and init[0][0] == 0:
            es = init[0][1]
            vals = [int(x) for x in init[0][2]['e']]
            key = ('gsrc', g)
            sid = self.gcache.get(key)
            if sid is None:
                sid = self.gcache[key] = new_src('global ' + r.name, w=8 * es, kind='const', vals=vals)
            r.es = es
            r.arr = ((K(len(vals)), ('src', sid, ZERO)),)
            return r
        if size == 1 and j.get('const') and len(init) == 1 and init[0][2].get('k') == 'zero':
            r.es = 1; r.arr = ((ONE, ('val', ci(0, 8))),)
            return r
        if len(init) == 1 and init[0][2].get('k') == 'zero' and init[0][1] > 16:
            r.flags['zero'] = True
            return r
        for off, sz, v in init:
            if v.get('k') == 'zero':
                r.flags['zero'] = True
                continue
            if v.get('k') == 'seq':
                for i, x in enumerate(v['e']): r.cells[off + i * sz] = (sz, I(K(int(x)), sz * 8))
                continue
            r.cells[off] = (sz, ('init', v))
        return r

    def access(self, st, p, size, write, what=''):
        """bounds/liveness obligations for [p, p+size); size Lin bytes.
        Returns list of (st, P) with normalised offset."""
        kind = 'bounds-w' if write else 'bounds-r'
        act = 'write' if write else 'read'
        if isinstance(p, I):
            for s2, e in self.raw(st, p):
                if s2.store.entails_eq(size): return [(s2, p)]
                self.fail(s2, 'null', '%s through a null or invalid pointer%s' % (act, what), [size - 1])
            # continue only with empty access
            out = []
            for s2 in self.split_eq(st, size, True): out.append((s2, p))
            return out
        if isinstance(p, F):
            raise Unsupported('memory access through function pointer')
        if not isinstance(p, P):
            st.inexact = st.inexact or 'access through unknown pointer at ' + self.site()
            self.res.add('bounds', self.site(), 'undecided', 'access through unknown pointer', None, self.entry)
            return []
        r = st.regs.get(p.r)
        if r is None:
            raise Unsupported('unknown region')
        if not r.live:
            if st.store.entails_eq(size): return [(st, p)]
            self.fail(st, 'uaf', '%s of %s after %s%s' % (act, r.name, 'its reference was given up: another thread may have released it' if r.flags.get('gaveup') else 'it was released', what), [size - 1])
            return [(s2, p) for s2 in self.split_eq(st, size, True)]
        o = st.canon(p.o)
        sto = st.store
        need_lo = o; need_hi = r.size - o - size
        if sto.entails_ge(need_lo) and sto.entails_ge(need_hi):
            self.res.add(kind, self.site(), 'proved')
            return [(st, P(p.r, o))]
        if st.store.entails_eq(size): return [(st, P(p.r, o))]
        out = []
        # a zero-sized access touches nothing
        c = st.const(size)
        states = [st]
        if c is None:
            z = self.split_eq(st, size, True)
            out.extend((s, P(p.r, o)) for s in z)
            states = self.split_ge(st, size - 1, True)
        for s0 in states:
            for s1, x in self.norm(s0, o, 64, True):
                alive = True
                if not s1.store.entails_ge(x):
                    self.fail(s1, kind, '%s before the start of %s%s: offset %s' % (act, r.name, what, s1.canon(x)), [-x - 1])
                    alive = s1.store.add_ge(x) and s1.store.sat_after(x.syms())
                if not alive: continue
                h = r.size - x - size
                if not s1.store.entails_ge(h):
                    self.fail(s1, kind, '%s past the end of %s%s: offset %s, length %s, size %s' % (act, r.name, what, s1.canon(x), s1.canon(size), s1.canon(r.size)), [-h - 1])
                    alive = s1.store.add_ge(h) and s1.store.sat_after(h.syms())
                else: self.res.add(kind, self.site(), 'proved')
                if alive: out.append((s1, P(p.r, x)))
        return out

    def resolve_cell(self, st, rid, off, size, t, w):
        r = st.regs[rid]
        c = r.cells.get(off)
        if c is not None:
            sz, v = c
            if isinstance(v, tuple) and v[0] == 'init':
                v = self.const_val(st, v[1])
                r = st.w(rid); r.cells[off] = (sz, v)
            if sz == size: return v
            if sz > size and isinstance(v, I) and v.src is None:
                return I(v.e, size * 8)
            if sz < size and size == 8:
                w2 = self.joined(st, r, off, size)
                if w2 is not None: return w2
            return Top(size * 8)
        w2 = self.joined(st, r, off, size) if size == 8 and t != 'double' else None
        if w2 is not None: return w2
        # overlapping?
        for o2, (sz, v) in r.cells.items():
            if o2 < off + size and off < o2 + sz:
                if isinstance(v, tuple): v = self.const_val(st, v[1])
                if isinstance(v, I) and v.src is None and o2 <= off and off + size <= o2 + sz:
                    cv = st.const(v.e)
                    if cv is not None:
                        return ci((cv >> (8 * (off - o2))) & ((1 << (8 * size)) - 1), 8 * size)
                return Top(size * 8)
        if r.flags.get('zero'):
            return ci(0, size * 8) if t != 'double' else D(ZERO)
        if r.flags.get('lazy'):
            v = self.lazy_value(st, rid, off, size, t)
            r = st.w(rid); r.cells[off] = (size, v)
            return v
        if r.flags.get('opaque') or r.kind == 'global':
            x = fresh('_g', approx=True); st.store.add_ge(x); st.store.add_ge((1 << (8 * size)) - 1 - x)
            v = I(x, size * 8) if t != 'ptr' else Top(64, 'globptr')
            r = st.w(rid); r.cells[off] = (size, v)
            return v
        v = Top(size * 8, ('uninit', rid, off))
        return v
    def joined(self, st, r, off, size):
        """two neighbouring 4-byte integers read as one (counters compared together)"""
        a = r.cells.get(off); b = r.cells.get(off + 4)
        if not (a and b and a[0] == b[0] == 4): return None
        e = ZERO
        for i, (_, v) in enumerate((a, b)):
            if not (isinstance(v, I) and v.src is None): return None
            x = st.canon(v.e); c = st.const(x)
            if c is not None: x = K(c % 2 ** 32)
            elif not (st.store.entails_ge(x) and st.store.entails_ge(K(2 ** 32 - 1) - x)): return None
            e = e + x * (2 ** (32 * i))
        return I(st.canon(e), 64)
    def lazy_value(self, st, rid, off, size, t):
        r = st.regs[rid]
        if t == 'ptr':
            nr = Region('lazy', '%s.%d' % (r.name, off), K(1 << 40), flags={'lazy': True, 'from': (rid, off)})
            return P(st.add(nr), ZERO)
        x = fresh('%s@%d' % (r.name, off))
        st.ghost[('lazyfield', x.t[0][0])] = (rid, off)
        st.store.add_ge(x); st.store.add_ge((1 << (8 * size)) - 1 - x)
        return I(x, size * 8)

    def load(self, st, p, size, t, w):
        """[(st, value)]"""
        out = []
        for s, q in self.access(st, p, K(size), False):
            if not isinstance(q, P): continue
            r = s.regs[q.r]
            h = r.flags.get('onload')
            if h:
                out.extend(h(self, s, q, size, t)); continue
            if r.arr is not None:
                out.extend(self.arr_load(s, q, size, t, w)); continue
            off = s.const(q.o)
            if off is None:
                s2 = self.pin(s, q.o)
                off = s2
            if off is None:
                out.append((s, Top(size * 8, 'symoff')));
                continue
            out.append((s, self.resolve_cell(s, q.r, off, size, t, w)))
        return out
    def pin(self, st, e):
        """constant value of e if entailed"""
        m = st.store.model()
        if m is None: return None
        e = st.canon(e)
        v = e.c + sum(k * m.get(s, 0) for s, k in e.t)
        if st.store.entails_eq(e - v): return v
        return None
    def store_(self, st, p, size, v, t):
        out = []
        for s, q in self.access(st, p, K(size), True):
            if not isinstance(q, P): continue
            r = s.regs[q.r]
            if r.flags.get('const'):
                self.fail(s, 'const-write', 'write to constant storage %s' % r.name)
            if r.arr is not None:
                out.extend(self.arr_store(s, q, size, v, t)); continue
            off = s.const(q.o)
            if off is None: off = self.pin(s, q.o)
            if off is None:
                r = s.w(q.r); r.cells = {}; r.flags.pop('zero', None)
                s.inexact = s.inexact or 'symbolic store offset at ' + self.site()
                out.append(s); continue
            r = s.w(q.r)
            for o2 in [o2 for o2, (sz, _) in r.cells.items() if o2 < off + size and off < o2 + sz and o2 != off]:
                del r.cells[o2]
            r.cells[off] = (size, v)
            out.append(s)
        return out

    # ---- arrays
    def idx_of(self, st, r, off):
        i = div_exact(st.canon(off), r.es)
        return i
    def arr_split(self, st, rid, idx):
        """make idx a segment boundary: [(st, k)] with segment k starting at idx"""
        work = [(st, 0)]
        out = []
        while work:
            s, i = work.pop()
            segs = s.regs[rid].arr
            sto = s.store
            lo = ZERO if i == 0 else segs[i - 1][0]
            placed = False
            while True:
                if i >= len(segs):
                    out.append((s, i)); placed = True; break
                hi, d = segs[i]
                if sto.canon(idx) == sto.canon(lo) or sto.entails_eq(idx - lo):
                    out.append((s, i)); placed = True; break
                if sto.entails_ge(idx - hi):
                    i += 1; lo = hi; continue
                if sto.entails_ge(hi - idx):
                    r = s.w(rid)
                    r.arr = segs[:i] + ((idx, d),) + segs[i:]
                    out.append((s, i + 1)); placed = True; break
                for s2 in self.split_ge(s, hi - idx, True): work.append((s2, i))
                for s2 in self.split_ge(s, idx - hi - 1, True): work.append((s2, i))
                placed = True; break
        return out
    def arr_range(self, st, rid, lo, hi):
        """split at lo and hi: [(st, i, j)] segments i..j-1 cover [lo, hi)"""
        out = []
        for s, i in self.arr_split(st, rid, lo):
            for s2, j in self.arr_split(s, rid, hi):
                # i may be stale if split at hi inserted before it (cannot: hi >= lo)
                segs = s2.regs[rid].arr
                k = i
                # recompute i: index of the segment starting at lo
                for k in range(len(segs) + 1):
                    b = ZERO if k == 0 else segs[k - 1][0]
                    if s2.store.entails_eq(b - lo): break
                else: k = i
                if k > j: k = j
                out.append((s2, k, j))
        return out
    def arr_extract(self, st, rid, lo, hi):
        """[(st, ((hi_abs, desc),...))]"""
        out = []
        for s, i, j in self.arr_range(st, rid, lo, hi):
            out.append((s, s.regs[rid].arr[i:j]))
        return out
    def arr_put(self, st, rid, lo, hi, newsegs):
        """replace [lo,hi) by newsegs ((hi_abs, desc)...) covering it"""
        out = []
        for s, i, j in self.arr_range(st, rid, lo, hi):
            r = s.w(rid)
            r.arr = r.arr[:i] + tuple(newsegs) + r.arr[j:]
            self.coalesce(s, rid)
            out.append(s)
        return out
    def coalesce(self, st, rid):
        r = st.regs[rid]
        segs = []
        lo = ZERO
        for hi, d in r.arr:
            hi = st.canon(hi)
            if hi == lo or st.store.entails_eq(hi - lo):
                continue
            if segs and self.same_desc(st, segs[-1][1], d):
                segs[-1] = (hi, segs[-1][1])
            else: segs.append((hi, d))
            lo = hi
        if not segs: segs = [(r.arr[-1][0], r.arr[-1][1])] if r.arr else []
        r = st.w(rid); r.arr = tuple(segs)
    def same_desc(self, st, a, b):
        if a[0] != b[0]: return False
        if a[0] == 'src': return a[1] == b[1] and st.store.entails_eq(a[2] - b[2])
        if a[0] == 'val':
            if a[1] == b[1]: return True
            if isinstance(a[1], I) and isinstance(b[1], I) and a[1].src is None and b[1].src is None and a[1].w == b[1].w:
                return st.store.entails_eq(a[1].e - b[1].e)
            return False
        return a == b
    def shift_desc(self, d, delta):
        """descriptor for content moved so that old index = new index + delta"""
        if d[0] == 'src': return ('src', d[1], d[2] + delta)
        return d
    def elem_val(self, st, sid, idx, w):
        s = SRC[sid]
        idx = st.canon(idx)
        if s.get('kind') == 'const':
            if not idx.t:
                vals = s['vals']
                if 0 <= idx.c < len(vals): return ci(vals[idx.c], w)
                return Top(w)
        if s.get('kind') == 'cstr':
            if st.store.entails_eq(idx - s['len']): return ci(0, w)
        if self.opts.get('bits') and not idx.t and s.get('kind') == 'free':
            return B([('a', s['name'], idx.c, i) for i in range(w)])
        for ix, e in st.elems.get(sid, ()):
            if st.canon(ix) == idx or st.store.entails_eq(ix - idx): return I(e, w)
        x = fresh('%s[%s]' % (s['name'], idx))
        st.store.add_ge(x); st.store.add_ge((1 << w) - 1 - x)
        st.ghost[('elem', x.t[0][0])] = (sid, idx)
        if s.get('kind') == 'cstr':
            if st.store.entails_ge(s['len'] - idx - 1): st.store.add_ge(x - 1)
        if s.get('nonul'): st.store.add_ge(x - 1)
        for v in s.get('ne', ()): st.store.add_ne(x - v)
        if s.get('kind') == 'const':
            vals = s['vals']; st.store.add_ge(x - min(vals)); st.store.add_ge(max(vals) - x)
            set_approx(x.t[0][0])
        st.elems[sid] = st.elems.get(sid, ()) + ((idx, x),)
        return I(x, w)
    def arr_load(self, st, q, size, t, w):
        r = st.regs[q.r]
        if size != r.es:
            if isinstance(r.es, int) and size < r.es or size > r.es:
                return [(st, Top(size * 8, 'subelem'))]
        idx = self.idx_of(st, r, q.o)
        if idx is None: return [(st, Top(size * 8, 'misaligned'))]
        out = []
        ix = st.canon(idx)
        if self.opts.get('bits') and len(ix.t) == 1 and ix.t[0][1] == 1 and ('bitsof', ix.t[0][0]) in st.ghost:
            v = self.bits_lookup(st, q.r, st.ghost[('bitsof', ix.t[0][0])], ix.c, size * 8)
            if v is not None: return [(st, v)]
        for s, d, i in self.arr_find(st, q.r, idx):
            if d[0] == 'src' and SRC[d[1]].get('kind') == 'cstr':
                # terminator or not
                e = SRC[d[1]]['len'] - idx - d[2]
                for s2 in self.split_eq(s.copy(), e, True): out.append((s2, ci(0, size * 8)))
                for s2 in self.split_eq(s, e, False): out.append((s2, self.desc_val(s2, q.r, d, idx, size * 8)))
                continue
            out.append((s, self.desc_val(s, q.r, d, idx, size * 8)))
        return out
    def bits_lookup(self, st, rid, ib, off, w):
        segs = st.regs[rid].arr
        def tab(i):
            i += off
            for hi, d in segs:
                h = st.canon(hi)
                if h.t: return None
                if i < h.c: return self.as_bits(st, self.desc_val(st, rid, d, K(i), w), w)
            return None
        r = BT.lookup(tab, ib.b, w)
        return B(r) if r is not None else None
    def arr_find(self, st, rid, idx):
        """[(st, desc, k)] of the element at idx (in bounds already)"""
        out = []; work = [(st, 0)]
        while work:
            s, i = work.pop()
            segs = s.regs[rid].arr
            while i < len(segs):
                hi, d = segs[i]
                if s.store.entails_ge(hi - idx - 1):
                    out.append((s, d, i)); break
                if s.store.entails_ge(idx - hi):
                    i += 1; continue
                for s2 in self.split_ge(s, hi - idx - 1, True): work.append((s2, i))
                for s2 in self.split_ge(s, idx - hi, True): work.append((s2, i + 1))
                break
        return out
    def desc_val(self, st, rid, d, idx, w):
        if d[0] == 'src': return self.elem_val(st, d[1], idx + d[2], w)
        if d[0] == 'val': return d[1]
        return Top(w, ('raw', rid, st.canon(idx)))
    def val_desc(self, st, v, idx):
        """descriptor of a single element holding v at index idx"""
        if isinstance(v, I) and v.src is None:
            e = st.canon(v.e)
            if len(e.t) == 1 and e.c == 0 and e.t[0][1] == 1:
                g = st.ghost.get(('elem', e.t[0][0]))
                if g: return ('src', g[0], g[1] - idx)
            return ('val', I(e, v.w))
        return ('val', v)
    def arr_store(self, st, q, size, v, t):
        r = st.regs[q.r]
        if size != r.es:
            # widening store into a byte buffer, e.g. zero-initialisation: unknown content
            if r.es == 1:
                lo = st.canon(q.o)
                cv = st.const(v.e) if isinstance(v, I) and v.src is None else None
                d = ('val', ci(0, 8)) if cv == 0 else ('top',)
                return self.arr_write(st, q.r, lo, lo + size, ((lo + size, d),))
            r = st.w(q.r); r.arr = ((div_exact(r.size, r.es) or r.size, ('top',)),)
            return [st]
        idx = self.idx_of(st, r, q.o)
        if idx is None:
            r = st.w(q.r); r.arr = ((div_exact(r.size, r.es) or r.size, ('top',)),)
            return [st]
        return self.arr_write(st, q.r, idx, idx + 1, ((idx + 1, self.val_desc(st, v, idx)),))
    def arr_write(self, st, rid, lo, hi, segs):
        """element stores [lo,hi) <- segs, with the sharing obligation"""
        self.check_shared_write(st, rid, lo, hi, segs)
        mk = st.regs[rid].flags.get('mark')
        if mk is not None:      # only whether something was stored is of interest
            segs = tuple((h, d if d[0] == 'src' and d[1] == mk else ('val', ci(0, 8))) for h, d in segs)
        return self.arr_put(st, rid, lo, hi, segs)
    def check_shared_write(self, st, rid, lo, hi, segs):
        ph = st.regs[rid].flags.get('phantom')
        if ph is None: return
        n = hi - lo
        if st.store.entails_ge(-n): return
        if st.store.entails_ge(-ph):
            if self.conc: self.models.relaxed_use(self, st, rid, 'written')
            self.res.add('cow', self.site(), 'proved'); return
        # storing back identical content is not a change
        if len(segs) == 1:
            fd = self.arr_extract(st.copy(), rid, lo, hi)
            if len(fd) == 1 and len(fd[0][1]) == 1 and self.same_desc(fd[0][0], segs[0][1], fd[0][1][0][1]): return
            if segs[0][1][0] == 'val' and st.store.entails_eq(n - 1):
                fd = self.arr_find(st.copy(), rid, lo)
                if len(fd) == 1 and isinstance(segs[0][1][1], I):
                    v1 = segs[0][1][1]
                    v0 = self.desc_val(fd[0][0], rid, fd[0][1], lo, v1.w)
                    if isinstance(v0, I) and v0.src is None and v1.src is None and fd[0][0].store.entails_eq(v0.e - v1.e): return
        self.fail(st, 'cow', 'element store into storage that other objects share (%s, elements [%s, %s))' % (st.regs[rid].name, st.canon(lo), st.canon(hi)), [n - 1, ph - 1])

    def free_region(self, st, rid, how):
        r = st.regs[rid]
        if not r.live:
            self.fail(st, 'double-free', '%s released %s (%s)' % (r.name, 'after its reference was given up: another thread may have released it' if r.flags.get('gaveup') else 'twice', how)); return False
        if r.kind not in ('heap', 'lazy'):
            self.fail(st, 'bad-free', 'release of %s which was not allocated (%s)' % (r.name, how)); return False
        ph = r.flags.get('phantom')
        if self.conc: self.models.relaxed_use(self, st, rid, 'released')
        if ph is not None and not st.store.entails_ge(-ph):
            self.fail(st, 'free-shared', '%s released while other objects still use it' % r.name, [ph - 1])
        want = r.flags.get('alloc')
        if want and how and want != how:
            self.fail(st, 'bad-free', '%s allocated with %s, released with %s' % (r.name, want, how))
        r = st.w(rid); r.live = False
        st.event('free', rid)
        return True

    # ------------------------------------------------------------ operands
    def const_val(self, st, j):
        k = j['k']
        if k == 'int':
            w = j['w']
            if w == 1: return TRUE if j['v'] != '0' else FALSE
            return I(K(int(j['v'])), w)
        if k == 'null': return NULL
        if k == 'glob': return self.glob_ptr(st, j['g'], j['off'])
        if k == 'undef':
            t = j.get('t', 'i64')
            return Top(int(t[1:]) if t[0] == 'i' and t[1:].isdigit() else 64, 'undef')
        if k == 'fp':
            f = Fraction(j['v']).limit_denominator(10**9)
            return D(K(f.numerator), f.denominator)
        if k == 'zero': return A([]) if j.get('t') == 'struct' else ci(0, 64)
        if k == 'agg': return A([self.const_val(st, x) for x in j['e']])
        if k == 'cast': return self.const_val(st, j['e'])
        return Top(64, 'const?')
    def ev(self, st, env, j):
        if j['k'] == 'v': return env[j['id']]
        return self.const_val(st, j)

    # ------------------------------------------------------------ functions
    def call_fn(self, st, name, args, ins=None, variadic=None):
        """outcomes [(st, kind, value)]; kind in ret/unw/exit"""
        al = self.m.globals.get(name, {}).get('alias')
        if al: name = al
        fn = self.m.funcs.get(name)
        if fn is None: raise Unsupported('unknown function ' + name)
        mod = self.model_cache.get(name, 0)
        if mod == 0:
            mod = self.model_cache[name] = self.models.lookup(fn)
        if mod is not None:
            r = mod(self, st, args, ins, fn)
            if r is not None: return r
        if fn.decl:
            return self.models.unknown(self, st, args, ins, fn)
        if len(self.stack) > self.maxdepth: raise Unsupported('call depth')
        if sum(1 for f, _ in self.stack if f is fn) > 3: raise Unsupported('recursion in ' + fn.dem)
        self.visited.add(name)
        return self.run_fn(st, fn, args)

    def run_fn(self, st, fn, args):
        env = {}
        for a, v in zip(fn.args, args):
            if a.get('byval') and isinstance(v, P):
                # callee-owned copy
                rid = st.alloc('alloca', 'byval', K(a['byval']))
                src = st.regs[v.r]
                base = st.const(v.o) or 0
                rr = st.w(rid)
                for o, c in src.cells.items():
                    if base <= o < base + a['byval']: rr.cells[o - base] = c
                v = P(rid, ZERO)
            env[a['id']] = v
        self.stack.append((fn, {})); self.vstack.append(args[len(fn.args):])
        try:
            outs, exits, backs = self.run(fn, 0, None, st, env, None)
        finally:
            self.stack.pop(); self.vstack.pop()
        res = []
        for s, kind, v, allocas in outs:
            for rid in allocas:
                r = s.regs.get(rid)
                if r is not None and r.live:
                    r = s.w(rid); r.live = False; r.kind = 'dead-alloca'
            if kind == 'unw' and fn.nounwind:
                self.stack.append((fn, {'fi': fn.file, 'ln': fn.line}))
                self.fail(s, 'terminate-oom' if v and v.get('type') in OOM else 'terminate', 'exception %s escapes noexcept function %s' % (v and v.get('type'), short(fn.dem)))
                self.stack.pop()
                res.append((s, 'exit', 'terminate')); continue
            res.append((s, kind, v))
        return res

    def run(self, fn, start, pred, st, env, loop, skip_phi=False):
        """explore from block start within loop (None: whole function).
        Returns (outs, exits, backs)."""
        outs = []; exits = []; backs = []
        loops = fn.loops()
        work = [(start, 0, pred, st, env, True)]
        first = True
        while work:
            b, idx, pr, st, env, entry = work.pop()
            if entry and not (first and skip_phi):
                if loop is not None and not first:
                    if b == loop.header:
                        env = self.phis(fn, b, pr, st, dict(env)); backs.append((st, env)); continue
                    if b not in loop.blocks:
                        exits.append((b, pr, st, env)); continue
                env = self.phis(fn, b, pr, st, dict(env))
            if entry and b in loops and not (loop is not None and b == loop.header and first):
                first = False
                o2, e2 = self.do_loop(fn, loops[b], st, env)
                outs.extend(o2)
                for (b2, p2, s2, en2) in e2: work.append((b2, 0, p2, s2, en2, True))
                continue
            first = False
            self.exec_block(fn, b, idx, st, env, work, outs)
        return outs, exits, backs

    def do_loop(self, fn, loop, st, env):
        import loops
        return loops.analyse(self, fn, loop, st, env)

    def phis(self, fn, b, pr, st, env):
        blk = fn.blocks[b]
        if not blk or blk[0]['op'] != 'phi': return env
        new = []
        for ins in blk:
            if ins['op'] != 'phi': break
            for p, v in ins['in']:
                if p == pr:
                    new.append((ins['id'], self.ev(st, env, v))); break
        for i, v in new: env[i] = v
        return env

    def exec_block(self, fn, b, idx, st, env, work, outs):
        blk = fn.blocks[b]
        n = len(blk)
        top = self.stack
        while idx < n:
            ins = blk[idx]
            op = ins['op']
            if op == 'phi': idx += 1; continue
            self.steps += 1
            if self.steps > self.budget or (self.deadline and not self.steps & 63 and time.time() > self.deadline): raise Budget()
            top[-1] = (fn, ins)
            if op == 'br':
                if 'F' not in ins: work.append((ins['T'], 0, b, st, env, True)); return
                c = self.ev(st, env, ins['c'])
                cond = self.to_cond(st, c)
                ts = self.assume(st.copy(), cond, True)
                fs = self.assume(st, cond, False)
                for s in fs: work.append((ins['F'], 0, b, s, dict(env), True))
                for s in ts: work.append((ins['T'], 0, b, s, dict(env), True))
                return
            if op == 'switch':
                v = self.ev(st, env, ins['c']); w = ins['cw']
                rest = [st]
                for cv, tb in ins['cases']:
                    nrest = []
                    for s in rest:
                        for s2 in self.assume_cmp(s.copy(), 'eq', v, ci(int(cv), w), w, True):
                            work.append((tb, 0, b, s2, dict(env), True))
                        nrest.extend(self.assume_cmp(s, 'ne', v, ci(int(cv), w), w, True))
                    rest = nrest
                for s in rest: work.append((ins['def'], 0, b, s, dict(env), True))
                return
            if op == 'ret':
                v = self.ev(st, env, ins['v']) if 'v' in ins else None
                outs.append((st, 'ret', v, env.get('allocas', ()))); return
            if op == 'unreachable':
                return
            if op == 'resume':
                exc = st.ghost.get('exc')
                outs.append((st, 'unw', exc, env.get('allocas', ()))); return
            if op in ('call', 'invoke'):
                rs = self.do_call(st, env, ins)
                cont = []
                for s, kind, v in rs:
                    if kind == 'ret':
                        e2 = env if len(rs) == 1 else dict(env)
                        if 'id' in ins: e2[ins['id']] = v if v is not None else Top(ins.get('w', 64))
                        if op == 'invoke': work.append((ins['norm'], 0, b, s, dict(e2), True))
                        else: cont.append((s, e2))
                    elif kind == 'unw':
                        if op == 'invoke':
                            s.ghost['exc'] = v
                            work.append((ins['unw'], 0, b, s, dict(env), True))
                        else:
                            outs.append((s, 'unw', v, env.get('allocas', ())))
                    else:
                        outs.append((s, kind, v, env.get('allocas', ())))
                if op == 'invoke': return
                if not cont: return
                st, env = cont[0]
                for s, e in cont[1:]: work.append((b, idx + 1, None, s, e, False))
                idx += 1
                continue
            r = self.exec_ins(st, env, ins, op)
            if r is not None:
                # list of (st, value)
                if not r: return
                if 'id' in ins:
                    for s, v in r[1:]:
                        e2 = dict(env); e2[ins['id']] = v
                        work.append((b, idx + 1, None, s, e2, False))
                    st, v = r[0]
                    if len(r) > 1: env = dict(env)
                    env[ins['id']] = v
                else:
                    for s, v in r[1:]: work.append((b, idx + 1, None, s, dict(env), False))
                    st = r[0][0]
            idx += 1

    def to_cond(self, st, v):
        if isinstance(v, C): return v.c
        if isinstance(v, I): return ('cmp', 'ne', v, ci(0, v.w), v.w)
        if isinstance(v, Top):
            k = ('topc', v.tag, id(v))
            x = fresh('_topb', approx=True); st.store.add_ge(x); st.store.add_ge(1 - x)
            return ('ge', x - 1)
        if isinstance(v, B): return ('cmp', 'ne', v, ci(0, len(v.b)), len(v.b))
        raise Unsupported('branch on %r' % (v,))

    def do_call(self, st, env, ins):
        args = [self.ev(st, env, a) for a in ins['args']]
        if ins.get('asm'): return [(st, 'ret', Top(64, 'asm'))]
        if 'fn' in ins:
            return self.call_fn(st, ins['fn'], args, ins)
        fp = self.ev(st, env, ins['fp'])
        if isinstance(fp, F): return self.call_fn(st, fp.n, args, ins)
        h = self.opts.get('indirect')
        if h:
            r = h(self, st, fp, args, ins)
            if r is not None: return r
        raise Unsupported('indirect call through %r at %s' % (fp, self.site()))

    # ------------------------------------------------------------ instructions
    def exec_ins(self, st, env, ins, op):
        ev = self.ev
        if op == 'load':
            return self.models.load(self, st, ev(st, env, ins['p']), ins)
        if op == 'store':
            v = ev(st, env, ins['v'])
            p = ev(st, env, ins['p'])
            if ins.get('ord', 'na') != 'na':
                return self.models.atomic_store(self, st, p, v, ins)
            if self.conc: self.models.plain(self, st, p, 'written')
            return [(s, None) for s in self.store_(st, p, ins['size'], v, ins['vt'])]
        if op == 'getelementptr':
            base = ev(st, env, ins['base'])
            pend = [(st, K(ins['coff']))]
            for v, sc, w in ins['vars']:
                x = ev(st, env, v)
                nxt = []
                for s, acc in pend:
                    if w == 64:
                        for s2, e in self.raw(s, x): nxt.append((s2, acc + e * sc))
                    else:
                        for s2, e in self.ints(s, x, w, True): nxt.append((s2, acc + e * sc))
                pend = nxt
            out = []
            for s, acc in pend:
                if isinstance(base, P): out.append((s, P(base.r, s.canon(base.o + acc))))
                elif isinstance(base, I):
                    for s2, e in self.raw(s, base): out.append((s2, I(e + acc, 64)))
                elif isinstance(base, F): out.append((s, base))
                else: out.append((s, base))
            return out
        if op == 'icmp':
            a = ev(st, env, ins['a']); b = ev(st, env, ins['b'])
            ct = ins['ct']
            w = 64 if ct == 'ptr' else int(ct[1:])
            if isinstance(a, Top) or isinstance(b, Top):
                if isinstance(a, Top) and isinstance(b, Top) and a is b and ins['pred'] in ('eq',): env[ins['id']] = TRUE; return None
                # freeze unknowns so both branches see one value
                a = self.freeze(st, a, w); b = self.freeze(st, b, w)
            env[ins['id']] = C(('cmp', ins['pred'], a, b, w))
            return None
        if op == 'alloca':
            n = ev(st, env, ins['n'])
            cnt = st.const(n.e) if isinstance(n, I) else None
            size = ins['size'] * (cnt or 1)
            at = ins['at']
            es = None
            rid = new_rid()
            r = Region('alloca', ins.get('name') or 'tmp', K(size))
            if ins.get('sn'): r.flags['sn'] = ins['sn']
            if at == 'array' and self.opts.get('array_alloca', True):
                r.es = self.opts.get('alloca_es', {}).get(ins.get('name'), 1)
                r.arr = ((K(size // r.es), ('raw',)),)
            esn = self.models.elem_struct.get(ins.get('sn'))
            if esn:
                r.es = esn; r.arr = ((K(size // esn), ('raw',)),)
            st.regs[rid] = r
            env[ins['id']] = P(rid, ZERO)
            env['allocas'] = env.get('allocas', ()) + (rid,)
            return None
        if op in ('add', 'sub', 'mul'):
            return self.arith(st, op, ev(st, env, ins['a'][0]), ev(st, env, ins['a'][1]), ins)
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            return self.bitop(st, op, ev(st, env, ins['a'][0]), ev(st, env, ins['a'][1]), ins)
        if op in ('zext', 'sext', 'trunc'):
            v = ev(st, env, ins['a'][0]); w = ins['w']; sw = ins['sw']
            return self.cast(st, op, v, sw, w)
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            env[ins['id']] = ev(st, env, ins['a'][0]); return None
        if op == 'ptrtoint':
            env[ins['id']] = ev(st, env, ins['a'][0]); return None
        if op == 'inttoptr':
            env[ins['id']] = ev(st, env, ins['a'][0]); return None
        if op == 'select':
            c = ev(st, env, ins['a'][0]); x = ev(st, env, ins['a'][1]); y = ev(st, env, ins['a'][2])
            if x == y:
                env[ins['id']] = x; return None
            cond = self.to_cond(st, c)
            out = [(s, x) for s in self.assume(st.copy(), cond, True)]
            out += [(s, y) for s in self.assume(st, cond, False)]
            return out
        if op == 'landingpad':
            return self.landingpad(st, env, ins)
        if op == 'extractvalue':
            a = ev(st, env, ins['a'])
            for i in ins['ix']:
                a = a.v[i] if isinstance(a, A) and i < len(a.v) else Top(ins.get('w', 64), 'extract')
            env[ins['id']] = a; return None
        if op == 'insertvalue':
            a = ev(st, env, ins['a']); b = ev(st, env, ins['b'])
            l = list(a.v) if isinstance(a, A) else []
            i = ins['ix'][0]
            while len(l) <= i: l.append(Top(64, 'undef'))
            l[i] = b
            env[ins['id']] = A(l); return None
        if op == 'atomicrmw':
            return self.models.atomicrmw(self, st, ev(st, env, ins['p']), ev(st, env, ins['v']), ins)
        if op == 'cmpxchg':
            return self.models.cmpxchg(self, st, ev(st, env, ins['p']), ev(st, env, ins['a']), ev(st, env, ins['b']), ins)
        if op == 'fence': self.models.fence(self, st, ins); return None
        if op in ('uitofp', 'sitofp'):
            v = ev(st, env, ins['a'][0])
            return [(s, D(e)) for s, e in self.ints(st, v, ins['sw'], op == 'sitofp')]
        if op in ('fmul', 'fadd', 'fsub', 'fdiv', 'fneg'):
            a = ev(st, env, ins['a'][0]); b = ev(st, env, ins['a'][1]) if len(ins['a']) > 1 else None
            env[ins['id']] = self.fop(st, op, a, b); return None
        if op in ('fptoui', 'fptosi'):
            v = ev(st, env, ins['a'][0]); w = ins['w']
            if isinstance(v, D) and v.n is not None and (v.tag != 'round' or st.store.entails_ge(K(2 ** 53) - v.n) and st.store.entails_ge(v.n + K(2 ** 53))):
                if v.d == 1: return [(st, I(v.n, w))]
                x = fresh('_fl')
                st.store.add_ge(v.n - x * v.d); st.store.add_ge(x * v.d + (v.d - 1) - v.n)
                return [(st, I(x, w))]
            x = fresh('_fp', approx=True); st.store.add_ge(x); st.store.add_ge(K((1 << w) - 1) - x)
            return [(st, I(x, w))]
        if op == 'fcmp':
            a = ev(st, env, ins['a']); b = ev(st, env, ins['b'])
            c = self.fcmp(st, ins.get('pred', ''), a, b)
            if c is not None: env[ins['id']] = C(c); return None
            x = fresh('_fc', approx=True); st.store.add_ge(x); st.store.add_ge(1 - x)
            env[ins['id']] = C(('ge', x - 1)); return None
        if op in ('fpext', 'fptrunc'):
            env[ins['id']] = ev(st, env, ins['a'][0]); return None
        if op == 'va_arg': env[ins['id']] = Top(64, 'va'); return None
        raise Unsupported('instruction ' + op)

    def fcmp(self, st, pred, a, b):
        """comparison of an integer converted to double (rounded to nearest) with a constant: an exact condition on the integer"""
        swap = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}
        op = pred[-2:]
        if op not in swap or not (isinstance(a, D) and isinstance(b, D)): return None
        if a.n is None or b.n is None: return None
        if st.const(a.n) is not None and st.const(b.n) is None: a, b = b, a; op = swap[op]
        if st.const(b.n) is None or a.d != 1: return None
        from fractions import Fraction
        c = Fraction(st.const(b.n), b.d)
        def first(strict):
            lo, hi = -(1 << 130), 1 << 130     # least integer n with double(n) >= c (> c)
            ok = (lambda n: Fraction(float(n)) > c) if strict else (lambda n: Fraction(float(n)) >= c)
            if ok(lo) or not ok(hi): return None
            while hi - lo > 1:
                m = (lo + hi) // 2
                if ok(m): hi = m
                else: lo = m
            return hi
        ge = first(False); gt = first(True)
        if ge is None or gt is None: return None
        GE = ('ge', a.n - ge); GT = ('ge', a.n - gt)
        if op == 'ge': return GE
        if op == 'gt': return GT
        if op == 'lt': return ('not', GE)
        if op == 'le': return ('not', GT)
        eq = ('and', GE, ('not', GT))
        return eq if op == 'eq' else ('not', eq)

    def freeze(self, st, v, w):
        if isinstance(v, Top):
            key = ('frz', v.tag) if v.tag is not None and v.tag not in ('undef', 'symoff') else None
            if key and key in st.ghost: return I(st.ghost[key], w)
            x = fresh('_u', approx=True); st.store.add_ge(x); st.store.add_ge((1 << w) - 1 - x)
            if key: st.ghost[key] = x
            return I(x, w)
        return v

    def fop(self, st, op, a, b):
        if op == 'fmul' and isinstance(a, D) and isinstance(b, D) and a.n is not None and b.n is not None:
            if st.const(b.n) is not None:
                return D(a.n * st.const(b.n), a.d * b.d)
            if st.const(a.n) is not None:
                return D(b.n * st.const(a.n), a.d * b.d)
        if op in ('fadd', 'fsub') and isinstance(a, D) and isinstance(b, D) and a.n is not None and b.n is not None:
            bn = b.n if op == 'fadd' else -b.n
            return D(a.n * b.d + bn * a.d, a.d * b.d)
        return D(None, 1, ('f', op, a, b))

    def arith(self, st, op, a, b, ins):
        w = ins['w']
        if isinstance(a, B) or isinstance(b, B):
            r = self.bits_arith(st, op, a, b, w)
            if r is not None: return [(st, r)]
        if isinstance(a, P) or isinstance(b, P):
            if op == 'sub' and isinstance(a, P) and isinstance(b, P) and a.r == b.r:
                return [(st, I(st.canon(a.o - b.o), w))]
            if op == 'sub' and isinstance(a, P) and isinstance(b, P):
                x = self.addr_of(st, a.r) + a.o - self.addr_of(st, b.r) - b.o
                return [(st, I(x, w))]
        out = []
        for s1, x1 in self.raw(st, a):
            for s2, y in self.raw(s1, b):
                x = s2.canon(x1); y = s2.canon(y)
                if op == 'add': e = x + y
                elif op == 'sub': e = x - y
                else:
                    if not y.t: e = x * y.c
                    elif not x.t: e = y * x.c
                    else: e = self.nonlinear(s2, 'mul', x, y, w)
                e = self.wrapc(s2, e, w)
                out.append((s2, I(e, w)))
        return out
    def wrapc(self, st, e, w):
        """keep constants small: congruent constant nearest zero"""
        M = 1 << w
        c = e.c
        if abs(c) >= M // 2 and e.t:
            # choose representative closest to zero
            c2 = c % M
            if c2 >= M // 2: c2 -= M
            return Lin(c2, e.t)
        return e
    def nonlinear(self, st, op, x, y, w):
        key = ('nl', op, x, y)
        r = st.ghost.get(key)
        if r is None:
            r = fresh('_%s' % op, approx=True)
            st.store.add_ge(r); st.store.add_ge((1 << w) - 1 - r)
            st.ghost[key] = r
        return r

    def bitop(self, st, op, a, b, ins):
        w = ins['w']
        if w == 1:
            ca = self.to_cond(st, a); cb = self.to_cond(st, b)
            if op == 'and': return [(st, C(('and', ca, cb)))]
            if op == 'or': return [(st, C(('or', ca, cb)))]
            if op == 'xor':
                if cb == ('k', True): return [(st, C(cnot(ca)))]
                if cb == ('k', False): return [(st, C(ca))]
                return [(st, C(('or', ('and', ca, cnot(cb)), ('and', cnot(ca), cb))))]
        bv = st.const(b.e) if isinstance(b, I) and b.src is None else None
        av = st.const(a.e) if isinstance(a, I) and a.src is None else None
        if av is not None and bv is not None:
            M = 1 << w; x = av % M; y = bv % M
            sx = x - M if x >= M // 2 else x; sy = y - M if y >= M // 2 else y
            try:
                r = {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y,
                     'lshr': lambda: x >> y, 'ashr': lambda: sx >> y, 'udiv': lambda: x // y, 'urem': lambda: x % y,
                     'sdiv': lambda: int(Fraction(sx, sy)), 'srem': lambda: sx - sy * int(Fraction(sx, sy))}[op]()
            except ZeroDivisionError:
                self.fail(st, 'div0', 'division by zero'); return []
            return [(st, I(K(r % M), w))]
        if isinstance(a, B) or isinstance(b, B) or self.opts.get('bits'):
            r = self.bits_op(st, op, a, b, w)
            if r is not None: return [(st, r)]
        if isinstance(a, C) and a.w == 1 and bv == 1 and op == 'and': return [(st, a)]
        if op == 'shl' and bv is not None:
            return [(s, I(self.wrapc(s, e * (1 << bv), w), w)) for s, e in self.raw(st, a)]
        if op in ('lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem') and bv is not None:
            signed = op in ('ashr', 'sdiv', 'srem')
            if signed and bv >= 1 << (w - 1): bv = bv - (1 << w)
            k = (1 << bv) if op in ('lshr', 'ashr') else bv
            if k == 0: self.fail(st, 'div0', 'division by zero'); return []
            if k < 0:
                return [(st, I(self.nonlinear(st, op, K(0), K(k), w), w))]
            out = []
            for s, e in self.ints(st, a, w, signed):
                e = s.canon(e)
                ex = div_exact(e, k)
                if ex is not None:
                    out.append((s, I(ex if op in ('lshr', 'ashr', 'udiv', 'sdiv') else ZERO, w))); continue
                cases = [(s, e, 1)]
                if op in ('sdiv', 'srem'):
                    cases = [(s2, e, 1) for s2 in self.split_ge(s.copy(), e, True)] + [(s2, e, -1) for s2 in self.split_ge(s, -e - 1, True)]
                for s2, e2, sg in cases:
                    key = ('div', s2.canon(e2), k, sg)
                    q = s2.ghost.get(key)
                    if q is None:
                        q = fresh('_div'); s2.ghost[key] = q
                        if sg > 0:      # floor
                            s2.store.add_ge(e2 - q * k); s2.store.add_ge(q * k + (k - 1) - e2)
                        else:           # truncation towards zero of a negative number: ceil
                            s2.store.add_ge(q * k - e2); s2.store.add_ge(e2 - q * k + (k - 1))
                    out.append((s2, I(q if op in ('lshr', 'ashr', 'udiv', 'sdiv') else e2 - q * k, w)))
            return out
        if op == 'and':
            if bv is None and av is not None: a, b, av, bv = b, a, bv, av
            if bv is not None:
                bv %= 1 << w
                if bv == 0: return [(st, ci(0, w))]
                if bv & (bv + 1) == 0:
                    k = bv + 1
                    out = []
                    for s, e in self.raw(st, a):
                        e = s.canon(e)
                        if s.store.entails_ge(e) and s.store.entails_ge(bv - e): out.append((s, I(e, w))); continue
                        key = ('div', e, k, 1)
                        q = s.ghost.get(key)
                        if q is None:
                            q = fresh('_div'); s.ghost[key] = q
                            s.store.add_ge(e - q * k); s.store.add_ge(q * k + (k - 1) - e)
                        out.append((s, I(e - q * k, w)))
                    return out
                k = (1 << w) - bv
                if k & (k - 1) == 0:            # all but the low bits: rounding down to a multiple of k
                    out = []
                    for s, e in self.ints(st, a, w, False):
                        e = s.canon(e)
                        key = ('div', e, k, 1)
                        q = s.ghost.get(key)
                        if q is None:
                            q = fresh('_div'); s.ghost[key] = q
                            s.store.add_ge(e - q * k); s.store.add_ge(q * k + (k - 1) - e)
                        out.append((s, I(q * k, w)))
                    return out
                x = self.nonlinear(st, 'and', self.raw(st, a)[0][1], K(bv), w)
                st.store.add_ge(K(bv) - x)
                return [(st, I(x, w))]
        rs = []
        for s1, x in self.ints(st, a, w, False):
            for s2, y in self.ints(s1, b, w, False):
                if op in ('urem', 'udiv', 'sdiv', 'srem'):
                    if not s2.store.entails_ne(y): self.fail(s2, 'div0', 'possible division by zero', [y, -y])
                r = self.nonlinear(s2, op, x, y, w)
                if op == 'and':
                    s2.store.add_ge(x - r); s2.store.add_ge(y - r)
                if op == 'or':
                    s2.store.add_ge(r - x); s2.store.add_ge(r - y); s2.store.add_ge(x + y - r)
                rs.append((s2, I(r, w)))
        return rs

    # ---- bit vectors (used where bit provenance matters)
    def as_bits(self, st, v, w):
        if isinstance(v, B):
            return v.b if len(v.b) == w else None
        if isinstance(v, I) and v.src is None:
            c = st.const(v.e)
            if c is not None: return tuple((c >> i) & 1 for i in range(w))
        return None
    def bits_op(self, st, op, a, b, w):
        x = self.as_bits(st, a, w); y = self.as_bits(st, b, w)
        if x is None: return None
        if op in ('shl', 'lshr', 'ashr'):
            n = st.const(b.e) if isinstance(b, I) and b.src is None else None
            if n is None: return None
            if op == 'shl': return B((0,) * n + x[:w - n])
            if op == 'lshr': return B(x[n:] + (0,) * n)
            return B(x[n:] + (x[-1],) * n)
        if y is None or op not in ('and', 'or', 'xor'): return None
        return B([BT.comb(op, p, q) for p, q in zip(x, y)])
    def bits_arith(self, st, op, a, b, w):
        x = self.as_bits(st, a, w); y = self.as_bits(st, b, w)
        if x is None or y is None: return None
        if op == 'add': return B(BT.add(x, y))
        if op == 'sub': return B(BT.sub(x, y))
        return None
    def bits_cmp(self, st, pred, a, b, w):
        x = self.as_bits(st, a, w); y = self.as_bits(st, b, w)
        if x is None or y is None: return None
        if pred[0] == 's':
            x = x[:-1] + (BT.inv(x[-1]),); y = y[:-1] + (BT.inv(y[-1]),); pred = 'u' + pred[1:]
        if pred == 'eq': r = BT.eq(x, y)
        elif pred == 'ne': r = BT.inv(BT.eq(x, y))
        elif pred == 'ult': r = BT.ult(x, y)
        elif pred == 'uge': r = BT.inv(BT.ult(x, y))
        elif pred == 'ugt': r = BT.ult(y, x)
        elif pred == 'ule': r = BT.inv(BT.ult(y, x))
        else: return None
        return self.assume_bit(st, r, True)
    def assume_bit(self, st, b, truth):
        if b in (0, 1): return [st] if (b == 1) == truth else []
        if not truth: b = BT.inv(b)
        if len(BT.atoms(b)) > 12: s = st.copy(); s.inexact = s.inexact or 'wide bit condition'; return [s]
        nb = BT.inv(b)
        if st.ghost.get(('bit', b)): return [st]
        if st.ghost.get(('bit', nb)): return []
        s = st.copy(); s.ghost[('bit', b)] = True
        return [s]
    def cast(self, st, op, v, sw, w):
        if isinstance(v, C):
            if op == 'trunc': return [(st, v if v.w == 1 else C(v.c))]
            if op == 'zext': return [(st, C(v.c, w) if w > 1 else v)]
            out = [(s, ci((1 << w) - 1, w)) for s in self.assume(st.copy(), v.c, True)]
            return out + [(s, ci(0, w)) for s in self.assume(st, v.c, False)]
        if isinstance(v, B):
            if op == 'trunc': return [(st, B(v.b[:w]))]
            if op == 'zext': return [(st, B(v.b + (0,) * (w - len(v.b))))]
            return [(st, B(v.b + (v.b[-1],) * (w - len(v.b))))]
        if isinstance(v, (P, F)): return [(st, v if w == 64 else Top(w, 'ptrbits'))]
        if isinstance(v, Top):
            if op == 'zext' and v.tag is not None: return [(st, self.freeze(st, v, sw) if False else I(self.freeze(st, v, sw).e, w, None))]
            return [(st, Top(w, v.tag if op == 'trunc' else None))]
        if op == 'trunc':
            if w == 1:
                if v.src is None:
                    c = st.const(v.e)
                    if c is not None: return [(st, TRUE if c & 1 else FALSE)]
                    if st.store.entails_ge(v.e) and st.store.entails_ge(1 - v.e):
                        return [(st, C(('ge', v.e - 1)))]
                out = []
                for s, e in self.raw(st, v):
                    q = fresh('_par'); x = e - q * 2
                    s.store.add_ge(x); s.store.add_ge(1 - x)
                    out.append((s, C(('ge', x - 1))))
                return out
            if v.src is not None:
                if v.src[2] <= w and v.src[2] == w: return [(st, I(v.src[1], w))]
                if v.src[2] < w: return [(st, I(None, w, v.src))]
                return [(st, I(v.src[1], w))]
            return [(st, I(v.e, w))]
        kind = 's' if op == 'sext' else 'u'
        if v.src is not None:
            if v.src[0] == kind or v.src[0] == 'u': return [(st, I(None, w, v.src))]
            out = []
            for s, e in self.raw(st, v):
                out.extend((s2, I(e2, w)) for s2, e2 in self.norm(s, e, sw, kind == 's'))
            return out
        lo, hi = (-(1 << (sw - 1)), (1 << (sw - 1)) - 1) if kind == 's' else (0, (1 << sw) - 1)
        e = st.canon(v.e)
        if not e.t:
            return [(s, I(x, w)) for s, x in self.norm(st, e, sw, kind == 's')]
        if st.store.entails_ge(e - lo) and st.store.entails_ge(hi - e): return [(st, I(e, w))]
        return [(st, I(None, w, (kind, e, sw)))]

    # ------------------------------------------------------------ exceptions
    def landingpad(self, st, env, ins):
        exc = st.ghost.get('exc') or {}
        t = exc.get('type')
        pend = [st]
        out = []
        for kind, cl in ins['clauses']:
            if kind != 'catch': continue
            nxt = []
            for s in pend:
                if cl['k'] == 'null':
                    out.append((s, A([exc.get('ptr') or NULL, ci(1, 32)])))
                elif cl['k'] == 'glob':
                    m = self.exc_match(t, cl['g'])
                    if m is True: out.append((s, A([exc.get('ptr') or NULL, ci(self.typeid(cl['g']), 32)])))
                    elif m is False: nxt.append(s)
                    else:
                        out.append((s.copy(), A([exc.get('ptr') or NULL, ci(self.typeid(cl['g']), 32)])))
                        nxt.append(s)
                else: nxt.append(s)
            pend = nxt
        for s in pend:
            out.append((s, A([exc.get('ptr') or NULL, ci(0, 32)])))
        return out
    def typeid(self, g):
        import zlib
        return 100 + (zlib.crc32(g.encode()) & 0xffffff)
    BASES = {'_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
             '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
             '_ZTISt9bad_alloc': ['_ZTISt9exception'],
             '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc', '_ZTISt9exception']}
    def exc_match(self, t, g):
        if t is None or t == 'any': return None
        if t == g: return True
        return g in self.BASES.get(t, [])

def short(d):
    d = re.sub(r'bd::ReferenceCountedArray<(\w+), std::allocator<\w+>>', r'ReferenceCountedArray<\1>', d)
    return d if len(d) < 140 else d[:137] + '...'
