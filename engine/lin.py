"""Linear-arithmetic abstract domain over the integers.

A Store is a conjunction of affine equalities (kept in solved form) and linear
inequalities, plus a set of disequalities.  Entailment is decided by
Fourier-Motzkin elimination with integer tightening (sound: 'entailed' answers
are correct; an unproved entailment is only reported as a failure when an
explicit integer point refuting it is found).
"""
from math import gcd
import itertools

_sym_names = ['?']
_sym_approx = [False]

def new_sym(name, approx=False):
    _sym_names.append(name)
    _sym_approx.append(approx)
    return len(_sym_names) - 1

def sym_name(s): return _sym_names[s]
def sym_approx(s): return _sym_approx[s]
def set_approx(s, v=True): _sym_approx[s] = v


class Lin:
    __slots__ = ('c', 't', '_h')
    def __init__(self, c, t=()):
        self.c = c
        self.t = t          # sorted tuple of (sym, coef), coef != 0
        self._h = None
    def __hash__(self):
        h = self._h
        if h is None:
            h = self._h = hash((self.c, self.t))
        return h
    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t
    def __ne__(self, o): return not self == o
    def is_const(self): return not self.t
    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t) if o else self
        if not o.t: return Lin(self.c + o.c, self.t)
        if not self.t: return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v: d[s] = v
            else: del d[s]
        return Lin(self.c + o.c, tuple(sorted(d.items())))
    __radd__ = __add__
    def __neg__(self): return Lin(-self.c, tuple((s, -k) for s, k in self.t))
    def __sub__(self, o):
        if isinstance(o, int): return Lin(self.c - o, self.t)
        return self + (-o)
    def __rsub__(self, o): return (-self) + o
    def __mul__(self, k):
        if k == 0: return ZERO
        if k == 1: return self
        return Lin(self.c * k, tuple((s, v * k) for s, v in self.t))
    __rmul__ = __mul__
    def subst(self, m):
        for s, _ in self.t:
            if s in m: break
        else: return self
        r = Lin(self.c); out = {}
        acc_c = self.c
        for s, k in self.t:
            e = m.get(s)
            if e is None:
                v = out.get(s, 0) + k
                if v: out[s] = v
                else: out.pop(s, None)
            else:
                acc_c += e.c * k
                for s2, k2 in e.t:
                    v = out.get(s2, 0) + k2 * k
                    if v: out[s2] = v
                    else: out.pop(s2, None)
        return Lin(acc_c, tuple(sorted(out.items())))
    def syms(self): return [s for s, _ in self.t]
    def __repr__(self):
        ps = []
        for s, k in self.t:
            n = _sym_names[s]
            ps.append(('-' if k < 0 else '+') + ('' if abs(k) == 1 else '%d*' % abs(k)) + n)
        if self.c or not ps: ps.append(('%+d' % self.c) if abs(self.c) < 10**6 else _big(self.c))
        r = ''.join(ps)
        return r[1:] if r[0] == '+' else r

def _big(c):
    for w in (64, 63, 62, 48, 32, 31):
        for d in (0, -1, 1, -2, 2):
            if abs(c) == 2**w + d:
                return ('-' if c < 0 else '+') + '(2^%d%s)' % (w, '' if not d else '%+d' % d)
    return '%+d' % c

ZERO = Lin(0)
ONE = Lin(1)
def K(c): return Lin(c)
def S(s): return Lin(0, ((s, 1),))
def fresh(name, approx=False): return S(new_sym(name, approx))


FM_LIMIT = 600

def _norm(t, c):
    g = 0
    for _, k in t:
        g = gcd(g, k)
        if g == 1: return t, c
    if g > 1:
        t = tuple((s, k // g) for s, k in t)
        c = c // g            # floor: t + c/g >= 0 over integers
    return t, c

class Unknown(Exception): pass

stats = {'fm': 0, 'ent': 0, 'fast': 0}

def fm_infeasible(cons, want_trace=False):
    """cons: dict linear-part-tuple -> const.  True iff rationally (with integer
    tightening) infeasible.  With want_trace returns elimination trace when feasible."""
    stats['fm'] += 1
    trace = []
    cur = cons
    while True:
        # occurrence counts
        pos = {}; neg = {}
        for t in cur:
            for s, k in t:
                if k > 0: pos[s] = pos.get(s, 0) + 1
                else: neg[s] = neg.get(s, 0) + 1
        vs = set(pos) | set(neg)
        if not vs: break
        best = None; bs = None
        for s in vs:
            sc = pos.get(s, 0) * neg.get(s, 0) - pos.get(s, 0) - neg.get(s, 0)
            if bs is None or sc < bs or (sc == bs and s > best):
                bs = sc; best = s
        s = best
        lo = []; hi = []; rest = {}
        for t, c in cur.items():
            k = 0
            for s2, k2 in t:
                if s2 == s:
                    k = k2; break
            if k > 0: lo.append((t, c, k))
            elif k < 0: hi.append((t, c, -k))
            else: rest[t] = c
        if want_trace: trace.append((s, lo, hi))
        for t1, c1, k1 in lo:
            for t2, c2, k2 in hi:
                g = gcd(k1, k2); m1 = k2 // g; m2 = k1 // g
                d = {}
                for s2, kk in t1:
                    if s2 != s: d[s2] = kk * m1
                for s2, kk in t2:
                    if s2 != s:
                        v = d.get(s2, 0) + kk * m2
                        if v: d[s2] = v
                        else: d.pop(s2, None)
                c = c1 * m1 + c2 * m2
                if not d:
                    if c < 0: return (True, None) if want_trace else True
                    continue
                t = tuple(sorted(d.items()))
                t, c = _norm(t, c)
                o = rest.get(t)
                if o is None or c < o: rest[t] = c
        if len(rest) > FM_LIMIT: raise Unknown()
        cur = rest
    return (False, trace) if want_trace else False


class Store:
    __slots__ = ('sub', 'ineq', 'neq', 'bot', '_cache', '_bounds')
    def __init__(self):
        self.sub = {}
        self.ineq = {}
        self.neq = ()
        self.bot = False
        self._cache = {}
        self._bounds = None
    def copy(self):
        n = Store.__new__(Store)
        n.sub = dict(self.sub); n.ineq = dict(self.ineq); n.neq = self.neq
        n.bot = self.bot; n._cache = self._cache; n._bounds = self._bounds
        return n
    def _touch(self):
        self._cache = {}
        self._bounds = None
    def canon(self, e):
        return e.subst(self.sub) if self.sub and e.t else e

    # ---- adding constraints ------------------------------------------------
    def add_ge(self, e):
        """assume e >= 0.  Returns False if trivially contradictory."""
        if self.bot: return False
        e = self.canon(e)
        if not e.t:
            if e.c < 0: self.bot = True
            return not self.bot
        t, c = _norm(e.t, e.c)
        o = self.ineq.get(t)
        if o is not None and o <= c: return True
        nt = tuple((s, -k) for s, k in t)
        o2 = self.ineq.get(nt)
        if o2 is not None:
            if c + o2 < 0:
                self.bot = True; return False
            if c + o2 == 0:
                return self.add_eq(Lin(c, t))
        self._touch()
        self.ineq[t] = c
        return True
    def add_eq(self, e):
        if self.bot: return False
        e = self.canon(e)
        if not e.t:
            if e.c != 0: self.bot = True
            return not self.bot
        g = 0
        for _, k in e.t: g = gcd(g, k)
        if e.c % g:
            self.bot = True; return False
        if g > 1: e = Lin(e.c // g, tuple((s, k // g) for s, k in e.t))
        pick = None
        for s, k in reversed(e.t):
            if abs(k) == 1:
                pick = (s, k); break
        self._touch()
        if pick is None:
            # integer equality without unit coefficient: keep both inequalities
            ok = True
            for x in (e, -e):
                t, c = _norm(x.t, x.c)
                o = self.ineq.get(t)
                if o is None or c < o: self.ineq[t] = c
            return ok
        s, k = pick
        rest = Lin(e.c, tuple(x for x in e.t if x[0] != s))
        val = -rest if k == 1 else rest
        m = {s: val}
        self.sub = {a: b.subst(m) for a, b in self.sub.items()}
        self.sub[s] = val
        old = self.ineq
        self.ineq = {}
        redo = []
        for t, c in old.items():
            for s2, _ in t:
                if s2 == s:
                    redo.append(Lin(c, t).subst(m)); break
            else:
                self.ineq[t] = c
        nq = self.neq
        if nq:
            out = []
            for q in nq:
                q2 = q.subst(m)
                if not q2.t:
                    if q2.c == 0:
                        self.bot = True; return False
                    continue
                out.append(q2)
            self.neq = tuple(out)
        for r in redo:
            if not self.add_ge(r): return False
        return not self.bot
    def add_ne(self, e):
        if self.bot: return False
        e = self.canon(e)
        if not e.t:
            if e.c == 0: self.bot = True
            return not self.bot
        if e not in self.neq and -e not in self.neq:
            self._touch()
            self.neq = self.neq + (e,)
        # sharpen
        if self.entails_ge(e): return self.add_ge(e - 1)
        if self.entails_ge(-e): return self.add_ge(-e - 1)
        return True

    # ---- queries ------------------------------------------------------------
    def bounds(self):
        if self._bounds is None:
            b = {}
            for t, c in self.ineq.items():
                if len(t) == 1:
                    s, k = t[0]
                    lo, hi = b.get(s, (None, None))
                    if k > 0: lo = -c if lo is None else max(lo, -c)   # k==1 after norm
                    else: hi = c if hi is None else min(hi, c)
                    b[s] = (lo, hi)
            self._bounds = b
        return self._bounds
    def quick_lo(self, e):
        b = self.bounds(); r = e.c
        for s, k in e.t:
            lo, hi = b.get(s, (None, None))
            x = lo if k > 0 else hi
            if x is None: return None
            r += x * k
        return r
    def _component(self, seed, extra=()):
        """constraints connected to the symbols in seed"""
        seen = set(seed)
        todo = list(self.ineq.items())
        out = {}
        ch = True
        while ch and todo:
            ch = False; rest = []
            for t, c in todo:
                for s, _ in t:
                    if s in seen:
                        out[t] = c
                        for s2, _ in t: seen.add(s2)
                        ch = True
                        break
                else: rest.append((t, c))
            todo = rest
        return out, seen
    def _infeasible_with(self, e):
        """is store and e>=0 infeasible?"""
        e = self.canon(e)
        if not e.t: return e.c < 0
        cons, _ = self._component(e.syms())
        t, c = _norm(e.t, e.c)
        o = cons.get(t)
        cons[t] = c if o is None else min(o, c)
        try:
            return fm_infeasible(cons)
        except Unknown:
            return False
    def entails_ge(self, e):
        if self.bot: return True
        e = self.canon(e)
        if not e.t: return e.c >= 0
        stats['ent'] += 1
        t, c = _norm(e.t, e.c)
        o = self.ineq.get(t)
        if o is not None and o <= c: return True
        ql = self.quick_lo(e)
        if ql is not None and ql >= 0:
            stats['fast'] += 1
            return True
        key = e
        r = self._cache.get(key)
        if r is None:
            r = self._infeasible_with(-e - 1)
            self._cache[key] = r
        return r
    def entails_eq(self, e):
        e = self.canon(e)
        if not e.t: return e.c == 0
        return self.entails_ge(e) and self.entails_ge(-e)
    def entails_ne(self, e):
        if self.bot: return True
        e = self.canon(e)
        if not e.t: return e.c != 0
        if e in self.neq or -e in self.neq: return True
        return self.entails_ge(e - 1) or self.entails_ge(-e - 1)
    def sat(self):
        """cheap feasibility (rational + tightening) of the whole store"""
        if self.bot: return False
        r = self._cache.get('sat')
        if r is None:
            r = True
            done = set()
            for t in self.ineq:
                if t[0][0] in done: continue
                comp, seen = self._component([t[0][0]])
                done |= seen
                try:
                    if fm_infeasible(comp):
                        r = False; break
                except Unknown: pass
            if r:
                for q in self.neq:
                    if self.entails_eq(q):
                        r = False; break
            self._cache['sat'] = r
            if not r: self.bot = True
        return r
    def sat_after(self, syms):
        """feasibility of the component containing the given symbols only"""
        if self.bot: return False
        comp, seen = self._component(syms)
        try:
            if comp and fm_infeasible(comp):
                self.bot = True
                return False
        except Unknown: pass
        for q in self.neq:
            if any(s in seen for s in q.syms()) and self.entails_eq(q):
                self.bot = True
                return False
        return True
    def const_of(self, e):
        e = self.canon(e)
        if not e.t: return e.c
        # pinned by inequalities?
        return None

    def model(self, extra_ge=(), tries=60):
        """An explicit integer point satisfying everything, or None.
        Returns dict sym->int for all symbols mentioned (after substitution)."""
        st = self.copy()
        for e in extra_ge:
            if not st.add_ge(e): return None
        for _ in range(3):
            more = False
            for q in list(st.neq):
                for e in (q, -q):
                    c = st.ineq.get(e.t)
                    if e.t and c is not None and c == e.c:
                        if not st.add_ge(e - 1): return None
                        more = True
            if not more: break
        if st.bot: return None
        cons = dict(st.ineq)
        syms = set()
        for t in cons:
            for s, _ in t: syms.add(s)
        for q in st.neq:
            for s in q.syms(): syms.add(s)
        try:
            inf, trace = fm_infeasible(cons, True)
        except Unknown:
            return None
        if inf: return None
        import random
        rnd = random.Random(12345)
        for attempt in range(tries):
            m = {}
            ok = True
            free = [s for s in syms if not any(tr[0] == s for tr in trace)]
            for s in free: m[s] = 0 if attempt == 0 else rnd.randint(0, 3)
            for s, lo, hi in reversed(trace):
                L = None; H = None
                for t, c, k in lo:   # k*s + rest + c >= 0 -> s >= -(rest+c)/k
                    v = c
                    for s2, kk in t:
                        if s2 != s: v += kk * m.get(s2, 0)
                    b = -(v // k)    # ceil(-v/k)
                    L = b if L is None or b > L else L
                for t, c, k in hi:   # -k*s + rest + c >= 0 -> s <= (rest+c)/k
                    v = c
                    for s2, kk in t:
                        if s2 != s: v += kk * m.get(s2, 0)
                    b = v // k
                    H = b if H is None or b < H else H
                if L is not None and H is not None and L > H:
                    ok = False; break
                if L is None and H is None: base = 0
                elif L is None: base = min(H, 0) if attempt else min(H, 0)
                elif H is None: base = max(L, 0)
                else: base = L if L > 0 else (H if H < 0 else max(L, 0))
                if attempt:
                    d = rnd.choice((0, 0, 1, 1, 2, 3, 5))
                    if rnd.random() < 0.15 and H is not None: base = H - d
                    elif rnd.random() < 0.5: base += d
                    else: base -= d
                    if L is not None: base = max(base, L)
                    if H is not None: base = min(base, H)
                m[s] = base
            if not ok: continue
            def ev(e):
                return e.c + sum(k * m.get(s, 0) for s, k in e.t)
            if any(ev(Lin(c, t)) < 0 for t, c in cons.items()): continue
            if any(ev(q) == 0 for q in st.neq): continue
            for s, v in st.sub.items():
                m[s] = ev(v)
            return m
        return None

    def show(self):
        out = ['%s=%s' % (sym_name(s), e) for s, e in self.sub.items()]
        out += ['%s>=0' % Lin(c, t) for t, c in self.ineq.items()]
        out += ['%s!=0' % q for q in self.neq]
        return '; '.join(out)
