"""Loop generalisation: computes an inductive abstract state for a natural loop
(all iterations at once), or falls back to an explicitly imprecise state.

 1. While the loop condition is decided in the current state the loop is followed
    concretely (constant trip counts).
 2. Otherwise the state at the loop head is generalised: every value that an
    iteration changes becomes  initial + c*t  (t = iteration number) or a fresh
    symbol; candidate invariants (guards, template bounds, object invariants) are
    dropped until the rest is inductive (Houdini).
 3. The body is analysed once in the inductive state; its obligations are those
    of every iteration.
"""
from core import *
from lin import K, S, ZERO, ONE, fresh, Lin, new_sym, set_approx, sym_approx
import lin

MAXUNROLL = 300
FAR = 1 << 40        # a bound this far away is never reached
DEBUG = False

class Shape(Exception): pass

def subst_val(v, f):
    return v

class Unify:
    """compare state X (head) with arrival Y (back edge)"""
    def __init__(self, ip, X, EX):
        self.ip = ip; self.X = X; self.EX = EX
        self.slots = {}       # path -> (e0, info)
        self.rates = {}       # path -> least and greatest change in one iteration
        self.tops = {}        # path -> width   (becomes Top)
        self.toparr = set()   # regions whose content becomes unknown
        self.dropcell = set() # (rid, off)
        self.rhos = []
    def add(self, Y, EY):
        self.rho = {}; self.inv = {}
        ip = self.ip; X = self.X
        vals = {}
        for k, x in self.EX.items():
            if k == 'allocas' or k not in EY: continue
            self.cmp(('env', k), x, EY[k], Y, vals)
        # regions reachable in X
        done = set()
        for it in range(6):
            todo = [r for r in list(X.regs) if r not in done]
            if not todo: break
            for rid in todo:
                done.add(rid)
                xr = X.regs[rid]
                yid = self.inv.get(rid, rid)
                yr = Y.regs.get(yid)
                if yr is None: continue
                if xr is yr: continue
                self.cmp_region(rid, xr, yid, yr, Y, vals)
        # events / ghost typestate
        for k, v in X.ghost.items():
            if isinstance(k, str) or (isinstance(k, tuple) and k and k[0] in ('ts',)):
                if Y.ghost.get(k) != v and k not in ('exc', 'caught'):
                    raise Shape('ghost %s changes' % (k,))
        for k, v in Y.ghost.items():
            if isinstance(k, tuple) and k and k[0] == 'ts' and k not in X.ghost: raise Shape('ghost %s appears' % (k,))
        self.rhos.append(dict(self.rho))
        return vals
    def bind(self, xr, yr, Y):
        """pointer to xr in X corresponds to pointer to yr in Y"""
        if xr == yr and yr not in self.rho and xr not in self.inv: return True
        if self.rho.get(yr) == xr: return True
        if yr in self.rho or xr in self.inv: return False
        if yr in self.X.regs: return False
        self.rho[yr] = xr; self.inv[xr] = yr
        a = self.X.regs[xr]; b = Y.regs[yr]
        if a.kind != b.kind and not (a.kind in ('heap',) and b.kind in ('heap',)): return False
        if (a.flags.get('phantom') is not None) != (b.flags.get('phantom') is not None): return False
        self.cmp_region(xr, a, yr, b, Y, self.cur_vals)
        return True
    def slot(self, path, x, y, vals, info):
        if path in self.slots: vals[path] = y; return
        d = self.X.canon(x - y)
        if not d.t and d.c == 0: vals[path] = y; return
        self.slots[path] = (x, info); vals[path] = y
    def cmp(self, path, x, y, Y, vals):
        self.cur_vals = vals
        if path in self.tops: return
        if x is y or x == y:
            # a pointer may be textually equal but denote a rebound region
            if isinstance(x, P):
                if x.r in self.inv: raise Shape('rebound pointer')
                if path in self.slots: vals[path] = y.o
                return
            if path in self.slots: vals[path] = self.intval(y)
            elif isinstance(x, I) and x.src is None: vals[path] = y.e
            return
        if isinstance(x, I) and isinstance(y, I) and x.w == y.w:
            if x.src is None and y.src is None:
                a = Y.canon(x.e); b = Y.canon(y.e)
                if a == b or Y.store.entails_eq(a - b): vals[path] = x.e; return
                self.slot(path, x.e, b, vals, ('i', x.w)); return
            if x.src is not None and y.src is not None and x.src[0] == y.src[0] and x.src[2] == y.src[2]:
                self.slot(path, x.src[1], y.src[1], vals, ('x', x.w, x.src[0], x.src[2])); return
            # try to normalise
            a = self.flat(self.X, x); b = self.flat(Y, y)
            if a is not None and b is not None:
                self.slot(path, a, b, vals, ('i', x.w)); return
            self.tops[path] = x.w; return
        if isinstance(x, P) and isinstance(y, P):
            if not self.bind(x.r, y.r, Y): raise Shape('pointer %s: %s vs %s' % (path, x, y))
            if Y.store.entails_eq(x.o - y.o): vals[path] = x.o; return
            self.slot(path, x.o, Y.canon(y.o), vals, ('p', x.r)); return
        if isinstance(x, P) or isinstance(y, P):
            if isinstance(x, Top) or isinstance(y, Top): self.tops[path] = 64; return
            raise Shape('pointer %s: %s vs %s' % (path, x, y))
        if isinstance(x, A) and isinstance(y, A):
            self.tops[path] = 64; return
        w = getattr(x, 'w', None) or getattr(y, 'w', 64)
        if isinstance(x, D) or isinstance(y, D): self.tops[path] = 'D'; return
        if isinstance(x, C) or isinstance(y, C): self.tops[path] = ('C', w); return
        if isinstance(x, B) or isinstance(y, B):
            self.tops[path] = len((x if isinstance(x, B) else y).b); return
        self.tops[path] = w
    def intval(self, v):
        if isinstance(v, I): return v.e if v.src is None else v.src[1]
        if isinstance(v, P): return v.o
        return None
    def flat(self, st, v):
        if v.src is None: return v.e
        r = self.ip.norm(st.copy(), v.src[1], v.src[2], v.src[0] == 's')
        if len(r) == 1 and len(r[0][0].store.ineq) == len(st.store.ineq): return r[0][1]
        return None
    def cmp_region(self, rid, xr, yid, yr, Y, vals):
        if xr.live != yr.live:
            if yid == rid and not yr.live and xr.kind in ('alloca',): return
            raise Shape('liveness of %s changes' % xr.name)
        if not xr.live: return
        if xr.size != yr.size and not Y.store.entails_eq(xr.size - yr.size):
            self.slot(('size', rid), xr.size, Y.canon(yr.size), vals, ('size',))
        elif ('size', rid) in self.slots: vals[('size', rid)] = yr.size
        for o in set(xr.cells) | set(yr.cells):
            if (rid, o) in self.dropcell: continue
            a = xr.cells.get(o); b = yr.cells.get(o)
            if a is None or b is None or a[0] != b[0]:
                if xr.flags.get('zero') or yr.flags.get('zero') or xr.flags.get('lazy'): 
                    if a is None and b is not None and xr.flags.get('zero'): a = (b[0], ci(0, 8 * b[0]) if not isinstance(b[1], P) else NULL)
                    else: self.dropcell.add((rid, o)); continue
                else:
                    self.dropcell.add((rid, o)); continue
            va, vb = a[1], b[1]
            if isinstance(va, tuple): va = self.ip.const_val(self.X, va[1])
            if isinstance(vb, tuple): vb = self.ip.const_val(Y, vb[1])
            self.cmp(('cell', rid, o), va, vb, Y, vals)
        if xr.arr is not None and rid not in self.toparr:
            if yr.arr is None: self.toparr.add(rid); return
            self.cmp_arr(rid, xr, yr, Y, vals)
    def cmp_arr(self, rid, xr, yr, Y, vals):
        xs = xr.arr; ys = yr.arr
        if len(xs) != len(ys) or any(a[1][0] != b[1][0] or (a[1][0] == 'src' and a[1][1] != b[1][1]) for a, b in zip(xs, ys)):
            ys2 = self.align(xs, ys, Y)
            if ys2 is None:
                # different shape in an earlier comparison is fatal for precision only
                self.toparr.add(rid)
                return
            ys = ys2
        for k, ((hx, dx), (hy, dy)) in enumerate(zip(xs, ys)):
            last = k == len(xs) - 1
            if not last:
                self.islot(('hi', rid, k), hx, hy, Y, vals)
            if dx[0] == 'src': self.islot(('dl', rid, k), dx[2], dy[2], Y, vals)
            elif dx[0] == 'val':
                if isinstance(dx[1], I) and isinstance(dy[1], I): self.cmp(('sv', rid, k), dx[1], dy[1], Y, vals)
                elif dx[1] != dy[1]: self.toparr.add(rid)
    def align(self, xs, ys, Y): return None
    def islot(self, path, x, y, Y, vals):
        if path in self.slots: vals[path] = Y.canon(y); return
        if x == y or Y.store.entails_eq(x - y): vals[path] = x; return
        self.slot(path, x, Y.canon(y), vals, ('idx',))

def build(ip, U, X, EX, values):
    """copy of X with slot values replaced: values path->Lin; tops -> Top"""
    st = X.copy(); env = dict(EX)
    def setval(path, mk):
        if path[0] == 'env': env[path[1]] = mk(env[path[1]])
        elif path[0] == 'cell':
            r = st.w(path[1]); sz, v = r.cells[path[2]] if path[2] in r.cells else (8, None)
            if isinstance(v, tuple): v = ip.const_val(st, v[1])
            r.cells[path[2]] = (sz, mk(v))
        elif path[0] == 'size':
            r = st.w(path[1]); r.size = mk(None)
        elif path[0] in ('hi', 'dl', 'sv'):
            r = st.w(path[1]); segs = list(r.arr); k = path[2]
            hi, d = segs[k]
            if path[0] == 'hi': hi = mk(None)
            elif path[0] == 'dl': d = (d[0], d[1], mk(None))
            else: d = ('val', mk(d[1]))
            segs[k] = (hi, d); r.arr = tuple(segs)
    for path, w in U.tops.items():
        def mk(old, w=w):
            if w == 'D': return D(None, 1, ('loop', path))
            if isinstance(w, tuple):
                x = fresh('_lb', approx=True); st.store.add_ge(x); st.store.add_ge(1 - x)
                return C(('ge', x - 1), w[1])
            return Top(w, ('loop', path, new_sym('_')))
        if path[0] == 'sv' and path[1] in U.toparr: continue
        setval(path, mk)
    for rid, o in U.dropcell:
        r = st.w(rid); r.cells.pop(o, None)
    for path, v in values.items():
        if path[0] in ('hi', 'dl', 'sv') and path[1] in U.toparr: continue
        if path in U.tops: continue
        info = U.slots[path][1]
        if info[0] == 'i': setval(path, lambda old: I(v, info[1]))
        elif info[0] == 'x': setval(path, lambda old: I(None, info[1], (info[2], v, info[3])))
        elif info[0] == 'p': setval(path, lambda old: P(info[1], v))
        else: setval(path, lambda old: v)
    for rid in U.toparr:
        r = st.w(rid)
        n = div_exact(st.canon(r.size), r.es)
        anyraw = any(d[0] in ('raw', 'dead') for _, d in r.arr)
        r.arr = ((n if n is not None else r.size, ('top',)),)
        if r.flags.get('cls'): st.inexact = st.inexact or 'element states lost in a loop'
    # region sizes changed: last segment boundary follows
    for path in values:
        if path[0] == 'size':
            r = st.w(path[1])
            if r.arr is not None:
                n = div_exact(st.canon(r.size), r.es)
                if n is None: raise Shape('size not a multiple of the element size')
                r.arr = r.arr[:-1] + ((n, r.arr[-1][1]),)
    return st, env

def run_body(ip, fn, loop, st, env):
    o, x, b = ip.run(fn, loop.header, None, st, dict(env), loop, skip_phi=True)
    live = fn.live(loop.header)
    return o, x, [(s, {k: v for k, v in e.items() if k == 'allocas' or k in live}) for s, e in b]

class Sink:
    def __init__(self, ip): self.ip = ip
    def __enter__(self):
        self.old = self.ip.res; self.ip.res = Results(); return self
    def __exit__(self, *a):
        self.res = self.ip.res; self.ip.res = self.old

def analyse(ip, fn, loop, st, env):
    outs = []; exits = []
    live = fn.live(loop.header)
    env = {k: v for k, v in env.items() if k == 'allocas' or k in live}
    work = [(st, env, 0, 0)]
    phases = {}; alive = []
    origin = (st.copy(), dict(env))
    while work:
        s, e, unrolled, peeled = work.pop()
        o0, x0, b0 = run_body(ip, fn, loop, s.copy(), e)
        first = ip.opts.get('unroll_first') and unrolled < ip.opts.get('unroll_sym', 0)
        if unrolled and b0 and x0 and not o0 and peeled == 0 and origin is not None and unrolled <= 3 and not first:
            try:
                r = summarise(ip, fn, loop, s, e, b0, strict=True)
                outs += r[0]; exits += r[1]
                continue
            except Shape: pass
        if unrolled and b0 and (x0 or o0 or len(b0) > 1) and peeled == 0 and origin is not None and not outs and not exits and not first:
            # the trip count is not constant after all: generalise from the first iteration
            os_, oe = origin; origin = None
            with Sink(ip): o1, x1, b1 = run_body(ip, fn, loop, os_.copy(), oe)
            try:
                r = summarise(ip, fn, loop, os_, oe, b1)
                outs += r[0]; exits += r[1]
                continue
            except Shape: pass
        if not b0:
            outs += o0; exits += x0; continue
        if ip.conc and any(bs.ghost.get('retry', 0) > s.ghost.get('retry', 0) for bs, be in b0):
            # a compare-and-exchange that lost: the next round is explored as it is
            outs += o0; exits += x0
            for bs, be in b0: work.append((bs, be, unrolled + 1, peeled))
            continue
        if len(b0) == 1 and not x0 and not o0 and unrolled == 2 and ip.opts.get('check_noexit') and not s.inexact:
            ip.opts['check_noexit'] = False
            try: found = recurrent(ip, fn, loop, s, e, [], 3)
            finally: ip.opts['check_noexit'] = True
            if found is not None and report_noexit(ip, fn, found, lsite(ip, fn, loop)): continue
        if len(b0) == 1 and not x0 and not o0 and unrolled < MAXUNROLL:
            work.append((b0[0][0], b0[0][1], unrolled + 1, peeled)); continue
        maxit = ip.opts.get('unroll_sym')
        if maxit and unrolled < maxit:
            outs += o0; exits += x0
            for bs, be in b0: work.append((bs, be, unrolled + 1, peeled))
            continue
        r = None
        nph = e.get('phases', 0) if False else phases.get(id(s), 0)
        if peeled < 2:
            inf = {}
            sk = Sink(ip); li = len(ip.loopinfo)
            sk.__enter__()
            try:
                try: r = summarise(ip, fn, loop, s, e, b0, strict=True, rinfo=inf)
                finally: sk.__exit__()
            except Shape as ex0: ex = ex0; r = None
            if len(b0) >= 2 and nph < 3 and (r is None or inf['free']):
                got = None
                for grp in phase_groups(ip, s, e, b0):
                    inf2 = {}
                    try: got = summarise(ip, fn, loop, s, e, grp, strict=True, phase=True, rinfo=inf2); break
                    except Shape as x2:
                        if DEBUG: print('phase', x2)
                        got = None
                if got is not None:
                    outs += got[0]; exits += got[1]
                    for bs, be in inf2['spill']:
                        phases[id(bs)] = nph + 1; alive.append(bs)
                        work.append((bs, be, unrolled, peeled))
                    continue
            if r is not None and not inf['exact'] and inf['peel'] and peeled < 1 and len(b0) <= 6:
                # a condition known after one iteration is not known at the start: set the first iteration apart
                outs += o0; exits += x0
                for bs, be in b0: work.append((bs, be, unrolled, peeled + 1))
                continue
            if r is not None: ip.res.merge(sk.res)
            if r is None:
                s2 = coarse(s, getattr(ex, 'rids', ()))
                if s2 is not None:
                    with Sink(ip): o0, x0, b0 = run_body(ip, fn, loop, s2.copy(), e)
                    try: r = summarise(ip, fn, loop, s2, e, b0, strict=True)
                    except Shape:
                        outs += o0; exits += x0
                        for bs, be in b0: work.append((bs, be, unrolled, peeled + 1))
                        continue
                elif getattr(ex, 'rids', None) and peeled < 1 and len(b0) <= 6:
                    # array shapes settle after the first iteration: let each path through it go its own way
                    outs += o0; exits += x0
                    for bs, be in b0: work.append((bs, be, unrolled, peeled + 1))
                    continue
        if r is None and peeled < 2:
            try: r = summarise(ip, fn, loop, s, e, b0)
            except Shape as ex:
                if len(b0) >= 2 and nph < 3:
                    got = None
                    for grp in phase_groups(ip, s, e, b0, True):
                        inf2 = {}
                        try: got = summarise(ip, fn, loop, s, e, grp, phase='loose', rinfo=inf2); break
                        except Shape as x2:
                            if DEBUG: print('loose phase', x2)
                    if got is not None:
                        outs += got[0]; exits += got[1]
                        for bs, be in inf2['spill']:
                            phases[id(bs)] = nph + 1; alive.append(bs)
                            work.append((bs, be, unrolled, peeled))
                        continue
                ip.res.notes.append('loop at %s: %s' % (lsite(ip, fn, loop), ex))
                r = None
        if r is not None:
            o, x = r
            outs += o; exits += x
            continue
        outs += o0; exits += x0
        if peeled < 2 and len(b0) <= 24:
            for bs, be in b0: work.append((bs, be, unrolled, peeled + 1))
            continue
        o, x = fallback(ip, fn, loop, s, e, b0)
        outs += o; exits += x
    return outs, exits

def phase_groups(ip, X, EX, arrivals, loose=False):
    """arrivals grouped by what the iteration did; paths restricted by an equality last"""
    groups = {}
    for Y, EY in arrivals:
        sig = []
        if loose:
            # only by which object each pointer designates
            sig = [(k, EY[k].r) for k, x in EX.items() if isinstance(x, P) and isinstance(EY.get(k), P)]
            groups.setdefault(tuple(sig), []).append((Y, EY)); continue
        for k, x in EX.items():
            y = EY.get(k)
            if isinstance(x, I) and isinstance(y, I) and x.src is None and y.src is None:
                d = Y.canon(y.e - x.e); sig.append((k, d.c if not d.t else None))
            elif isinstance(x, P) and isinstance(y, P) and x.r == y.r:
                d = Y.canon(y.o - x.o); sig.append((k, d.c if not d.t else None))
            elif x != y: sig.append((k, 'x'))
        sig.append(tuple(sorted(rid for rid, r in X.regs.items() if r.live and rid in Y.regs and r is not Y.regs[rid] and (r.arr != Y.regs[rid].arr or r.cells != Y.regs[rid].cells))))
        groups.setdefault(tuple(sig), []).append((Y, EY))
    def eqs(g): return min(len([1 for s in Y.store.sub if s not in X.store.sub]) for Y, EY in g)
    return sorted(groups.values(), key=eqs)

def coarse(s, rids):
    """An array of live class objects whose pieces come out differently on each path through the body: forget which value each
    element has (they stay alive), so that the element-wise typestate can still be generalised."""
    rids = [r for r in rids if s.regs[r].flags.get('cls') and s.regs[r].arr and len(s.regs[r].arr) > 1 and all(d[0] not in ('raw', 'dead') for _, d in s.regs[r].arr)]
    if not rids: return None
    s2 = s.copy()
    for rid in rids:
        r = s2.w(rid); r.arr = ((r.arr[-1][0], ('top',)),)
    return s2

def lsite(ip, fn, loop):
    for ins in fn.blocks[loop.header]:
        if ins.get('ln') and (ins.get('fi') or '').startswith(REPO): return '%s:%d' % (ins['fi'][len(REPO) + 1:], ins['ln'])
    best = None
    for b in sorted(loop.blocks):
        for ins in fn.blocks[b]:
            if ins.get('ln') and (ins.get('fi') or '').startswith(REPO):
                best = '%s:%d' % (ins['fi'][len(REPO) + 1:], ins['ln'])
                return best
    return fn.dem

def knownsyms(X, extra):
    k = set(extra)
    return k

def consistent(ip, G, EG, U, values, incs, fs, t, Y, EY):
    """does this back edge continue the phase described by the increments?"""
    T = Unify(ip, G, EG)
    T.slots = {p: (values[p], U.slots[p][1]) for p in U.slots}
    T.tops = dict(U.tops); T.toparr = set(U.toparr); T.dropcell = set(U.dropcell)
    try: v = T.add(Y, EY)
    except Shape: return False
    if len(T.slots) != len(U.slots) or len(T.tops) != len(U.tops) or T.toparr != U.toparr or T.dropcell != U.dropcell: return False
    for p in incs:
        y = v.get(p)
        if y is None: return False
        d = Y.canon(y - U.slots[p][0] - (t + 1) * incs[p])
        if not d.t and U.slots[p][1][0] == 'i' and d.c % (1 << U.slots[p][1][1]) == 0: continue
        if not Y.store.entails_eq(d): return False
    return True

def summarise(ip, fn, loop, X, EX, arrivals, strict=False, phase=False, rinfo=None):
    """phase: arrivals are those of one path through the body; other paths taken from the
    generalised state are returned through rinfo['spill'] and continue separately"""
    U = Unify(ip, X, EX)
    arr_vals = []
    for Y, EY in arrivals: arr_vals.append(U.add(Y, EY))
    presyms_max = len(lin._sym_names)
    t = fresh('iter')
    tsym = t.t[0][0]
    linear = {}; free = {}
    # initial guess of increments
    incs = {}
    for path, (e0, info) in U.slots.items():
        cs = set()
        for (Y, EY), v in zip(arrivals, arr_vals):
            y = v.get(path)
            if y is None: cs.add(None); continue
            d = Y.canon(y - e0)
            cs.add(d.c if not d.t else ('e', d))
        if len(cs) > 1 and all(isinstance(c, int) for c in cs): U.rates[path] = (min(cs), max(cs))
        if len(cs) == 1 and None not in cs:
            c = cs.pop()
            if isinstance(c, int): incs[path] = c
            elif all(s < presyms_max and s not in newsyms(X, arrivals) for s in c[1].syms()) and len(c[1].t) <= 2 and False:
                incs[path] = c[1]
    cands = None; guardset = None; peel = False
    dropped_guard = [False]
    pre = False
    for rounds in range(10):
        values = {}; fs = {}
        for path, (e0, info) in U.slots.items():
            if path in incs: values[path] = e0 + t * incs[path]
            else:
                f = free.get(path)
                if f is None:
                    f = free[path] = fresh('_loop' + str(path[0])); 
                values[path] = f; fs[path] = f
        if strict and U.toparr:
            ex = Shape('contents lost'); ex.rids = set(U.toparr); raise ex
        G, EG = build(ip, U, X, EX, values)
        G.store.add_ge(t)
        G.ev = X.ev; G.ghost[('loopgen',)] = True
        for path, f in fs.items():
            info = U.slots[path][1]
            if info[0] == 'i':
                w = info[1]
                G.store.add_ge(f + (1 << (w - 1))); G.store.add_ge((1 << w) - 1 - f)
            elif info[0] in ('size', 'idx'): G.store.add_ge(f) if path[0] != 'dl' else None
        # candidate inequalities
        invf = ip.opts.get('inv')
        if cands is None:
            cands = template(ip, U, X, EX, values, fs, t)
        active = [c for c in cands if c[0] != 'inv']
        for c in active:
            G.store.add_ge(c[1])
        invkeys = [c for c in cands if c[0] == 'inv']
        if invf:
            cur = invf(ip, G, EG)
            for c in invkeys:
                if c[1] in cur: G.store.add_ge(cur[c[1]])
        if not G.store.sat(): raise Shape('candidate state infeasible')
        with Sink(ip) as sk:
            outs, exits, backs = run_body(ip, fn, loop, G.copy(), EG)
        spill = []
        if phase:
            if fs and phase != 'loose': raise Shape('phase with free values')
            keep = []
            for b in backs: (keep if consistent(ip, G, EG, U, values, incs, fs, t, *b) else spill).append(b)
            backs = keep
            if not backs: raise Shape('phase does not repeat')
        # check arrivals
        changed = False
        nslots = len(U.slots); ntops = len(U.tops); nta = len(U.toparr); ndc = len(U.dropcell)
        U2 = Unify(ip, G, EG)
        U2.slots = {p: (values[p], U.slots[p][1]) for p in U.slots}
        U2.tops = dict(U.tops); U2.toparr = set(U.toparr); U2.dropcell = set(U.dropcell)
        bvals = []
        shape = None
        try:
            for Y, EY in backs: bvals.append(U2.add(Y, EY))
        except Shape as ex: shape = ex
        lost = False
        if not pre and not shape:
            for p in incs:
                for (Y, EY), v in zip(backs, bvals):
                    y = v.get(p)
                    if y is None: lost = True; break
                    d = Y.canon(y - U.slots[p][0] - (t + 1) * incs[p])
                    if not (not d.t and U.slots[p][1][0] == 'i' and d.c % (1 << U.slots[p][1][1]) == 0) and not Y.store.entails_eq(d): lost = True; break
                if lost: break
        if not pre and (shape or lost or set(U2.slots) - set(U.slots) or set(U2.tops) - set(U.tops) or U2.toparr - U.toparr or U2.dropcell - U.dropcell):
            # the unconstrained state takes paths the loop's own guards exclude: add them first
            pre = True
            have = {c[1] for c in cands}; new = []
            fsyms = {f.t[0][0] for f in fs.values()}
            for grp in guards(ip, U, X, EX, G, values, {}, t, tsym, backs, [{}] * len(backs)):
                for g in grp:
                    if g not in have and not fsyms & set(g.syms()) and holds_at_start(X, g, U, fs, tsym): new.append(('p', g)); have.add(g)
            if new:
                cands = cands + informative(G, new)
                continue
        if shape: raise shape
        for p, (e0, info) in U2.slots.items():
            if p not in U.slots:
                # a slot constant in the first iteration changes later
                U.slots[p] = (orig(ip, X, EX, p), info); changed = True
        for p, w in U2.tops.items():
            if p not in U.tops: U.tops[p] = w; changed = True
        if U2.toparr - U.toparr: U.toparr |= U2.toparr; changed = True
        if U2.dropcell - U.dropcell: U.dropcell |= U2.dropcell; changed = True
        if changed:
            for p in list(U.slots):
                if (p[0] in ('hi', 'dl', 'sv') and p[1] in U.toparr) or p in U.tops:
                    del U.slots[p]; incs.pop(p, None); free.pop(p, None)
            # new slots: try to see a linear increment
            for p in U.slots:
                if p not in incs and p not in free:
                    cs = set()
                    for (Y, EY), v in zip(backs, bvals):
                        y = v.get(p)
                        if y is None: cs.add(None); continue
                        d = Y.canon(y - orig(ip, G, EG, p)); cs.add(d.c if not d.t else None)
                    if len(cs) == 1 and None not in cs: pass
            cands = None
            continue
        for p in list(incs):
            ok = True
            for (Y, EY), v in zip(backs, bvals):
                y = v.get(p)
                if y is None: ok = False; break
                want = U.slots[p][0] + (t + 1) * incs[p]
                d = Y.canon(y - want)
                info = U.slots[p][1]
                if not d.t and info[0] in ('i',) and d.c % (1 << info[1]) == 0: continue
                if not Y.store.entails_eq(d): ok = False; break
            if not ok: del incs[p]; changed = True
        if changed: cands = None; continue
        # guard candidates from this run
        if guardset is None and G.canon(t).t:
            guardset = guards(ip, U, X, EX, G, values, fs, t, tsym, backs, bvals)
            new = []; have = set()
            for grp in guardset:
                for g in grp:
                    if g in have: continue
                    if holds_at_start(X, g, U, fs, tsym): new.append(('g', g)); have.add(g)
                    else: peel = True
            new = informative(G, new)
            if new:
                cands = [c for c in cands if c[0] != 'g'] + new
                # only restart when it adds information
                continue
        kept = []
        for c in cands:
            if c[0] == 'inv':
                ok = True
                for Y, EY in backs:
                    R = rename_back(ip, U2, Y, EY)
                    cur = invf(ip, Y, EY) if R is None else R
                    if c[1] not in cur or not Y.store.entails_ge(cur[c[1]]): ok = False; break
            else:
                ok = True
                for (Y, EY), v in zip(backs, bvals):
                    m = {tsym: t + 1}
                    for p, f in fs.items():
                        y = v.get(p)
                        m[f.t[0][0]] = y if y is not None else f
                    e = c[1].subst(m)
                    if not Y.store.entails_ge(e): ok = False; break
            if ok: kept.append(c)
            else:
                changed = True
                if c[0] == 'g': dropped_guard[0] = True
        if changed: cands = kept; continue
        # inductive
        exact = not fs
        if exact:
            # every condition under which an earlier iteration went on must be part of the state
            act = {c[1] for c in cands}
            for grp in guards(ip, U, X, EX, G, values, fs, t, tsym, backs, bvals, True):
                if not any(g in act or G.store.entails_ge(g) for g in grp):
                    exact = False
                    if DEBUG: print('inexact: guard', grp, 'cands', [str(c[1]) for c in cands if c[0] != 'inv'])
                    break
        if not exact:
            set_approx(tsym)
            for f in fs.values(): set_approx(f.t[0][0])
            if any(o['violation'] for o in sk.res.ob.values()):
                # decide again, now that the state is known to be an over-approximation
                for o in sk.res.ob.values():
                    if o['violation']:
                        o['undecided'] = (o['undecided'] + [(m + ' [loop state over-approximated]', w, e, c) for m, w, e, c in o['violation']])[:4]
                        o['violation'] = []
            # the paths have to know that they depend on an over-approximation
            with Sink(ip): outs, exits, b2 = run_body(ip, fn, loop, G.copy(), EG)
            if phase: spill = [b for b in b2 if not consistent(ip, G, EG, U, values, incs, fs, t, *b)]
        if phase and phase != 'loose' and not exact: raise Shape('inexact phase')
        if rinfo is not None: rinfo['spill'] = spill; rinfo['exact'] = exact; rinfo['peel'] = peel; rinfo['free'] = bool(fs)
        ip.res.merge(sk.res)
        ip.loopinfo.append((lsite(ip, fn, loop), 'exact' if exact else 'approx', len(U.slots), len(cands)))
        progress(ip, fn, loop, X, EX, arrivals, G, EG, backs, bvals, values, incs, fs, cands, t, tsym, presyms_max)
        for s, k, v, al in outs: fixev(s, X, backs)
        for b, p, s, en in exits: fixev(s, X, backs)
        for s, en in spill: fixev(s, X, backs)
        return outs, exits
    raise Shape('no inductive state after %d rounds' % rounds)

def informative(G, new):
    """guards that tell something new first; those that follow anyway only matter if another candidate falls"""
    a = []; b = []
    for c in new: (b if G.store.entails_ge(c[1]) else a).append(c)
    return a[:60] + b[:max(0, 40 - len(a))]

def rename_back(ip, U2, Y, EY): return None

def fixev(s, X, backs):
    extra = set()
    for Y, EY in backs:
        for e in Y.ev[len(X.ev):]:
            extra.add(e[0])
    if extra:
        n = len(X.ev)
        s.ev = X.ev + (('rep',) + tuple(sorted(extra)),) + s.ev[n:]

def newsyms(X, arrivals): return set()

def orig(ip, X, EX, p):
    if p[0] == 'env': v = EX[p[1]]
    elif p[0] == 'cell':
        v = X.regs[p[1]].cells[p[2]][1]
        if isinstance(v, tuple): v = ip.const_val(X, v[1])
    elif p[0] == 'size': return X.regs[p[1]].size
    elif p[0] == 'hi': return X.regs[p[1]].arr[p[2]][0]
    elif p[0] == 'dl': return X.regs[p[1]].arr[p[2]][1][2]
    elif p[0] == 'sv': v = X.regs[p[1]].arr[p[2]][1][1]
    if isinstance(v, I): return v.e if v.src is None else v.src[1]
    if isinstance(v, P): return v.o
    raise Shape('slot %s' % (p,))

def template(ip, U, X, EX, values, fs, t):
    """initial candidates (already true at loop entry)"""
    out = []
    sizes = []
    for rid, r in X.regs.items():
        if r.live and r.kind in ('heap', 'ext', 'alloca') and r.arr is not None:
            n = div_exact(X.canon(r.size), r.es)
            if ('size', rid) in values: n = div_exact(values[('size', rid)], r.es)
            if n is not None: sizes.append(n)
    exprs = []
    for p, f in fs.items():
        e0 = U.slots[p][0]
        pairs = [(f - e0), (e0 - f), f]
        if p in U.rates:
            lo, hi = U.rates[p]
            if lo > 0: pairs.remove(e0 - f)
            if hi < 0: pairs.remove(f - e0)
            pairs = [f - e0 - t * lo, e0 + t * hi - f] + pairs
        for q, v in values.items():
            if q != p: pairs.append(v - f)
        for n in sizes: pairs.append(n - f)
        seen = set()
        for e in pairs:
            if e in seen: continue
            seen.add(e)
            out.append(('t', e))
    sub = {}
    for p, f in fs.items(): sub[f.t[0][0]] = U.slots[p][0]
    sub[t.t[0][0]] = ZERO
    keep = []
    for c in out:
        if X.store.entails_ge(c[1].subst(sub)): keep.append(c)
    keep = keep[:60]
    invf = ip.opts.get('inv')
    if invf:
        for k, e in invf(ip, X, EX).items():
            if X.store.entails_ge(e): keep.append(('inv', k))
    return keep

def holds_at_start(X, g, U, fs, tsym):
    sub = {tsym: ZERO}
    for p, f in fs.items(): sub[f.t[0][0]] = U.slots[p][0]
    return X.store.entails_ge(g.subst(sub))

def guards(ip, U, X, EX, G, values, fs, t, tsym, backs, bvals, inv=False):
    base = set(G.store.ineq.items())
    known = set([tsym]) | {f.t[0][0] for f in fs.values()}
    pre = set(X.store.sub)
    for tt in X.store.ineq:
        for s, _ in tt: pre.add(s)
    for e in X.store.sub.values(): pre |= set(e.syms())
    for p, (e0, i) in U.slots.items(): pre |= set(e0.syms())
    known |= pre
    res = []
    for (Y, EY), v in zip(backs, bvals):
        # inverse of the step
        m = {tsym: t - 1}
        okf = True
        for p, f in fs.items():
            y = v.get(p)
            if y is None: continue
            d = Y.canon(y) - f
            if not d.t: m[f.t[0][0]] = f - d.c
            else: m[f.t[0][0]] = None
        def post(e):
            for s in e.syms():
                if s not in known: return None
                if m.get(s, 0) is None: return None
            return e.subst({k: x for k, x in m.items() if x is not None})
        for tt, c in Y.store.ineq.items():
            if base and (tt, c) in base: continue
            if not any(inv or s == tsym or s in m for s, _ in tt): continue
            e = post(Lin(c, tt))
            if e is not None and [e] not in res: res.append([e])
        for s0, ex in Y.store.sub.items():
            if s0 in G.store.sub: continue
            q = S(s0) - ex
            if not any(inv or s == tsym or s in m for s in q.syms()): continue
            for e in (post(q), post(-q)):
                if e is not None and [e] not in res: res.append([e])
        for q in Y.store.neq:
            if q in G.store.neq: continue
            if not any(inv or s in m for s in q.syms()): continue
            g = [e for e in (post(q - 1), post(-q - 1)) if e is not None]
            if g and g not in res: res.append(g)
    return res

def progress(ip, fn, loop, X, EX, arrivals, G, EG, backs, bvals, values, incs, fs, cands, t, tsym, pmax):
    site = lsite(ip, fn, loop)
    if not backs:
        ip.res.add('loop-progress', site, 'proved'); return
    fset = {f.t[0][0] for f in fs.values()}
    # (a) iteration counter bounded by loop-invariant quantities
    for c in cands:
        if c[0] == 'inv': continue
        e = G.canon(c[1])
        k = dict(e.t).get(tsym, 0)
        if k < 0 and not any(s in fset for s in e.syms()) and not G.store.entails_ge(e.subst({tsym: ZERO}) + k * FAR):
            ip.res.add('loop-progress', site, 'proved'); return
    # (b) ranking: some quantity strictly decreases and is bounded below on every back edge
    exprs = [(p, v) for p, v in values.items()]
    for c in cands:
        if c[0] != 'inv': exprs.append((None, c[1]))
    for p, v in exprs:
        for sg in ((1, -1) if p is not None else (1,)):
            good = True
            for (Y, EY), bv in zip(backs, bvals):
                m = {tsym: t + 1}
                for q, f in fs.items():
                    y = bv.get(q)
                    m[f.t[0][0]] = y if y is not None else f
                new = v.subst(m) if p is None or p in incs else bv.get(p)
                if new is None: good = False; break
                if not Y.store.entails_ge((v - new) * sg - 1): good = False; break
                lb = v * sg
                if Y.store.entails_ge(v * sg - FAR): good = False; break
                if p is None and G.store.entails_ge(v.subst({tsym: ZERO}) - FAR): good = False; break
                if p is None:
                    if not Y.store.entails_ge(v): good = False; break
                else:
                    if sg == 1:
                        if not Y.store.entails_ge(v): good = False; break
                    else:
                        # increasing: needs an upper bound that does not change
                        ub = False
                        for c in cands:
                            if c[0] == 'inv': continue
                            e = c[1]
                            d = e + v
                            if not any(s in fset or s == tsym for s in G.canon(d).syms()) and not X.store.entails_ge(d - FAR): ub = True; break
                        if not ub:
                            known = {s for t_ in X.store.ineq for s, _ in t_} | set(X.store.sub)
                            for t_, c_ in Y.store.ineq.items():
                                d = Y.store.canon(Lin(c_, t_) + v) if hasattr(Y.store, 'canon') else Y.canon(Lin(c_, t_) + v)
                                if not any(s in fset or s == tsym or s not in known for s in d.syms()) and not X.store.entails_ge(d - FAR): ub = True; break
                        if not ub: good = False; break
            if good:
                ip.res.add('loop-progress', site, 'proved'); return
    # (c) every iteration consumes external input
    if all(any(e[0] == 'input' for e in Y.ev[len(G.ev):]) for Y, EY in backs):
        ip.res.add('loop-progress', site, 'proved'); return
    noexit(ip, fn, loop, X, EX, arrivals, site)

def noexit(ip, fn, loop, X, EX, arrivals, site):
    """can the loop be shown never to end from some arrival? A set of states closed under the body that no path leaves,
    possibly after restricting the inputs"""
    if not ip.opts.get('check_noexit'):
        ip.res.add('loop-progress', site, 'undecided', 'no ranking found', None, ip.entry); return
    ip.opts['check_noexit'] = False
    try:
        order = []
        for i, (Y0, EY0) in enumerate(arrivals[:16]):
            if Y0.inexact: continue
            with Sink(ip): o, x, b = run_body(ip, fn, loop, Y0.copy(), EY0)
            if b: order.append((len(leaves(o, x)), i))
        order.sort()
        for _, i in order[:8]:
            Y0, EY0 = arrivals[i]
            found = recurrent(ip, fn, loop, Y0, EY0, [], 0)
            if found is None: continue
            if report_noexit(ip, fn, found, site): return
    finally: ip.opts['check_noexit'] = True
    ip.res.add('loop-progress', site, 'undecided', 'no ranking found', None, ip.entry)

def report_noexit(ip, fn, found, site):
    m = found.store.model()
    if m is None: return False
    ip.stack.append((fn, {'fi': REPO + '/' + site.rsplit(':', 1)[0], 'ln': site.rsplit(':', 1)[1] if ':' in site else 0}))
    ip.res.add('loop-progress', site, 'violation', 'loop never ends: no iteration after the first can leave it', ip.show_model(found, m), ip.entry, ip.chain())
    ip.stack.pop()
    return True

def leaves(o, x): return [z[0] for z in o if not is_oom(z)] + [z[2] for z in x]

def recurrent(ip, fn, loop, Y0, EY0, hyps, depth):
    base = Y0.copy()
    for h in hyps:
        if not base.store.add_ge(h): return None
    if not base.store.sat(): return None
    with Sink(ip): o, x, b = run_body(ip, fn, loop, base.copy(), EY0)
    out = leaves(o, x)
    G = base; fs = {}
    if not out and b:
        try: closed, G, fs, out = closure(ip, fn, loop, base, EY0, b)
        except Shape as ex:
            if DEBUG: print('recurrent', ex)
            return None
        if closed: return base
    if not out or depth >= 3 or not b: return None
    # restrict the inputs so that the first way out is impossible
    bd = G.store.bounds() if fs else {}
    fsy = {f.t[0][0] for f in fs.values()}
    known = {s for t in base.store.ineq for s, _ in t} | set(base.store.sub)
    for e in base.store.sub.values(): known |= set(e.syms())
    tried = 0
    Z = out[0]
    conds = [Lin(c, t) for t, c in Z.store.ineq.items() if (t, c) not in set(G.store.ineq.items())]
    for s0, ex in Z.store.sub.items():
        if s0 not in G.store.sub: conds += [S(s0) - ex, ex - S(s0)]
    for L in conds:
        m = {}; ok = True
        for s, k in L.t:
            if s in fsy:
                lo, hi = limits(G, s, bd)
                v = hi if k > 0 else lo
                if v is None: ok = False; break
                m[s] = K(v)
            elif s not in known: ok = False; break
        if not ok: continue
        h = -L.subst(m) - 1
        if not h.t: continue
        tried += 1
        if tried > 4: break
        r = recurrent(ip, fn, loop, Y0, EY0, hyps + [h], depth + 1)
        if r is not None: return r
    return None

def limits(G, s, bd):
    e = S(s); lo = hi = None
    for v in (0, -128, -2**31, -2**63):
        if G.store.entails_ge(e - v): lo = v; break
    for v in (127, 255, 2**15 - 1, 2**16 - 1, 2**31 - 1, 2**32 - 1, MAXOBJ, 2**63 - 1, 2**64 - 2):
        if G.store.entails_ge(K(v) - e): hi = v; break
    return lo, hi

def closure(ip, fn, loop, Y0, EY0, b):
    U = Unify(ip, Y0, EY0)
    for Y, EY in b: U.add(Y, EY)
    cands = None
    for it in range(14):
        vals = {p: fresh('_any') for p in U.slots}
        G, EG = build(ip, U, Y0, EY0, vals)
        if G.inexact: raise Shape('inexact')
        for p, f in vals.items():
            i = U.slots[p][1]
            if i[0] == 'i': G.store.add_ge(f + (1 << (i[1] - 1))); G.store.add_ge((1 << i[1]) - 1 - f)
            elif i[0] in ('size', 'p', 'idx'): G.store.add_ge(f)
        if cands is None:
            cands = set()
            sub = {p: U.slots[p][0] for p in U.slots}
            for p in U.slots:
                for key in (('lo', p, None), ('hi', p, None)): cands.add(key)
                w = U.slots[p][1][1] if U.slots[p][1][0] == 'i' else 64
                for c in (0, 1): cands.add(('cl', p, c))
                for c in (127, 255, 2**31 - 1, 2**32 - 1, MAXOBJ // 32, MAXOBJ): cands.add(('ch', p, c))
                for q in U.slots:
                    if q != p: cands.add(('d', p, q))
            cands = {c for c in cands if Y0.store.entails_ge(cexpr(c, sub, sub))}
        start = {p: U.slots[p][0] for p in U.slots}
        for c in cands: G.store.add_ge(cexpr(c, vals, start))
        if not G.store.sat(): raise Shape('infeasible')
        with Sink(ip): o, x, b = run_body(ip, fn, loop, G.copy(), EG)
        if not b: raise Shape('does not continue')
        U2 = Unify(ip, G, EG); U2.slots = {p: (vals[p], U.slots[p][1]) for p in U.slots}
        U2.tops = dict(U.tops); U2.toparr = set(U.toparr); U2.dropcell = set(U.dropcell)
        bv = []
        for Y, EY in b: bv.append((Y, U2.add(Y, EY)))
        new = {p for p in U2.slots if p not in U.slots} | {p for p in U2.tops if p not in U.tops} | (U2.toparr - U.toparr) | (U2.dropcell - U.dropcell)
        if new:
            for p, (e0, i) in U2.slots.items():
                if p not in U.slots: U.slots[p] = (orig(ip, Y0, EY0, p), i)
            U.tops.update(U2.tops); U.toparr |= U2.toparr; U.dropcell |= U2.dropcell
            for p in list(U.slots):
                if (p[0] in ('hi', 'dl', 'sv') and p[1] in U.toparr) or p in U.tops: del U.slots[p]
            cands = None; continue
        keep = set()
        for c in cands:
            if all(c[1] in v and (c[0] != 'd' or c[2] in v) and Y.store.entails_ge(cexpr(c, v, start)) for Y, v in bv): keep.add(c)
        if keep != cands: cands = keep; continue
        out = leaves(o, x)
        return not out, G, vals, out
    raise Shape('no closure')

def cexpr(c, v, start):
    k, p, q = c
    if k == 'lo': return v[p] - start[p]
    if k == 'hi': return start[p] - v[p]
    if k == 'cl': return v[p] - q
    if k == 'ch': return K(q) - v[p]
    return v[p] - v[q]

def is_oom(z):
    return z[1] == 'unw' and isinstance(z[2], dict) and z[2].get('type') in ('_ZTISt9bad_alloc', '_ZTISt20bad_array_new_length')

def fallback(ip, fn, loop, X, EX, arrivals):
    """imprecise continuation: everything an iteration may change is unknown"""
    site = lsite(ip, fn, loop)
    ip.res.add('loop-summary', site, 'undecided', 'loop not summarised', None, ip.entry)
    outs = []; exits = []
    for Y, EY in arrivals[:3]:
        s = Y.copy(); s.inexact = s.inexact or 'loop at %s not summarised' % site
        with Sink(ip):
            o, x, b = run_body(ip, fn, loop, s, EY)
        for z in o: z[0].inexact = z[0].inexact or 'loop at %s not summarised' % site
        for z in x: z[2].inexact = z[2].inexact or 'loop at %s not summarised' % site
        outs += o; exits += x
    return outs, exits
