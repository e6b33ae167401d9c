"""Analyses one container operation from every class of entry state and compares
the abstract final states with its specification."""
import time, traceback
from core import *
import core, models, loops
from rca import World, AnalysisBroken
from specs import SPECS
from lin import K, S, ZERO, ONE, fresh, Lin, sym_name
from ir import REPO

NPOS = (1 << 64) - 1

class Cx:
    def __init__(self, W, ip, o):
        self.W = W; self.ip = ip; self.op = o; self.n = []; self.objs = {}; self.items = {}; self.ptrs = {}
        self.same = False; self.c = None
    def len(self, x): return self.objs[x].len
    def piece(self, x, lo=None, hi=None):
        o = self.objs[x]
        lo = ZERO if lo is None else lo
        hi = o.len if hi is None else hi
        return (hi - lo, 'src', o.sid, o.off + lo)
    def one(self, v):
        sid, i = self.items[v]; return (ONE, 'src', sid, i)
    def rep(self, v):
        sid, i = self.items[v]; return ('rep', sid, i)
    def ptr(self, p): return self.ptrs[p]
    def sstr(self, st):
        rid, n = models.sstr(self.ip, st, P(self.ssrid, ZERO))
        segs = st.regs[rid].arr
        return (n, 'src', segs[0][1][1], ZERO)
    def cases(self, st, *conds):
        """first condition (Lin >= 0) that holds; index len(conds) if none"""
        rest = [st]
        for i, c in enumerate(conds):
            nr = []
            for s in rest:
                for s2 in self.ip.split_ge(s.copy(), c, True): yield s2, i
                nr.extend(self.ip.split_ge(s, -c - 1, True))
            rest = nr
        for s in rest: yield s, len(conds)

# ------------------------------------------------------------ sequences
def eq_val(ip, st, x, y, kind, msg):
    """x, y values of one element; True if equal"""
    if isinstance(x, I) and isinstance(y, I):
        for s1, a in ip.raw(st, x):
            for s2, b in ip.raw(s1, y):
                M = 1 << x.w
                d = s2.canon(a - b)
                if not d.t:
                    if d.c % M == 0: continue
                    ip.fail(s2, kind, msg); return False
                if s2.store.entails_eq(d): continue
                # both are in canonical unsigned range in practice
                r = []
                for s3, u in ip.norm(s2, a, x.w, False):
                    for s4, v in ip.norm(s3, b, x.w, False):
                        for e in (u - v - 1, v - u - 1):
                            if not s4.store.entails_ge(-e - 1): ip.fail(s4, kind, msg, [e]); r.append(1)
                if r: return False
        return True
    if x == y: return True
    ip.res.add(kind, ip.site(), 'undecided', msg + ' (value not tracked: %r vs %r)' % (x, y), None, ip.entry)
    return False

def seq_equal(cx, st, n, segs, pieces, kind, what, exact_len=True):
    """segs: ((hi, desc)...) actual content of length n; pieces expected"""
    ip = cx.ip; es = cx.W.es
    tot = ZERO
    exp = []
    for p in pieces:
        exp.append((tot, tot + p[0], p)); tot = tot + p[0]
    d = n - tot
    ok = True
    if exact_len and not st.store.entails_eq(d):
        for e, w in ((d - 1, 'longer'), (-d - 1, 'shorter')):
            if not st.store.entails_ge(-e - 1):
                ip.fail(st, kind, '%s: length %s, expected %s' % (what, st.canon(n), st.canon(tot)), [e])
        if not st.store.add_eq(d): return False
        ok = False
    work = [(st, 0, 0, ZERO)]
    guard = 0
    while work:
        s, i, j, cur = work.pop()
        guard += 1
        if guard > 400: raise Unsupported('sequence comparison too large')
        sto = s.store
        if i >= len(segs) or j >= len(exp): continue
        ahi, ad = segs[i]; elo, ehi, ep = exp[j]
        if sto.entails_ge(cur - ahi): work.append((s, i + 1, j, cur)); continue
        if sto.entails_ge(cur - ehi): work.append((s, i, j + 1, cur)); continue
        if not sto.entails_ge(ahi - cur - 1):
            for s2 in ip.split_ge(s.copy(), ahi - cur - 1, True): work.append((s2, i, j, cur))
            for s2 in ip.split_ge(s, cur - ahi, True): work.append((s2, i + 1, j, cur))
            continue
        if not sto.entails_ge(ehi - cur - 1):
            for s2 in ip.split_ge(s.copy(), ehi - cur - 1, True): work.append((s2, i, j, cur))
            for s2 in ip.split_ge(s, cur - ehi, True): work.append((s2, i, j + 1, cur))
            continue
        if not compat(cx, s, ad, cur, ep, elo, kind, what, ahi, ehi): ok = False; continue
        for s2 in ip.split_ge(s.copy(), ehi - ahi, True): work.append((s2, i + 1, j, ahi))
        for s2 in ip.split_ge(s, ahi - ehi - 1, True): work.append((s2, i, j + 1, ehi))
    if ok: ip.res.add(kind, ip.site(), 'proved')
    return ok

def src_name(s, sid, idx): return '%s[%s]' % (SRC[sid]['name'], s.canon(idx))
def compat(cx, s, ad, cur, ep, elo, kind, what, ahi, ehi):
    ip = cx.ip; es = cx.W.es; w = es * 8
    k = ep[1]
    where = '%s: element %s' % (what, s.canon(cur))
    if k == 'any':
        if cx.W.cls and ad[0] in ('raw', 'dead'):
            ip.fail(s, 'elem', where + ' was never constructed'); return False
        return True
    if ad[0] == 'top':
        ip.res.add(kind, ip.site(), 'undecided', where + ' is not tracked', None, ip.entry); return False
    if ad[0] in ('raw', 'dead', 'mvd', 'def'):
        nm = {'raw': 'uninitialised', 'dead': 'destroyed', 'mvd': 'moved-from', 'def': 'default constructed'}[ad[0]]
        ip.fail(s, kind, '%s is %s' % (where, nm)); return False
    if k == 'src':
        sid, start = ep[2], ep[3]
        delta = start - elo
        if ad[0] == 'src' and ad[1] == sid:
            df = s.canon(ad[2] - delta)
            if s.store.entails_eq(df): return True
            if not cx.W.cls and single(s, cur, ahi, ehi):
                good = True
                for e in (df - 1, -df - 1):
                    for s2 in ip.split_ge(s.copy(), e, True):
                        if not eq_val(ip, s2, ip.elem_val(s2, sid, cur + ad[2], w), ip.elem_val(s2, sid, cur + delta, w), kind, '%s is %s, expected %s' % (where, src_name(s2, sid, cur + ad[2]), src_name(s2, sid, cur + delta))): good = False
                return good
            bad = False
            for e in (df - 1, -df - 1):
                if not s.store.entails_ge(-e - 1):
                    ip.fail(s, kind, '%s is %s, expected %s' % (where, src_name(s, sid, cur + ad[2]), src_name(s, sid, cur + delta)), [e]); bad = True
            return not bad
        if ad[0] == 'src':
            if not cx.W.cls and single(s, cur, ahi, ehi):
                return eq_val(ip, s, ip.elem_val(s, ad[1], cur + ad[2], w), ip.elem_val(s, sid, cur + delta, w), kind, '%s is %s, expected %s' % (where, src_name(s, ad[1], cur + ad[2]), src_name(s, sid, cur + delta)))
            if cx.W.cls and single(s, cur, ahi, ehi):
                pass
            ip.fail(s, kind, '%s is %s, expected %s' % (where, src_name(s, ad[1], cur + ad[2]), src_name(s, sid, cur + delta))); return False
        v = ad[1]
        if isinstance(v, tuple) and v[0] == 'elem':
            if v[1] == sid and s.store.entails_eq(v[2] - cur - delta) and single(s, cur, ahi, ehi): return True
            ip.fail(s, kind, '%s is %s, expected %s' % (where, src_name(s, v[1], v[2]), src_name(s, sid, cur + delta))); return False
        return eq_val(ip, s, v, ip.elem_val(s, sid, cur + delta, w), kind, '%s differs from %s' % (where, src_name(s, sid, cur + delta)))
    if k == 'rep':
        sid, idx = ep[2], ep[3]
        if cx.W.cls:
            v = ad[1] if ad[0] == 'val' else None
            if ad[0] == 'src' and single(s, cur, ahi, ehi) and ad[1] == sid and s.store.entails_eq(cur + ad[2] - idx): return True
            if isinstance(v, tuple) and v[0] == 'elem' and v[1] == sid and s.store.entails_eq(v[2] - idx): return True
            ip.fail(s, kind, '%s is not a copy of the given value' % where); return False
        if ad[0] == 'src':
            return eq_val(ip, s, ip.elem_val(s, ad[1], cur + ad[2], w), ip.elem_val(s, sid, idx, w), kind, '%s is %s, expected the given value' % (where, src_name(s, ad[1], cur + ad[2])))
        return eq_val(ip, s, ad[1], ip.elem_val(s, sid, idx, w), kind, '%s is not the given value' % where)
    if k == 'c':
        v = ad[1] if ad[0] == 'val' else ip.elem_val(s, ad[1], cur + ad[2], w)
        return eq_val(ip, s, v, ep[2], kind, '%s is not the given character' % where)
    raise Unsupported('piece ' + k)
def single(s, cur, ahi, ehi): return s.store.entails_ge(cur + 1 - ahi) or s.store.entails_ge(cur + 1 - ehi)

# ------------------------------------------------------------ entry states
def partitions(o):
    ps = o.params
    ak = [None]
    if any(p in ('a', 'ac') for p in ps): ak = o.akinds or ['null', 'empty', 'own', 'shared']
    bk = [None]
    if any(p in ('b', 'bm') for p in ps): bk = o.bkinds or ['null', 'own', 'shared', 'empty', 'view', 'same']
    vk = [None]
    if 'v' in ps and ak != [None]: vk = ['ext', 'alias']
    if any(p in ('pz',) for p in ps): vk = ['ext', 'alias']
    if any(p in ('cs',) for p in ps): vk = ['ext', 'alias'] if ak != [None] else ['ext']
    for a in ak:
        for b in bk:
            for v in vk:
                if b == 'same' and ak == [None]: continue
                if b == 'same' and 'bm' in ps and 'selfok' not in o.tags: continue
                if b == 'view' and a not in ('own', 'shared'): continue
                if b == 'empty' and a not in (None, 'own'): continue
                if a == 'empty' and b not in (None, 'own', 'same', 'null'): continue
                if v == 'alias' and a not in ('own', 'shared'): continue
                if v == 'alias' and b in ('same',): continue
                yield (a, b, v)

def setup(W, o, part, conc=False, budget=150000):
    ak, bk, vk = part
    ip = W.interp(budget=budget, conc=conc)
    ip.entry = 'h_%s_%s [%s]' % (W.pre, o.name, ', '.join('%s %s' % (x, y) for x, y in zip(('object', 'operand', 'value'), part) if y))
    cx = Cx(W, ip, o)
    st = W.state()
    args = []
    if ak:
        if ak == 'empty': cx.objs['a'] = W.empty_obj(st, 'a')
        else: cx.objs['a'] = W.obj(st, 'a', ak)
    if bk:
        if bk == 'same': cx.objs['b'] = cx.objs['a']; cx.same = True
        elif bk == 'view': cx.objs['b'] = W.obj(st, 'b', 'view', cx.objs['a'].blk)
        elif bk == 'empty': cx.objs['b'] = W.empty_obj(st, 'b')
        else: cx.objs['b'] = W.obj(st, 'b', bk)
    cx.entry_objs = {}
    for k, x in cx.objs.items():
        if not (k == 'b' and cx.same): cx.entry_objs[k] = x
    cx.raw = {}
    for p in o.params:
        if p in ('a', 'ac'): args.append(P(cx.objs['a'].rid, ZERO))
        elif p in ('b', 'bm'): args.append(P(cx.objs['b'].rid, ZERO))
        elif p == 'r': cx.raw['r'] = W.raw_obj(st, 'result'); args.append(P(cx.raw['r'], ZERO))
        elif p == 'rv':
            r = Region('ext', 'result value', K(W.es), W.es, ((ONE, ('raw',)),))
            if W.cls: r.flags['cls'] = True
            cx.rv = st.add(r); args.append(P(cx.rv, ZERO))
        elif p in ('n', 'sn', 'i'):
            nm = {0: 'n0', 1: 'n1', 2: 'n2', 3: 'n3'}[len(cx.n)]
            x = fresh(nm)
            if p == 'n': st.store.add_ge(x); st.store.add_ge(K(NPOS) - x); args.append(I(x, 64))
            elif p == 'sn': st.store.add_ge(x + (1 << 63)); st.store.add_ge(K((1 << 63) - 1) - x); args.append(I(x, 64))
            else: st.store.add_ge(x + (1 << 31)); st.store.add_ge(K((1 << 31) - 1) - x); args.append(I(x, 32))
            cx.n.append(x)
        elif p == 'c':
            x = fresh('ch'); st.store.add_ge(x); st.store.add_ge(255 - x); cx.c = I(x, 8); args.append(I(x, 8))
        elif p in ('v', 'vm', 'vo'):
            if vk == 'alias' and p == 'v':
                j = fresh('j'); a = cx.objs['a']
                st.store.add_ge(j); st.store.add_ge(a.len - 1 - j)
                if not st.store.sat(): return None
                cx.items['v'] = (a.sid, a.off + j); args.append(P(a.blk['buf'], (a.off + j) * W.es))
            else:
                rid, sid = W.item(st, 'item', const=(p == 'v'))
                cx.items['v'] = (sid, ZERO); cx.vrid = rid; args.append(P(rid, ZERO))
        elif p in ('p', 'pz', 'pe', 'il'):
            k = fresh('count')
            st.store.add_ge(k); st.store.add_ge(K(MAXOBJ // W.es - 1) - k)
            if vk == 'alias':
                j = fresh('j'); a = cx.objs['a']
                st.store.add_ge(j); st.store.add_ge(a.len - j - k)
                SRC[a.sid]['nonul'] = True
                ptr = P(a.blk['buf'], (a.off + j) * W.es); cx.ptrs['p'] = (k, 'src', a.sid, a.off + j)
            else:
                rid, sid = W.item(st, 'input', n=k)
                if p == 'pz': SRC[sid]['nonul'] = True
                ptr = P(rid, ZERO); cx.ptrs['p'] = (k, 'src', sid, ZERO)
            if p in ('p', 'pz'): args += [ptr, I(k, 64)]
            elif p == 'pe': args += [ptr, P(ptr.r, ptr.o + k * W.es)]
            else:
                il = Region('ext', 'initializer_list', K(16)); il.cells = {0: (8, ptr), 8: (8, I(k, 64))}; il.flags['const'] = True
                args.append(P(st.add(il), ZERO))
        elif p == 'cs':
            if vk == 'alias':
                # the object's own characters, terminated right behind its contents
                a = cx.objs['a']; j = fresh('j')
                st.store.add_ge(j); st.store.add_ge(a.len - j)
                st.store.add_ge(a.blk['cap'] - a.off - a.len - 1)
                SRC[a.sid]['kind'] = 'cstr'; SRC[a.sid]['len'] = a.off + a.len
                cx.ptrs['p'] = (a.len - j, 'src', a.sid, a.off + j)
                args.append(P(a.blk['buf'], a.off + j))
            else:
                rid, sid, n = W.cstr(st)
                cx.ptrs['p'] = (n, 'src', sid, ZERO); args.append(P(rid, ZERO))
        elif p in ('ss', 'sso'):
            cx.ssrid = st.add(Region('ext', 'std::string', K(32)))
            if p == 'ss': models.sstr(ip, st, P(cx.ssrid, ZERO))
            args.append(P(cx.ssrid, ZERO))
        elif p == 'dst':
            n = fresh('n0'); st.store.add_ge(n); st.store.add_ge(K(NPOS) - n); cx.n.append(n)
            room = fresh('room'); st.store.add_ge(room); st.store.add_ge(K(MAXOBJ) - room)
            # the caller provides room for min(n, length) characters
            a = cx.objs['a']; cx.dst_room = room
            r = Region('ext', 'destination', room, 1, ((room, ('raw',)),)); cx.dst = st.add(r)
            args += [P(cx.dst, ZERO), I(n, 64)]
            cx.prestates = [s2 for s1, c in cx.cases(st.copy(), a.len - n) for s2 in ip.split_eq(s1, room - (n if c == 0 else a.len), True)]
        else: raise AnalysisBroken('unknown parameter kind ' + p)
    if o.pre:
        for e in o.pre(cx, st):
            if not st.store.add_ge(e): return None
    if not st.store.sat(): return None
    return cx, st, args

def opsite(mod, fname):
    """file:line of the repository function an entry wrapper exercises"""
    f = mod.funcs[fname]
    best = None
    for blk in f.blocks:
        for ins in blk:
            if ins['op'] in ('call', 'invoke') and 'fn' in ins:
                g = mod.funcs.get(ins['fn'])
                if g and not g.decl and g.file and g.file.startswith(REPO + '/'):
                    best = '%s:%s (%s)' % (g.file[len(REPO) + 1:], g.line, short(g.dem))
                    if '~' in g.dem: continue
                    return best
    return best or fname

def is_oor(exc): return (exc or {}).get('type') == '_ZTISt12out_of_range'
def is_oom(exc): return (exc or {}).get('type') in ('_ZTISt9bad_alloc', '_ZTISt20bad_array_new_length', '_ZTISt12length_error')

def run_one(W, o, part, conc=False, check=True, opts=None, budget=150000, hook=None, seconds=None):
    """returns Results for one entry state class"""
    r = setup(W, o, part, conc, budget)
    if r is None: return None
    cx, st, args = r
    ip = cx.ip
    if opts: ip.opts.update(opts)
    if seconds: ip.deadline = time.time() + seconds
    ip.default_site = opsite(W.mod, 'h_%s_%s' % (W.pre, o.name))
    cx.entry_regs = set(st.regs)
    if 'range' in o.tags:
        # undefined behaviour reached with a position that had to be rejected
        def on_fail(s, kind, msg, extra):
            ip.on_fail = None
            try:
                for s1, exp in o.spec(cx, s.copy()):
                    if exp.get('throw') and s1.store.sat():
                        ip.fail(s1, 'throw', 'a position beyond the end is not rejected: ' + msg, extra); break
            finally: ip.on_fail = on_fail
        ip.on_fail = on_fail
    try:
        outs = []
        for st0 in getattr(cx, 'prestates', [st]):
            outs += ip.call_fn(st0, 'h_%s_%s' % (W.pre, o.name), args)
        nout = 0
        for s, kind, v in outs:
            if not s.store.sat(): continue
            nout += 1
            if kind == 'exit': continue
            if check: finish(cx, s, kind, v)
            if conc: dropped(cx, s, kind, v)
            if hook: hook(cx, s, kind, v)
        ip.res.notes.append(('outcomes', ip.entry, nout, ip.steps))
    except Budget:
        ip.res.add('analysis', ip.default_site, 'undecided', 'budget exhausted', None, ip.entry)
    except Unsupported as e:
        ip.res.add('analysis', ip.default_site, 'undecided', 'unsupported: %s' % e, None, ip.entry)
    except RecursionError:
        ip.res.add('analysis', ip.default_site, 'undecided', 'recursion', None, ip.entry)
    ip.res.visited = ip.visited
    return ip.res

def dropped(cx, s, kind, v):
    """the thread that drops the last reference releases the block"""
    ip = cx.ip
    if kind == 'unw' and is_oom(v): return
    for x in cx.entry_objs.values():
        if not x.blk: continue
        r = s.regs.get(x.blk['ref']); ph = r.flags.get('rc_phantom') if r else None
        if r is None or ph is None or not r.live: continue
        c = r.cells.get(cx.W.L.refs, (0, None))[1]
        if not (isinstance(c, I) and c.src is None): continue
        own = s.canon(c.e - ph)
        if s.const(own) == 0 and not s.store.entails_ge(ph - 1):
            ip.fail(s, 'race', 'the last reference to %s may be given up without releasing it (another thread drops its own at the same time)' % r.name, [-ph])
        elif s.const(own) is not None: ip.res.add('race', ip.site(), 'proved')
def finish(cx, s, kind, v):
    ip = cx.ip; o = cx.op
    if kind == 'unw' and is_oom(v):
        return
    for s1, exp in o.spec(cx, s.copy()):
        if not s1.store.sat(): continue
        want = exp.get('throw')
        if kind == 'unw':
            if is_oor(v) and (want or exp.get('maythrow')):
                ip.res.add('throw', ip.site(), 'proved')
                check_objs(cx, s1, {}, True)
                continue
            if is_oor(v): ip.fail(s1, 'throw', 'valid arguments rejected with std::out_of_range')
            else: ip.fail(s1, 'throw', 'unexpected exception %s' % models.exc_name(v))
            continue
        if want:
            ip.fail(s1, 'throw', 'a position beyond the end is accepted instead of throwing std::out_of_range'); continue
        if 'range' in o.tags: ip.res.add('throw', ip.site(), 'proved')
        check_objs(cx, s1, exp, False)
        if 'ret' in exp: check_ret(cx, s1, v, exp['ret'])

def check_objs(cx, s, exp, threw):
    ip = cx.ip; W = cx.W
    dead = exp.get('dead', ())
    mutated = set()
    for name, ob in cx.entry_objs.items():
        if name in dead: continue
        e = exp.get(name)
        if name == 'a' and e is None and cx.same and exp.get('b') is not None: e = exp['b']
        kind = 'content'
        if e is None:
            kind = 'content' if name == 'a' and not is_const_a(cx) else 'other'
            if threw: kind = 'throw-changed'
            e = [cx.piece(name)] if ob.sid is not None else []
        for s2, vw in W.view(ip, s.copy(), ob.rid, name):
            if e == 'valid': constructed(cx, s2, vw, name); continue
            if e == 'prefix':
                n0 = ob.len
                if not s2.store.entails_ge(vw['n'] - n0): ip.fail(s2, 'content', '%s: elements lost' % name, [n0 - vw['n'] - 1])
                seq_equal(cx, s2, vw['n'], vw['segs'], [cx.piece(name)] if ob.sid is not None else [], 'content', name, exact_len=False); continue
            es = [p for p in e if p is not None]
            seq_equal(cx, s2.copy(), vw['n'], vw['segs'], es, kind, "contents of '%s'" % name)
            check_hash(cx, s2, vw, name)
            if exp.get('cap') and exp['cap'][0] == name: check_cap(cx, s2, vw, exp['cap'][1])
    if 'r' in cx.raw and not threw:
        e = exp.get('r', [])
        for s2, vw in W.view(ip, s.copy(), cx.raw['r'], 'result'):
            if e == 'valid': constructed(cx, s2, vw, 'result'); continue
            seq_equal(cx, s2.copy(), vw['n'], vw['segs'], e, 'content', 'result')
            check_hash(cx, s2, vw, 'result')
            if exp.get('cap') and exp['cap'][0] == 'r': check_cap(cx, s2, vw, exp['cap'][1])
    if 'rv' in exp and not threw: check_value(cx, s, cx.rv, exp['rv'], 'result')
    if 'v' in exp and not threw: check_value(cx, s, cx.vrid, exp['v'], 'output value')
    check_refs(cx, s, dead, threw)

def check_value(cx, s, rid, piece, what):
    s = s.copy()
    arr = s.regs[rid].arr
    seq_equal(cx, s, ONE, arr, [piece], 'content', what)

def is_const_a(cx): return 'ac' in cx.op.params
def check_cap(cx, s, vw, n):
    ip = cx.ip
    c = vw.get('cap', ZERO)
    if s.store.entails_ge(c - n): ip.res.add('content', ip.site(), 'proved'); return
    ip.fail(s, 'content', 'capacity %s is below the requested %s' % (s.canon(c), s.canon(n)), [n - c - 1])
def constructed(cx, s, vw, name):
    if not cx.W.cls: return
    lo = ZERO
    for hi, d in vw['segs']:
        if d[0] in ('raw', 'dead') and not s.store.entails_ge(lo - hi):
            cx.ip.fail(s, 'elem', "contents of '%s' include unconstructed elements" % name, [hi - lo - 1])
        lo = hi
def check_hash(cx, s, vw, name):
    W = cx.W; ip = cx.ip
    if W.L.hash is None: return
    h = vw['hash']
    if h is None or not isinstance(h, I):
        ip.fail(s, 'hash', "cached hash of '%s' is not initialised" % name); return
    for s1, e in ip.ints(s, h, 64, False):
        if s1.store.entails_eq(e): ip.res.add('hash', ip.site(), 'proved'); continue
        e = s1.canon(e)
        tag = s1.ghost.get(('hashof', e.t[0][0])) if len(e.t) == 1 and e.c == 0 and e.t[0][1] == 1 else None
        for s2 in ip.split_ge(s1.copy(), e - 1, True):
            if tag is None:
                ip.res.add('hash', ip.site(), 'undecided', "cached hash of '%s' has unknown origin" % name, None, ip.entry); continue
            sid, off, ln = tag
            seq_equal(cx, s2, vw['n'], vw['segs'], [(ln, 'src', sid, off)], 'hash', "cached hash of '%s' kept although its contents changed" % name)

def handles(cx, s, dead, threw):
    """live container objects and the shared block each refers to"""
    L = cx.W.L
    out = []
    for name, ob in cx.entry_objs.items():
        if name not in dead: out.append((name, ob.rid))
    if 'r' in cx.raw and not threw: out.append(('result', cx.raw['r']))
    return out
def check_refs(cx, s, dead, threw):
    W = cx.W; L = W.L; ip = cx.ip
    cnt = {}
    reach = set()
    for name, rid in handles(cx, s, dead, threw):
        ref = s.regs[rid].cells.get(L.ref, (0, None))[1]
        if isinstance(ref, P): cnt.setdefault(ref.r, []).append(name)
    blocks = set(cnt)
    for ob in cx.entry_objs.values():
        if ob.blk: blocks.add(ob.blk['ref'])
    for b in blocks:
        r = s.regs[b]
        ph = r.flags.get('rc_phantom', ZERO)
        n = len(cnt.get(b, ()))
        if not r.live:
            if n: ip.fail(s, 'uaf', 'shared block released while %s still refers to it' % ', '.join(cnt[b]))
            elif not s.store.entails_ge(-ph): ip.fail(s, 'free-shared', 'shared block released while other objects use it', [ph - 1])
            continue
        if n == 0 and not s.store.entails_ge(ph - 1):
            ip.fail(s, 'leak', 'shared block %s is no longer referenced but never released' % r.name, [-ph])
            continue
        val = r.cells[L.refs][1]
        for s1, x in ip.ints(s.copy(), val, 32, True):
            d = x - ph - n
            if s1.store.entails_eq(d): ip.res.add('refcount', ip.site(), 'proved')
            else:
                for e in (d - 1, -d - 1):
                    if not s1.store.entails_ge(-e - 1):
                        ip.fail(s1, 'refcount', 'reference count %s but %s objects use the block' % (s1.canon(x), s1.canon(ph + n)), [e])
        reach.add(b)
        bf = r.cells[L.buf][1]
        if isinstance(bf, P): reach.add(bf.r)
    for rid, r in s.regs.items():
        if r.kind == 'heap' and r.live and rid not in reach and rid not in blocks:
            if r.flags.get('returned'): continue
            ph = r.flags.get('phantom')
            if ph is not None and not s.store.entails_ge(-ph): continue
            if rid in cx.entry_regs and ph is None: continue
            if getattr(cx, 'returned_ok', None) == rid: continue
            if 'dup' == cx.op.name: continue
            ip.fail(s, 'leak', '%s is never released' % r.name)
    ip.res.add('leak', ip.site(), 'proved')

def check_ret(cx, s, v, want):
    ip = cx.ip; W = cx.W; L = W.L
    k = want[0]
    if k == 'int':
        for s1, e in ip.ints(s, v, 64, False):
            d = e - want[1]
            if s1.store.entails_eq(d): ip.res.add('result', ip.site(), 'proved'); continue
            for x in (d - 1, -d - 1):
                if not s1.store.entails_ge(-x - 1): ip.fail(s1, 'result', 'returns %s, expected %s' % (s1.canon(e), s1.canon(want[1])), [x])
        return
    if k == 'cond':
        c = ip.to_cond(s, v)
        for s1, i in cx.cases(s, want[1]):
            bad = ip.assume(s1.copy(), c, i != 0)
            for s2 in bad: ip.fail(s2, 'result', 'returns %s where the opposite is documented' % (i != 0))
            if not bad: ip.res.add('result', ip.site(), 'proved')
        return
    if k == 'ptr0':
        # null stands for a read-only result
        if not isinstance(v, P): ip.res.add('cow-ref', ip.site(), 'proved'); return
        k = 'ptr'
    if k == 'ptr':
        ob = cx.objs[want[1]]; idx = want[2]; mut = want[3]
        for s1, vw in W.view(ip, s, ob.rid, want[1]):
            if vw['buf'] is None:
                # no storage: any null pointer will do for an empty object
                if isinstance(v, P): 
                    st2 = s1.regs[v.r]
                    if not st2.live or st2.kind == 'heap': ip.fail(s1, 'result', 'returns a pointer outside the object')
                continue
            if not isinstance(v, P):
                if s1.store.entails_eq(vw['n']): continue
                ip.fail(s1, 'result', 'returns a null pointer for a non-empty object', [vw['n'] - 1]); continue
            if v.r != vw['buf']:
                ip.fail(s1, 'result' if s1.regs[v.r].live else 'uaf', 'returns a pointer into %s, which is not the object\'s current storage' % s1.regs[v.r].name); continue
            d = v.o - (vw['off'] + idx) * W.es
            if s1.store.entails_eq(d): ip.res.add('result', ip.site(), 'proved')
            else:
                for x in (d - 1, -d - 1):
                    if not s1.store.entails_ge(-x - 1): ip.fail(s1, 'result', 'returns a pointer to element %s of the buffer, expected %s' % (s1.canon(v.o), s1.canon((vw['off'] + idx) * W.es)), [x])
            if mut:
                ph = s1.regs[v.r].flags.get('phantom', ZERO)
                if not s1.store.entails_ge(-ph):
                    # an empty range gives no access
                    ip.fail(s1, 'cow-ref', 'hands out a modifiable reference into storage that other objects share', [ph - 1, vw['n'] - 1])
                else:
                    for nm, rid in handles(cx, s1, (), False):
                        if rid == ob.rid: continue
                        ref = s1.regs[rid].cells.get(L.ref, (0, None))[1]
                        if isinstance(ref, P) and ref.r == vw['ref']: ip.fail(s1, 'cow-ref', 'hands out a modifiable reference into storage shared with %s' % nm, [vw['n'] - 1])
                    ip.res.add('cow-ref', ip.site(), 'proved')
        return
    if k == 'elem':
        ob = cx.objs[want[1]]
        eq_val(ip, s, v, ip.elem_val(s, ob.sid, ob.off + want[2], W.es * 8), 'result', 'returns a different element') if ob.sid is not None else None
        return
    if k == 'cstr':
        ob = cx.objs[want[1]]
        if not isinstance(v, P): ip.fail(s, 'cstr', 'c_str returns a null pointer'); return
        n = ob.len
        for s1, q in ip.access(s, v, n + 1, False, ' (characters and terminator of c_str)'):
            r = s1.regs[q.r]
            if r.arr is None:
                if not s1.store.entails_eq(n): ip.res.add('cstr', ip.site(), 'undecided', 'untracked storage', None, ip.entry); continue
                for s2, c in ip.load(s1, q, 1, 'i8', 8): eq_val(ip, s2, c, ci(0, 8), 'cstr', 'c_str of an empty string is not terminated')
                if r.kind not in ('heap', 'global'): ip.fail(s1, 'cstr', 'c_str returns a pointer to %s' % r.name)
                else: ip.res.add('cstr', ip.site(), 'proved')
                continue
            for s2, segs in ip.arr_extract(s1, q.r, q.o, q.o + n + 1):
                rel = tuple((hi - q.o, ip.shift_desc(d, q.o)) for hi, d in segs)
                pcs = ([cx.piece(want[1])] if ob.sid is not None else []) + [(ONE, 'c', ci(0, 8))]
                seq_equal(cx, s2, n + 1, rel, pcs, 'cstr', 'c_str')
            # the memory must stay valid: owned by the object or static
            if r.kind not in ('heap', 'global'): ip.fail(s1, 'cstr', 'c_str returns a pointer to %s' % r.name)
        return
    if k == 'dup':
        ob = cx.objs[want[1]]; n = ob.len
        if not isinstance(v, P): ip.fail(s, 'content', 'dup returns null'); return
        for s1, q in ip.access(s, v, n + 1, False, ' (dup result)'):
            if s1.regs[q.r].kind != 'heap': ip.fail(s1, 'content', 'dup result is not a fresh allocation'); continue
            for s2, segs in ip.arr_extract(s1, q.r, q.o, q.o + n + 1):
                rel = tuple((hi - q.o, ip.shift_desc(d, q.o)) for hi, d in segs)
                pcs = ([cx.piece(want[1])] if ob.sid is not None else []) + [(ONE, 'c', ci(0, 8))]
                seq_equal(cx, s2, n + 1, rel, pcs, 'content', 'dup')
        return
    if k == 'sstr':
        ob = cx.objs[want[1]]
        g = s.ghost.get(('sstr', cx.ssrid, 0))
        if g is None: ip.res.add('content', ip.site(), 'undecided', 'std::string result not tracked', None, ip.entry); return
        rid, n = g
        for s2, segs in ip.arr_extract(s, rid, ZERO, n):
            seq_equal(cx, s2, n, segs, [cx.piece(want[1])] if ob.sid is not None else [], 'content', 'std::string')
        return
    if k == 'copied':
        ob = cx.objs[want[1]]; n = want[2]
        check_ret(cx, s.copy(), v, ('int', n))
        for s2, segs in ip.arr_extract(s, cx.dst, ZERO, n):
            seq_equal(cx, s2, n, segs, [cx.piece(want[1], ZERO, n)] if ob.sid is not None else [], 'content', 'copy')
        return
    raise Unsupported('ret ' + k)
