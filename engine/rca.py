"""Entry states and observation of String / Array objects (discovered layout)."""
from core import *
import core, models
from lin import K, S, ZERO, ONE, fresh, Lin, sym_name
from ir import AnalysisBroken

class Layout: pass

def lone(outs, what):
    r = [(s, v) for s, k, v in outs if k == 'ret']
    if len(r) != 1: raise AnalysisBroken('%s: expected one outcome, got %d' % (what, len(r)))
    return r[0]

def discover(mod, pre, M=models.Models):
    """field offsets of the container, found by analysing its own accessors on a
    lazily materialised object (so renaming or reordering members is harmless)"""
    L = Layout(); L.pre = pre
    def acc(fn, pick=None):
        ip = Interp(mod, M()); st = State()
        rid = st.add(Region('lazy', 'obj', K(4096), flags={'lazy': True}))
        outs = ip.call_fn(st, 'h_%s_%s' % (pre, fn), [P(rid, ZERO)])
        return ip, rid, [(s, v) for s, k, v in outs if k == 'ret']
    def field(s, v):
        if isinstance(v, I):
            e = v.src[1] if v.src is not None else v.e
            e = s.canon(e)
            if len(e.t) == 1 and e.c == 0: return s.ghost.get(('lazyfield', e.t[0][0]))
        return None
    ip = Interp(mod, M()); st = State()
    s, v = lone(ip.call_fn(st, 'h_%s_sizeof' % pre, []), 'sizeof'); L.size = s.const(v.e)
    ip, rid, outs = acc('length')
    f = {field(s, v) for s, v in outs}
    if len(f) != 1 or None in f: raise AnalysisBroken('length() is not a plain field')
    L.len = f.pop()[1]
    ip, rid, outs = acc('data')
    c = []
    for s, v in outs:
        if isinstance(v, P):
            o = s.canon(v.o)
            br = s.regs[v.r].flags.get('from')
            if not br: continue
            rr = s.regs[br[0]].flags.get('from')
            if not rr or len(o.t) != 1: continue
            lf = s.ghost.get(('lazyfield', o.t[0][0]))
            if lf and lf[0] == rid: c.append((rr[1], br[1], lf[1], o.t[0][1]))
    c = set(c)
    if len(c) != 1: raise AnalysisBroken('data() does not have the form ref->buf + offset')
    L.ref, L.buf, L.off, L.es = c.pop()
    ip, rid, outs = acc('capacity')
    c = {field(s, v) for s, v in outs} - {None}
    c = {x[1] for x in c if x[0] != rid}
    if len(c) != 1: raise AnalysisBroken('capacity() is not a field of the shared block')
    L.cap = c.pop()
    ip, rid, outs = acc('rcount')
    c = {field(s, v) for s, v in outs} - {None}
    c = {x[1] for x in c if x[0] != rid}
    if len(c) != 1: raise AnalysisBroken('rcount() is not a field of the shared block')
    L.refs = c.pop()
    return L

class Obj:
    """analysis-side description of an entry object"""
    def __init__(self): pass

class World:
    """builds entry states for one container instantiation"""
    def __init__(self, mod, pre, M=models.Models):
        self.mod = mod; self.pre = pre
        self.L = discover(mod, pre)
        self.es = self.L.es; self.cls = pre == 'AE'
        self.M = M
        self.find_hash()
        self.template()
    def find_hash(self):
        """offset of the cached hash: the field whose non-zero value hash() returns as is"""
        L = self.L
        ip = Interp(self.mod, self.M()); st = State()
        rid = st.add(Region('lazy', 'obj', K(4096), flags={'lazy': True}))
        # a null shared block avoids walking elements
        L.hash = None
        r = st.w(rid); r.cells[L.ref] = (8, NULL); r.cells[L.len] = (8, ci(0)); r.cells[L.off] = (8, ci(0))
        for s, k, v in ip.call_fn(st, 'h_%s_hash' % self.pre, [P(rid, ZERO)]):
            if k == 'ret' and isinstance(v, I) and v.src is None:
                e = s.canon(v.e)
                if len(e.t) == 1 and e.c == 0:
                    lf = s.ghost.get(('lazyfield', e.t[0][0]))
                    if lf: L.hash = lf[1]
        # no cached hash at all is fine
    def template(self):
        """a default constructed object and one constructed with capacity"""
        ip = Interp(self.mod, self.M()); st = State()
        rid = st.add(Region('obj', 'tmpl', K(self.L.size)))
        s, _ = lone(ip.call_fn(st, 'h_%s_ctor_default' % self.pre, [P(rid, ZERO)]), 'default constructor')
        self.dflt = dict(s.regs[rid].cells)
        st = State()
        n = fresh('n'); st.store.add_ge(n - 1); st.store.add_ge(K(2**40) - n)
        rid = st.add(Region('obj', 'tmpl', K(self.L.size)))
        outs = [(s, v) for s, k, v in ip.call_fn(st, 'h_%s_ctor_size' % self.pre, [P(rid, ZERO), I(n, 64)]) if k == 'ret']
        if len(outs) != 1: raise AnalysisBroken('size constructor: %d outcomes' % len(outs))
        s = outs[0][0]
        o = s.regs[rid]
        self.owned = dict(o.cells)
        ref = o.cells[self.L.ref][1]
        if not isinstance(ref, P): raise AnalysisBroken('size constructor leaves no shared block')
        self.refsize = s.regs[ref.r].size
        self.refcells = {k: v for k, v in s.regs[ref.r].cells.items()}
        self.refalloc = s.regs[ref.r].flags.get('alloc')
        b = self.refcells[self.L.buf][1]
        self.bufalloc = s.regs[b.r].flags.get('alloc')
        self.gl = {g: (rid2, s.regs[rid2]) for g, rid2 in s.globs.items()}
        self.gcache = ip.gcache
    def interp(self, **kw):
        ip = Interp(self.mod, self.M(), **kw)
        ip.gcache = dict(self.gcache)
        return ip
    def state(self):
        st = State()
        for g, (rid, r) in self.gl.items(): st.globs[g] = rid; st.regs[rid] = r
        return st
    # ---- shared blocks
    def block(self, st, name, shared, hassize=True):
        """a shared block with symbolic capacity; returns dict"""
        L = self.L
        cap = fresh(name + '.capacity')
        st.store.add_ge(cap - 1); st.store.add_ge(K(MAXOBJ // self.es) - cap)
        sid = new_src(name, self.es * 8, kind='free')
        ref = Region('heap', name + ' shared block', self.refsize, flags={'alloc': self.refalloc})
        rr = st.add(ref)
        buf = Region('heap', name + ' buffer', cap * self.es, self.es, ((cap, ('src', sid, ZERO)),), flags={'alloc': self.bufalloc})
        if self.cls: buf.flags['cls'] = True
        bb = st.add(buf)
        ref.cells = dict(self.refcells)
        ref.cells[L.cap] = (8, I(cap, 64))
        ref.cells[L.buf] = (8, P(bb, ZERO))
        if shared:
            refs = fresh(name + '.refs')
            st.store.add_ge(refs - 2); st.store.add_ge(K(2**31 - 10) - refs)
            ref.cells[L.refs] = (4, I(refs, 32))
            ph = refs - 1
        else:
            refs = ONE
            ref.cells[L.refs] = (4, ci(1, 32))
            ph = ZERO
        buf.flags['phantom'] = ph
        ref.flags['rc_phantom'] = ph; ref.flags['rc_off'] = L.refs; ref.flags['rc_buf'] = bb
        return dict(ref=rr, buf=bb, cap=cap, sid=sid, refs=refs, ph=ph, name=name)
    def obj(self, st, name, kind, blk=None, hashed=True):
        """kind: null / own / shared / view (second handle on blk)"""
        L = self.L
        r = Region('obj', name, K(L.size))
        o = Obj(); o.name = name; o.kind = kind
        if kind == 'null':
            r.cells = dict(self.dflt); o.rid = st.add(r); o.blk = None
            o.len = ZERO; o.off = ZERO; o.sid = None
            return o
        if blk is None: blk = self.block(st, name, kind == 'shared')
        else:
            # one more known handle on an existing block
            rr = st.w(blk['ref'])
            blk = dict(blk)
            blk['refs'] = blk['refs'] + 1
            rr.cells[L.refs] = (4, I(blk['refs'], 32))
        off = fresh(name + '.offset'); ln = fresh(name + '.length')
        st.store.add_ge(off); st.store.add_ge(ln); st.store.add_ge(blk['cap'] - off - ln)
        r.cells = dict(self.owned)
        r.cells[L.ref] = (8, P(blk['ref'], ZERO))
        r.cells[L.off] = (8, I(off, 64)); r.cells[L.len] = (8, I(ln, 64))
        o.rid = st.add(r); o.blk = blk; o.off = off; o.len = ln; o.sid = blk['sid']
        if L.hash is not None:
            h = fresh(name + '.hash')
            st.store.add_ge(h); st.store.add_ge(K(2**31 - 1) - h)
            st.ghost[('hashof', h.t[0][0])] = (blk['sid'], off, ln)
            rr = st.w(o.rid); rr.cells[L.hash] = (8, I(h, 64))
        return o
    def empty_obj(self, st, name):
        """an object whose shared block has no buffer yet (reserve(0) / resize(0))"""
        L = self.L
        o = Obj(); o.name = name; o.kind = 'empty'
        ref = Region('heap', name + ' shared block', self.refsize, flags={'alloc': self.refalloc})
        ref.cells = dict(self.refcells)
        ref.cells[L.cap] = (8, ci(0)); ref.cells[L.buf] = (8, NULL); ref.cells[L.refs] = (4, ci(1, 32))
        ref.flags['rc_phantom'] = ZERO; ref.flags['rc_off'] = L.refs
        rr = st.add(ref)
        r = Region('obj', name, K(L.size)); r.cells = dict(self.owned)
        r.cells[L.ref] = (8, P(rr, ZERO)); r.cells[L.off] = (8, ci(0)); r.cells[L.len] = (8, ci(0))
        if L.hash is not None: r.cells[L.hash] = (8, ci(0))
        o.rid = st.add(r); o.blk = dict(ref=rr, buf=None, cap=ZERO, sid=None, refs=ONE, ph=ZERO, name=name)
        o.off = ZERO; o.len = ZERO; o.sid = None
        return o
    def raw_obj(self, st, name):
        return st.add(Region('obj', name, K(self.L.size)))
    def item(self, st, name='item', n=ONE, kind='free', const=True):
        """storage for n values of the element type"""
        sid = new_src(name, self.es * 8, kind='free')
        r = Region('ext', name, n * self.es, self.es, ((n, ('src', sid, ZERO)),))
        if self.cls: r.flags['cls'] = True
        if const: r.flags['const'] = True
        return st.add(r), sid
    def cstr(self, st, name='cstr', n=None):
        """NUL-terminated input string in its own storage"""
        n = fresh(name + '.len') if n is None else n
        st.store.add_ge(n); st.store.add_ge(K(MAXOBJ - 1) - n)
        sid = new_src(name, 8, kind='cstr', len=n)
        r = Region('ext', name, n + 1, 1, ((n + 1, ('src', sid, ZERO)),), flags={'const': True})
        return st.add(r), sid, n
    # ---- observation
    def fields(self, st, rid):
        r = st.regs[rid]; L = self.L
        g = lambda o: r.cells.get(o, (0, None))[1]
        return g(L.ref), g(L.off), g(L.len), (g(L.hash) if L.hash is not None else ci(0))
    def view(self, ip, st, rid, where):
        """[(st, dict)]: the content of a container object, checking its invariant"""
        L = self.L
        ref, off, ln, h = self.fields(st, rid)
        out = []
        if ln is None or off is None or ref is None:
            ip.fail(st, 'invalid', '%s: object left unconstructed' % where); return []
        for s1, n in ip.ints(st, ln, 64, False):
            for s2, o in ip.ints(s1, off, 64, False):
                if isinstance(ref, I):
                    if not s2.store.entails_eq(n):
                        ip.fail(s2, 'invalid', '%s: object without storage reports length %s' % (where, s2.canon(n)), [n - 1])
                        if not s2.store.add_eq(n): continue
                    out.append((s2, dict(n=ZERO, segs=(), ref=None, buf=None, off=o, hash=h, refs=None)))
                    continue
                if not isinstance(ref, P): raise Unsupported('unknown shared block pointer %r' % ref)
                rr = s2.regs[ref.r]
                if not rr.live:
                    ip.fail(s2, 'uaf', '%s: object refers to a released shared block' % where); continue
                cap = rr.cells[L.cap][1]; buf = rr.cells[L.buf][1]; refs = rr.cells[L.refs][1]
                for s3, c in ip.ints(s2, cap, 64, False):
                    if isinstance(buf, I):
                        if not s3.store.entails_eq(n):
                            ip.fail(s3, 'invalid', '%s: length without a buffer' % where, [n - 1])
                            if not s3.store.add_eq(n): continue
                        out.append((s3, dict(n=ZERO, segs=(), ref=ref.r, buf=None, off=o, hash=h, refs=refs, cap=c)))
                        continue
                    if not isinstance(buf, P): raise Unsupported('unknown buffer pointer')
                    b = s3.regs[buf.r]
                    if not b.live:
                        ip.fail(s3, 'uaf', '%s: object refers to a released buffer' % where); continue
                    real = div_exact(s3.canon(b.size), self.es)
                    if real is None: raise Unsupported('buffer size')
                    if not s3.store.entails_ge(real - c):
                        ip.fail(s3, 'invalid', '%s: capacity field exceeds the allocation' % where, [c - real - 1])
                        if not s3.store.add_ge(real - c): continue
                    d = real - o - n
                    if not s3.store.entails_ge(d):
                        # may only be exceeded by an empty window
                        ip.fail(s3, 'invalid', '%s: window [%s, +%s) exceeds the buffer of %s elements' % (where, s3.canon(o), s3.canon(n), s3.canon(real)), [-d - 1])
                        if not (s3.store.add_ge(d) and s3.store.sat_after(d.syms())): continue
                    else: ip.res.add('invalid', ip.site(), 'proved')
                    for s4, segs in ip.arr_extract(s3, buf.r, o, o + n):
                        rel = tuple((hi - o, ip.shift_desc(d2, o)) for hi, d2 in segs)
                        out.append((s4, dict(n=n, segs=rel, ref=ref.r, buf=buf.r, off=o, hash=h, refs=refs, cap=c)))
        return out
