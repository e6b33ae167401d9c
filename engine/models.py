"""Transfer functions for library calls (C++ allocator/algorithms, libc, element
special members).  A handler takes (ip, st, args, ins, fn) and returns a list
of outcomes (state, 'ret'|'unw'|'exit', value)."""
import re
from core import *
import core
from lin import K, S, ZERO, ONE, fresh, Lin

def ret(st, v=None): return [(st, 'ret', v)]

CON = ('src', 'val', 'def', 'mvd', 'top')

def as_lin(ip, st, v, w=64, signed=False):
    return ip.ints(st, v, w, signed)

class Models:
    def __init__(self):
        self.elem_struct = {'Elem': 8, 'struct.Elem': 8}
        self.by_name = {}
        self.by_re = []
        self.overrides = {}
        register(self)
    def name(self, n, h): self.by_name[n] = h
    def rx(self, r, h): self.by_re.append((re.compile(r), h))
    def lookup(self, fn):
        h = self.overrides.get(fn.name)
        if h: return h
        h = self.by_name.get(fn.name)
        if h: return h
        if not fn.decl and not (fn.file or '').startswith('/usr/'):
            # repository code is always analysed, never modelled
            if fn.dem not in self.overrides: return None
        h = self.overrides.get(fn.dem) or self.by_name.get(fn.dem)
        if h: return h
        for r, h in self.by_re:
            if r.search(fn.dem): return h
        return None
    def unknown(self, ip, st, args, ins, fn):
        if fn.name.startswith('llvm.dbg') or fn.name.startswith('llvm.lifetime') or fn.name.startswith('llvm.assume') \
           or fn.name.startswith('llvm.experimental.noalias') or fn.name.startswith('llvm.stack'):
            return ret(st, None)
        raise Unsupported('no model for ' + fn.dem)

    # ------------------------------------------------ memory instructions
    def load(self, ip, st, p, ins):
        size = ins['size']; t = ins['t']; w = ins.get('w', size * 8)
        if ins.get('ord', 'na') != 'na': return self.atomic_load(ip, st, p, size, t, w, ins)
        if ip.conc: self.plain(ip, st, p, 'read')
        out = []
        for s, v in ip.load(st, p, size, t, w):
            if isinstance(v, Top) and isinstance(v.tag, tuple) and v.tag[0] in ('raw', 'uninit') and False: pass
            if isinstance(v, C) and w > 1 and v.w != w: v = C(v.c, w)
            out.append((s, v))
        return out
    def atomic_load(self, ip, st, p, size, t, w, ins):
        out = []
        for s, v in ip.load(st, p, size, t, w):
            out.extend(self.conc_drop(ip, s, p, v, w, ins.get('ord')))
        return out
    # ---- the counter as seen by one thread while others holding references run (conc)
    def counter(self, st, p):
        """(region, references held by other threads) if p addresses the counter of a block other threads may use"""
        if not isinstance(p, P): return None, None
        r = st.regs[p.r]; ph = r.flags.get('rc_phantom')
        if ph is None or r.flags.get('rc_off') != st.const(p.o): return None, None
        if st.store.entails_eq(ph) and not r.flags.get('relaxed'): return None, None
        return r, ph
    def plain(self, ip, st, p, what):
        r, ph = self.counter(st, p)
        if r is None: return
        if st.store.entails_eq(ph): return
        ip.fail(st, 'race', 'the reference counter of %s, which other threads change, is %s without an atomic operation' % (r.name, what), [ph - 1])
    def given_up(self, ip, st, p, n, order):
        """after an atomic update that left the counter at n: [(st)]"""
        if not ip.conc: return [st]
        r, ph = self.counter(st, p)
        if r is None: return [st]
        if not st.store.entails_eq(n - ph): ip.res.add('race', ip.site(), 'proved'); return [st]
        out = []
        for s in ip.split_ge(st.copy(), ph - 1, True):
            if order in ('relaxed', 'acquire') and not s.ghost.get(('ts', 'fence', 'release')): ip.fail(s, 'race', 'the reference to %s is given up without release ordering' % r.name)
            else: ip.res.add('race', ip.site(), 'proved')
            for q in (p.r, r.flags.get('rc_buf')):
                if q and q in s.regs: w = s.w(q); w.live = False; w.flags['gaveup'] = True
            out.append(s)
        for s in ip.split_eq(st, ph, True): out.append(s)
        return out
    def mark(self, st, p, relaxed):
        r = st.regs[p.r]
        for q in (p.r, r.flags.get('rc_buf')):
            if q and q in st.regs and bool(st.regs[q].flags.get('relaxed')) != relaxed: w = st.w(q); w.flags['relaxed'] = relaxed
    def fence(self, ip, st, ins):
        if not ip.conc: return
        o = ins.get('ord')
        if o in ('release', 'acq_rel', 'seq_cst'): st.ghost[('ts', 'fence', 'release')] = True
        if o in ('acquire', 'acq_rel', 'seq_cst'):
            for q, r in list(st.regs.items()):
                if r.flags.get('relaxed'): st.w(q).flags['relaxed'] = False
    def relaxed_use(self, ip, st, rid, what):
        r = st.regs[rid]
        if not r.flags.get('relaxed'): return
        ip.fail(st, 'race', '%s is %s after an unordered read of its counter: other threads may still be reading it' % (r.name, what))
    def conc_drop(self, ip, st, p, v, w, order='seq_cst'):
        """other threads holding references may have dropped some of them"""
        if not ip.conc or not isinstance(p, P): return [(st, v)]
        r = st.regs[p.r]
        ph = r.flags.get('rc_phantom')
        if ph is None or r.flags.get('rc_off') != st.const(p.o): return [(st, v)]
        if st.store.entails_eq(ph):
            if order not in ('relaxed', 'release') and r.flags.get('relaxed'): self.mark(st, p, False)
            return [(st, v)]
        k = fresh('others')          # references still held by other threads
        s = st.copy()
        if not (s.store.add_ge(k) and s.store.add_ge(ph - k)): return [(st, v)]
        rr = s.w(p.r); rr.flags['rc_phantom'] = k
        b = rr.flags.get('rc_buf')
        if b and b in s.regs: bb = s.w(b); bb.flags['phantom'] = k
        self.mark(s, p, order in ('relaxed', 'release'))
        out = []
        for s2, e in ip.raw(s, v):
            nv = I(s2.canon(e - ph + k), w)
            rr = s2.w(p.r); off = s2.const(p.o); sz = rr.cells[off][0]; rr.cells[off] = (sz, nv)
            out.append((s2, nv))
        return out
    def atomic_store(self, ip, st, p, v, ins):
        if ip.conc:
            r, ph = self.counter(st, p)
            if r is not None and not st.store.entails_eq(ph): ip.fail(st, 'race', 'the reference counter of %s is overwritten: what other threads did to it in between is lost' % r.name, [ph - 1])
        return [(s, None) for s in ip.store_(st, p, ins['size'], v, ins['vt'])]
    def atomicrmw(self, ip, st, p, v, ins):
        size = ins['size']; w = size * 8
        out = []
        for s, old in self.atomic_load(ip, st, p, size, 'i%d' % w, w, ins):
            op = ins['rop']
            if op in ('add', 'sub'):
                for s2, o in ip.raw(s, old):
                    for s3, d in ip.raw(s2, v):
                        n = o + d if op == 'add' else o - d
                        for s4 in ip.store_(s3, p, size, I(s3.canon(n), w), 'i%d' % w):
                            for s5 in self.given_up(ip, s4, p, n, ins.get('ord')): out.append((s5, I(s5.canon(o), w)))
            else:
                x = v if op == 'xchg' else Top(w, 'rmw')
                for s4 in ip.store_(s, p, size, x, 'i%d' % w): out.append((s4, old))
        return out
    def cmpxchg(self, ip, st, p, a, b, ins):
        size = ins['size']; w = size * 8
        out = []
        for s, old in self.atomic_load(ip, st, p, size, 'i%d' % w, w, ins):
            for s2 in ip.assume_cmp(s.copy(), 'eq', old, a, w, True):
                for s3 in ip.store_(s2, p, size, b, 'i%d' % w):
                    for s4, n in ip.raw(s3, b):
                        for s5 in self.given_up(ip, s4, p, n, ins.get('ord')): out.append((s5, A([old, TRUE])))
            for s2 in ip.assume_cmp(s, 'ne', old, a, w, True):
                n = s2.ghost.get('retry', 0)
                if ip.conc and n >= 2: continue          # a third interference in a row repeats the second
                s2.ghost['retry'] = n + 1
                out.append((s2, A([old, FALSE])))
        return out


# ---------------------------------------------------------------- elements
def is_class(ip, st, rid): return st.regs[rid].flags.get('cls') or st.regs[rid].flags.get('sn') in ip.models.elem_struct

def split_access(ip, st, p, n_bytes, write, what):
    return ip.access(st, p, n_bytes, write, what)

def elem_of(ip, st, p, es, write, what=''):
    """[(st, rid, idx)] element access to class element"""
    out = []
    for s, q in ip.access(st, p, K(es), write, what):
        if not isinstance(q, P): continue
        r = s.regs[q.r]
        if r.arr is None:
            ip.opts.setdefault('notes', set()).add('element in unstructured region')
            s.inexact = s.inexact or 'element in unstructured region %s' % r.name
            out.append((s, None, None)); continue
        idx = ip.idx_of(s, r, q.o)
        out.append((s, q.r, idx))
    return out

def desc_at(ip, st, rid, idx): return [(s, d) for s, d, _ in ip.arr_find(st, rid, idx)]

def need_constructed(ip, st, d, what):
    if d[0] in ('raw', 'dead'):
        ip.fail(st, 'elem', '%s memory that holds no element' % what)
        return False
    ip.ok('elem')
    return True
def need_raw(ip, st, d, what):
    if d[0] not in ('raw', 'dead'):
        ip.fail(st, 'elem', '%s: constructing over a live element' % what)
        return False
    ip.ok('elem')
    return True

def elem_es(ip): return 8

def m_elem_ctor(ip, st, args, ins, fn):
    out = []
    for s, rid, idx in elem_of(ip, st, args[0], elem_es(ip), True):
        if rid is None: out.append((s, 'ret', None)); continue
        for s2, d in desc_at(ip, s, rid, idx):
            if not need_raw(ip, s2, d, 'default construction'): continue
            for s3 in ip.arr_write(s2, rid, idx, idx + 1, ((idx + 1, ('def',)),)): out.append((s3, 'ret', None))
    return out
def copy_one(ip, st, dst, src, es, construct, move):
    out = []
    for s, srid, sidx in elem_of(ip, st, src, es, False):
        if srid is None: out.append((s, 'ret', dst)); continue
        for s1, d in desc_at(ip, s, srid, sidx):
            if not need_constructed(ip, s1, d, 'reading'): continue
            for s2, drid, didx in elem_of(ip, s1, dst, es, True):
                if drid is None: out.append((s2, 'ret', dst)); continue
                for s3, dd in desc_at(ip, s2, drid, didx):
                    if construct:
                        if not need_raw(ip, s3, dd, 'construction'): continue
                    elif not need_constructed(ip, s3, dd, 'assigning to'): continue
                    same = (drid == srid and s3.store.entails_eq(didx - sidx))
                    if same:
                        out.append((s3, 'ret', dst)); continue
                    nd = ip.shift_desc(d, sidx - didx)
                    for s4 in ip.arr_write(s3, drid, didx, didx + 1, ((didx + 1, nd),)):
                        if move and not same:
                            # moved-from
                            if drid == srid and not s4.store.entails_ne(didx - sidx):
                                s4.inexact = s4.inexact or 'possibly aliasing move'
                            for s5 in ip.arr_write(s4, srid, sidx, sidx + 1, ((sidx + 1, ('mvd',)),)):
                                out.append((s5, 'ret', dst))
                        else: out.append((s4, 'ret', dst))
    return out
def m_elem_copy(ip, st, a, ins, fn): return copy_one(ip, st, a[0], a[1], elem_es(ip), True, False)
def m_elem_move(ip, st, a, ins, fn): return copy_one(ip, st, a[0], a[1], elem_es(ip), True, True)
def m_elem_asg(ip, st, a, ins, fn): return copy_one(ip, st, a[0], a[1], elem_es(ip), False, False)
def m_elem_masg(ip, st, a, ins, fn): return copy_one(ip, st, a[0], a[1], elem_es(ip), False, True)
def m_elem_dtor(ip, st, args, ins, fn):
    out = []
    for s, rid, idx in elem_of(ip, st, args[0], elem_es(ip), True):
        if rid is None: out.append((s, 'ret', None)); continue
        for s2, d in desc_at(ip, s, rid, idx):
            if not need_constructed(ip, s2, d, 'destroying'): continue
            for s3 in ip.arr_put(s2, rid, idx, idx + 1, ((idx + 1, ('raw',)),)): out.append((s3, 'ret', None))
    return out
def elem_ident(ip, st, rid, idx, d):
    if d[0] == 'src': return ('src', d[1], st.canon(idx + d[2]))
    return d
def m_elem_eq(neg):
    def h(ip, st, args, ins, fn):
        out = []
        for s, r1, i1 in elem_of(ip, st, args[0], elem_es(ip), False):
            if r1 is None: out.append((s, 'ret', Top(1, 'eq'))); continue
            for s1, d1 in desc_at(ip, s, r1, i1):
                if not need_constructed(ip, s1, d1, 'reading'): continue
                for s2, r2, i2 in elem_of(ip, s1, args[1], elem_es(ip), False):
                    if r2 is None: out.append((s2, 'ret', Top(1, 'eq'))); continue
                    for s3, d2 in desc_at(ip, s2, r2, i2):
                        if not need_constructed(ip, s3, d2, 'reading'): continue
                        a = elem_ident(ip, s3, r1, i1, d1); b = elem_ident(ip, s3, r2, i2, d2)
                        if a == b: out.append((s3, 'ret', FALSE if neg else TRUE)); continue
                        k = ('atom', 'eq') + tuple(sorted((a, b), key=repr))
                        s3.event('cmpeq', a, b)
                        out.append((s3, 'ret', C(('not', k) if neg else k)))
        return out
    return h
def m_elem_hash(ip, st, args, ins, fn):
    out = []
    for s, r1, i1 in elem_of(ip, st, args[-1], elem_es(ip), False):
        if r1 is None: out.append((s, 'ret', Top(64, 'hash'))); continue
        for s1, d1 in desc_at(ip, s, r1, i1):
            if not need_constructed(ip, s1, d1, 'hashing'): continue
            key = ('ehash', elem_ident(ip, s1, r1, i1, d1))
            x = s1.ghost.get(key)
            if x is None:
                x = fresh('hash(%s)' % (key[1],)); s1.ghost[key] = x
                s1.store.add_ge(x); s1.store.add_ge((1 << 64) - 1 - x)
                s1.ghost[('elemhash', x.t[0][0])] = key[1]
            out.append((s1, 'ret', I(x, 64)))
    return out

# ---------------------------------------------------------------- bulk copies
def check_segs(ip, st, segs, want_raw, what):
    """all segments raw / all constructed.  segs: (lo, hi, desc)"""
    ok = True
    for lo, hi, d in segs:
        bad = (d[0] in ('raw', 'dead')) != want_raw
        if not bad: continue
        n = hi - lo
        if st.store.entails_ge(-n): continue
        if want_raw: msg = '%s constructs over live elements [%s, %s)' % (what, st.canon(lo), st.canon(hi))
        else: msg = '%s uses memory holding no element [%s, %s)' % (what, st.canon(lo), st.canon(hi))
        ip.fail(st, 'elem', msg, [n - 1])
        ok = False
    if ok: ip.ok('elem')
    return ok

def with_lo(segs, lo):
    out = []
    for hi, d in segs: out.append((lo, hi, d)); lo = hi
    return out

def bulk(ip, st, dst, src, n, es, move=False, construct=False, direction=0, what='copy', memmove=False, noverlap=False):
    """copy n elements (Lin) of es bytes from src to dst.
    direction 1 forward element-wise, -1 backward; 0 = as if through a temporary.
    returns states"""
    out = []
    # negative count?
    states = [st]
    if not st.store.entails_ge(n):
        ip.fail(st, 'range', '%s with a reversed range: count %s' % (what, st.canon(n)), [-n - 1])
        if not (st.store.add_ge(n) and st.store.sat_after(n.syms())): return []
    z = ip.split_eq(st.copy(), n, True)
    pos = ip.split_ge(st, n - 1, True)
    out.extend(z)
    for s0 in pos:
        for s1, q in ip.access(s0, src, n * es, False, ' (source of %s)' % what):
            if not isinstance(q, P): out.append(s1); continue
            for s2, d in ip.access(s1, dst, n * es, True, ' (target of %s)' % what):
                if not isinstance(d, P): out.append(s2); continue
                out.extend(bulk2(ip, s2, d, q, n, es, move, construct, direction, what, noverlap))
    return out

def bulk2(ip, st, d, q, n, es, move, construct, direction, what, noverlap):
    rs = st.regs[q.r]; rd = st.regs[d.r]
    if rs.arr is None or rd.arr is None or rs.es != rd.es or (rs.es != es and es != 1):
        return struct_copy(ip, st, d, q, n * es)
    if rs.es != es:      # byte copy of wider elements
        n2 = div_exact(st.canon(n), rs.es)
        if n2 is None:
            st.inexact = st.inexact or 'partial element copy'
            r = st.w(d.r); r.arr = ((div_exact(r.size, r.es), ('top',)),)
            return [st]
        n = n2; es = rs.es
    si = ip.idx_of(st, rs, q.o); di = ip.idx_of(st, rd, d.o)
    if si is None or di is None:
        st.inexact = st.inexact or 'misaligned copy'
        r = st.w(d.r); r.arr = ((div_exact(r.size, r.es), ('top',)),)
        return [st]
    cls = is_class(ip, st, d.r) or is_class(ip, st, q.r)
    same = d.r == q.r
    if same:
        delta = di - si
        if st.store.entails_eq(delta): return [st]
        if noverlap:
            # memcpy: ranges must not overlap
            for s in ip.split_ge(st.copy(), n - 1 - delta, True):
                for s2 in ip.split_ge(s, delta + n - 1, True):
                    if not s2.store.entails_eq(delta):
                        for s3 in ip.split_eq(s2, delta, False):
                            ip.fail(s3, 'overlap', '%s between overlapping ranges of %s' % (what, rd.name))
        if cls and direction:
            # element-wise in one direction is only right when it does not overwrite unread source
            bad = []
            if direction > 0:   # wrong when si < di < si+n
                for s in ip.split_ge(st.copy(), delta - 1, True):
                    bad += ip.split_ge(s, n - 1 - delta, True)
            else:
                for s in ip.split_ge(st.copy(), -delta - 1, True):
                    bad += ip.split_ge(s, n - 1 + delta, True)
            for s in bad: ip.fail(s, 'overlap', '%s overwrites elements it has not read yet' % what)
    out = []
    for s, segs in ip.arr_extract(st, q.r, si, si + n):
        src = with_lo(segs, si)
        if cls and not check_segs(ip, s, src, False, what + ' source'): continue
        new = tuple((hi - si + di, ip.shift_desc(dd, si - di)) for lo, hi, dd in src)
        if cls:
            good = []
            for s2, tsegs in ip.arr_extract(s, d.r, di, di + n):
                if check_segs(ip, s2, with_lo(tsegs, di), construct, what + ' target'): good.append(s2)
        else: good = [s]
        for s2 in good:
            if cls and move:
                if same:
                    # source part outside the target becomes moved-from
                    ip.check_shared_write(s2, q.r, si, si + n, ((si + n, ('mvd',)),))
                    r2 = []
                    for s3 in ip.arr_put(s2, q.r, si, si + n, ((si + n, ('mvd',)),)): r2.append(s3)
                    for s3 in r2: out.extend(ip.arr_write(s3, d.r, di, di + n, new))
                else:
                    for s3 in ip.arr_write(s2, q.r, si, si + n, ((si + n, ('mvd',)),)):
                        out.extend(ip.arr_write(s3, d.r, di, di + n, new))
            else:
                out.extend(ip.arr_write(s2, d.r, di, di + n, new))
    return out

def struct_copy(ip, st, d, q, nbytes):
    """memcpy between cell regions with constant size"""
    n = st.const(nbytes); do = st.const(d.o); so = st.const(q.o)
    rs = st.regs[q.r]; rd = st.regs[d.r]
    if n is None or do is None or so is None or rs.arr is not None or rd.arr is not None:
        if rd.arr is not None:
            # bytes into an array: unknown content
            if rd.es == 1:
                lo = st.canon(d.o)
                if rs.arr is None and n is not None and so is not None:
                    hi = lo + n
                    return ip.arr_write(st, d.r, lo, hi, ((hi, ('top',)),))
            r = st.w(d.r); r.arr = ((div_exact(r.size, r.es), ('top',)),)
        else:
            r = st.w(d.r)
            # array -> struct bytes (e.g. constant initialiser copied to a local)
            r.cells = {}; r.flags.pop('zero', None)
            if n is not None and so == 0 and do == 0 and rs.arr is not None and len(rs.arr) == 1 and rs.arr[0][1][0] == 'src' and st.store.entails_eq(r.size - n):
                r.es = rs.es; r.arr = rs.arr
                return [st]
        st.inexact = st.inexact or 'unstructured copy at ' + ip.site()
        return [st]
    r = st.w(d.r)
    for o2 in [o2 for o2, (sz, _) in r.cells.items() if o2 < do + n and do < o2 + sz]: del r.cells[o2]
    for o2, (sz, v) in rs.cells.items():
        if so <= o2 and o2 + sz <= so + n: r.cells[o2 - so + do] = (sz, v)
    return [st]

def tsize(fn):
    """element size from the demangled template arguments of a std algorithm"""
    d = fn.dem
    if re.search(r'\bchar( const)?\*', d): return 1
    if re.search(r'\b(long|Elem)( const)?\*', d): return 8
    if re.search(r'\bint( const)?\*', d): return 4
    if 'bd::String*' in d or 'bd::String const*' in d: return 48
    return None

def count_between(ip, st, first, last, es):
    """[(st, n elements)]"""
    out = []
    if isinstance(first, P) and isinstance(last, P) and first.r == last.r:
        d = st.canon(last.o - first.o)
        n = div_exact(d, es)
        if n is None: raise Unsupported('range not a multiple of the element size')
        for s, x in ip.norm(st, d, 64, True):
            out.append((s, div_exact(s.canon(x), es) or n))
        return out
    for s1, a in ip.raw(st, first):
        for s2, b in ip.raw(s1, last):
            d = s2.canon(b - a)
            for s3, x in ip.norm(s2, d, 64, True):
                n = div_exact(s3.canon(x), es)
                if n is None:
                    s3.inexact = s3.inexact or 'range between different objects'
                    n = fresh('_cnt', approx=True)
                    s3.store.add_ge(n)
                out.append((s3, n))
    return out

def padd(ip, st, p, nbytes):
    if isinstance(p, P): return P(p.r, st.canon(p.o + nbytes))
    if isinstance(p, I):
        r = ip.raw(st, p)
        return I(r[0][1] + nbytes, 64)
    return p

def src_const(dem):
    m = re.search(r'std::(?:move|move_backward|copy|copy_backward)<(.*?)\*', dem)
    return bool(m and re.search(r'\bconst\b', m.group(1)))
def m_copy(move, construct=False):
    def h(ip, st, args, ins, fn):
        es = tsize(fn)
        if es is None or es == 48: return None
        out = []
        for s, n in count_between(ip, st, args[0], args[1], es):
            what = 'std::move' if move else 'std::copy'
            # moving from const elements copies them: the destination cannot bind to const T&& otherwise
            for s2 in bulk(ip, s, args[2], args[0], n, es, move=move and not src_const(fn.dem), construct=construct, direction=1, what=what):
                out.append((s2, 'ret', padd(ip, s2, args[2], n * es)))
        return out
    return h
def m_move_backward(ip, st, args, ins, fn):
    es = tsize(fn)
    if es is None or es == 48: return None
    out = []
    for s, n in count_between(ip, st, args[0], args[1], es):
        d = padd(ip, s, args[2], -(n * es))
        for s2 in bulk(ip, s, d, args[0], n, es, move=('move' in fn.dem and not src_const(fn.dem)), direction=-1, what='std::move_backward'):
            out.append((s2, 'ret', d))
    return out
def m_uninit_copy_n(ip, st, args, ins, fn):
    es = tsize(fn)
    if es is None or es == 48: return None
    move = 'move' in fn.dem
    src, n, dst = args[0], args[1], args[2]
    if isinstance(src, P) and 'move_iterator' in fn.dem and st.regs[src.r].arr is None:
        # move_iterator passed indirectly
        ls = ip.load(st, src, 8, 'ptr', 64)
        st, src = ls[0]
    out = []
    for s, c in ip.ints(st, n, 64, False):
        for s2 in bulk(ip, s, dst, src, c, es, move=move, construct=True, direction=1, what='std::uninitialized_copy_n'):
            out.append((s2, 'ret', padd(ip, s2, dst, c * es)))
    return out
def m_uninit_copy(ip, st, args, ins, fn):
    es = tsize(fn)
    if es is None or es == 48: return None
    out = []
    for s, n in count_between(ip, st, args[0], args[1], es):
        for s2 in bulk(ip, s, args[2], args[0], n, es, move='uninitialized_move' in fn.dem or 'move_iterator' in fn.dem, construct=True, direction=1, what='std::uninitialized_copy'):
            out.append((s2, 'ret', padd(ip, s2, args[2], n * es)))
    return out

def fill(ip, st, p, n, es, desc_fn, construct, cls_what):
    out = []
    if not st.store.entails_ge(n):
        ip.fail(st, 'range', '%s with a reversed range: count %s' % (cls_what, st.canon(n)), [-n - 1])
        if not (st.store.add_ge(n) and st.store.sat_after(n.syms())): return []
    out.extend(ip.split_eq(st.copy(), n, True))
    for s in ip.split_ge(st, n - 1, True):
        for s2, d in ip.access(s, p, n * es, True, ' (target of %s)' % cls_what):
            if not isinstance(d, P): out.append(s2); continue
            r = s2.regs[d.r]
            if r.arr is None: out.append(s2); s2.inexact = s2.inexact or 'fill of unstructured'; continue
            lo = ip.idx_of(s2, r, d.o)
            cnt = n if r.es == es else div_exact(s2.canon(n * es), r.es)
            if lo is None or cnt is None:
                rr = s2.w(d.r); rr.arr = ((div_exact(rr.size, rr.es), ('top',)),); out.append(s2); continue
            for s3, dd in desc_fn(s2, lo):
                if is_class(ip, s3, d.r):
                    for s4, tsegs in ip.arr_extract(s3, d.r, lo, lo + cnt):
                        if check_segs(ip, s4, with_lo(tsegs, lo), construct, cls_what):
                            out.extend(ip.arr_write(s4, d.r, lo, lo + cnt, ((lo + cnt, dd),)))
                else: out.extend(ip.arr_write(s3, d.r, lo, lo + cnt, ((lo + cnt, dd),)))
    return out

def repeat_desc(ip, st, p, es):
    """[(st, desc usable for every index)] of the single element at p"""
    out = []
    if isinstance(p, P) and p.r in st.regs and st.regs[p.r].arr is None and not is_class(ip, st, p.r):
        return [(s, ('val', v)) for s, v in ip.load(st, p, es, 'i%d' % (8 * es), 8 * es)]
    for s, rid, idx in elem_of(ip, st, p, es, False, ' (fill value)'):
        if rid is None: out.append((s, ('top',))); continue
        for s2, d in desc_at(ip, s, rid, idx):
            if is_class(ip, s2, rid):
                if not need_constructed(ip, s2, d, 'reading'): continue
                if d[0] == 'src': d = ('val', ('elem', d[1], s2.canon(idx + d[2])))
                elif d[0] == 'def': d = ('def',)
                out.append((s2, d))
            else:
                v = ip.desc_val(s2, rid, d, idx, es * 8)
                out.append((s2, ('val', v)))
    return out

def m_fill(construct):
    def h(ip, st, args, ins, fn):
        es = tsize(fn)
        if es is None or es == 48: return None
        out = []
        for s, n in count_between(ip, st, args[0], args[1], es):
            for s1, dd in repeat_desc(ip, s, args[2], es):
                for s2 in fill(ip, s1, args[0], n, es, lambda x, lo: [(x, dd)], construct, 'std::uninitialized_fill' if construct else 'std::fill'):
                    out.append((s2, 'ret', None))
        return out
    return h
def m_fill_n(construct):
    def h(ip, st, args, ins, fn):
        es = tsize(fn)
        if es is None or es == 48: return None
        out = []
        for s, n in ip.ints(st, args[1], 64, False):
            for s1, dd in repeat_desc(ip, s, args[2], es):
                for s2 in fill(ip, s1, args[0], n, es, lambda x, lo: [(x, dd)], construct, 'std::fill_n'):
                    out.append((s2, 'ret', padd(ip, s2, args[0], n * es)))
        return out
    return h

def m_find(ip, st, args, ins, fn):
    es = tsize(fn)
    if es is None or es == 48: return None
    out = []
    for s, n in count_between(ip, st, args[0], args[1], es):
        if not s.store.entails_ge(n):
            ip.fail(s, 'range', 'std::find with a reversed range: count %s' % s.canon(n), [-n - 1])
            if not (s.store.add_ge(n) and s.store.sat_after(n.syms())): continue
        # not found
        z = ip.split_eq(s.copy(), n, True)
        for s2 in z: out.append((s2, 'ret', args[1]))
        for s1 in ip.split_ge(s, n - 1, True):
            for s2, q in ip.access(s1, args[0], n * es, False, ' (std::find)'):
                def test(t, i):
                    r = []
                    for t1, x in ip.load(t, P(q.r, q.o + i * es), es, 'i%d' % (8 * es), 8 * es):
                        for t2, y in ip.load(t1, args[2], es, 'i%d' % (8 * es), 8 * es):
                            r.append((t2, 1 if ip.assume_cmp(t2, 'ne', x, y, 8 * es, True) else 0))
                    return r
                def places():
                    if is_class(ip, s2, q.r): return [(s2, None)]
                    if ip.opts.get('at'): return known_match(ip, s2, q, n, test, n - 1)
                    return [x for t, v in ip.load(s2, args[2], es, 'i%d' % (8 * es), 8 * es) for x in val_match(ip, t, q, es, n - 1, v, [(t, None)])]
                for s3, kmax in places():
                    if kmax is None:
                        nf = s3.copy(); nf.event('notfound', q, n)
                        out.append((nf, 'ret', padd(ip, nf, q, n * es)))
                    k = fresh('found_at')
                    s3 = s3.copy()
                    s3.store.add_ge(k); s3.store.add_ge(n - 1 - k)
                    if kmax is not None: s3.store.add_ge(kmax - k)
                    out.extend(found(ip, s3, q, k, es, args[2]))
    return out
def found(ip, st, q, k, es, itemp):
    """states where element k of q equals *itemp"""
    out = []
    st.event('found', q.r, st.canon(q.o + k * es))
    r = st.regs[q.r]
    if is_class(ip, st, q.r):
        for s, srid, sidx in elem_of(ip, st, itemp, es, False):
            for s2, d2 in desc_at(ip, s, srid, sidx):
                i = ip.idx_of(s2, r, q.o) + k
                for s3, d1 in desc_at(ip, s2, q.r, i):
                    if not need_constructed(ip, s3, d1, 'reading'): continue
                    a = elem_ident(ip, s3, q.r, i, d1); b = elem_ident(ip, s3, srid, sidx, d2)
                    key = ('atom', 'eq') + tuple(sorted((a, b), key=repr))
                    for s4 in ip.assume(s3, key, True): out.append((s4, 'ret', P(q.r, s4.canon(q.o + k * es))))
        return out
    for s, v in ip.load(st, itemp, es, 'i%d' % (8 * es), 8 * es):
        for s2, x in ip.load(s, P(q.r, q.o + k * es), es, 'i%d' % (8 * es), 8 * es):
            for s3 in ip.assume_cmp(s2, 'eq', x, v, 8 * es, True):
                out.append((s3, 'ret', P(q.r, s3.canon(q.o + k * es))))
    return out

# ---------------------------------------------------------------- allocation
def new_heap(ip, st, nbytes, name, es=None, alloc=None, cls=False, fail=None):
    """[(st, kind, v)] for an allocation of nbytes (Lin)"""
    out = []
    big = ip.opts.get('alloc_unbounded')
    s = st.copy()
    if big or (s.store.add_ge(K(MAXOBJ) - nbytes) and s.store.sat_after(nbytes.syms())):
        fl = {'alloc': alloc}
        if cls: fl['cls'] = True
        rid = s.alloc('heap', name, nbytes, es, fl)
        if es: 
            n = div_exact(s.canon(nbytes), es)
            s.regs[rid].arr = ((n, ('raw',)),)
        s.event('alloc', rid)
        out.append((s, 'ret', P(rid, ZERO)))
    if ip.alloc_fail and not big:
        s = st.copy()
        if fail == 'null': out.append((s, 'ret', NULL))
        else: out.append((s, 'unw', {'type': '_ZTISt9bad_alloc', 'ptr': NULL}))
    elif not out or (not big and not st.store.entails_ge(K(MAXOBJ) - nbytes)):
        s = st.copy()
        if s.store.add_ge(nbytes - MAXOBJ - 1) and s.store.sat_after(nbytes.syms()):
            if fail == 'null': out.append((s, 'ret', NULL))
            else: out.append((s, 'unw', {'type': '_ZTISt9bad_alloc', 'ptr': NULL}))
    return out
def type_of_alloc(fn):
    m = re.search(r'(?:__new_allocator|allocator)<(.*?)>::', fn.dem)
    return m.group(1) if m else None
ESZ = {'char': 1, 'long': 8, 'Elem': 8, 'int': 4, 'unsigned char': 1}
def m_allocate(ip, st, args, ins, fn):
    t = type_of_alloc(fn)
    es = ESZ.get(t)
    if es is None: return None
    out = []
    for s, n in ip.ints(st, args[1], 64, False):
        out.extend(new_heap(ip, s, n * es, 'buffer', es, 'allocator', cls=(t == 'Elem')))
    return out
def m_deallocate(ip, st, args, ins, fn):
    t = type_of_alloc(fn)
    es = ESZ.get(t)
    if es is None: return None
    out = []
    for s, p in resolve_ptr(ip, st, args[1]):
        if isinstance(p, I):
            out.append((s, 'ret', None)); continue
        if not isinstance(p, P):
            s.inexact = s.inexact or 'release of unknown pointer'; out.append((s, 'ret', None)); continue
        r = s.regs[p.r]
        if not s.store.entails_eq(p.o):
            ip.fail(s, 'bad-free', 'release of a pointer that is not the start of %s (offset %s)' % (r.name, s.canon(p.o)), [])
            continue
        if r.live and r.flags.get('cls'):
            for lo, hi, d in with_lo(r.arr, ZERO):
                if d[0] not in ('raw', 'dead'):
                    n = hi - lo
                    if not s.store.entails_ge(-n):
                        ip.fail(s, 'elem-leak', 'memory released while elements [%s, %s) are still alive' % (s.canon(lo), s.canon(hi)), [n - 1])
                        break
            else: ip.ok('elem-leak')
        # size passed must match the allocation
        for s2, n in ip.ints(s, args[2], 64, False):
            d = s2.regs[p.r].size - n * es
            if s2.regs[p.r].live and not s2.store.entails_eq(d):
                ip.fail(s2, 'bad-free', 'buffer released with a wrong size (%s instead of %s bytes)' % (s2.canon(n * es), s2.canon(r.size)), [d - 1] if not s2.store.entails_ge(-d) else [-d - 1])
            hook = ip.opts.get('on_free')
            if hook: hook(ip, s2, p.r)
            if ip.free_region(s2, p.r, 'allocator'): out.append((s2, 'ret', None))
    return out
def resolve_ptr(ip, st, p):
    return [(st, p)]
def m_opnew(how):
    def h(ip, st, args, ins, fn):
        out = []
        for s, n in ip.ints(st, args[0], 64, False):
            es = None
            if how == 'new[]' or s.const(n) is None: es = 1
            out.extend(new_heap(ip, s, n, 'object' if not es else 'heap array', es, how))
        return out
    return h
def m_opdelete(how):
    def h(ip, st, args, ins, fn):
        p = args[0]
        if isinstance(p, I): return ret(st)
        if not isinstance(p, P): raise Unsupported('delete of unknown pointer')
        if not st.store.entails_eq(p.o):
            ip.fail(st, 'bad-free', 'delete of an interior pointer'); return []
        hook = ip.opts.get('on_free')
        if hook: hook(ip, st, p.r)
        if ip.free_region(st, p.r, how): return ret(st)
        return []
    return h

# ---------------------------------------------------------------- libc
def m_memcpy(kind):
    def h(ip, st, args, ins, fn):
        out = []
        for s, n in ip.ints(st, args[2], 64, False):
            for s2 in bulk(ip, s, args[0], args[1], n, 1, what=kind, noverlap=(kind == 'memcpy')):
                out.append((s2, 'ret', args[0]))
        return out
    return h
def m_memset(ip, st, args, ins, fn):
    out = []
    for s, n in ip.ints(st, args[2], 64, False):
        cv = s.const(n)
        p = args[0]
        if isinstance(p, P) and s.regs[p.r].arr is None and cv is not None:
            for s2, q in ip.access(s, p, n, True, ' (memset)'):
                r = s2.w(q.r); off = s2.const(q.o)
                v = s2.const(args[1].e) if isinstance(args[1], I) and args[1].src is None else None
                if off is not None:
                    for o2 in [o2 for o2, (sz, _) in r.cells.items() if o2 < off + cv and off < o2 + sz]: del r.cells[o2]
                    if v == 0:
                        if off == 0 and s2.store.entails_eq(r.size - n): r.flags['zero'] = True
                        else:
                            o = off
                            while o < off + cv:
                                k = 8 if o % 8 == 0 and o + 8 <= off + cv else 1
                                r.cells[o] = (k, ci(0, 8 * k)); o += k
                out.append((s2, 'ret', args[0]))
            continue
        v = args[1]
        def df(x, lo):
            vv = v
            if isinstance(v, I) and v.src is None: vv = I(x.canon(v.e), 8)
            elif isinstance(v, I): vv = ip.cast(x, 'trunc', v, 32, 8)[0][1]
            return [(x, ('val', vv))]
        es = 1
        if isinstance(p, P) and s.regs[p.r].es not in (None, 1):
            es = s.regs[p.r].es
            n2 = div_exact(s.canon(n), es)
            vv0 = s.const(v.e) if isinstance(v, I) and v.src is None else None
            if n2 is None or vv0 is None:
                s.inexact = s.inexact or 'memset of wide elements'
                rr = s.w(p.r); rr.arr = ((div_exact(rr.size, rr.es), ('top',)),); out.append((s, 'ret', p)); continue
            n = n2
            df = lambda x, lo: [(x, ('val', ci(int.from_bytes(bytes([vv0 & 255] * es), 'little'), es * 8)))]
        for s2 in fill(ip, s, p, n, es, df, False, 'memset'):
            s2.event('memset', p.r if isinstance(p, P) else None)
            out.append((s2, 'ret', p))
    return out
def m_memcmp(ip, st, args, ins, fn):
    """orders two ranges: exact as far as their descriptions decide it, then forks equal / first difference at k"""
    out = []
    for s, n in ip.ints(st, args[2], 64, False):
        for s0 in ip.split_eq(s.copy(), n, True): out.append((s0, 'ret', ci(0, 32)))
        for s1 in ip.split_ge(s, n - 1, True):
            for s2, a in ip.access(s1, args[0], n, False, ' (memcmp)'):
                for s3, b in ip.access(s2, args[1], n, False, ' (memcmp)'):
                    if not isinstance(a, P) or not isinstance(b, P): continue
                    if a.r == b.r and s3.store.entails_eq(a.o - b.o): out.append((s3, 'ret', ci(0, 32))); continue
                    if s3.regs[a.r].es == 1 and s3.regs[b.r].es == 1 and s3.regs[a.r].arr is not None and s3.regs[b.r].arr is not None:
                        for s4, c, at in cmp_walk(ip, s3, a, b, n):
                            if c is None: out += cmp_fork(ip, s4, P(a.r, s4.canon(a.o + at)), P(b.r, s4.canon(b.o + at)), s4.canon(n - at))
                            elif c == 0:
                                s4.event('memeq', a, b, n); add_rel(ip, s4, a, b, n, 0, None); out.append((s4, 'ret', ci(0, 32)))
                            else: out.append(cmp_sign(ip, s4, a, b, n, c, at))
                    else: out += cmp_fork(ip, s3, a, b, n)
    return out
def cmp_sign(ip, s, a, b, n, sg, k):
    v = fresh('memcmp'); s.store.add_ge(v * sg - 1); s.store.add_ge(K(2**31 - 1) - v * sg)
    s.event('memdiff', a, b, k, sg)
    add_rel(ip, s, a, b, n, sg, k)
    return (s, 'ret', I(v, 32))
def cmp_fork(ip, s3, a, b, n):
    out = []
    for eq in eq_points(ip, s3.copy(), a, b, n):
        eq.event('memeq', a, b, n)
        add_rel(ip, eq, a, b, n, 0, None)
        out.append((eq, 'ret', ci(0, 32)))
    k = fresh('differ_at')
    s3.store.add_ge(k); s3.store.add_ge(n - 1 - k)
    for s4, x in ip.load(s3, P(a.r, a.o + k), 1, 'i8', 8):
        for s5, y in ip.load(s4, P(b.r, b.o + k), 1, 'i8', 8):
            for sg in (1, -1):
                for s6 in ip.assume_cmp(s5.copy(), 'ugt' if sg > 0 else 'ult', x, y, 8, True):
                    out.append(cmp_sign(ip, s6, a, b, n, sg, k))
    return out
def eq_points(ip, s, a, b, n):
    """the states in which [a, a+n) and [b, b+n) may agree: checked where either description changes"""
    pts = [ZERO]
    for x in (a, b):
        r = s.regs[x.r]
        if r.arr is not None and r.es == 1: pts += [s.canon(hi - x.o) for hi, d in r.arr[:-1]][:4]
    work = [s]
    for pt in pts:
        nw = []
        for w in work:
            if len(work) + len(nw) > 8: nw.append(w); continue
            ins = [w]
            if pt.t or pt.c:
                nw += ip.split_ge(w.copy(), -pt, True) + ip.split_ge(w.copy(), pt - n, True)
                ins = [w2 for w1 in ip.split_ge(w, pt - 1, True) for w2 in ip.split_ge(w1, n - 1 - pt, True)]
            for w2 in ins:
                for w3, x in ip.load(w2, P(a.r, w2.canon(a.o + pt)), 1, 'i8', 8):
                    for w4, y in ip.load(w3, P(b.r, w3.canon(b.o + pt)), 1, 'i8', 8):
                        nw += ip.assume_cmp(w4, 'eq', x, y, 8, True)
        work = nw
    return work
def m_strcmp(bounded):
    def h(ip, st, args, ins, fn):
        out = []
        for s, n in (ip.ints(st, args[2], 64, False) if bounded else [(st, K(MAXOBJ))]):
            a, b = args[0], args[1]
            if bounded:
                for s0 in ip.split_eq(s.copy(), n, True): out.append((s0, 'ret', ci(0, 32)))
            for s1 in (ip.split_ge(s, n - 1, True) if bounded else [s]):
                bad = [x for x in (a, b) if not isinstance(x, P)]
                if bad: ip.fail(s1, 'null', 'string comparison with a null pointer'); continue
                if any(s1.regs[x.r].es != 1 or s1.regs[x.r].arr is None for x in (a, b)): raise Unsupported('strcmp operand')
                for x in (a, b):
                    if not s1.regs[x.r].live: ip.fail(s1, 'uaf', 'string comparison of released memory'); break
                else:
                    for s4, c, at in cmp_walk(ip, s1, a, b, n, True):
                        if c is None: raise Unsupported('strcmp of unrelated contents')
                        if c == 0: out.append((s4, 'ret', ci(0, 32)))
                        else: out.append(cmp_sign(ip, s4, a, b, n, c, at))
        return out
    return h
def cmp_walk(ip, st, a, b, n, stop=False):
    """[(st, order or None if undecided from there, index)]; stop: a NUL ends the comparison, which may also leave the storage"""
    out = []; work = [(st, ZERO, 0)]
    while work:
        s, at, g = work.pop()
        if stop:
            ok = [s]
            for x in (a, b):
                nw = []
                for s0 in ok:
                    sz = s0.regs[x.r].size
                    for s1 in ip.split_ge(s0.copy(), x.o + at - sz, True):
                        for s2 in ip.split_ge(s1, n - at - 1, True): ip.fail(s2, 'bounds-r', 'string comparison reads past the end of %s' % s2.regs[x.r].name)
                        for s2 in ip.split_ge(s1, at - n, True): nw.append(s2)
                    nw += ip.split_ge(s0, sz - x.o - at - 1, True)
                ok = nw
            for s0 in ok[1:]: work.append((s0, at, g))
            if not ok: continue
            s = ok[0]
        for s0 in ip.split_ge(s.copy(), at - n, True): out.append((s0, 0, None))
        for s0 in ip.split_ge(s, n - at - 1, True):
            for s1, da, ia in ip.arr_find(s0, a.r, s0.canon(a.o + at)):
                ha = s1.regs[a.r].arr[ia][0] - a.o
                for s2, db, ib in ip.arr_find(s1, b.r, s1.canon(b.o + at)):
                    ha2 = ha; hb = s2.regs[b.r].arr[ib][0] - b.o
                    if g > 8: out.append((s2, None, at)); continue
                    same = (da[0] == 'src' and db[0] == 'src' and da[1] == db[1] and s2.store.entails_eq((a.o + da[2]) - (b.o + db[2])))
                    va = da[0] == 'val'; vb = db[0] == 'val'
                    if not same and not (va and vb): out.append((s2, None, at)); continue
                    eqs = [s2]
                    if not same:
                        eqs = ip.assume_cmp(s2.copy(), 'eq', da[1], db[1], 8, True)
                        for sg in (1, -1):
                            for s3 in ip.assume_cmp(s2.copy(), 'ugt' if sg > 0 else 'ult', da[1], db[1], 8, True): out.append((s3, sg, at))
                    if stop:        # is there a NUL in the run?
                        nw = []
                        for s3 in eqs:
                            if va:
                                for s4 in ip.assume_cmp(s3.copy(), 'eq', da[1], ci(0, 8), 8, True): out.append((s4, 0, at))
                                nw += ip.assume_cmp(s3, 'ne', da[1], ci(0, 8), 8, True)
                                continue
                            sc = SRC[da[1]]
                            if not sc.get('nonul') and sc.get('kind') == 'free':
                                k = fresh('nul_at'); s4 = s3.copy()
                                if all(s4.store.add_ge(x) for x in (k - at, ha2 - 1 - k, hb - 1 - k, n - 1 - k)) and s4.store.sat():
                                    for s5, x in ip.load(s4, P(a.r, a.o + k), 1, 'i8', 8):
                                        for s6 in ip.assume_cmp(s5, 'eq', x, ci(0, 8), 8, True): out.append((s6, 0, k))
                            elif sc.get('kind') != 'free': raise Unsupported('strcmp of %s' % sc.get('kind'))
                            nw.append(s3)
                        eqs = nw
                    for s3 in eqs:
                        for s4 in ip.split_ge(s3.copy(), hb - ha2, True): work.append((s4, s4.canon(ha2), g + 1))
                        for s4 in ip.split_ge(s3, ha2 - hb - 1, True): work.append((s4, s4.canon(hb), g + 1))
    return out
def src_run(ip, st, p, n):
    """(sid, index) if [p, p+n) is one run of an input"""
    r = st.regs[p.r]
    if r.arr is None or r.es != 1: return None
    lo = ZERO
    for hi, d in r.arr:
        if d[0] == 'src' and st.store.entails_ge(p.o - lo) and st.store.entails_ge(hi - p.o - n): return d[1], st.canon(p.o + d[2])
        lo = hi
    return None
def add_rel(ip, st, a, b, n, sg, k):
    if sg == 0:
        x = src_run(ip, st, a, n); y = src_run(ip, st, b, n)
        if x and y: st.ghost[('seqeq', len([1 for z in st.ghost if isinstance(z, tuple) and z[0] == 'seqeq']))] = x + y + (st.canon(n),)
    st.ghost[('rel', len([1 for x in st.ghost if isinstance(x, tuple) and x[0] == 'rel']))] = (a, b, n, sg, k)
def m_memchr(ip, st, args, ins, fn):
    out = []
    if isinstance(args[0], P) and isinstance(args[1], I) and args[1].src is None and st.const(args[1].e) == 0 and not ip.opts.get('at'):
        for s, n in ip.ints(st, args[2], 64, False):
            for s1, m in cstr_len(ip, s, args[0], n):
                if s1.store.entails_eq(m - n): out.append((s1, 'ret', NULL))
                else: out.append((s1, 'ret', P(args[0].r, s1.canon(args[0].o + m))))
        return out
    for s, n in ip.ints(st, args[2], 64, False):
        for s0 in ip.split_eq(s.copy(), n, True): out.append((s0, 'ret', NULL))
        for s1 in ip.split_ge(s, n - 1, True):
            for s2, q in ip.access(s1, args[0], n, False, ' (memchr)'):
                if not isinstance(q, P): continue
                def test(t, i):
                    r = []
                    for t1, x in ip.load(t, P(q.r, q.o + i), 1, 'i8', 8):
                        r.append((t1, 1 if ip.assume_cmp(t1, 'ne', x, ip.cast(t1, 'trunc', args[1], 32, 8)[0][1], 8, True) else 0))
                    return r
                for s3, kmax in (known_match(ip, s2, q, n, test, n - 1) if ip.opts.get('at') else val_match(ip, s2, q, 1, n - 1, ip.cast(s2, 'trunc', args[1], 32, 8)[0][1], [(s2, None)])):
                    if kmax is None: nf = s3.copy(); nf.event('notfound', q, n); out.append((nf, 'ret', NULL))
                    k = fresh('found_at')
                    s3.store.add_ge(k); s3.store.add_ge(n - 1 - k)
                    if kmax is not None: s3.store.add_ge(kmax - k)
                    for s4, x in ip.load(s3, P(q.r, q.o + k), 1, 'i8', 8):
                        v8 = ip.cast(s4, 'trunc', args[1], 32, 8)[0][1]
                        for s5 in ip.assume_cmp(s4, 'eq', x, v8, 8, True):
                            s5.event('found', q.r, s5.canon(q.o + k))
                            out.append((s5, 'ret', P(q.r, s5.canon(q.o + k))))
    return out
def m_memmem(ip, st, args, ins, fn):
    hay, hn, nee, nn = args
    out = []
    for s, n in ip.ints(st, hn, 64, False):
        for s1, m in ip.ints(s, nn, 64, False):
            for s2, q in ip.access(s1, hay, n, False, ' (memmem haystack)'):
                for s3, p in ip.access(s2, nee, m, False, ' (memmem needle)'):
                    if not isinstance(q, P):
                        nf = s3.copy(); nf.event('memmem-none', q, n, p, m); out.append((nf, 'ret', NULL))
                        # empty haystack at null: an empty needle would be found at the haystack
                        for s4 in ip.split_eq(s3, m, True): out.append((s4, 'ret', q))
                        continue
                    for s4, kmax in known_match(ip, s3, q, n, lambda t, i: [(z, c) for z, c, _ in cmp_walk(ip, t, P(q.r, q.o + i), p, m)] if isinstance(p, P) and n is not None else None, n - m):
                        if kmax is None and isinstance(p, P) and s4.store.entails_ge(n - m) and starts_with(ip, s4, q, p, m): kmax = ZERO
                        if kmax is None:
                            nf = s4.copy(); nf.event('memmem-none', q, n, p, m); out.append((nf, 'ret', NULL))
                        k = fresh('match_at')
                        if s4.store.add_ge(k) and s4.store.add_ge(n - m - k) and (kmax is None or s4.store.add_ge(kmax - k)) and s4.store.sat_after(n.syms() + m.syms()):
                            s4.event('match', q.r, s4.canon(q.o + k), p, m)
                            for s5 in ip.split_eq(s4.copy(), m, True): out.append((s5, 'ret', P(q.r, s5.canon(q.o + k))))
                            for s5 in ip.split_ge(s4, m - 1, True):
                                for s6, x in ip.load(s5, P(q.r, q.o + k), 1, 'i8', 8):
                                    for s7, y in ip.load(s6, p, 1, 'i8', 8):
                                        for s8 in ip.assume_cmp(s7, 'eq', x, y, 8, True):
                                            add_rel(ip, s8, P(q.r, s8.canon(q.o + k)), p, m, 0, None)
                                            out.append((s8, 'ret', P(q.r, s8.canon(q.o + k))))
    return out
def starts_with(ip, st, a, b, m):
    """an earlier comparison or search established that m elements at a and b agree"""
    x = src_run(ip, st, a, m); y = src_run(ip, st, b, m)
    if not x or not y: return False
    for k, g in st.ghost.items():
        if isinstance(k, tuple) and k[0] == 'seqeq' and (g[0], g[2]) == (x[0], y[0]):
            d = st.canon(x[1] - g[1])
            if st.store.entails_eq(d - (y[1] - g[3])) and st.store.entails_ge(d) and st.store.entails_ge(g[4] - d - m): return True
    return False
def val_match(ip, st, q, es, last, v, out):
    """elements of [q, q + last] whose value is tracked individually: the first that equals v, or all known to differ"""
    r = st.regs[q.r]
    if r.arr is None or r.es != es: return out
    base = ip.idx_of(st, r, q.o); w = 8 * es
    lo = ZERO; pts = []
    for hi, d in r.arr:
        if d[0] == 'val': pts.append((lo, st.store.entails_eq(hi - lo - 1)))
        lo = hi
    for p, single in pts[:3]:
        i = st.canon(p - base); nw = []
        for s, k0 in out:
            if k0 is not None: nw.append((s, k0)); continue
            for s1 in ip.split_ge(s.copy(), -i - 1, True): nw.append((s1, None))
            for s1 in ip.split_ge(s, i, True):
                for s2 in ip.split_ge(s1.copy(), i - last - 1, True): nw.append((s2, None))
                for s2 in ip.split_ge(s1, last - i, True):
                    for s3, x in ip.load(s2, P(q.r, s2.canon(q.o + i * es)), es, 'i%d' % w, w):
                        for s4 in ip.assume_cmp(s3.copy(), 'eq', x, v, w, True): nw.append((s4, i))
                        for s4 in ip.assume_cmp(s3, 'ne', x, v, w, True): nw.append((s4, None))
        out = nw
    return out
def known_match(ip, st, q, n, test, last):
    """[(st, index of a certain match or None)] for the places the caller of the analysis declared"""
    out = [(st, None)]
    for rid, idx in ip.opts.get('at', ()):
        if rid != q.r: continue
        nw = []
        for s, k0 in out:
            if k0 is not None: nw.append((s, k0)); continue
            i = s.canon(idx - ip.idx_of(s, s.regs[q.r], q.o))
            for s1 in ip.split_ge(s.copy(), -i - 1, True): nw.append((s1, None))
            for s1 in ip.split_ge(s, i, True):
                for s2 in ip.split_ge(s1.copy(), i - last - 1, True): nw.append((s2, None))
                for s2 in ip.split_ge(s1, last - i, True):
                    r = test(s2.copy(), i)
                    if r and all(c == 0 for _, c in r): nw.append((s2, i))
                    else: nw.append((s2, None))
        out = nw
    return out
def known_nul(ip, st, d, lo, hi):
    """[(st, index or None)] a byte of [lo, hi) already known to be zero"""
    zs = [st.canon(ix - d[2]) for ix, e in st.elems.get(d[1], ()) if st.store.entails_eq(e)][:3]
    out = []; work = [st]
    for z in zs:
        nw = []
        for w in work:
            out += [(w2, z) for w1 in ip.split_ge(w.copy(), z - lo, True) for w2 in ip.split_ge(w1, hi - 1 - z, True)]
            nw += ip.split_ge(w.copy(), lo - z - 1, True) + ip.split_ge(w, z - hi, True)
        work = nw
    return out + [(w, None) for w in work]
def cstr_len(ip, st, p, limit=None):
    """[(st, Lin)] length of the C string at p (at most limit bytes are looked at), obligations recorded"""
    out = []
    if limit is not None:
        out = [(s, ZERO) for s in ip.split_eq(st.copy(), limit, True)]
        for s in ip.split_ge(st, limit - 1, True):
            if not isinstance(p, P): ip.fail(s, 'null', 'string function on a null pointer'); continue
            for s1, n in cstr_walk(ip, s, p, limit):
                out += [(s2, n) for s2 in ip.split_ge(s1.copy(), limit - 1 - n, True)] + [(s2, s2.canon(limit)) for s2 in ip.split_ge(s1, n - limit, True)]
        return out
    if not isinstance(p, P):
        ip.fail(st, 'null', 'string function on a null pointer'); return []
    return cstr_walk(ip, st, p, None)
def cstr_walk(ip, st, p, limit):
    out = []
    r = st.regs[p.r]
    if not r.live:
        ip.fail(st, 'uaf', 'string function on released %s' % r.name); return []
    if r.arr is None or r.es != 1:
        st.inexact = st.inexact or 'string function on unstructured memory'
        n = fresh('_strlen', approx=True); st.store.add_ge(n); st.store.add_ge(K(MAXOBJ) - n)
        return [(st, n)]
    o = st.canon(p.o)
    # walk segments from o
    work = [(st, o, 0)]
    while work:
        s, cur, guard = work.pop()
        if guard > 12: raise Unsupported('strlen walk')
        if limit is not None:
            out += [(s0, s0.canon(limit)) for s0 in ip.split_ge(s.copy(), cur - o - limit, True)]
            lim = ip.split_ge(s, o + limit - 1 - cur, True)
            if not lim: continue
            s, = lim[:1]
            work.extend((x, cur, guard + 1) for x in lim[1:])
        # at end of region?
        size = s.regs[p.r].size
        inb = ip.split_ge(s.copy(), size - cur - 1, True)
        for s0 in ip.split_ge(s, cur - size, True):
            ip.fail(s0, 'bounds-r', 'unterminated string: read past the end of %s' % r.name)
        for s1 in inb:
            for s2, d, i in ip.arr_find(s1, p.r, cur):
                segs = s2.regs[p.r].arr
                hi = segs[i][0]
                if d[0] == 'val':
                    v = d[1]
                    for s3 in ip.assume_cmp(s2.copy(), 'eq', v, ci(0, 8), 8, True): out.append((s3, s3.canon(cur - o)))
                    for s3 in ip.assume_cmp(s2, 'ne', v, ci(0, 8), 8, True): work.append((s3, hi, guard + 1))
                elif d[0] == 'src':
                    sc = SRC[d[1]]
                    if sc.get('kind') == 'cstr':
                        end = sc['len'] - d[2]      # region index of the NUL
                        for s3 in ip.split_ge(s2.copy(), hi - end - 1, True):
                            for s4 in ip.split_ge(s3, end - cur, True): out.append((s4, s4.canon(end - o)))
                        for s3 in ip.split_ge(s2, end - hi, True): work.append((s3, hi, guard + 1))
                    elif sc.get('kind') == 'const' and s2.const(cur) is not None and s2.const(d[2]) is not None:
                        a = s2.const(cur) + s2.const(d[2]); vals = sc['vals']
                        k = a
                        while k < len(vals) and vals[k] != 0: k += 1
                        if k < len(vals):
                            at = K(k - s2.const(d[2]))
                            for s3 in ip.split_ge(s2.copy(), hi - at - 1, True): out.append((s3, s3.canon(at - o)))
                            for s3 in ip.split_ge(s2, at - hi, True): work.append((s3, hi, guard + 1))
                        else: work.append((s2, hi, guard + 1))
                    elif sc.get('nonul'):
                        work.append((s2, hi, guard + 1))
                    else:
                        # free bytes: a NUL at some k in [cur, hi), or none
                        for s3, z in known_nul(ip, s2, d, cur, hi):
                            if z is None: work.append((s3.copy(), hi, guard + 1))
                            k = fresh('nul_at')
                            s3.store.add_ge(k - cur); s3.store.add_ge((hi - 1 if z is None else z) - k)
                            v = ip.elem_val(s3, d[1], k + d[2], 8)
                            for s4 in ip.assume_cmp(s3, 'eq', v, ci(0, 8), 8, True): out.append((s4, s4.canon(k - o)))
                else:
                    # uninitialised / unknown bytes
                    s3 = s2.copy(); k = fresh('_nul', approx=True)
                    s3.store.add_ge(k - cur); s3.store.add_ge(hi - 1 - k)
                    s3.inexact = s3.inexact or 'string length of unknown bytes'
                    out.append((s3, k - o))
                    s2.inexact = s2.inexact or 'string length of unknown bytes'
                    work.append((s2, hi, guard + 1))
    return out
def m_strlen(ip, st, args, ins, fn):
    return [(s, 'ret', I(n, 64)) for s, n in cstr_len(ip, st, args[0])]
def m_strnlen(ip, st, args, ins, fn):
    return [(s1, 'ret', I(m, 64)) for s, n in ip.ints(st, args[1], 64, False) for s1, m in cstr_len(ip, s, args[0], n)]
def plus(st, p, n): return P(p.r, st.canon(p.o + n))
def put_nul(ip, st, p): return ip.store_(st, p, 1, ci(0, 8), 'i8')
def m_strcpy(end):
    def h(ip, st, args, ins, fn):
        d, q = args[0], args[1]
        return [(s1, 'ret', plus(s1, d, n) if end else d) for s, n in cstr_len(ip, st, q) for s1 in bulk(ip, s, d, q, n + 1, 1, what='strcpy', noverlap=True)]
    return h
def m_strncpy(ip, st, args, ins, fn):
    d, q = args[0], args[1]; out = []
    for s, n in ip.ints(st, args[2], 64, False):
        for s1, m in cstr_len(ip, s, q, n):
            for s2 in bulk(ip, s1, d, q, m, 1, what='strncpy', noverlap=True):
                if s2.store.entails_eq(n - m): out.append((s2, 'ret', d)); continue
                out += [(s3, 'ret', d) for s3, k, v in m_memset(ip, s2, [plus(s2, d, m) if isinstance(d, P) else d, ci(0, 32), I(s2.canon(n - m), 64)], ins, fn)]
    return out
def m_strcat(ip, st, args, ins, fn):
    d, q = args[0], args[1]
    return [(s2, 'ret', d) for s, k in cstr_len(ip, st, d) for s1, n in cstr_len(ip, s, q) for s2 in bulk(ip, s1, plus(s1, d, k), q, n + 1, 1, what='strcat', noverlap=True)]
def m_strncat(ip, st, args, ins, fn):
    d, q = args[0], args[1]
    return [(s4, 'ret', d) for s, n in ip.ints(st, args[2], 64, False) for s1, k in cstr_len(ip, s, d) for s2, m in cstr_len(ip, s1, q, n)
            for s3 in bulk(ip, s2, plus(s2, d, k), q, m, 1, what='strncat', noverlap=True) for s4 in put_nul(ip, s3, plus(s3, d, k + m))]
def m_strdup(bounded):
    def h(ip, st, args, ins, fn):
        out = []; q = args[0]
        ls = [x for s, n in ip.ints(st, args[1], 64, False) for x in cstr_len(ip, s, q, n)] if bounded else cstr_len(ip, st, q)
        for s, n in ls:
            for s1, k, p in c_alloc(ip, s, n + 1, ('raw',), 'copy of a string'):
                if not isinstance(p, P): out.append((s1, k, p)); continue
                for s2 in bulk(ip, s1, p, q, n, 1, what='strdup'): out += [(s3, 'ret', p) for s3 in put_nul(ip, s2, plus(s2, p, n))]
        return out
    return h
def m_mempcpy(ip, st, args, ins, fn):
    return [(s2, 'ret', plus(s2, args[0], n) if isinstance(args[0], P) else args[0]) for s, n in ip.ints(st, args[2], 64, False) for s2 in bulk(ip, s, args[0], args[1], n, 1, what='mempcpy', noverlap=True)]
def m_ctype(name):
    def h(ip, st, args, ins, fn):
        out = []
        for s, c in ip.ints(st, args[0], 32, True):
            if not (s.store.entails_ge(c + 1) and s.store.entails_ge(255 - c)):
                ip.fail(s, 'ctype', '%s called with a value outside unsigned char and EOF' % name,
                        [-c - 2] if not s.store.entails_ge(c + 1) else [c - 256])
                if not (s.store.add_ge(c + 1) and s.store.add_ge(255 - c) and s.store.sat_after(c.syms())): continue
            else: ip.ok('ctype')
            if name in ('toupper', 'tolower'):
                key = (name, s.canon(c))
                x = s.ghost.get(key)
                cv = s.const(c)
                if cv is not None and 0 <= cv < 128:
                    x = K(ord(chr(cv).upper() if name == 'toupper' else chr(cv).lower()))
                elif x is None:
                    x = fresh('%s(%s)' % (name, s.canon(c))); s.ghost[key] = x
                    s.store.add_ge(x + 1); s.store.add_ge(255 - x)
                out.append((s, 'ret', I(x, 32)))
            else:
                cv = s.const(c)
                if cv is not None and 0 <= cv < 128:
                    t = chr(cv).isspace() and cv in (32, 9, 10, 11, 12, 13) if name == 'isspace' else None
                    if t is not None: out.append((s, 'ret', ci(1 if t else 0, 32))); continue
                key = ('atom', name, s.canon(c))
                if name == 'isspace':
                    # NUL is not white space
                    pass
                t = s.copy()
                for s2 in ip.assume(t, key, True):
                    if name == 'isspace':
                        ok = s2.store.add_ge(c - 9) and s2.store.add_ge(K(32) - c) and s2.store.sat_after(c.syms())
                        if not ok: continue
                    y = fresh('_' + name); s2.store.add_ge(y - 1); s2.store.add_ge(K(2**31 - 1) - y)
                    out.append((s2, 'ret', I(y, 32)))
                for s2 in ip.assume(s, key, False): out.append((s2, 'ret', ci(0, 32)))
        return out
    return h

def m_transform_back(ip, st, args, ins, fn):
    """std::transform(first, last, back_inserter(string), character function)"""
    if 'h_append_n' not in ip.m.funcs or not isinstance(args[3], F): return None
    out = []
    for s, n in count_between(ip, st, args[0], args[1], 1):
        for s0 in ip.split_eq(s.copy(), n, True): out.append((s0, 'ret', args[2]))
        for s1 in ip.split_ge(s, n - 1, True):
            for s2, q in ip.access(s1, args[0], n, False, ' (std::transform)'):
                if not isinstance(q, P): continue
                for s3, segs in ip.arr_extract(s2, q.r, q.o, q.o + n):
                    new = []
                    for hi, d in segs:
                        if d[0] == 'src':
                            key = ('map', args[3].n, d[1])
                            M = s3.ghost.get(key)
                            if M is None:
                                M = new_src('%s of %s' % (short_fn(args[3].n), SRC[d[1]]['name']), 8, kind='free'); s3.ghost[key] = M; s3.ghost[('mapof', M)] = (args[3].n, d[1])
                            new.append((s3.canon(hi - q.o), ('src', M, s3.canon(d[2] + q.o))))
                        else: raise Unsupported('transform of %s' % d[0])
                    rid = s3.add(Region('ext', 'transformed characters', n, 1, tuple(new)))
                    for z, k, v in ip.call_fn(s3, 'h_append_n', [args[2], P(rid, ZERO), I(n, 64)]):
                        out.append((z, k, args[2] if k == 'ret' else v))
    return out
def short_fn(n): return n
# ---------------------------------------------------------------- exceptions
def m_alloc_exc(ip, st, args, ins, fn):
    rid = st.alloc('exc', 'exception object', K(256))
    return ret(st, P(rid, ZERO))
def m_throw(ip, st, args, ins, fn):
    t = args[1]
    ty = t.n if isinstance(t, F) else None
    if isinstance(t, P): ty = st.regs[t.r].flags.get('global')
    return [(st, 'unw', {'type': ty, 'ptr': args[0]})]
def m_rethrow(ip, st, args, ins, fn):
    exc = st.ghost.get('caught') or {'type': 'any'}
    return [(st, 'unw', exc)]
def m_begin_catch(ip, st, args, ins, fn):
    st.ghost['caught'] = st.ghost.get('exc')
    return ret(st, args[0])
def m_typeid_for(ip, st, args, ins, fn):
    t = args[0]
    g = t.n if isinstance(t, F) else st.regs[t.r].flags.get('global') if isinstance(t, P) else None
    if g is None: raise Unsupported('type of a catch clause')
    return ret(st, ci(ip.typeid(g), 32))
def m_end_catch(ip, st, args, ins, fn): return ret(st)
def m_terminate(ip, st, args, ins, fn):
    exc = st.ghost.get('exc') or {}
    ip.fail(st, 'terminate-oom' if exc.get('type') in OOM else 'terminate', 'exception %s reaches a noexcept boundary and terminates the program' % exc_name(exc))
    return [(st, 'exit', 'terminate')]
def exc_name(exc):
    t = (exc or {}).get('type')
    return {'_ZTISt12out_of_range': 'std::out_of_range', '_ZTISt9bad_alloc': 'std::bad_alloc'}.get(t, t)
def m_nop(ip, st, args, ins, fn): return ret(st, args[0] if args and fn.ret == 'ptr' else None)
def m_abort(ip, st, args, ins, fn): return [(st, 'exit', 'abort')]
def m_throw_std(t):
    def h(ip, st, args, ins, fn): return [(st, 'unw', {'type': t, 'ptr': NULL})]
    return h

# ---------------------------------------------------------------- minmax intrinsics
def m_minmax(kind, signed):
    def h(ip, st, args, ins, fn):
        w = ins.get('w', 64)
        pred = ('s' if signed else 'u') + ('lt' if kind == 'min' else 'gt')
        out = [(s, 'ret', args[0]) for s in ip.assume_cmp(st.copy(), pred, args[0], args[1], w, True)]
        out += [(s, 'ret', args[1]) for s in ip.assume_cmp(st, pred, args[0], args[1], w, False)]
        return out
    return h

# ---------------------------------------------------------------- std::string (opaque, content = one sequence)
def sstr(ip, st, p):
    """(region, seq info) of a std::string object; created lazily as an input"""
    r = st.regs[p.r]
    key = ('sstr', p.r, st.const(p.o))
    g = st.ghost.get(key)
    if g is None:
        n = fresh('stdstring.length')
        st.store.add_ge(n); st.store.add_ge(K(MAXOBJ) - n - 1)
        sid = new_src('stdstring', 8, kind='free')
        rid = st.add(Region('ext', 'std::string data', n + 1, 1))
        st.regs[rid].arr = ((n, ('src', sid, ZERO)), (n + 1, ('val', ci(0, 8))))
        st.regs[rid].flags['const'] = True
        g = (rid, n); st.ghost[key] = g
    return g
def m_ss_data(ip, st, args, ins, fn):
    rid, n = sstr(ip, st, args[0]); return ret(st, P(rid, ZERO))
def m_ss_len(ip, st, args, ins, fn):
    rid, n = sstr(ip, st, args[0]); return ret(st, I(n, 64))
def m_ss_copy(ip, st, args, ins, fn):
    g = sstr(ip, st, args[1])
    st.ghost[('sstr', args[0].r, st.const(args[0].o))] = g
    return ret(st, None)
def m_ss_ctor_pn(ip, st, args, ins, fn):
    out = []
    for s, n in ip.ints(st, args[2], 64, False):
        rid = s.add(Region('ext', 'std::string data', n + 1, 1))
        s.regs[rid].arr = ((n, ('raw',)), (n + 1, ('val', ci(0, 8))))
        for s2 in bulk(ip, s, P(rid, ZERO), args[1], n, 1, what='std::string(const char*, size_t)'):
            s2.ghost[('sstr', args[0].r, s2.const(args[0].o))] = (rid, n)
            out.append((s2, 'ret', None))
    return out

# ---------------------------------------------------------------- iostreams
def m_is_ok(ip, st, args, ins, fn):
    x = fresh('stream_ok'); st.store.add_ge(x); st.store.add_ge(1 - x)
    key = ('istate', args[0].r if isinstance(args[0], P) else 0)
    cur = st.ghost.get(key)
    if cur is not None: x = cur
    else: st.ghost[key] = x
    neg = 'fail' in fn.dem or 'operator!' in fn.dem
    return ret(st, C(('ge', -x if neg else x - 1)))
def m_is_get(ip, st, args, ins, fn):
    """reads one character: on success stores an arbitrary byte, on failure leaves it"""
    key = ('istate', args[0].r)
    s1 = st.copy(); s1.ghost[key] = ONE; s1.event('input')
    c = fresh('input_char'); s1.store.add_ge(c); s1.store.add_ge(255 - c)
    out = [(s, 'ret', args[0]) for s in ip.store_(s1, args[1], 1, I(c, 8), 'i8')]
    s2 = st.copy(); s2.ghost[key] = ZERO
    out.append((s2, 'ret', args[0]))
    return out
def m_is_ret(ip, st, args, ins, fn): return ret(st, args[0])
def m_os_char(ip, st, args, ins, fn):
    st.event('out-char', args[1]); return ret(st, args[0])
def m_os_write(ip, st, args, ins, fn):
    out = []
    for s, n in ip.ints(st, args[2], 64, True):
        if not s.store.entails_ge(n):
            ip.fail(s, 'range', 'negative count written to a stream', [-n - 1])
            if not s.store.add_ge(n): continue
        for s2, q in ip.access(s, args[1], n, False, ' (stream output)'):
            s2.event('out-range', q, s2.canon(n)); out.append((s2, 'ret', args[0]))
    return out
def m_os_cstr(ip, st, args, ins, fn):
    out = []
    for s, n in cstr_len(ip, st, args[1]):
        s.event('out-range', args[1], s.canon(n)); out.append((s, 'ret', args[0]))
    return out

def m_va_start(ip, st, args, ins, fn):
    k = (args[0].r, st.const(args[0].o))
    st.ghost[('va',) + k] = tuple(ip.vstack[-1]); st.ghost.pop(('va-used',) + k, None)
    return ret(st)
def m_va_copy(ip, st, args, ins, fn):
    g = st.ghost.get(('va', args[1].r, st.const(args[1].o)))
    if g is not None: st.ghost[('va', args[0].r, st.const(args[0].o))] = g
    if st.ghost.get(('va-used', args[1].r, st.const(args[1].o))): st.ghost[('va-used', args[0].r, st.const(args[0].o))] = True
    else: st.ghost.pop(('va-used', args[0].r, st.const(args[0].o)), None)
    return ret(st)
def const_text(ip, st, p):
    """the constant string at p, or None"""
    if not isinstance(p, P): return None
    r = st.regs[p.r]
    if r.arr is None or st.const(p.o) is None or not r.flags.get('const'): return None
    out = bytearray(); i = st.const(p.o)
    while len(out) < 200:
        x = ip.load(st.copy(), P(p.r, K(i)), 1, 'i8', 8)
        if len(x) != 1 or not isinstance(x[0][1], I): return None
        c = x[0][0].const(x[0][1].e) if x[0][1].src is None else None
        if c is None: return None
        if c == 0: return bytes(out)
        out.append(c & 255); i += 1
    return None
def parse_format(t):
    """literal runs and %s of a format, or None if it uses anything else"""
    out = []; i = 0; lit = b''
    while i < len(t):
        if t[i:i+1] != b'%': lit += t[i:i+1]; i += 1; continue
        if t[i:i+2] == b'%%': lit += b'%'; i += 2; continue
        if t[i:i+2] == b'%s':
            if lit: out.append(lit); lit = b''
            out.append('s'); i += 2; continue
        return None
    if lit: out.append(lit)
    return out
def formatted(ip, st, args):
    """[(st, rid, n)]: the text the formatter produces"""
    va = st.ghost.get(('va', args[3].r, st.const(args[3].o))) if isinstance(args[3], P) else None
    t = const_text(ip, st, args[2])
    spec = parse_format(t) if t is not None and va is not None else None
    if spec is None or sum(1 for x in spec if x == 's') > len(va):
        s = st
        key = ('fmt', args[2].r if isinstance(args[2], P) else None, va)
        g = s.ghost.get(key)
        if g is None:
            n = fresh('formatted_length'); s.store.add_ge(n); s.store.add_ge(K(2**31 - 1) - n)
            sid = new_src('formatted', 8, kind='free', **({} if ip.opts.get('fmt_free') else {'nonul': True}))
            rid = s.add(Region('ext', 'formatted text', n, 1, ((n, ('src', sid, ZERO)),)))
            g = (rid, n, sid); s.ghost[key] = g; s.ghost[('fmt-last',)] = g
        return [(s, g[0], g[1])]
    work = [(st, ZERO, (), 0)]
    for x in spec:
        nw = []
        for s, n, parts, k in work:
            if x == 's':
                for s2, m in cstr_len(ip, s, va[k]): nw.append((s2, n + m, parts + ((va[k], m),), k + 1))
            else: nw.append((s, n + len(x), parts + (x,), k))
        work = nw
    out = []
    for s, n, parts, k in work:
        rid = s.add(Region('ext', 'formatted text', n, 1, ((n, ('raw',)),)))
        cur = [(s, ZERO)]
        for x in parts:
            nw = []
            for s1, at in cur:
                if isinstance(x, bytes):
                    segs = tuple((at + i + 1, ('val', ci(c, 8))) for i, c in enumerate(x))
                    for s2 in ip.arr_put(s1, rid, at, at + len(x), segs): nw.append((s2, at + len(x)))
                else:
                    for s2 in bulk(ip, s1, P(rid, at), x[0], x[1], 1, what='%s of a format'): nw.append((s2, at + x[1]))
            cur = nw
        out += [(s1, rid, s1.canon(n)) for s1, _ in cur]
    return out
def m_vsnprintf(ip, st, args, ins, fn):
    """writes min(len, size-1) formatter bytes and a NUL; returns len or -1"""
    out = []
    if isinstance(args[3], P):
        u = ('va-used', args[3].r, st.const(args[3].o))
        if st.ghost.get(u): ip.fail(st, 'va', 'the argument list is used again after the formatter consumed it'); return []
        st.ghost[u] = True; ip.ok('va')
    fk = ('fmt-ok', args[2], st.ghost.get(('va', args[3].r, st.const(args[3].o))) if isinstance(args[3], P) else None)
    if fk not in st.ghost:       # formatting the same text again does not fail
        e = st.copy(); e.ghost[('fmt-error',)] = True
        out.append((e, 'ret', ci(-1, 32)))
    for s, rid, n in formatted(ip, st.copy(), args):
        s.ghost[fk] = True
        for s0 in ip.split_ge(s.copy(), n - 2**31, True): s0.ghost[('fmt-error',)] = True; out.append((s0, 'ret', ci(-1, 32)))
        for s0 in ip.split_ge(s, K(2**31 - 1) - n, True):
            for s1, sz in ip.ints(s0, args[1], 64, False):
                for s2 in ip.split_eq(s1.copy(), sz, True): out.append((s2, 'ret', I(n, 32)))
                for s2 in ip.split_ge(s1, sz - 1, True):
                    for fits in (True, False):
                        for s3 in ip.split_ge(s2.copy(), sz - 1 - n, fits):
                            k = n if fits else sz - 1
                            for s4, q in ip.access(s3, args[0], k + 1, True, ' (vsnprintf)'):
                                if not isinstance(q, P): continue
                                if s4.regs[q.r].arr is None: s4.inexact = s4.inexact or 'vsnprintf target'; out.append((s4, 'ret', I(n, 32))); continue
                                lo = ip.idx_of(s4, s4.regs[q.r], q.o)
                                for s5 in bulk(ip, s4, q, P(rid, ZERO), k, 1, what='vsnprintf'):
                                    for s6 in ip.arr_write(s5, q.r, lo + k, lo + k + 1, ((lo + k + 1, ('val', ci(0, 8))),)):
                                        out.append((s6, 'ret', I(n, 32)))
    return out

# ---------------------------------------------------------------- C memory
def c_alloc(ip, st, n, desc, name):
    """[(st, kind, v)]: a fresh block of n bytes, or null"""
    out = []
    s = st.copy()
    if s.store.add_ge(K(MAXOBJ) - n) and s.store.sat_after(n.syms()):
        rid = s.alloc('heap', name, n, 1, {'alloc': 'malloc'}, content=desc)
        s.event('alloc', rid)
        out.append((s, 'ret', P(rid, ZERO)))
    if ip.opts.get('malloc_null') or not st.store.entails_ge(K(MAXOBJ) - n):
        s = st.copy()
        if not ip.opts.get('malloc_null'):
            if not (s.store.add_ge(n - MAXOBJ - 1) and s.store.sat_after(n.syms())): return out
        s.event('alloc-failed')
        out.append((s, 'ret', NULL))
    return out
def m_malloc(ip, st, args, ins, fn):
    out = []
    for s, n in ip.ints(st, args[0], 64, False): out.extend(c_alloc(ip, s, n, ('raw',), 'malloc block'))
    return out
def m_calloc(ip, st, args, ins, fn):
    out = []
    for s, n in ip.ints(st, args[0], 64, False):
        for s1, m in ip.ints(s, args[1], 64, False):
            a, b = s1.const(n), s1.const(m)
            if a is not None: t = m * a
            elif b is not None: t = n * b
            else:
                t = ip.nonlinear(s1, 'mul', n, m, 64)
            out.extend(c_alloc(ip, s1, t, ('val', ci(0, 8)), 'calloc block'))
    return out
def m_free(ip, st, args, ins, fn):
    p = args[0]
    if isinstance(p, I): return ret(st)
    if not isinstance(p, P): raise Unsupported('free of unknown pointer')
    if not st.store.entails_eq(p.o):
        ip.fail(st, 'bad-free', 'free of a pointer that is not the start of %s' % st.regs[p.r].name); return []
    hook = ip.opts.get('on_free')
    if hook: hook(ip, st, p.r)
    if ip.free_region(st, p.r, 'malloc'): return ret(st)
    return []
def m_realloc(ip, st, args, ins, fn):
    p = args[0]
    if isinstance(p, I): return m_malloc(ip, st, args[1:], ins, fn)
    if not isinstance(p, P): raise Unsupported('realloc of unknown pointer')
    r = st.regs[p.r]
    if not r.live: ip.fail(st, 'uaf', 'realloc of released %s' % r.name); return []
    if not st.store.entails_eq(p.o) or r.kind != 'heap' or r.flags.get('alloc') != 'malloc':
        ip.fail(st, 'bad-free', 'realloc of a pointer that is not the start of an allocation'); return []
    out = []
    for s, n in ip.ints(st, args[1], 64, False):
        for s0 in ip.split_eq(s.copy(), n, True):
            ip.free_region(s0, p.r, 'malloc'); out.append((s0, 'ret', NULL))
        for s1 in ip.split_ge(s, n - 1, True):
            for s2, k, v in c_alloc(ip, s1, n, ('raw',), 'realloc block'):
                if not isinstance(v, P): out.append((s2, k, v)); continue
                old = s2.regs[p.r].size
                for s3 in ip.split_ge(s2.copy(), n - old, True):
                    for s4 in bulk(ip, s3, v, p, old, 1, what='realloc'):
                        ip.free_region(s4, p.r, 'malloc'); out.append((s4, k, v))
                for s3 in ip.split_ge(s2, old - n - 1, True):
                    for s4 in bulk(ip, s3, v, p, n, 1, what='realloc'):
                        ip.free_region(s4, p.r, 'malloc'); out.append((s4, k, v))
    return out

def register(m):
    m.name('malloc', m_malloc); m.name('calloc', m_calloc); m.name('realloc', m_realloc); m.name('free', m_free)
    m.name('Elem::Elem()', m_elem_ctor); m.name('Elem::Elem(Elem const&)', m_elem_copy)
    m.name('Elem::Elem(Elem&&)', m_elem_move); m.name('Elem::~Elem()', m_elem_dtor)
    m.name('Elem::operator=(Elem const&)', m_elem_asg); m.name('Elem::operator=(Elem&&)', m_elem_masg)
    m.name('Elem::operator==(Elem const&) const', m_elem_eq(False)); m.name('Elem::operator!=(Elem const&) const', m_elem_eq(True))
    m.name('std::hash<Elem>::operator()(Elem const&) const', m_elem_hash)
    m.rx(r'std::__new_allocator<.*>::allocate\(|std::allocator<.*>::allocate\(', m_allocate)
    m.rx(r'std::__new_allocator<.*>::deallocate\(|std::allocator<.*>::deallocate\(', m_deallocate)
    m.name('_Znwm', m_opnew('new')); m.name('_Znam', m_opnew('new[]'))
    m.name('_ZdlPv', m_opdelete('new')); m.name('_ZdlPvm', m_opdelete('new'))
    m.name('_ZdaPv', m_opdelete('new[]')); m.name('_ZdaPvm', m_opdelete('new[]'))
    for n in ('llvm.memcpy.p0.p0.i64', 'memcpy'): m.name(n, m_memcpy('memcpy'))
    for n in ('llvm.memmove.p0.p0.i64', 'memmove'): m.name(n, m_memcpy('memmove'))
    for n in ('llvm.memset.p0.i64', 'memset'): m.name(n, m_memset)
    m.name('memcmp', m_memcmp); m.name('bcmp', m_memcmp); m.name('memchr', m_memchr); m.name('strcmp', m_strcmp(False)); m.name('strncmp', m_strcmp(True)); m.name('memmem', m_memmem); m.name('strlen', m_strlen)
    m.name('strnlen', m_strnlen); m.name('strcpy', m_strcpy(False)); m.name('stpcpy', m_strcpy(True)); m.name('strncpy', m_strncpy); m.name('strcat', m_strcat)
    m.name('strncat', m_strncat); m.name('strdup', m_strdup(False)); m.name('strndup', m_strdup(True)); m.name('mempcpy', m_mempcpy)
    for n in ('toupper', 'tolower', 'isspace', 'isdigit', 'isalnum', 'isalpha', 'isprint'): m.name(n, m_ctype(n))
    m.rx(r'^\S+\* std::copy<', m_copy(False)); m.rx(r'^\S+\* std::move<.*, .*>\(', m_copy(True))
    m.rx(r'^\S+\* std::(move|copy)_backward<', m_move_backward)
    m.rx(r'std::uninitialized_(copy|move)_n<', m_uninit_copy_n)
    m.rx(r'std::uninitialized_(copy|move)<', m_uninit_copy)
    m.rx(r'std::uninitialized_fill<', m_fill(True)); m.rx(r'std::fill<', m_fill(False))
    m.rx(r'std::uninitialized_fill_n<', m_fill_n(True)); m.rx(r'std::fill_n<', m_fill_n(False))
    m.rx(r'^\S+( const)?\* std::find<', m_find)
    m.rx(r'^std::back_insert_iterator<bd::String> std::transform<char', m_transform_back)
    m.name('__cxa_allocate_exception', m_alloc_exc); m.name('__cxa_free_exception', m_nop)
    m.name('llvm.eh.typeid.for', m_typeid_for); m.name('llvm.eh.typeid.for.p0', m_typeid_for)
    m.name('__cxa_throw', m_throw); m.name('__cxa_rethrow', m_rethrow)
    m.name('__cxa_begin_catch', m_begin_catch); m.name('__cxa_end_catch', m_end_catch)
    m.name('_ZSt9terminatev', m_terminate); m.name('__clang_call_terminate', m_terminate)
    m.rx(r'^std::(out_of_range|length_error|runtime_error|logic_error|exception)::', m_nop)
    m.name('abort', m_abort); m.name('exit', m_abort); m.name('_exit', m_abort)
    m.name('_ZSt17__throw_bad_allocv', m_throw_std('_ZTISt9bad_alloc'))
    m.name('_ZSt28__throw_bad_array_new_lengthv', m_throw_std('_ZTISt20bad_array_new_length'))
    m.rx(r'^std::__throw_length_error', m_throw_std('_ZTISt12length_error'))
    for k in ('min', 'max'):
        for w in (8, 16, 32, 64):
            m.name('llvm.u%s.i%d' % (k, w), m_minmax(k, False)); m.name('llvm.s%s.i%d' % (k, w), m_minmax(k, True))
    SS = r'^std::__cxx11::basic_string<char.*>::'
    m.rx(SS + r'(data|c_str)\(\) const', m_ss_data); m.rx(SS + r'(length|size)\(\) const', m_ss_len)
    m.rx(SS + r'~basic_string', m_nop)
    m.rx(SS + r'basic_string\(std::__cxx11::basic_string<.*> const&\)$', m_ss_copy)
    m.rx(SS + r'basic_string\(char const\*, unsigned long, std::allocator<char> const&\)', m_ss_ctor_pn)
    m.rx(r'basic_ios<.*>::(fail\(\) const|operator bool\(\) const|operator!\(\) const|good\(\) const)', m_is_ok)
    m.rx(r'^std::istream::get\(char&\)|std::operator>><char.*char&\)', m_is_get)
    m.rx(r'^std::istream::(putback|unget)', m_is_ret)
    m.rx(r'std::operator<<<.*basic_ostream<.*, char\)$|^std::ostream::put\(', m_os_char)
    m.rx(r'^std::ostream::write\(', m_os_write)
    m.rx(r'std::operator<<<.*basic_ostream<.*, char const\*\)$', m_os_cstr)
    m.name('vsnprintf', m_vsnprintf)
    m.rx(r'^llvm\.is\.constant', lambda ip, st, a, ins, fn: ret(st, FALSE))
    for n in ('llvm.va_end', 'llvm.va_end.p0'): m.name(n, m_nop)
    for n in ('llvm.va_start', 'llvm.va_start.p0'): m.name(n, m_va_start)
    for n in ('llvm.va_copy', 'llvm.va_copy.p0'): m.name(n, m_va_copy)
    m.rx(r'^llvm\.(dbg|lifetime|assume|experimental)', m_nop)
    m.name('_ZNSt12out_of_rangeC1EPKc', m_nop)
