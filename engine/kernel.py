"""Models of the system calls and stdio functions the library uses.  Every call
forks into success and failure; descriptors, temporary names, mappings and stdio
handles are typestate records in the analysis state.

Records live in st.ghost under ('k', kind, id) and are replaced, never mutated."""
import itertools
from core import *
import models
from models import ret, bulk, cstr_len
from lin import K, S, ZERO, ONE, fresh

_id = itertools.count(1)
def recs(st, kind): return [(k, v) for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == 'k' and k[1] == kind]
def new(st, rk, **kw):
    key = ('k', rk, next(_id)); st.ghost[key] = kw; return key
def upd(st, key, **kw):
    d = dict(st.ghost[key]); d.update(kw); st.ghost[key] = d

# ------------------------------------------------------------ paths
def snapshot(ip, st, p, what):
    """[(st, (rid, n))]: the C string at p, copied"""
    out = []
    for s, n in cstr_len(ip, st, p):
        rid = s.add(Region('ext', what, n + 1, 1, ((n + 1, ('raw',)),)))
        for s2 in bulk(ip, s, P(rid, ZERO), p, n, 1, what=what): out.append((s2, (rid, s2.canon(n))))
    return out
def pieces(ip, st, rid, lo, hi):
    """[(st, pieces)] of a byte range, in the form seq_equal expects"""
    out = []
    for s, segs in ip.arr_extract(st.copy(), rid, lo, hi):
        ps = []; a = lo
        for h, d in segs:
            if d[0] == 'src': ps.append((h - a, 'src', d[1], a + d[2]))
            elif d[0] == 'val': ps.append((h - a, 'c', d[1]))
            else: ps.append((h - a, 'any'))
            a = h
        out.append((s, ps))
    return out
def same_text(ip, st, a, b, kind, what, seq):
    """obligation: snapshot a equals snapshot b"""
    for s, ps in pieces(ip, st, b[0], ZERO, b[1]): seq(s, kind, a[0], ZERO, a[1], ps, what)

# ------------------------------------------------------------ descriptors
def find_fd(ip, st, v, what):
    """[(st, key)] of the open descriptor v"""
    out = []
    for s, e in ip.ints(st, v, 32, True):
        hit = None
        for k, r in recs(s, 'fd'):
            if s.store.entails_eq(r['fd'] - e): hit = k if hit is None or r['open'] else hit
        if hit is None or not s.ghost[hit]['open']:
            ip.fail(s, 'fd', '%s on a descriptor that is %s' % (what, 'already closed' if hit else 'not open (%s)' % s.canon(e)))
            continue
        ip.ok('fd')
        out.append((s, hit))
    return out
def new_fd(st, name, **kw):
    x = fresh(name); st.store.add_ge(x); st.store.add_ge(K(2**20) - x)
    for k, r in recs(st, 'fd'):
        if r['open']: st.store.add_ne(x - r['fd'])
    return new(st, 'fd', fd=x, open=True, name=name, **kw), I(x, 32)
def fails(st, call, v=-1, w=32):
    s = st.copy(); s.event('fail', call); return (s, 'ret', ci(v, w))

def m_mkstemp(ip, st, args, ins, fn):
    out = []
    for s, n in cstr_len(ip, st, args[0]):
        p = args[0]
        for s0 in ip.split_ge(s.copy(), 5 - n, True): out.append(fails(s0, 'mkstemp'))
        for s1 in ip.split_ge(s, n - 6, True):
            for s2, q in ip.access(s1, p, n + 1, True, ' (mkstemp template)'):
                ok = True
                for i in range(6):
                    for s3, c in ip.load(s2.copy(), P(q.r, q.o + n - 6 + i), 1, 'i8', 8):
                        if isinstance(c, I) and c.src is None and s3.const(c.e) not in (None, ord('X')): ok = False
                out.append(fails(s2, 'mkstemp'))
                if not ok:
                    ip.fail(s2, 'publish', 'the mkstemp template does not end in XXXXXX'); continue
                sid = new_src('random', 8, kind='free', nonul=True, ne=(ord('/'),))
                lo = s2.canon(q.o + n - 6)
                for s3 in ip.arr_write(s2, q.r, lo, lo + 6, ((lo + 6, ('src', sid, -lo)),)):
                    for s4, snap in snapshot(ip, s3, p, 'temporary name'):
                        key, v = new_fd(s4, 'tempfd', kind='tmp', sync=False, mode=None, dirty=False, size=None)
                        t = new(s4, 'tmp', path=snap, state='exists', fd=key)
                        s4.event('mkstemp', key)
                        out.append((s4, 'ret', v))
    return out
def m_open(ip, st, args, ins, fn):
    out = []
    fl = st.const(args[1].e) if isinstance(args[1], I) and args[1].src is None else None
    for s, snap in snapshot(ip, st, args[0], 'path'):
        out.append(fails(s, 'open'))
        key, v = new_fd(s, 'fd', kind='file', path=snap, flags=fl, sync=False, size=None, mode=args[2] if len(args) > 2 else None)
        if fl is not None and fl & 0o1000: upd(s, key, size=ZERO)
        s.event('open', key, fl)
        out.append((s, 'ret', v))
    return out
def m_close(ip, st, args, ins, fn):
    out = []
    for s, k in find_fd(ip, st, args[0], 'close'):
        r = s.ghost[k]
        if r['kind'] == 'caller':
            ip.fail(s, 'fd', 'closes the descriptor that belongs to the caller')
        if r.get('owner'):
            ip.fail(s, 'fd', 'closes the descriptor of a stdio handle behind its back')
        upd(s, k, open=False)
        f = s.copy(); upd(f, k, closefail=True); f.event('fail', 'close'); out.append((f, 'ret', ci(-1, 32)))
        upd(s, k, closeok=True); s.event('close', k); out.append((s, 'ret', ci(0, 32)))
    return out
def m_fdop(call, field):
    def h(ip, st, args, ins, fn):
        out = []
        for s, k in find_fd(ip, st, args[0], call):
            out.append(fails(s, call))
            upd(s, k, **{field: args[1] if len(args) > 1 else True}); s.event(call, k)
            out.append((s, 'ret', ci(0, 32)))
        return out
    return h
def tmp_by_path(ip, st, snap):
    """records of temporaries whose name has the same text (decided by descriptor identity)"""
    for k, r in recs(st, 'tmp'):
        if text_same(ip, st, snap, r['path']): return k
    return None
def text_same(ip, st, a, b):
    if not st.store.entails_eq(a[1] - b[1]): return False
    x = pieces(ip, st, a[0], ZERO, a[1]); y = pieces(ip, st, b[0], ZERO, b[1])
    if len(x) != 1 or len(y) != 1: return False
    (s, ps), (_, qs) = x[0], y[0]
    i = j = 0; pa = pb = ZERO
    ps = [list(p) for p in ps if not s.store.entails_ge(-p[0])]; qs = [list(q) for q in qs if not s.store.entails_ge(-q[0])]
    while i < len(ps) and j < len(qs):
        p, q = ps[i], qs[j]
        if p[1] != q[1] or p[1] == 'any': return False
        if p[1] == 'src' and (p[2] != q[2] or not s.store.entails_eq(p[3] + pa - q[3] - pb)): return False
        if p[1] == 'c' and p[2] != q[2] and not (isinstance(p[2], I) and isinstance(q[2], I) and p[2].src is None and q[2].src is None and s.store.entails_eq(p[2].e - q[2].e)): return False
        ra, rb = p[0] - pa, q[0] - pb
        if s.store.entails_eq(ra - rb): i += 1; j += 1; pa = pb = ZERO
        elif s.store.entails_ge(rb - ra): i += 1; pa = ZERO; pb = pb + ra
        elif s.store.entails_ge(ra - rb): j += 1; pb = ZERO; pa = pa + rb
        else: return False
    return i >= len(ps) and j >= len(qs)
def m_unlink(ip, st, args, ins, fn):
    out = []
    for s, snap in snapshot(ip, st, args[0], 'unlink argument'):
        h = ip.opts.get('on_unlink')
        if h: h(ip, s, snap)
        k = tmp_by_path(ip, s, snap)
        if k is not None:
            upd(s, k, unlinks=s.ghost[k].get('unlinks', 0) + 1)
        else: new(s, 'unlink-other', path=snap)
        f = s.copy(); f.event('fail', 'unlink'); out.append((f, 'ret', ci(-1, 32)))
        if k is not None and s.ghost[k]['state'] == 'exists': upd(s, k, state='unlinked')
        s.event('unlink', k); out.append((s, 'ret', ci(0, 32)))
    return out
def m_rename(ip, st, args, ins, fn):
    out = []
    for s, a in snapshot(ip, st, args[0], 'rename source'):
        for s1, b in snapshot(ip, s, args[1], 'rename target'):
            k = tmp_by_path(ip, s1, a)
            h = ip.opts.get('on_rename')
            if h: h(ip, s1, k, a, b)
            out.append(fails(s1, 'rename'))
            if k is not None: upd(s1, k, state='renamed', target=b, renames=s1.ghost[k].get('renames', 0) + 1)
            s1.event('rename', k); out.append((s1, 'ret', ci(0, 32)))
    return out
def m_touch_path(call):
    """other calls that change or remove a file by name"""
    def h(ip, st, args, ins, fn):
        out = []
        for s, snap in snapshot(ip, st, args[0], call + ' argument'):
            hk = ip.opts.get('on_path')
            if hk: hk(ip, s, call, snap)
            out.append(fails(s, call)); s.event(call); out.append((s, 'ret', ci(0, 32)))
        return out
    return h
def m_chmod(ip, st, args, ins, fn):
    out = []
    for s, snap in snapshot(ip, st, args[0], 'chmod argument'):
        k = tmp_by_path(ip, s, snap)
        if k is None:
            hk = ip.opts.get('on_path')
            if hk: hk(ip, s, 'chmod', snap)
        out.append(fails(s, 'chmod'))
        if k is not None: upd(s, s.ghost[k]['fd'], mode=args[1])
        s.event('chmod', k); out.append((s, 'ret', ci(0, 32)))
    return out
# ------------------------------------------------------------ file contents
def fsize(st, k):
    r = st.ghost[k]
    while r.get('dupof'): k = r['dupof']; r = st.ghost[k]
    if r.get('size') is None:
        n = fresh('filesize'); st.store.add_ge(n); st.store.add_ge(K(2**62) - n)
        sid = new_src('file', 8, kind='free')
        upd(st, k, size=n, sid=sid)
    return k, st.ghost[k]['size']
def m_lseek(ip, st, args, ins, fn):
    out = []
    for s, k in find_fd(ip, st, args[0], 'lseek'):
        out.append(fails(s, 'lseek', -1, 64))
        wh = s.const(args[2].e); off = s.canon(args[1].e) if args[1].src is None else None
        k2, n = fsize(s, k)
        if wh == 2 and off is not None and s.const(off) == 0: v = n
        elif wh == 0 and off is not None: v = off
        else:
            v = fresh('position'); s.store.add_ge(v); s.store.add_ge(K(2**62) - v)
        s.event('lseek', k); out.append((s, 'ret', I(v, 64)))
    return out
def m_fstat(ip, st, args, ins, fn):
    out = []
    for s, k in find_fd(ip, st, args[0], 'fstat'):
        out.append(fails(s, 'fstat'))
        k2, n = fsize(s, k)
        p = args[1]
        for s2, q in ip.access(s, p, K(144), True, ' (fstat)'):
            r = s2.w(q.r); o = s2.const(q.o) or 0
            r.cells = {x: c for x, c in r.cells.items() if x < o or x >= o + 144}
            r.cells[o + 48] = (8, I(n, 64))
            out.append((s2, 'ret', ci(0, 32)))
    return out
def m_ftruncate(ip, st, args, ins, fn):
    out = []
    for s, k in find_fd(ip, st, args[0], 'ftruncate'):
        out.append(fails(s, 'ftruncate'))
        k2, _ = fsize(s, k)
        for s2, n in ip.ints(s, args[1], 64, True):
            for s3 in ip.split_ge(s2.copy(), -n - 1, True): out.append(fails(s3, 'ftruncate'))
            for s3 in ip.split_ge(s2, n, True):
                upd(s3, k2, size=n, truncated=True); s3.event('ftruncate', k2); out.append((s3, 'ret', ci(0, 32)))
    return out
def m_mmap(ip, st, args, ins, fn):
    out = []
    for s, k in find_fd(ip, st, args[4], 'mmap'):
        prot = s.const(args[2].e); flags = s.const(args[3].e)
        for s1, n in ip.ints(s, args[1], 64, False):
            out.append(fails(s1, 'mmap', -1, 64))
            for s2 in ip.split_ge(s1, n - 1, True):
                k2, size = fsize(s2, k)
                r = s2.ghost[k2]
                # mapped bytes beyond the end of the file cannot be accessed
                for s3, m in ((s4, m) for c, m in ((size - n, n), (n - size - 1, size)) for s4 in ip.split_ge(s2.copy(), c, True)):
                    desc = ('src', r['sid'], ZERO) if r.get('sid') is not None and not r.get('truncated') else ('raw',)
                    rid = s3.add(Region('map', 'file mapping', m, 1, ((m, desc),)))
                    if not prot & 2: s3.regs[rid].flags['const'] = True
                    new(s3, 'map', rid=rid, len=n, file=k2, shared=bool(flags & 1), live=True)
                    if flags & 1 and prot & 2: upd(s3, k2, content=rid)
                    s3.event('mmap', k2); out.append((s3, 'ret', P(rid, ZERO)))
    return out
def m_munmap(ip, st, args, ins, fn):
    p = args[0]
    out = []
    for k, r in recs(st, 'map'):
        if isinstance(p, P) and p.r == r['rid']:
            if not r['live']: ip.fail(st, 'io-release', 'a mapping is released twice'); return []
            for s, n in ip.ints(st, args[1], 64, False):
                d = n - r['len']
                if not st.store.entails_eq(d):
                    for e in (d - 1, -d - 1):
                        if not s.store.entails_ge(-e - 1): ip.fail(s, 'io-release', 'munmap with length %s of a mapping of %s bytes' % (s.canon(n), s.canon(r['len'])), [e])
                f = s.copy(); upd(f, k, live=False, fail=True); f.event('fail', 'munmap'); out.append((f, 'ret', ci(-1, 32)))
                upd(s, k, live=False); s.event('munmap', k)
                reg = s.w(p.r); reg.live = False
                out.append((s, 'ret', ci(0, 32)))
            return out
    ip.fail(st, 'io-release', 'munmap of something that was not mapped')
    return []
def m_msync(ip, st, args, ins, fn):
    return [fails(st, 'msync'), (st, 'ret', ci(0, 32))]
def m_dup(ip, st, args, ins, fn):
    out = []
    for s, k in find_fd(ip, st, args[0], 'dup'):
        out.append(fails(s, 'dup'))
        key, v = new_fd(s, 'dupfd', kind='dup', dupof=k)
        s.event('dup', key); out.append((s, 'ret', v))
    return out
# ------------------------------------------------------------ stdio
def m_fdopen(ip, st, args, ins, fn):
    out = []
    for s, k in find_fd(ip, st, args[0], 'fdopen'):
        f = s.copy(); f.event('fail', 'fdopen'); out.append((f, 'ret', NULL))
        rid = s.add(Region('file', 'FILE', K(216))); s.regs[rid].cells = {0: (8, ci(0))}
        h = new(s, 'FILE', rid=rid, fd=k, open=True, eof=False, err=False, pending=False, written=ZERO)
        if s.ghost[k]['kind'] == 'caller': ip.fail(s, 'fd', 'a stdio handle takes over the descriptor that belongs to the caller')
        upd(s, k, owner=h)
        s.event('fdopen', k); out.append((s, 'ret', P(rid, ZERO)))
    return out
def m_fopen(ip, st, args, ins, fn):
    out = []
    for s, snap in snapshot(ip, st, args[0], 'path'):
        f = s.copy(); f.event('fail', 'fopen'); out.append((f, 'ret', NULL))
        key, v = new_fd(s, 'fd', kind='file', path=snap, flags=None, sync=False, size=None, mode=None)
        rid = s.add(Region('file', 'FILE', K(216))); s.regs[rid].cells = {0: (8, ci(0))}
        h = new(s, 'FILE', rid=rid, fd=key, open=True, eof=False, err=False, pending=False, written=ZERO)
        upd(s, key, owner=h); s.event('fopen', key); out.append((s, 'ret', P(rid, ZERO)))
    return out
def handle(ip, st, p, what):
    for k, r in recs(st, 'FILE'):
        if isinstance(p, P) and p.r == r['rid']:
            if not r['open']: ip.fail(st, 'io-release', '%s on a stdio handle that is already closed' % what); return None
            return k
    ip.fail(st, 'io-release', '%s on a null or unknown stdio handle' % what)
    return None
def m_fclose(ip, st, args, ins, fn):
    k = handle(ip, st, args[0], 'fclose')
    if k is None: return []
    out = []
    upd(st, k, open=False); upd(st, st.ghost[k]['fd'], open=False)
    f = st.copy(); f.event('fail', 'fclose'); upd(f, k, lost=f.ghost[k]['pending']); out.append((f, 'ret', ci(-1, 32)))
    upd(st, k, pending=False); st.event('fclose', k); out.append((st, 'ret', ci(0, 32)))
    return out
def m_fflush(ip, st, args, ins, fn):
    k = handle(ip, st, args[0], 'fflush')
    if k is None: return []
    f = st.copy(); f.event('fail', 'fflush'); upd(f, k, lost=True)
    upd(st, k, pending=False); st.event('fflush', k)
    return [(f, 'ret', ci(-1, 32)), (st, 'ret', ci(0, 32))]
def fpos(st, k): return st.regs[st.ghost[k]['rid']].cells[0][1].e
def set_fpos(st, k, e): st.w(st.ghost[k]['rid']).cells[0] = (8, I(st.canon(e), 64))
def m_fseek(ip, st, args, ins, fn):
    k = handle(ip, st, args[0], 'fseek')
    if k is None: return []
    out = []
    # a descriptor can be repositioned or it cannot
    if st.ghost[k].get('seekable') is not True:
        f = st.copy(); f.event('fail?', 'fseek'); upd(f, k, seekable=False); out.append((f, 'ret', ci(-1, 32)))
        if st.ghost[k].get('seekable') is False: return out
        upd(st, k, seekable=True)
    wh = st.const(args[2].e); off = st.canon(args[1].e) if args[1].src is None else None
    k2, n = fsize(st, st.ghost[k]['fd'])
    upd(st, k, eof=False)
    if wh == 2 and off is not None and st.const(off) == 0: set_fpos(st, k, n)
    elif wh == 0 and off is not None: set_fpos(st, k, off)
    else:
        v = fresh('position'); st.store.add_ge(v); st.store.add_ge(K(2**62) - v); set_fpos(st, k, v)
    return out + [(st, 'ret', ci(0, 32))]
def m_rewind(ip, st, args, ins, fn):
    k = handle(ip, st, args[0], 'rewind')
    if k is None: return []
    set_fpos(st, k, ZERO); upd(st, k, eof=False, err=False)
    return [(st, 'ret', None)]
def m_ftell(ip, st, args, ins, fn):
    k = handle(ip, st, args[0], 'ftell')
    if k is None: return []
    out = []
    if st.ghost[k].get('seekable') is not True:
        f = st.copy(); f.event('fail?', 'ftell'); upd(f, k, seekable=False); out.append((f, 'ret', ci(-1, 64)))
        if st.ghost[k].get('seekable') is False: return out
        upd(st, k, seekable=True)
    return out + [(st, 'ret', I(fpos(st, k), 64))]
def m_fread(ip, st, args, ins, fn):
    k = handle(ip, st, args[3], 'fread')
    if k is None: return []
    out = []
    for s, sz in ip.ints(st, args[1], 64, False):
        for s1, n in ip.ints(s, args[2], 64, False):
            if s1.const(sz) != 1: raise Unsupported('fread of wide items')
            for s2, q in ip.access(s1, args[0], n, True, ' (fread)'):
                k2, size = fsize(s2, s2.ghost[k]['fd']); at = fpos(s2, k); sid = s2.ghost[k2]['sid']
                for e in ip.split_ge(s2.copy(), at - size, True):
                    upd(e, k, eof=True); e.event('eof'); out.append((e, 'ret', ci(0)))
                e = s2.copy(); upd(e, k, err=True); e.event('fail', 'fread'); out.append((e, 'ret', ci(0)))
                m = fresh('fread')
                for c in (m - 1, n - m, size - at - m): s2.store.add_ge(c)
                if not s2.store.sat_after(m.syms() + n.syms() + size.syms()): continue
                if isinstance(q, P) and s2.regs[q.r].arr is not None:
                    lo = ip.idx_of(s2, s2.regs[q.r], q.o)
                    for s3 in ip.arr_write(s2, q.r, lo, lo + m, ((lo + m, ('src', sid, at - lo)),)):
                        set_fpos(s3, k, at + m); s3.event('input'); out.append((s3, 'ret', I(m, 64)))
                else:
                    s2.inexact = s2.inexact or 'fread target'; set_fpos(s2, k, at + m); s2.event('input'); out.append((s2, 'ret', I(m, 64)))
    return out
def outrec(ip, st, k, q, n, at):
    """data handed to the system, copied at that moment"""
    rid = st.add(Region('ext', 'written data', n, 1, ((n, ('raw',)),)))
    out = []
    for s in bulk(ip, st, P(rid, ZERO), q, n, 1, what='written data'):
        new(s, 'out', file=k, snap=rid, n=s.canon(n), at=s.canon(at)); out.append(s)
    return out
def m_fwrite(ip, st, args, ins, fn):
    k = handle(ip, st, args[3], 'fwrite')
    if k is None: return []
    out = []
    for s, sz in ip.ints(st, args[1], 64, False):
        for s1, n in ip.ints(s, args[2], 64, False):
            one = s1.const(n) == 1 and s1.const(sz) != 1
            if s1.const(sz) != 1 and not one: raise Unsupported('fwrite of wide items')
            tot = sz if one else n
            for s2, q in ip.access(s1, args[0], tot, False, ' (fwrite)'):
                w = s2.ghost[k]['written']
                for full in outrec(ip, s2.copy(), k, q, tot, w):
                    upd(full, k, written=full.canon(w + tot), pending=True); full.event('fwrite', k)
                    out.append((full, 'ret', ci(1) if one else I(n, 64)))
                if one: s2.event('fail', 'fwrite'); out.append((s2, 'ret', ci(0))); continue
                m = fresh('fwrite'); s2.store.add_ge(m); s2.store.add_ge(n - 1 - m)
                if s2.store.sat_after(m.syms() + n.syms()):
                    upd(s2, k, err=True); s2.event('fail', 'fwrite'); out.append((s2, 'ret', I(m, 64)))
    return out
def m_ferror(ip, st, args, ins, fn):
    k = handle(ip, st, args[0], 'ferror')
    return [] if k is None else ret(st, ci(1 if st.ghost[k]['err'] else 0, 32))
def m_feof(ip, st, args, ins, fn):
    k = handle(ip, st, args[0], 'feof')
    return [] if k is None else ret(st, ci(1 if st.ghost[k]['eof'] else 0, 32))
def m_write(ip, st, args, ins, fn):
    out = []
    for s, k in find_fd(ip, st, args[0], 'write'):
        for s1, n in ip.ints(s, args[2], 64, False):
            for s2, q in ip.access(s1, args[1], n, False, ' (write)'):
                out.append(fails(s2, 'write', -1, 64))
                w = s2.ghost[k].get('written', ZERO)
                part = s2.copy()
                m = fresh('written'); part.store.add_ge(m); part.store.add_ge(n - 1 - m)
                if part.store.sat_after(m.syms() + n.syms()):
                    for p2 in outrec(ip, part, k, q, m, w):
                        upd(p2, k, written=p2.canon(w + m)); p2.event('short', k); out.append((p2, 'ret', I(m, 64)))
                for s3 in outrec(ip, s2, k, q, n, w):
                    upd(s3, k, written=s3.canon(w + n)); s3.event('write', k); out.append((s3, 'ret', I(n, 64)))
    return out
def m_errno(ip, st, args, ins, fn):
    r = st.ghost.get(('errno',))
    if r is None:
        x = fresh('errno'); st.store.add_ge(x); st.store.add_ge(K(200) - x)
        reg = Region('ext', 'errno', K(4)); reg.cells = {0: (4, I(x, 32))}
        r = st.add(reg); st.ghost[('errno',)] = r
    return ret(st, P(r, ZERO))

def install(m):
    for n, h in dict(mkstemp=m_mkstemp, mkstemp64=m_mkstemp, open=m_open, open64=m_open, close=m_close, unlink=m_unlink, remove=m_unlink, rename=m_rename,
                     fchmod=m_fdop('fchmod', 'mode'), fsync=m_fdop('fsync', 'sync'), fdatasync=m_fdop('fdatasync', 'sync'), chmod=m_chmod,
                     lseek=m_lseek, lseek64=m_lseek, fstat=m_fstat, fstat64=m_fstat, ftruncate=m_ftruncate, ftruncate64=m_ftruncate, mmap=m_mmap, mmap64=m_mmap, munmap=m_munmap, msync=m_msync, dup=m_dup,
                     fdopen=m_fdopen, fopen=m_fopen, fclose=m_fclose, fflush=m_fflush, fseek=m_fseek, ftell=m_ftell, rewind=m_rewind, fread=m_fread, fwrite=m_fwrite,
                     ferror=m_ferror, feof=m_feof, write=m_write, truncate=m_touch_path('truncate'), link=m_touch_path('link'), symlink=m_touch_path('symlink')).items():
        m.name(n, h)
    m.name('__errno_location', m_errno)
class IOModels(models.Models):
    def __init__(self):
        super().__init__(); install(self)
def m_string_dtor(ip, st, args, ins, fn):
    """destruction without the wiping loop (C14 analyses that): only the reference is given up"""
    if 'D0' in fn.name: return None
    base = ip.opts.get('rca_dtor')
    if base is None:
        c = [f.name for f in ip.m.funcs.values() if not f.decl and f.dem.startswith('bd::ReferenceCountedArray<char') and '::~ReferenceCountedArray()' in f.dem and 'D2' in f.name]
        base = ip.opts['rca_dtor'] = c[0] if c else ''
    if not base: return None
    return ip.call_fn(st, base, args, ins)
class IOModels(IOModels):
    def __init__(self):
        super().__init__()
        self.overrides['bd::String::~String()'] = m_string_dtor
