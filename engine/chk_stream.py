"""Stream (C17 file I/O, C18 position arithmetic): every operation from every class
of entry state, file operations with every system call failing."""
import copy, time
import ir, par, models
from fx import *
from kernel import *
from drive import drive
import rca, rcaops
from rca import lone

TRUST = ['clang 18 front end (C++ to LLVM IR)', 'tool/irdump', 'abstract semantics in engine/core.py, lin.py, loops.py', 'system call models in engine/kernel.py and engine/models.py', 'specification in engine/chk_stream.py']
I32 = (-(1 << 31), (1 << 31) - 1)

class StreamWorld(rca.World):
    """a Stream object is a String at some offset plus a position"""
    def __init__(self, mod, M):
        super().__init__(mod, 'S', M)
        self.string = copy.copy(self); self.string.__class__ = rca.World
        ip = Interp(mod, M())
        s, v = lone(ip.call_fn(State(), 'h_T_sizeof', []), 'sizeof'); size = s.const(v.e)
        def field(fn):
            st = State(); rid = st.add(Region('lazy', 'obj', K(4096), flags={'lazy': True}))
            outs = [(s, v) for s, k, v in ip.call_fn(st, fn, [P(rid, ZERO)]) if k == 'ret']
            fs = set()
            for s, v in outs:
                e = s.canon(v.src[1] if v.src is not None else v.e)
                fs.add(s.ghost.get(('lazyfield', e.t[0][0])) if len(e.t) == 1 and e.c == 0 else None)
            if len(fs) != 1 or None in fs: raise ir.AnalysisBroken(fn + ' is not a plain field')
            return fs.pop()[1]
        so = field('h_T_length') - self.L.len
        L = copy.copy(self.L); L.size = size; L.len += so; L.off += so; L.ref += so
        if L.hash is not None: L.hash += so
        L.pos = field('h_T_tell'); self.so = so
        self.L = L
        ip.gcache = dict(self.gcache)
        st = self.state(); rid = st.add(Region('obj', 'tmpl', K(size)))
        s, _ = lone(ip.call_fn(st, 'h_T_ctor', [P(rid, ZERO)]), 'Stream()')
        base = dict(s.regs[rid].cells)
        self.owned = dict(base); self.owned.update({o + so: c for o, c in self.string.owned.items()})
        self.dflt = base
        for g, r2 in s.globs.items(): self.gl[g] = (r2, s.regs[r2])
        self.gcache = dict(self.gcache); self.gcache.update(ip.gcache)

class Env:
    def __init__(self, f, mod):
        self.f = f; self.ip = f.ip; self.W = StreamWorld(mod, IOModels)
        self.ip.gcache = dict(self.W.gcache)
        st = self.W.state(); f.st = st; self.st = st
        f.cx = rcaops.Cx(self.W, self.ip, None); self.cx = f.cx
        self.objs = {}
    def stream(self, kind, maxlen=None):
        W = self.W; st = self.st
        o = W.empty_obj(st, 'stream') if kind == 'empty' else W.obj(st, 'stream', kind)
        self.a = o
        self.pos = self.f.size('position', 0, 2**62) if kind != 'null' else self.f.size('position', 0, 2**62)
        st.w(o.rid).cells[W.L.pos] = (8, I(self.pos, 64))
        self.cap = o.blk['cap'] if o.blk else ZERO
        self.objs['stream'] = o
        return P(o.rid, ZERO)
    def string(self, name, kind):
        o = self.W.string.empty_obj(self.st, name) if kind == 'empty' else self.W.string.obj(self.st, name, kind)
        self.objs[name] = o; return o
    def result(self):
        self.r = self.W.string.raw_obj(self.st, 'result'); return P(self.r, ZERO)
    def content(self, o, lo=None, hi=None):
        if o.sid is None: return []
        lo = ZERO if lo is None else lo; hi = o.len if hi is None else hi
        return [(hi - lo, 'src', o.sid, o.off + lo)]
    def check(self, s, world, rid, pieces, kind, what):
        for s2, vw in world.view(self.ip, s.copy(), rid, what):
            rcaops.seq_equal(self.cx, s2, vw['n'], vw['segs'], pieces, kind, what)
    def position(self, s):
        return s.regs[self.a.rid].cells[self.W.L.pos][1]
    def pos_is(self, s, want, msg='position'):
        v = self.position(s)
        for s1, e in self.ip.ints(s.copy(), v, 64, False): self.f.same(s1, 'position', e, want, msg)
    def min(self, s, a, b):
        for s1, c in self.cx.cases(s, b - a): yield s1, (a if c == 0 else b)

def guard(f, g):
    ip = f.ip; f.outcomes = 0
    try: g()
    except Budget: ip.res.add('analysis', ip.default_site, 'undecided', 'budget exhausted', None, ip.entry)
    except Unsupported as e: ip.res.add('analysis', ip.default_site, 'undecided', 'unsupported: %s' % e, None, ip.entry)
    except RecursionError: ip.res.add('analysis', ip.default_site, 'undecided', 'recursion', None, ip.entry)
    ip.res.visited = ip.visited
    return ip.res

def call(f, env, args):
    for s, kind, v in f.ip.call_fn(env.st.copy(), f.fn, args):
        if not s.store.sat() or kind == 'exit': continue
        if kind == 'unw' and rcaops.is_oom(v): continue
        f.outcomes += 1
        yield s, kind, v

# ------------------------------------------------------------ C18
def c_seek(f, label):
    def g():
        E = Env(f, f.mod); kind, wh = label.split('/')
        a = E.stream(kind); ip = f.ip; st = E.st
        off = fresh('offset'); st.store.add_ge(off - I32[0]); st.store.add_ge(K(I32[1]) - off)
        if wh == 'other':
            w = fresh('whence'); st.store.add_ge(w - I32[0]); st.store.add_ge(K(I32[1]) - w)
            for x in (0, 1, 2): st.store.add_ne(w - x)
        else: w = K(int(wh))
        for s, k, v in call(f, E, [a, I(off, 32), I(w, 32)]):
            if k == 'unw': ip.fail(s, 'position', 'seek throws %s' % models.exc_name(v)); continue
            p = E.position(s)
            for s1, e in ip.ints(s.copy(), p, 64, False):
                if s1.store.entails_ge(E.cap - e): ip.ok('position')
                else: ip.fail(s1, 'position', 'seek leaves the position at %s with a capacity of %s' % (s1.canon(e), s1.canon(E.cap)), [e - E.cap - 1])
            # the place asked for, as far as int can express it
            want = {'0': off, '1': E.pos + off, '2': E.cap - off}.get(wh, E.pos)
            s2 = s.copy()
            for c in (K(I32[1]) - E.cap, K(I32[1]) - want, want - I32[0]): s2.store.add_ge(c)
            if not s2.store.sat(): continue
            for s3, c in E.cx.cases(s2, -want - 1, want - E.cap):
                t = (ZERO, E.cap, want)[c]
                E.pos_is(s3, t, 'position after seek')
                for s4, e in ip.ints(s3, v, 32, True): f.same(s4, 'position', e, t, 'result of seek')
            E.check(s, E.W, E.a.rid, E.content(E.a), 'content', 'stream contents')
    return guard(f, g)

def avail(E, s, n):
    """bytes available from the position, at most n"""
    ln = E.a.len
    for s1, c in E.cx.cases(s, ln - E.pos):
        if c: yield s1, ZERO
        else: yield from E.min(s1, n, ln - E.pos)
def c_read(f, label):
    """label: kind / delimiter case: none, absent (not in the rest), at (first occurrence given)"""
    def g():
        E = Env(f, f.mod); kind, dl = label.split('/')
        ip = f.ip; st = E.st; fn = f.fn
        r = E.result(); a = E.stream(kind)
        args = [r, a]
        n = f.size('count') if fn in ('h_T_read', 'h_T_read_delim', 'h_T_getline_n') else None
        if n is not None: args.append(I(n, 64))
        d = None; m = None
        if fn == 'h_T_getline_n': st.store.add_ne(n - 99999999)
        if fn != 'h_T_read':
            if fn == 'h_T_read_delim':
                c = fresh('delim'); st.store.add_ge(c - 1); st.store.add_ge(K(255) - c); args.append(I(c, 8))
                if E.a.sid is None: pass
            # the contents in pieces: no delimiter before the first one behind the position
            if E.a.sid is not None and E.a.blk.get('buf') is not None:
                dv = c if fn == 'h_T_read_delim' else K(10)
                if dl == 'at':
                    m = f.size('first', 0, 2**62)
                    st.store.add_ge(E.a.len - E.pos - m - 1)
                    if not st.store.sat(): return
                    pre = new_src('text', 8, kind='free', ne=(dv,)); o = E.a.off
                    b = E.a.blk['buf']; sid = E.a.sid
                    lo = o + E.pos; hi = lo + m
                    reg = st.w(b)
                    reg.arr = ((lo, ('src', sid, ZERO)), (hi, ('src', pre, -lo)), (hi + 1, ('val', I(dv, 8))), (E.cap, ('src', sid, ZERO)))
                    E.pre = pre; E.dv = dv
                else:
                    o = E.a.off; b = E.a.blk['buf']
                    pre = new_src('text', 8, kind='free', ne=(dv,))
                    # past or inside
                    st.store.add_ge(E.a.len - E.pos)
                    if not st.store.sat(): return
                    lo = o + E.pos; hi = o + E.a.len
                    st.w(b).arr = ((lo, ('src', E.a.sid, ZERO)), (hi, ('src', pre, -lo)), (E.cap, ('src', E.a.sid, ZERO)))
                    E.pre = pre; E.dv = dv
        def rest(t):
            if E.a.sid is None: return []
            if fn == 'h_T_read': return [(t, 'src', E.a.sid, E.a.off + E.pos)]
            return [(t, 'src', E.pre, ZERO)]
        if dl == 'past': st.store.add_ge(E.pos - E.a.len - 1)
        for s, k, v in call(f, E, args):
            if k == 'unw': ip.fail(s, 'content', '%s throws %s' % (fn[4:], models.exc_name(v))); continue
            for s1, t in avail(E, s.copy(), n if n is not None else K(NPOS)):
                if m is not None:
                    for s2, c in E.cx.cases(s1, m - t):
                        if c == 0: pcs = rest(t); tot = t
                        else: pcs = rest(m) + [(ONE, 'c', I(E.dv, 8))]; tot = m + 1
                        E.check(s2, E.W.string, E.r, pcs, 'content', 'result of ' + fn[4:])
                        E.pos_is(s2, E.pos + tot, 'position after ' + fn[4:])
                else:
                    E.check(s1, E.W.string, E.r, rest(t) if dl != 'past' else [], 'content', 'result of ' + fn[4:])
                    E.pos_is(s1, E.pos + t, 'position after ' + fn[4:])
    return guard(f, g)

def c_misc(f, label):
    def g():
        E = Env(f, f.mod); fn = f.fn; ip = f.ip; st = E.st
        kind, ok = label.split('/')
        if fn == 'h_T_peek':
            r = E.result(); a = E.stream(kind)
            for s, k, v in call(f, E, [r, a]):
                if k == 'unw':
                    if rcaops.is_oor(v):
                        for s1 in ip.split_ge(s, E.a.len - E.pos, True): ip.fail(s1, 'content', 'peek throws at a position inside the contents')
                    else: ip.fail(s, 'content', 'peek throws %s' % models.exc_name(v))
                    continue
                for s1, t in avail(E, s.copy(), K(NPOS)):
                    E.check(s1, E.W.string, E.r, [(t, 'src', E.a.sid, E.a.off + E.pos)] if E.a.sid is not None else [], 'content', 'result of peek')
                E.pos_is(s, E.pos, 'position after peek'); E.check(s, E.W, E.a.rid, E.content(E.a), 'content', 'stream contents')
        elif fn == 'h_T_truncate':
            a = E.stream(kind)
            for s, k, v in call(f, E, [a]):
                if k == 'unw': ip.fail(s, 'content', 'truncate throws %s' % models.exc_name(v)); continue
                for s1, t in E.min(s.copy(), E.pos, E.a.len): E.check(s1, E.W, E.a.rid, E.content(E.a, ZERO, t), 'content', 'truncated stream')
                E.pos_is(s, E.pos, 'position after truncate')
        elif fn == 'h_T_clear':
            a = E.stream(kind)
            for s, k, v in call(f, E, [a]):
                if k == 'unw': ip.fail(s, 'content', 'clear throws %s' % models.exc_name(v)); continue
                E.check(s, E.W, E.a.rid, [], 'content', 'cleared stream'); E.pos_is(s, ZERO, 'position after clear')
        else:
            a = E.stream(kind)
            o = E.string('text', ok) if ok != 'view' else None
            if o is None:
                o = E.W.string.obj(st, 'text', 'view', E.a.blk); E.objs['text'] = o
            for s, k, v in call(f, E, [a, P(o.rid, ZERO)]):
                n = o.len
                if k == 'unw':
                    if rcaops.is_oor(v):
                        # only a position behind the contents may be refused, and then nothing changes
                        for s1 in ip.split_ge(s.copy(), E.a.len - E.pos, True): ip.fail(s1, 'content', '%s refuses a position inside the contents' % fn[4:])
                        E.pos_is(s, E.pos, 'position after a refused ' + fn[4:]); E.check(s, E.W, E.a.rid, E.content(E.a), 'content', 'stream contents after a refused ' + fn[4:])
                    else: ip.fail(s, 'content', '%s throws %s' % (fn[4:], models.exc_name(v)))
                    continue
                E.pos_is(s, E.pos + n, 'position after ' + fn[4:])
                for s1 in ip.split_ge(s.copy(), E.a.len - E.pos, True):
                    head = E.content(E.a, ZERO, E.pos); mid = E.content(o)
                    for s2, c in E.cx.cases(s1, E.a.len - E.pos - n):
                        tail = E.content(E.a, E.pos + n, E.a.len) if c == 0 else []
                        E.check(s2, E.W, E.a.rid, head + mid + tail, 'content', 'stream after ' + fn[4:])
                if not fn.endswith('move'): E.check(s, E.W.string, o.rid, E.content(o), 'content', 'text given to ' + fn[4:])
    return guard(f, g)

# ------------------------------------------------------------ C17
SOFT_LOAD = {'close', 'munmap', 'fclose', 'fseek', 'ftell', 'fflush', 'msync', 'madvise', 'posix_fadvise'}
def released(f, s, what):
    bad = False; ip = f.ip
    for k, r in recs(s, 'fd'):
        if r['kind'] == 'caller':
            if not r['open']: ip.fail(s, 'fd', '%s closes the descriptor of the caller' % what); bad = True
        elif r['open']: ip.fail(s, 'io-release', '%s leaves a descriptor open' % what); bad = True
    for k, r in recs(s, 'map'):
        if r['live']: ip.fail(s, 'io-release', '%s leaves a mapping behind' % what); bad = True
    for k, r in recs(s, 'FILE'):
        if r['open']: ip.fail(s, 'io-release', '%s leaves a stdio handle open' % what); bad = True
    if not bad: ip.ok('io-release')
def failed(s, soft=()):
    return [e[1] for e in s.ev if e[0] == 'fail' and e[1] not in soft]
def c_file(f, label):
    def g():
        E = Env(f, f.mod); fn = f.fn; ip = f.ip; st = E.st
        ip.budget = 1500000
        if 'load' in fn: ip.opts['unroll_sym'] = 2     # short files exactly, then all lengths approximately
        kind, namekind = label.split('/')
        a = E.stream(kind); args = [a]; what = {'h_T_load_fd': 'loadFile(fd)', 'h_T_load_name': 'loadFile(name)', 'h_T_write_fd': 'writeFile(fd)'}.get(fn, 'writeFile(name)')
        load = 'load' in fn
        if fn.endswith('_fd'):
            key, v = new_fd(st, 'fd', kind='caller', sync=False, size=None, mode=None); args.append(v)
        else:
            o = E.string('name', namekind); args.append(P(o.rid, ZERO))
            if o.sid is not None: SRC[o.sid]['nonul'] = True
            st.store.add_ge(o.len - 1); st.store.add_ge(K(2**31) - o.blk['cap'])
            if fn.endswith('mode'):
                m = f.size('mode', 0, 0o7777); args.append(I(m, 32))
        for s, k, v in call(f, E, args):
            if k == 'unw':
                released(f, s, what + ' when an exception leaves it')
                ip.fail(s, 'report', '%s throws %s' % (what, models.exc_name(v))); continue
            released(f, s, what)
            hard = failed(s, SOFT_LOAD if load else ())
            anyf = failed(s)
            for s1, e in ip.ints(s, v, 32, True):
                for s2, c in E.cx.cases(s1, e - 1, -e - 1):
                    if c == 2:
                        if hard: ip.fail(s2, 'report', '%s reports success although %s failed' % (what, hard[0])); continue
                        if [x for x in s2.ev if x[0] == 'short'] and not load: pass
                        ip.ok('report')
                        (loaded if load else written)(f, E, s2, what)
                    else:
                        if not anyf and not [x for x in s2.ev if x[0] in ('short', 'fail?')]: ip.fail(s2, 'report', '%s reports failure although nothing failed' % what)
                        else: ip.ok('report')
            if not load:
                E.check(s, E.W, E.a.rid, E.content(E.a), 'content', 'stream written')
            if fn == 'h_T_write_name_mode' or fn == 'h_T_load_name' or fn == 'h_T_write_name':
                for k2, r in recs(s, 'fd'):
                    if r['kind'] != 'file' or r.get('path') is None: continue
                    f.seq(s.copy(), 'report', r['path'][0], ZERO, r['path'][1], E.content(o), 'name of the opened file')
                    fl = r.get('flags')
                    if fl is None: continue
                    if load and fl & 3 == 1 or not load and fl & 3 == 0: ip.fail(s, 'report', '%s opens the file in the wrong mode' % what)
                    if not load and not fl & 0o100: ip.fail(s, 'report', '%s does not create the file' % what)
                    if load and fl & 0o1100: ip.fail(s, 'report', 'loadFile opens the file with flags %o' % fl)
    return guard(f, g)
def rootfile(s):
    """the record that carries the content of the one file involved"""
    c = [(k, r) for k, r in recs(s, 'fd') if not r.get('dupof')]
    return c[0] if len(c) == 1 else (None, None)
def loaded(f, E, s, what):
    ip = f.ip
    E.pos_is(s, ZERO, 'position after ' + what)
    k, r = rootfile(s)
    if r is None: return
    if recs(s, 'FILE'):
        for _, x in recs(s, 'FILE'):
            if not x['eof']: ip.fail(s, 'report', '%s reports success without reaching the end of the file' % what)
    n = r.get('size')
    if n is None:
        ip.fail(s, 'report', '%s reports success without looking at the file' % what); return
    E.check(s, E.W, E.a.rid, [(n, 'src', r['sid'], ZERO)], 'content', 'stream after ' + what)
def written(f, E, s, what):
    ip = f.ip
    k, r = rootfile(s)
    if r is None: return
    want = E.content(E.a); n = E.a.len
    outs = [x for _, x in recs(s, 'out')]
    if outs or recs(s, 'FILE'):
        for _, x in recs(s, 'FILE'):
            if x.get('pending') or x.get('lost'): ip.fail(s, 'report', '%s reports success with data that was never flushed' % what)
        at = ZERO
        for x in outs:
            f.same(s.copy(), 'content', x['at'], at, 'offset of data written by ' + what)
            f.seq(s.copy(), 'content', x['snap'], ZERO, x['n'], [(x['n'], 'src', E.a.sid, E.a.off + at)] if E.a.sid is not None else [], 'data written by ' + what)
            at = at + x['n']
        f.same(s.copy(), 'content', at, n, 'amount of data written by ' + what)
        if r['kind'] == 'file' and r.get('flags') is not None and not r['flags'] & 0o1000 and not r.get('truncated'): ip.fail(s, 'content', '%s leaves old data behind the new' % what)
        return
    if r.get('size') is None: ip.fail(s, 'report', '%s reports success without writing anything' % what); return
    f.same(s.copy(), 'content', r['size'], n, 'size of the file after ' + what)
    for s1, c in E.cx.cases(s.copy(), -n):
        if c == 0: ip.ok('content'); continue
        if r.get('content') is None: ip.fail(s1, 'content', '%s reports success without writing the contents' % what); continue
        f.seq(s1, 'content', r['content'], ZERO, n, want, 'data written by ' + what)

KINDS = {'C17': {'fd', 'io-release', 'report', 'content', 'position', 'uaf', 'bounds', 'bounds-r', 'bounds-w', 'null'},
         'C18': {'position', 'content', 'bounds', 'bounds-r', 'bounds-w', 'null', 'uaf', 'invalid', 'cow', 'range', 'loop-progress'}}
RULES = {
    'C17': 'on every path through loadFile/writeFile (each system or stdio call succeeding or failing): result 0 only if no relied-on call failed and the content is complete, non-zero only if one failed; every descriptor, mapping and handle opened is released exactly once and the caller\'s descriptor stays open; both configurations',
    'C18': 'seek leaves the position in [0, capacity] at the requested place; read/getline/peek/puts/truncate deliver or replace exactly the bytes from the position and move it by exactly that much, for every position, count and content',
}
KS = ('null', 'empty', 'own', 'shared')
def cases(prop, tier):
    out = []
    if prop == 'C18':
        for k in KS:
            for w in ('0', '1', '2', 'other'): out.append(('full', 'h_T_seek', k + '/' + w, c_seek))
            out.append(('full', 'h_T_read', k + '/none', c_read))
            for fn in ('h_T_read_delim', 'h_T_getline', 'h_T_getline_n'):
                for d in ('absent', 'past') + (('at',) if k in ('own', 'shared') else ()): out.append(('full', fn, k + '/' + d, c_read))
            for fn in ('h_T_peek', 'h_T_truncate', 'h_T_clear'): out.append(('full', fn, k + '/-', c_misc))
            for fn in ('h_T_puts', 'h_T_puts_move', 'h_T_out', 'h_T_out_move'):
                for b in ('null', 'own', 'shared') + (('view',) if k in ('own', 'shared') else ()): out.append(('full', fn, k + '/' + b, c_misc))
    else:
        for cfg in ('full', 'portable'):
            for fn in ('h_T_load_fd', 'h_T_load_name', 'h_T_write_fd', 'h_T_write_name', 'h_T_write_name_mode'):
                for k in KS:
                    for nk in ('-',) if fn.endswith('_fd') else ('shared',): out.append((cfg, fn, k + '/' + nk, c_file))
    return out
def run(rep, prop, tier):
    rep.rule(RULES[prop])
    if prop == 'C17':
        rep.assume('system calls fail or succeed independently; a failing close still releases the descriptor; the file does not change while it is being loaded; a failing close or munmap after reading loses nothing')
    if prop == 'C17': rep.assume('the portable reading loop is analysed exactly for files delivered in at most two reads; for more reads the release and report obligations are proved and the content is left undecided')
    mods = {c: ir.load('harness/h_io.cpp', c) for c in (('full', 'portable') if prop == 'C17' else ('full',))}
    drive(rep, mods, cases(prop, tier), lambda k: k in KINDS[prop], tier, M=IOModels, seconds=60)
