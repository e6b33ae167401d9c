"""Text utilities (C31): split, newsplit, sub, trim, chomp, repetition and join, each decided for texts
whose pieces have any length and content, split by where the delimiters are."""
import ir, models, rca, rcaops
from fx import *
from drive import drive
from chk_stream import guard
from chk_cmp import Env, MODELS, total
from rcaops import is_oom
TRUST = ['clang 18 front end (C++ to LLVM IR)', 'tool/irdump', 'abstract semantics in engine/core.py, lin.py, loops.py', 'library models (memmem, memchr, memcmp, memcpy, isspace) in engine/models.py', 'specification in engine/chk_text.py']
HARNESS = 'harness/h_text.cpp'
WS = (9, 10, 11, 12, 13, 32)

def pcs(parts): return [(n, 'src', d[1], d[2]) if d[0] == 'src' else (n, 'c', d[1]) for n, d in parts]
class Text(Env):
    def __init__(self, f):
        super().__init__(f); self.ip.opts.update(unroll_sym=8, unroll_first=True, array_alloca=False); self.ats = []; self.res = None
    def any(self, name, ne=(), lo=0): return (self.size(name, lo), ('src', self.src(name, **({'ne': tuple(ne)} if ne else {})), ZERO))
    def ch(self, c): return (ONE, self.value(K(c) if isinstance(c, int) else c))
    def other(self, name, *ne):
        x = self.elem(name)
        for y in ne: self.st.store.add_ne(x - y)
        return self.ch(x)
    def string(self, name, parts, shared=False, marks=()):
        blk, (s0,) = self.block(name, parts)
        o = self.handle(name, blk, s0, total(parts))
        if shared: o2 = self.handle(name + ' (copy)', blk, s0, total(parts)); self.objs.append((o2, parts))
        at = s0
        for i, (n, d) in enumerate(parts):
            if i in marks: self.ats.append((blk['buf'], at))
            at = at + n
        return o
    def const(self, name, parts, **kw):
        o = self.string(name, parts, **kw); self.objs.append((o, parts)); return o
    def null(self, name):
        o = super().null(name); self.objs.append((o, [])); return o
    def result(self): self.res = self.W.raw_obj(self.st, 'result'); return P(self.res, ZERO)
    def outcomes(self, args):
        f = self.f; ip = self.ip
        if self.ats: ip.opts['at'] = self.ats
        for s, kind, v in ip.call_fn(self.st.copy(), f.fn, args):
            if not s.store.sat() or kind == 'exit': continue
            if kind == 'unw':
                if not is_oom(v): ip.fail(s, 'throw', '%s throws %s' % (f.fn[2:], models.exc_name(v)))
                continue
            f.outcomes += 1
            yield s
    def is_(self, s, rid, parts, what):
        for s2, vw in self.W.view(self.ip, s.copy(), rid, what):
            rcaops.seq_equal(self.cx, s2, vw['n'], vw['segs'], pcs(parts), 'content', what)
    def done(self, s, parts):
        self.is_(s, self.res, parts, 'result of ' + self.f.fn[2:]); self.unchanged(s)
    # ---- arrays of strings
    def list(self):
        i2 = Interp(self.f.mod, MODELS()); (s0, k, v), = i2.call_fn(State(), 'h_list_sizeof', [])
        self.res = self.st.add(Region('obj', 'result', K(s0.const(v.e)))); return P(self.res, ZERO)
    def list_is(self, s, want, optional=0):
        """exactly the strings in want (each a list of parts); the last `optional` of them may be missing"""
        ip = self.ip; f = self.f
        for s1, k, n in ip.call_fn(s, 'h_list_len', [P(self.res, ZERO)]):
            for s2, e in ip.ints(s1, n, 64, False):
                w = want
                for j in range(optional):
                    if s2.store.entails_eq(e - len(w) + 1): w = w[:-1]
                if not f.same(s2, 'length', e, K(len(w)), 'number of pieces'): continue
                for i, x in enumerate(w):
                    for s3, k, p in ip.call_fn(s2.copy(), 'h_list_at', [P(self.res, ZERO), ci(i)]): self.element(s3, p, x, i)
        self.unchanged(s)
    def element(self, s, p, parts, i):
        L = self.W.L
        base = s.const(p.o)
        if base is None: raise Unsupported('element position')
        r = s.regs[p.r]
        if r.arr is not None: raise Unsupported('array of strings')
        o = self.W.raw_obj(s, 'piece %d' % i)
        s.regs[o].cells = {k - base: v for k, v in r.cells.items() if base <= k < base + L.size}
        self.is_(s, o, parts, 'piece %d' % i)

CASES = []
def case(*labels):
    def d(g):
        def h(f, label):
            def go(): g(Text(f), label)
            return guard(f, go)
        for fn, ls in labels:
            for l in ls: CASES.append((fn, l, h))
        return g
    return d

# ------------------------------------------------------------ chomp / trim
def inplace(E, label, text, want):
    sh = label.startswith('shared'); ro = E.f.fn.endswith('_c')
    if ro:
        r = E.result(); o = E.const('text', text, shared=sh)
        for s in E.outcomes([r, P(o.rid, ZERO)]): E.done(s, want)
    else:
        o = E.string('text', text, shared=sh)
        for s in E.outcomes([P(o.rid, ZERO)]): E.is_(s, o.rid, want, 'text after ' + E.f.fn[2:]); E.unchanged(s)
CH = ('none', 'n', 'r', 'rn', 'nn', 'nr', 'rr', 'rrn', 'n only', 'r only', 'rn only', 'empty')
@case(*[(fn, [k + '/' + c for k in ('own', 'shared') for c in CH]) for fn in ('h_chomp', 'h_chomp_c')])
def chomp(E, label):
    c = label.split('/')[1]
    ends = {'n': 10, 'r': 13}
    if c == 'empty': inplace(E, label, [], []); return
    if c == 'none': t = [E.any('text'), E.other('last', 10, 13)]; inplace(E, label, t, t); return
    tail = [E.ch(ends[x]) for x in c.split()[0]]
    head = [] if 'only' in c else [E.any('text'), E.other('last', 10, 13)]
    keep = {'n': 0, 'r': 0, 'rn': 0, 'nn': 1, 'nr': 1, 'rr': 1, 'rrn': 1}[c.split()[0]]
    inplace(E, label, head + tail, head + tail[:keep])
TR = ('0/0', '1/0', '0/1', '2/0', '0/2', '1/1', '2/2', '3/1', 'one', 'all 1', 'all 3', 'empty')
@case(*[(fn, [k + '/' + c for k in ('own', 'shared') for c in TR]) for fn in ('h_trim', 'h_trim_c')])
def trim(E, label):
    c = label.split('/', 1)[1]
    ws = lambda n, i0=0: [E.ch(WS[(i + i0) % 6]) for i in range(n)]
    if c == 'empty': inplace(E, label, [], []); return
    if c.startswith('all'): inplace(E, label, ws(int(c[4:]), 2), []); return
    if c == 'one': w = [E.other('only', *WS)]; E_nospace(E, w); inplace(E, label, ws(2, 3) + w + ws(3), w); return
    a, b = map(int, c.split('/'))
    w = [E.other('first', *WS), E.any('inside'), E.other('last', *WS)]; E_nospace(E, w)
    inplace(E, label, ws(a) + w + ws(b, 3), w)
def E_nospace(E, parts):
    """the C locale: no other character is white space"""
    for n, d in parts:
        if d[0] == 'val': E.st.ghost[('atom', 'isspace', E.st.canon(d[1].e))] = False

# ------------------------------------------------------------ repetition / join
@case(('h_times', [k + '/%d' % n for k in ('own', 'shared', 'null') for n in range(4)]))
def times(E, label):
    k, n = label.split('/'); r = E.result()
    t = [] if k == 'null' else [E.any('text')]
    o = E.null('text') if k == 'null' else E.const('text', t, shared=k == 'shared')
    for s in E.outcomes([r, P(o.rid, ZERO), ci(int(n), 32)]): E.done(s, t * int(n))
@case(*[('h_join%d' % n, [q + '/' + k for q in ('plain', 'quoted') for k in ('own', 'null')]) for n in range(4)])
def join(E, label):
    n = int(E.f.fn[-1]); q, k = label.split('/'); r = E.result()
    d = [] if k == 'null' else [E.any('delimiter')]
    do = E.null('delimiter') if k == 'null' else E.const('delimiter', d)
    xs = []; os = []
    for i in range(n):
        t = [E.any('text %d' % i)]; os.append(E.const('text %d' % i, t)); xs.append([E.ch(34)] + t + [E.ch(34)] if q == 'quoted' else t)
    want = []
    for i, x in enumerate(xs): want += (d if i else []) + x
    for s in E.outcomes([r, P(do.rid, ZERO), ci(1 if q == 'quoted' else 0, 1)] + [P(o.rid, ZERO) for o in os]): E.done(s, want)

# ------------------------------------------------------------ newsplit
@case(('h_newsplit', [k + '/' + c for k in ('own', 'shared') for c in ('absent', 'present', 'space absent', 'space 1', 'space 2', 'space 3', 'space end 1', 'space end 2', 'empty')]))
def newsplit(E, label):
    k, c = label.split('/'); r = E.result(); sh = k == 'shared'
    d = E.elem('delimiter')
    if c.startswith('space'): d = K(32)
    else: E.st.store.add_ne(d - 32)
    if c == 'empty': t = w = rest = []; m = ()
    elif c.endswith('absent'): t = w = [E.any('word', ne=(d,), lo=1)]; rest = []; m = ()
    elif c == 'present': w = [E.any('word', ne=(d,))]; rest = [E.any('rest')]; t = w + [E.ch(d)] + rest; m = (1,)
    else:
        n = int(c[-1]); w = [E.any('word', ne=(d,))]
        rest = [] if 'end' in c else [E.other('next', K(32)), E.any('rest')]
        t = w + [E.ch(32)] * n + rest; m = (1,)
    o = E.string('text', t, shared=sh, marks=m)
    for s in E.outcomes([r, P(o.rid, ZERO), I(d, 8)]):
        E.is_(s, o.rid, rest, 'text after newsplit'); E.done(s, w)

# ------------------------------------------------------------ sub / split: delimiters whose first character occurs nowhere else
def delim(E, kind):
    """(parts, first character)"""
    if kind == 'char': c = E.elem('c'); return [E.ch(c)], c
    c = E.elem('c'); return [E.ch(c), E.any('delimiter tail', ne=(c,), lo=1)], c
def fields(E, n, c): return [E.any('field %d' % i, ne=(c,)) for i in range(n)]
def interleave(fs, d):
    out = []; m = []
    for i, x in enumerate(fs):
        if i: m.append(len(out)); out += d
        out.append(x)
    return out, tuple(m)
@case(('h_sub', ['%s/%d/%s/%s' % (k, n, l, rp) for k in ('char', 'string') for n in (0, 1, 2, 3) for l in ('all', '1', '2', '3') for rp in ('own', 'null', 'self') if (n == 2 or rp == 'own') and (n < 3 or l == '1')]))
def sub(E, label):
    k, n, l, rp = label.split('/'); n = int(n); r = E.result()
    d, c = delim(E, k)
    t, m = interleave(fields(E, n + 1, c), d)
    o = E.const('text', t, marks=m, shared=n == 1)
    do = E.const('search', d)
    if rp == 'null': ro = E.null('replacement'); w = []
    elif rp == 'self': ro = o; w = t
    else: w = [E.any('replacement')]; ro = E.const('replacement', w)
    want = []; i = 0; cnt = 0
    fs = [x for x in t if x not in d]
    for i, x in enumerate(fs):
        if i: want += w if l == 'all' or i <= int(l) else d
        want.append(x)
    for s in E.outcomes([r, P(o.rid, ZERO), P(do.rid, ZERO), P(ro.rid, ZERO), ci(-1 if l == 'all' else int(l), 32)]): E.done(s, want)
@case(('h_sub', ['empty search/' + k for k in ('own', 'null')]))
def sub_empty(E, label):
    r = E.result(); t = [E.any('text')]; o = E.const('text', t); do = E.const('search', []) if label.endswith('own') else E.null('search')
    ro = E.const('replacement', [E.any('replacement')])
    for s in E.outcomes([r, P(o.rid, ZERO), P(do.rid, ZERO), P(ro.rid, ZERO), ci(-1, 32)]): E.done(s, t)

@case(('h_sub', ['overlap/%d/%s' % (n, l) for n in range(6) for l in ('all', '1', '2')]), ('h_split', ['overlap/%d/%s' % (n, l) for n in range(1, 6) for l in ('all', '2')]))
def overlap(E, label):
    """a row of n equal characters searched for two of them"""
    _, n, l = label.split('/'); n = int(n); c = E.elem('c'); sp = E.f.fn == 'h_split'
    r = E.list() if sp else E.result()
    o = E.const('text', [E.ch(c)] * n, marks=tuple(range(max(0, n - 1)))) if n else E.null('text'); d = E.const('search', [E.ch(c)] * 2)
    if sp:
        full, odd = divmod(n, 2); want = [[] for _ in range(full)] + ([[E.ch(c)]] if odd else []); opt = 0
        if l == '2':
            if full == 0: want = [[E.ch(c)], []]; opt = 1
            else: want = [[], [E.ch(c)] * (n - 2)]
        for s in E.outcomes([r, P(o.rid, ZERO), P(d.rid, ZERO), ci(2 ** 64 - 1 if l == 'all' else 2)]): E.list_is(s, want, opt)
        return
    w = [E.any('replacement')] if n < 4 else [E.other('x')]; ro = E.const('replacement', w)
    k = n // 2 if l == 'all' else min(n // 2, int(l))
    for s in E.outcomes([r, P(o.rid, ZERO), P(d.rid, ZERO), P(ro.rid, ZERO), ci(-1 if l == 'all' else int(l), 32)]): E.done(s, w * k + [E.ch(c)] * (n - 2 * k))
@case(('h_split', ['%s/%d/%s/%s' % (k, n, l, e) for k in ('char', 'string') for n in (0, 1, 2) for l in ('all', '1', '2', '3') for e in ('more', 'end') if not (n == 0 and e == 'end')]))
def split(E, label):
    """e: whether the text ends with a delimiter"""
    k, n, l, e = label.split('/'); n = int(n); r = E.list()
    d, c = delim(E, k)
    if k == 'char': E.st.store.add_ne(c - 32)
    fs = fields(E, n + 1, c)
    if e == 'end': fs[-1] = (ZERO, fs[-1][1])
    else: E.st.store.add_ge(fs[-1][0] - 1)
    t, m = interleave(fs, d)
    if e == 'end': t = t[:-1]
    o = E.const('text', t, marks=m, shared=n == 1); do = E.const('delimiter', d)
    want = [[x] for x in fs]; opt = 0
    if l == 'all':
        if e == 'end': want = want[:-1]
    else:
        q = int(l)
        if n + 1 >= q:      # the limit is reached: the remainder is the last piece
            rest, _ = interleave(fs[q - 1:], d); want = want[:q - 1] + [rest]
        else: want = want + ([[]] if e == 'more' else []); opt = 1
    for s in E.outcomes([r, P(o.rid, ZERO), P(do.rid, ZERO), ci(2 ** 64 - 1 if l == 'all' else int(l))]): E.list_is(s, want, opt)
@case(('h_split', ['empty/' + l for l in ('all', '1', '2')] + ['no delimiter/all']))
def split_empty(E, label):
    k, l = label.split('/'); r = E.list(); n = 2 ** 64 - 1 if l == 'all' else int(l)
    t = [] if k == 'empty' else [E.any('text', lo=1)]
    o = E.const('text', t) if t else E.null('text'); d = E.const('delimiter', [E.ch(44)]) if k == 'empty' else E.null('delimiter')
    for s in E.outcomes([r, P(o.rid, ZERO), P(d.rid, ZERO), ci(n)]): E.list_is(s, [t] if t else [])
@case(('h_split', ['words/%s/%s' % (p, l) for p in ('w', '1w', 'w1', 'w1w', '2w3w1', 'w2w1w', '2') for l in ('all', '1', '2')]))
def split_words(E, label):
    _, p, l = label.split('/'); r = E.list(); sp = K(32)
    t = []; ws = []; m = []; starts = []
    for x in p:
        if x == 'w': starts.append(len(t)); w = E.any('word %d' % len(ws), ne=(sp,), lo=1); ws.append([w]); t.append(w)
        else:
            m.append(len(t)); t += [E.ch(32)] * int(x)
    o = E.const('text', t, marks=tuple(m)); d = E.const('delimiter', [E.ch(32)])
    want = ws; opt = 0
    if l != 'all':
        q = int(l)
        if q == 1: want = [t]
        elif len(ws) >= q: want = ws[:q - 1] + [t[starts[q - 1]:]]
        else: want = ws + [[]]; opt = 1
    for s in E.outcomes([r, P(o.rid, ZERO), P(d.rid, ZERO), ci(2 ** 64 - 1 if l == 'all' else int(l))]): E.list_is(s, want, opt)

# ------------------------------------------------------------ reading from a std::istream that holds the given characters
def m_get(ip, st, args, ins, fn):
    cs, pos, ok = st.ghost['input']
    if not ok or pos >= len(cs): st.ghost['input'] = (cs, pos, False); return models.ret(st, args[0])
    st.ghost['input'] = (cs, pos + 1, True)
    return [(s, 'ret', args[0]) for s in ip.store_(st, args[1], 1, I(cs[pos], 8), 'i8')]
def m_get_skip(ip, st, args, ins, fn):
    cs, pos, ok = st.ghost['input']
    while ok and pos < len(cs) and cs[pos].is_const() and cs[pos].c in WS: pos += 1
    st.ghost['input'] = (cs, pos, ok)
    return m_get(ip, st, args, ins, fn)
def m_putback(ip, st, args, ins, fn):
    cs, pos, ok = st.ghost['input']
    if not ok or pos == 0: st.ghost['input'] = (cs, pos, False); return models.ret(st, args[0])
    if len(args) > 1:
        for s, e in ip.ints(st.copy(), args[1], 8, False):
            if not s.store.entails_eq(e - cs[pos - 1]): raise Unsupported('another character is put back')
    st.ghost['input'] = (cs, pos - 1, True); return models.ret(st, args[0])
def m_state(ip, st, args, ins, fn):
    cs, pos, ok = st.ghost['input']
    if 'eof()' in fn.dem: raise Unsupported('eof')
    return models.ret(st, TRUE if ok != ('fail()' in fn.dem or 'operator!' in fn.dem) else FALSE)
def m_peek(ip, st, args, ins, fn):
    cs, pos, ok = st.ghost['input']
    if not ok or pos >= len(cs): return models.ret(st, ci(-1, 32))
    return models.ret(st, I(cs[pos], 32))
class TMODELS(MODELS):
    def __init__(self):
        super().__init__()
        for r, h in ((r'^std::istream::get\(char&\)', m_get), (r'std::operator>><char.*char&\)', m_get_skip), (r'^std::istream::(putback|unget)', m_putback), (r'^std::istream::peek', m_peek),
                     (r'basic_ios<.*>::(fail\(\) const|operator bool\(\) const|operator!\(\) const|good\(\) const|eof\(\) const)', m_state)):
            self.by_re.insert(0, (__import__('re').compile(r), h))
def stream(E, text):
    """text: w = an ordinary character, . = blank, n = newline, t = tab"""
    st = E.st; cs = []
    for i, x in enumerate(text):
        if x == 'w':
            p = E.other('c%d' % i, *WS); E_nospace(E, [p]); cs.append(p[1][1].e)
        else: cs.append(K({'.': 32, 'n': 10, 't': 9, 'r': 13}[x]))
    vt = Region('ext', 'istream table', K(64), flags={'const': True}); vt.cells = {0: (8, ci(16))}
    r = Region('ext', 'istream', K(64)); r.cells = {0: (8, P(st.add(vt), K(24)))}
    st.ghost['input'] = (tuple(cs), 0, True)
    return P(st.add(r), ZERO), cs
def consumed(E, s, n):
    got = s.ghost['input'][1]
    E.f.same(s, 'length', K(got), K(n), 'characters taken from the stream')
IN = ('', 'w', 'n', 'wn', 'www', 'wwn', 'nw', 'wnw', 'w.wnw', 'wrnw', 'nn', '..', '.w', '.nww.w', 'ww.w', 'wtw', 'wwnw')
@case(('h_getline', [k + '/' + t for k in ('null', 'own', 'shared') for t in IN]), ('h_extract', [k + '/' + t for k in ('null', 'own', 'shared') for t in IN]))
def read(E, label):
    k, t = label.split('/'); ln = E.f.fn == 'h_getline'
    o = super(Text, E).null('text') if k == 'null' else E.string('text', [E.any('old text')], shared=k == 'shared')
    a, cs = stream(E, t)
    if ln: lo = 0; hi = t.find('n') if 'n' in t else len(t); used = hi + ('n' in t)
    else:
        lo = next((i for i, x in enumerate(t) if x == 'w'), len(t)); hi = next((i for i in range(lo, len(t)) if t[i] != 'w'), len(t)); used = hi
    for s in E.outcomes([a, P(o.rid, ZERO)]):
        E.is_(s, o.rid, [E.ch(c) for c in cs[lo:hi]], 'text read'); consumed(E, s, used); E.unchanged(s)

@case(('h_out', ['%s/%d' % (k, n) for k in ('own', 'shared', 'null') for n in range(5) if k != 'null' or n == 0]), ('h_out_move', ['own/%d' % n for n in range(5)]))
def out(E, label):
    k, n = label.split('/'); n = int(n); t = [E.other('c%d' % i) for i in range(n)]
    o = E.null('text') if k == 'null' else E.const('text', t, shared=k == 'shared') if E.f.fn == 'h_out' else E.string('text', t)
    a = E.st.add(Region('ext', 'ostream', K(512), flags={'opaque': True}))
    for s in E.outcomes([P(a, ZERO), P(o.rid, ZERO)]):
        work = [(s, (), ZERO)]
        for ev in s.ev:
            nw = []
            for s1, segs, m in work:
                if ev[0] == 'out-char':
                    for s2, e in E.ip.ints(s1, ev[1], 8, False): nw.append((s2, segs + ((m + 1, ('val', I(e, 8))),), m + 1))
                elif ev[0] == 'out-range':
                    for s2, x in (E.ip.arr_extract(s1, ev[1].r, ev[1].o, ev[1].o + ev[2]) if isinstance(ev[1], P) else [(s1, ())]):
                        nw.append((s2, segs + tuple((hi - ev[1].o + m, E.ip.shift_desc(d, ev[1].o - m)) for hi, d in x), s2.canon(m + ev[2])))
                else: nw.append((s1, segs, m))
            work = nw
        for s1, segs, m in work: rcaops.seq_equal(E.cx, s1, m, segs, pcs(t), 'content', 'text written')
        E.unchanged(s)

KINDS = ('content', 'length', 'other', 'throw', 'terminate', 'invalid')
def cases(tier): return [('full',) + c for c in CASES] + [('portable',) + c for c in CASES if c[0] in ('h_sub', 'h_split', 'h_newsplit') and tier != 'quick']
def run(rep, prop, tier):
    rep.rule('every outcome of every text utility, for texts given as pieces of arbitrary length and content around their delimiters, holds exactly the specified characters, and operands taken by const reference are unchanged')
    rep.assume('allocations succeed; "C" locale; at most three delimiters and runs of at most three blanks in a text; multi-character delimiters whose first character occurs only at the start of each occurrence')
    cs = cases(tier)
    drive(rep, {c: ir.load(HARNESS, c) for c in sorted({c[0] for c in cs})}, cs, lambda k: k in KINDS, tier, M=TMODELS, seconds=60, second=False)
