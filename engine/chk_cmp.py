"""Comparisons (C11) and searches (C12): every pair of operands, split by where (and how)
they first differ; every haystack, split by where the pattern first/last occurs."""
import ir, par, models, rca, rcaops
from fx import *
from drive import drive
from chk_stream import guard
from rcaops import is_oom

HARNESS = 'harness/h_cmp.cpp'
def m_dtor(ip, st, args, ins, fn): return models.ret(st)
class MODELS(models.Models):
    def __init__(self):
        super().__init__()
        # releasing a String cannot change what a search has returned; the destructor itself is judged by C05, C07 and C14
        self.overrides['bd::String::~String()'] = m_dtor
TRUST = ['clang 18 front end (C++ to LLVM IR)', 'tool/irdump', 'abstract semantics in engine/core.py, lin.py, loops.py', 'library models (memcmp, memmem, memchr, std::find) in engine/models.py', 'specification in engine/chk_cmp.py']

class Env:
    def __init__(self, f, pre='S'):
        self.f = f; self.ip = f.ip; self.W = W = rca.World(f.mod, pre, MODELS)
        f.ip.gcache = dict(W.gcache)
        self.st = f.st = W.state(); f.cx = self.cx = rcaops.Cx(W, f.ip, None)
        self.es = W.es; self.objs = []
    def size(self, name, lo=0, hi=None): return self.f.size(name, lo, MAXOBJ // self.es if hi is None else hi)
    def elem(self, name):
        x = fresh(name); w = self.es * 8
        self.st.store.add_ge(x); self.st.store.add_ge(K((1 << w) - 1) - x); return x
    def value(self, x): return ('val', I(x, self.es * 8))
    def src(self, name, **kw): return new_src(name, self.es * 8, kind='free', **kw)
    def handle(self, name, blk, off, ln):
        st = self.st; L = self.W.L
        o = self.W.obj(st, name, 'view', blk) if blk.get('used') else self.W.obj(st, name, 'own', blk)
        blk['used'] = True; blk['refs'] = o.blk['refs']
        c = st.w(o.rid).cells
        c[L.off] = (8, I(off, 64)); c[L.len] = (8, I(ln, 64))
        if L.hash is not None: c[L.hash] = (8, ci(0))
        o.off = off; o.len = ln; return o
    def block(self, name, *parts):
        """a shared block holding the parts (length, descriptor relative to the part) one after another, with slack around them"""
        st = self.st
        blk = self.W.block(st, name, False); at = self.size(name + '.offset')
        segs = [(at, ('src', self.src(name + ' before'), ZERO))]; starts = []
        for p in parts:
            starts.append(at)
            for n, d in p:
                if d[0] == 'src': d = ('src', d[1], d[2] - at)
                at = at + n; segs.append((at, d))
            gap = self.size(name + '.gap'); at = at + gap
            segs.append((at, ('src', self.src(name + ' gap'), ZERO)))
        st.store.add_ge(blk['cap'] - at)
        segs.append((blk['cap'], ('src', self.src(name + ' after'), ZERO)))
        st.w(blk['buf']).arr = tuple(segs)
        return blk, starts
    def null(self, name):
        return self.W.obj(self.st, name, 'null')
    def cstr(self, name, parts):
        """parts are free of NUL"""
        n = ZERO; segs = []
        for k, d in parts:
            if d[0] == 'src': d = ('src', d[1], d[2] - n)
            n = n + k; segs.append((n, d))
        segs.append((n + 1, ('val', ci(0, 8))))
        gap = self.size(name + '.slack'); segs.append((n + 1 + gap, ('src', self.src(name + ' behind'), ZERO)))
        return self.st.add(Region('ext', name, n + 1 + gap, 1, tuple(segs), flags={'const': True}))
    def unchanged(self, s):
        for o, parts in self.objs:
            pieces = []
            for n, d in parts: pieces.append((n, 'src', d[1], d[2]) if d[0] == 'src' else (n, 'c', d[1]))
            for s2, vw in self.W.view(self.ip, s.copy(), o.rid, o.name):
                rcaops.seq_equal(self.cx, s2, vw['n'], vw['segs'], pieces, 'other', o.name)

def total(parts):
    n = ZERO
    for k, _ in parts: n = n + k
    return n

# ------------------------------------------------------------ C11
def pair(E, rel, nonul_a=False, nonul_b=False, lens=None):
    """two element sequences in the given relation; (parts a, parts b, length of the common prefix)"""
    k = E.size('common'); nn = nonul_a or nonul_b
    Psrc = E.src('common text', **({'nonul': True} if nn else {}))
    p = [(k, ('src', Psrc, ZERO))]
    def rest(name, nonul):
        n = E.size(name); return (n, ('src', E.src(name, **({'nonul': True} if nonul else {})), ZERO))
    def one(name, nonul):
        x = E.elem(name)
        if nonul: E.st.store.add_ge(x - 1)
        return x
    if rel == 'equal': return p, list(p), k
    if rel in ('shorter', 'longer'):
        y = one('next', nonul_b if rel == 'shorter' else nonul_a)
        q = p + [(ONE, E.value(y)), rest('rest', nonul_b if rel == 'shorter' else nonul_a)]
        return (p, q, k) if rel == 'shorter' else (q, p, k)
    x = one('a.next', nonul_a); y = one('b.next', nonul_b)
    E.st.store.add_ge(y - x - 1 if rel == 'less' else x - y - 1)
    return p + [(ONE, E.value(x)), rest('a.rest', nonul_a)], p + [(ONE, E.value(y)), rest('b.rest', nonul_b)], k
SIGN = {'equal': 0, 'shorter': -1, 'longer': 1, 'less': -1, 'greater': 1}
RELS = tuple(SIGN)
LAYOUT = ('apart', 'one buffer', 'copy', 'a null', 'b null', 'both null', 'self')
OPS = {'eq': lambda c: c == 0, 'ne': lambda c: c != 0, 'lt': lambda c: c < 0, 'le': lambda c: c <= 0, 'gt': lambda c: c > 0, 'ge': lambda c: c >= 0}

def operands(E, label, ka, kb, pre='S'):
    """ka, kb: 's' (container) or 'c' (C string); (arg a, arg b, relation, common, parts a, parts b)"""
    lay, rel = label.split('/')[:2]
    na, nb = ka == 'c', kb == 'c'
    if lay == 'a null' or lay == 'both null': E.st.store  # empty prefix
    if lay == 'self':
        pa, pb, k = pair(E, 'equal'); blk, (s0,) = E.block('a', pa); o = E.handle('a', blk, s0, total(pa)); E.objs.append((o, pa))
        return P(o.rid, ZERO), P(o.rid, ZERO), 'equal', k, pa, pa
    if lay == 'copy':           # the same start in one buffer
        pa, pb, k = pair(E, rel)
        big, small = (pa, pb) if rel == 'longer' else (pb, pa)
        blk, (s0,) = E.block('a', big)
        oa = E.handle('a', blk, s0, total(pa)); ob = E.handle('b', blk, s0, total(pb))
        E.objs += [(oa, pa), (ob, pb)]
        return P(oa.rid, ZERO), P(ob.rid, ZERO), rel, k, pa, pb
    pa, pb, k = pair(E, rel, na, nb)
    if lay in ('a null', 'b null', 'both null'): E.st.store.add_eq(k)
    if lay == 'one buffer':
        blk, (s0, s1) = E.block('ab', pa, pb)
        oa = E.handle('a', blk, s0, total(pa)); ob = E.handle('b', blk, s1, total(pb))
        E.objs += [(oa, pa), (ob, pb)]
        return P(oa.rid, ZERO), P(ob.rid, ZERO), rel, k, pa, pb
    def mk(name, kind, parts, null):
        if kind == 'c': return P(E.cstr(name, parts), ZERO)
        if null: return P(E.null(name).rid, ZERO)
        blk, (s0,) = E.block(name, parts); o = E.handle(name, blk, s0, total(parts)); E.objs.append((o, parts)); return P(o.rid, ZERO)
    a = mk('a', ka, pa, lay in ('a null', 'both null')); b = mk('b', kb, pb, lay in ('b null', 'both null'))
    return a, b, rel, k, pa, pb

def c_cmp(f, label):
    def g():
        ip = f.ip; fn = f.fn
        pre = 'AI' if '_AI_' in fn else 'S'
        E = Env(f, pre)
        ka = 'c' if fn.startswith('h_c_') else 's'
        kb = 'c' if fn.endswith('_c') or fn.endswith('_cn') else 's'
        a, b, rel, k, pa, pb = operands(E, label, ka, kb, pre)
        bounded = fn.endswith('_n') or fn.endswith('_cn')
        args = [a, b]; n = None
        if bounded: n = f.size('n'); args.append(I(n, 64))
        for s, kind, v in ip.call_fn(E.st.copy(), fn, args):
            if not s.store.sat() or kind == 'exit': continue
            if kind == 'unw':
                if not is_oom(v): ip.fail(s, 'throw', 'comparison throws %s' % models.exc_name(v))
                continue
            f.outcomes += 1
            E.unchanged(s)
            op = fn.split('_')[-1] if fn.split('_')[-1] in OPS else fn.split('_')[1] if fn.split('_')[1] in OPS else None
            if fn.startswith('h_AI_equals'): op = 'eq'
            todo = [(s, SIGN[rel])]
            if bounded and pre == 'S':
                todo = [(s1, (0, SIGN[rel])[c]) for s1, c in E.cx.cases(s, k - n)]
            elif bounded:       # the number of elements has to agree all the same
                todo = [(s1, SIGN[rel] if c or rel in ('shorter', 'longer') else 0) for s1, c in E.cx.cases(s, k - n)]
                if rel in ('less', 'greater'):
                    d = total(pa) - total(pb); t2 = []
                    for s1, w in todo:
                        for s2 in ip.split_eq(s1.copy(), d, True): t2.append((s2, w))
                        for s2 in ip.split_eq(s1, d, False): t2.append((s2, 1))
                    todo = t2
            for s1, sg in todo:
                if op is not None:
                    for s2, e in ip.ints(s1, v, 1, False): f.same(s2, 'result', e, K(int(OPS[op](sg))), 'result for %s operands' % rel)
                    continue
                for s2, e in ip.ints(s1, v, 32, True):
                    if sg == 0: f.same(s2, 'result', e, ZERO, 'result for operands that agree'); continue
                    if s2.store.entails_ge(e * sg - 1): ip.ok('result')
                    else: ip.fail(s2, 'result', 'result %s, expected a %s number' % (s2.canon(e), 'positive' if sg > 0 else 'negative'), [-e * sg])
    return guard(f, g)

def c11(tier):
    out = []
    for op in ('cmp', 'cmp_n', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'AI_eq', 'AI_ne', 'AI_equals', 'AI_equals_n'):
        for lay in LAYOUT:
            for rel in RELS:
                if lay == 'self' and rel != 'equal': continue
                if lay == 'copy' and rel in ('less', 'greater'): continue
                if lay == 'a null' and rel not in ('equal', 'shorter'): continue
                if lay == 'b null' and rel not in ('equal', 'longer'): continue
                if lay == 'both null' and rel != 'equal': continue
                out.append(('full', 'h_' + op, lay + '/' + rel, c_cmp))
    for op in ('cmp_c', 'cmp_cn') + tuple(o + '_c' for o in OPS):
        for rel in RELS:
            out.append(('full', 'h_' + op, 'apart/' + rel, c_cmp))
            if rel in ('equal', 'shorter'): out.append(('full', 'h_' + op, 'a null/' + rel, c_cmp))
    for op in OPS:
        for rel in RELS:
            out.append(('full', 'h_c_' + op, 'apart/' + rel, c_cmp))
            if rel in ('equal', 'longer'): out.append(('full', 'h_c_' + op, 'b null/' + rel, c_cmp))
    return out

# ------------------------------------------------------------ C12
NPOS_ = (1 << 64) - 1
def occurs(E, s, H, hi, Pt, pi, m, mapped):
    """obligation: hay source H from index hi holds the pattern source Pt from pi, m elements"""
    ip = E.ip
    facts = []
    for k, g in s.ghost.items():
        if not (isinstance(k, tuple) and k[0] == 'seqeq'): continue
        sa, ia, sb, ib, n = g
        ma, mb = s.ghost.get(('mapof', sa)), s.ghost.get(('mapof', sb))
        if mapped:
            if not ma or not mb or ma[0] != mb[0]: continue
            sa, sb = ma[1], mb[1]
        elif ma or mb: continue
        if (sa, sb) == (H, Pt): facts.append((ia, ib, n))
        if (sb, sa) == (H, Pt): facts.append((ib, ia, n))
    if H == Pt and s.store.entails_eq(hi - pi): ip.ok('result'); return
    for ia, ib, n in facts:
        d0 = s.canon(hi - ia)
        if s.store.entails_eq(d0 - (pi - ib)) and s.store.entails_ge(d0) and s.store.entails_ge(n - d0 - m): ip.ok('result'); return
    # could they differ somewhere?
    work = [s.copy()]
    j = fresh('j')
    for w in work: w.store.add_ge(j); w.store.add_ge(m - 1 - j)
    for ia, ib, n in facts:
        nw = []
        for w in work:
            nw += ip.split_eq(w.copy(), (hi - ia) - (pi - ib), False)
            for w2 in ip.split_eq(w, (hi - ia) - (pi - ib), True):
                nw += ip.split_ge(w2.copy(), ia - (hi + j) - 1, True) + ip.split_ge(w2, hi + j - ia - n, True)
        work = nw
    bad = False
    for w in work:
        if not w.store.sat(): continue
        if mapped:
            Mh = [M[1] for M in w.ghost if isinstance(M, tuple) and M[0] == 'mapof' and w.ghost[M][1] == H]
            Mp = [M[1] for M in w.ghost if isinstance(M, tuple) and M[0] == 'mapof' and w.ghost[M][1] == Pt]
            if not Mh or not Mp: ip.res.add('result', ip.site(), 'undecided', 'case folding not recognised', None, ip.entry); return
            h, p = Mh[0], Mp[0]
        else: h, p = H, Pt
        x = ip.elem_val(w, h, w.canon(hi + j), E.es * 8); y = ip.elem_val(w, p, w.canon(pi + j), E.es * 8)
        for w2 in ip.assume_cmp(w, 'ne', x, y, E.es * 8, True):
            bad = True
            if w2.ghost.get(('loopgen',)): w2.inexact = w2.inexact or 'comparisons of earlier iterations forgotten'
            ip.fail(w2, 'result', 'a position is returned where the pattern does not occur')
    if not bad: ip.ok('result')

def fold(E, fn):
    """the character function used for case-insensitive searches identifies exactly the two cases of a letter"""
    ip = E.ip; s = E.st.copy(); c = fresh('ch'); s.store.add_ge(c); s.store.add_ge(K(255) - c)
    outs = ip.call_fn(s, fn, [I(c, 8)])
    worst = None
    for hyp in ('toupper', 'tolower'):
        bad = None; a, z = (97, 122) if hyp == 'toupper' else (65, 90)
        for s1, k, v in outs:
            if k != 'ret' or not s1.store.sat(): continue
            for s2, e in ip.ints(s1.copy(), v, 8, False):
                g = s2.ghost.get((hyp, s2.canon(c)))
                if g is not None:
                    # the byte toupper(c) yields
                    d = s2.canon(e - g)
                    if s2.store.entails_eq(d) or (not d.t and d.c % 256 == 0): continue
                for lo, hi, want in ((0, a - 1, c), (a, z, c - 32 if hyp == 'toupper' else c + 32), (z + 1, 255, c)):
                    t = s2.copy()
                    if not (t.store.add_ge(c - lo) and t.store.add_ge(K(hi) - c) and t.store.sat()): continue
                    d = t.canon(e - want)
                    if t.store.entails_eq(d): continue
                    for q in (d - 1, -d - 1):
                        w = t.copy()
                        if w.store.add_ge(q) and w.store.sat(): bad = bad or (w, q)
        if bad is None: ip.ok('result'); return
        worst = worst or bad
    ip.fail(worst[0], 'result', 'case folding with %s does not identify exactly the two cases of a letter' % fn, [worst[1]])

def c_sound(f, label):
    """any haystack, any pattern: npos or a real match"""
    def g():
        ip = f.ip; fn = f.fn; pre = 'AI' if '_AI_' in fn else 'S'
        item = pre == 'AI' or '_c' in fn
        E = Env(f, pre); st = E.st
        hk, pk = label.split('/')[:2]
        def mk(name, kind):
            o = E.W.empty_obj(st, name) if kind == 'empty' else E.W.obj(st, name, kind)
            if E.W.L.hash is not None and kind in ('own', 'shared'): st.w(o.rid).cells[E.W.L.hash] = (8, ci(0))
            return o
        a = mk('hay', hk)
        mapped = 'ifind' in fn; right = 'rf' in fn or 'rif' in fn
        args = [P(a.rid, ZERO)]
        if item:
            x = E.elem('item')
            if pre == 'AI':
                r = Region('ext', 'item', K(E.es), E.es, ((ONE, E.value(x)),), flags={'const': True}); args.append(P(st.add(r), ZERO))
            else: args.append(I(x, 8))
            m = ONE
        else:
            b = a if pk == 'same' else E.W.obj(st, 'pattern', 'view', a.blk) if pk == 'view' else mk('pattern', pk)
            args.append(P(b.rid, ZERO)); m = b.len
        pos = ZERO
        if fn.endswith('_pos'):
            pos = ZERO if label.endswith('/0') else f.size('pos', 1 if label.endswith('/+') else 0); args.append(I(pos, 64))
        folded = set()
        for s, kind, v in ip.call_fn(st.copy(), fn, args):
            if not s.store.sat() or kind == 'exit': continue
            if kind == 'unw':
                if is_oom(v): continue
                if rcaops.is_oor(v) and fn.endswith('_pos') and not right:
                    if s.store.entails_ge(pos - a.len - 1): ip.ok('throw')
                    else: ip.fail(s, 'throw', 'out_of_range for a valid start', [a.len - pos])
                else: ip.fail(s, 'throw', 'search throws %s' % models.exc_name(v))
                continue
            f.outcomes += 1
            start = ZERO if right else pos
            for s1, e in ip.ints(s, v, 64, False):
                for s2 in ip.split_eq(s1.copy(), e - NPOS_, True): ip.ok('result')
                for s2 in ip.split_eq(s1, e - NPOS_, False):
                    for s3 in ip.split_ge(s2.copy(), -m, True):     # the empty pattern occurs everywhere
                        ip.ok('result')
                    for s3 in ip.split_ge(s2, m - 1, True):
                        d = a.len - start - e - m
                        if not s3.store.entails_ge(d):
                            ip.fail(s3, 'result', 'position %s for a pattern of %s in %s elements searched' % (s3.canon(e), s3.canon(m), s3.canon(a.len - start)), [-d - 1])
                            if not (s3.store.add_ge(d) and s3.store.sat_after(d.syms())): continue
                        else: ip.ok('result')
                        if right and fn.endswith('_pos'):
                            if s3.store.entails_ge(e - pos): ip.ok('result')
                            else: ip.fail(s3, 'result', 'position %s before the last position %s to consider' % (s3.canon(e), s3.canon(pos)), [pos - e - 1])
                        if a.sid is None: continue
                        at = s3.canon(a.off + start + e)
                        if item:
                            y = ip.elem_val(s3, a.sid, at, E.es * 8)
                            ne = ip.assume_cmp(s3.copy(), 'ne', y, I(x, E.es * 8), E.es * 8, True)
                            if not ne: ip.ok('result')
                            for s4 in ne: ip.fail(s4, 'result', 'the element at the returned position differs from the one searched')
                        else: occurs(E, s3, a.sid, at, b.sid, s3.canon(b.off), m, mapped)
            for key, g in list(s.ghost.items()):
                if isinstance(key, tuple) and key[0] == 'mapof' and g[0] not in folded: folded.add(g[0]); fold(E, g[0])
    return guard(f, g)

def c_complete(f, label):
    """hay = before + pattern + after, the first element of the pattern nowhere else: exactly that place is found"""
    def g():
        ip = f.ip; fn = f.fn; pre = 'AI' if '_AI_' in fn else 'S'
        item = pre == 'AI' or '_c' in fn
        E = Env(f, pre); st = E.st
        right = 'rf' in fn
        c = E.elem('c')
        w = E.size('before'); n2 = E.size('after')
        src = lambda n: E.src(n, ne=(c,))
        pat = [(ONE, E.value(c))]
        if not item: pat.append((E.size('tail'), ('src', src('tail'), ZERO)))
        m = total(pat)
        found = label.startswith('present')
        parts = [(w, ('src', src('before'), ZERO))] + (pat if found else []) + [(n2, ('src', src('after'), ZERO))]
        ln = total(parts)
        blk, (s0,) = E.block('hay', parts); a = E.handle('hay', blk, s0, ln); E.objs.append((a, parts))
        args = [P(a.rid, ZERO)]
        if item:
            if pre == 'AI':
                r = Region('ext', 'item', K(E.es), E.es, ((ONE, E.value(c)),), flags={'const': True}); args.append(P(st.add(r), ZERO))
            else: args.append(I(c, 8))
        else:
            bp, (p0,) = E.block('pattern', pat); b = E.handle('pattern', bp, p0, m); E.objs.append((b, pat)); args.append(P(b.rid, ZERO))
        pos = ZERO
        if fn.endswith('_pos'):
            pos = ZERO if label.endswith('/0') else f.size('pos', 1 if label.endswith('/+') else 0); args.append(I(pos, 64))
            if not right: st.store.add_ge(ln - pos)
        if found: ip.opts['at'] = [(blk['buf'], s0 + w)]
        for s, kind, v in ip.call_fn(st.copy(), fn, args):
            if not s.store.sat() or kind == 'exit': continue
            if kind == 'unw':
                if not is_oom(v): ip.fail(s, 'throw', 'search throws %s' % models.exc_name(v))
                continue
            f.outcomes += 1
            E.unchanged(s)
            for s1, e in ip.ints(s, v, 64, False):
                if not found: f.same(s1, 'result', e, K(NPOS_), 'result without an occurrence'); continue
                for s2 in ip.split_ge(s1.copy(), w - pos, True): f.same(s2, 'result', e, w if right else w - pos, 'result for an occurrence at %s' % s2.canon(w))
                for s2 in ip.split_ge(s1, pos - w - 1, True): f.same(s2, 'result', e, K(NPOS_), 'result for an occurrence out of range')
    return guard(f, g)

def c12(tier):
    out = []
    for cfg in ('full', 'portable'):
        for fn in ('find', 'find_pos', 'rfind', 'rfind_pos', 'ifind', 'rifind', 'rifind_pos'):
            if cfg == 'portable' and fn.startswith('r'): continue
            for hk in ('null', 'empty', 'own', 'shared'):
                for pk in ('null', 'own', 'same', 'view'):
                    if pk == 'view' and hk in ('null', 'empty'): continue
                    if 'if' in fn and tier == 'quick' and (pk == 'view' or hk == 'shared' or cfg == 'portable'): continue
                    for q in (('/0', '/+') if fn.endswith('_pos') else ('',)):
                        if fn == 'rifind_pos' and pk == 'own' and q == '/+' and tier == 'quick': continue
                        out.append((cfg, 'h_' + fn, hk + '/' + pk + q, c_sound))
            if 'if' not in fn:
                for l in ('present', 'absent'):
                    for q in (('/0', '/+') if fn.endswith('_pos') else ('',)): out.append((cfg, 'h_' + fn, l + q, c_complete))
    for fn in ('find_c', 'find_c_pos', 'rfind_c', 'AI_find', 'AI_find_pos', 'AI_rfind'):
        for hk in ('null', 'empty', 'own', 'shared'): out.append(('full', 'h_' + fn, hk + '/item', c_sound))
        for l in ('present', 'absent'): out.append(('full', 'h_' + fn, l, c_complete))
    return out

KINDS = {'C11': ('result', 'throw', 'other', 'terminate', 'bounds', 'bounds-r', 'null', 'uaf'),
         'C12': ('result', 'throw', 'other', 'terminate', 'bounds', 'bounds-r', 'null', 'uaf', 'range', 'ctype')}
def cases(prop, tier): return c11(tier) if prop == 'C11' else c12(tier)
def run(rep, prop, tier):
    cs = cases(prop, tier)
    mods = {c: ir.load(HARNESS, c) for c in sorted({c[0] for c in cs})}
    drive(rep, mods, cs, lambda k: k in KINDS[prop], tier, M=MODELS, seconds=120)
