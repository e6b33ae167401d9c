"""base64: memory safety and lengths for every input length (C20), bit-exact round trip (C19), raw memory ownership (part of C30)."""
import ir, rca, rcaops, models
from fx import *
from drive import drive

TRUST = ['clang 18 front end (C++ to LLVM IR)', 'tool/irdump', 'abstract semantics in engine/core.py, lin.py, loops.py', 'library models in engine/models.py', 'specifications in engine/chk_b64.py']

def ceil_div(f, e, k, name):
    q = f.size(name, 0, 2**62)
    f.st.store.add_ge(q * k - e); f.st.store.add_ge(e + (k - 1) - q * k)
    return q
def charset(f, label, n=64):
    if 'default' in label: return NULL
    r, sid = f.buf('charset', K(n), const=True)
    return P(r, ZERO)
def enc(f, label):
    n = f.size('len', 0, 2**40)
    data, sid = f.buf('data', n, const=True)
    q = ceil_div(f, n, 3, 'groups')
    cs = charset(f, label)
    c = f.cell('*len', I(n, 64))
    buf = f.fn == 'h_enc_buf'
    args = [P(data, ZERO), P(c, ZERO)]
    if buf: dst, _ = f.buf('dest', q * 4); args.append(P(dst, ZERO))
    args.append(cs)
    def check(s, kind, v):
        if kind != 'ret': f.ip.fail(s, 'result', 'encoding does not return'); return
        x = s.regs[c].cells[0][1]
        for s1, e in f.ip.ints(s, x, 64, False): f.same(s1, 'length', e, q * 4, 'encoded length')
        if not buf: result(f, s, v, q * 4)
    return f.run(args, check)
def result(f, s, v, n):
    if not isinstance(v, P): f.ip.fail(s, 'alloc', 'null result'); return
    for s2, q in f.ip.access(s, v, n + 1, False, ' (result)'):
        for s3, segs in f.ip.arr_extract(s2.copy(), q.r, q.o + n, q.o + n + 1):
            d = segs[0][1]
            if d[0] == 'val' and isinstance(d[1], I) and s3.const(d[1].e) == 0: f.ip.res.add('content', f.ip.site(), 'proved')
            elif d[0] == 'top': f.ip.res.add('content', f.ip.site(), 'undecided', 'terminator not tracked', None, f.ip.entry)
            else: f.ip.fail(s3, 'content', 'result is not NUL terminated at its length (%s)' % (d,))
    if s.regs[v.r].kind != 'heap' or not s.regs[v.r].live: f.ip.fail(s, 'leak', 'result is not a live allocation')
    f.heap_left(s, (v.r,))
def dec(f, label):
    n = f.size('len', 0, 2**40)
    data, sid = f.buf('data', n, const=True)
    q = ceil_div(f, n, 4, 'groups')
    buf = f.fn == 'h_dec_buf'
    cs = charset(f, label, 256 if buf else 64)
    c = f.cell('*len', I(n, 64))
    args = [P(data, ZERO), P(c, ZERO)]
    if buf: dst, _ = f.buf('dest', q * 3); args.append(P(dst, ZERO))
    args.append(cs)
    def check(s, kind, v):
        if kind != 'ret': f.ip.fail(s, 'result', 'decoding does not return'); return
        x = s.regs[c].cells[0][1]
        for s1, e in f.ip.ints(s, x, 64, False):
            f.ip.prove_ge(s1, 'length', q * 3 - e, 'decoded length')
            if not buf: result(f, s1, v, e)
    return f.run(args, check)
STD = [ord(c) for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/']
SETS = {'default': None, 'reversed': STD[::-1], 'url': STD[:62] + [ord('-'), ord('_')],
        'crypt': [ord(c) for c in './0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'],
        'high': list(range(0xff, 0xff - 64, -1)), 'low': [1 + (i * 7) % 58 for i in range(58)] + [0x80, 0xfe, 0x7f, 0x5c, 0, 0x60]}
def constset(f, vals):
    if vals is None: return NULL
    segs = tuple((K(i + 1), ('val', ci(v, 8))) for i, v in enumerate(vals))
    r = Region('ext', 'charset', K(len(vals)), 1, segs); r.flags['const'] = True
    return P(f.st.add(r), ZERO)
def byte(f, s, rid, i):
    for s2, segs in f.ip.arr_extract(s.copy(), rid, K(i), K(i + 1)):
        return f.ip.as_bits(s2, f.ip.desc_val(s2, rid, segs[0][1], K(i), 8), 8)
def name(a): return '%s[%d] bit %d' % a[1:]
def expect_bits(f, s, kind, got, want, msg):
    if got is None: f.ip.res.add(kind, f.ip.site(), 'undecided', msg + ' is not tracked', None, f.ip.entry); return
    for i, (x, y) in enumerate(zip(got, want)):
        if x == y: f.ip.res.add(kind, f.ip.site(), 'proved'); continue
        w = BT.differ(x, y)
        # conditions taken on the way must hold as well
        conds = [k[1] for k in s.ghost if k[0] == 'bit']
        if conds:
            ats = BT.union([x, y] + conds)
            if len(ats) > BT.MAXS: w = None
            else:
                t = BT.table(x, ats) ^ BT.table(y, ats)
                for c in conds: t &= BT.table(c, ats)
                if not t: f.ip.res.add(kind, f.ip.site(), 'proved'); continue
                k = (t & -t).bit_length() - 1
                w = {a: k >> j & 1 for j, a in enumerate(ats)} if not any(a[0] == 'u' for a in ats) else None
        if w is None or s.inexact: f.ip.res.add(kind, f.ip.site(), 'undecided', '%s bit %d not established' % (msg, i), None, f.ip.entry)
        else: f.ip.res.add(kind, f.ip.site(), 'violation', '%s bit %d differs' % (msg, i), {name(a): v for a, v in w.items()}, f.ip.entry, [])
def round_trip(f, label):
    cs, n = label.split(); n = int(n[2:])
    vals = SETS[cs]
    data, sid = f.buf('data', K(n), const=True)
    nm = SRC[sid]['name']
    c = f.cell('*len', I(K(n), 64)); mid = f.cell('mid', NULL); ml = f.cell('midlen', ci(0, 64))
    q = (n + 2) // 3
    def check(s, kind, v):
        if kind != 'ret': f.ip.fail(s, 'result', 'round trip does not return'); return
        def cell(x): return s.regs[x].cells[0][1]
        for s1, e in f.ip.ints(s, cell(ml), 64, False): f.same(s1, 'length', e, K(4 * q), 'encoded length')
        for s1, e in f.ip.ints(s, cell(c), 64, False): f.same(s1, 'length', e, K(n), 'decoded length')
        mp = cell(mid)
        if not isinstance(mp, P) or not isinstance(v, P): f.ip.fail(s, 'alloc', 'null result'); return
        if s.const(s.regs[mp.r].size) is None or s.const(s.regs[mp.r].size) < 4 * q + 1 or s.const(s.regs[v.r].size) < n + 1: return
        full = tuple(int(x) for x in vals or STD)
        for i in range(4 * q):
            b = byte(f, s, mp.r, i)
            sig = {0: 4, 1: 2, 2: 3}[n % 3] if i // 4 == q - 1 else 4
            if i % 4 >= sig: expect_bits(f, s, 'content', b, [(61 >> k) & 1 for k in range(8)], 'padding character %d' % i)
            else:
                # data bits of character i
                idx = []
                for k in range(6):
                    pos = (i % 4) * 6 + (5 - k)       # bit position from the left inside the group
                    by = (i // 4) * 3 + pos // 8
                    idx.append(('a', nm, by, 7 - pos % 8) if by < n else 0)
                want = BT.lookup(lambda j: tuple((full[j] >> k) & 1 for k in range(8)), tuple(idx), 8)
                expect_bits(f, s, 'content', b, want, 'encoded character %d' % i)
        for i in range(n):
            expect_bits(f, s, 'content', byte(f, s, v.r, i), [('a', nm, i, k) for k in range(8)], 'decoded byte %d' % i)
    return f.run([P(data, ZERO), P(c, ZERO), constset(f, vals), P(mid, ZERO), P(ml, ZERO)], check)
def dec_small(f, label):
    """arbitrary (also malformed) input of a given small length, without any loop generalisation"""
    cs, n = label.split(); n = int(n[2:])
    data, sid = f.buf('data', K(n), const=True)
    c = f.cell('*len', I(K(n), 64))
    q = (n + 3) // 4
    def check(s, kind, v):
        if kind != 'ret': f.ip.fail(s, 'result', 'decoding does not return'); return
        for s1, e in f.ip.ints(s, s.regs[c].cells[0][1], 64, False):
            f.ip.prove_ge(s1, 'length', K(q * 3) - e, 'decoded length')
            result(f, s1, v, e)
    return f.run([P(data, ZERO), P(c, ZERO), constset(f, SETS[cs])], check)
class WrapModels(models.Models):
    """the buffer routines by contract: their output is an arbitrary text of a documented length"""
    def __init__(self):
        super().__init__()
        def mk(enc):
            def h(ip, st, a, ins, fn):
                out = []
                if not isinstance(a[1], P): raise Unsupported('length pointer')
                for s, lv in ip.load(st, a[1], 8, 'i64', 64):
                    for s1, n in ip.ints(s, lv, 64, False):
                        data = a[0]
                        rd = ip.access(s1, data, n, False, ' (base64 input)') if isinstance(data, P) else [(s1, data)] if s1.store.entails_eq(n) else None
                        if rd is None: ip.fail(s1, 'null', 'base64 input is null', [n - 1]); continue
                        for s2, d in rd:
                            q = fresh('groups'); g, k = (3, 4) if enc else (4, 3)
                            s2.store.add_ge(q); s2.store.add_ge(q * g - n); s2.store.add_ge(n + (g - 1) - q * g)
                            m = q * k
                            if not enc: m = fresh('decoded'); s2.store.add_ge(m); s2.store.add_ge(q * k - m)
                            sid = new_src('encoded' if enc else 'decoded', 8, kind='free')
                            tmp = s2.add(Region('ext', 'text', m, 1, ((m, ('src', sid, ZERO)),)))
                            s2.ghost[('b64',)] = s2.ghost.get(('b64',), ()) + ((enc, d, s2.canon(n), a[3], s2.canon(m), sid),)
                            for s3 in models.bulk(ip, s2, a[2], P(tmp, ZERO), m, 1, what='base64 output'):
                                for s4 in ip.store_(s3, a[1], 8, I(m, 64), 'i64'): out.append((s4, 'ret', None))
                return out
            return h
        self.overrides['bd::b64enc_buf(unsigned char const*, unsigned long*, char*, char const*)'] = mk(True)
        self.overrides['bd::b64dec_buf(unsigned char const*, unsigned long*, char*, char const*)'] = mk(False)
def wrapper(f, label):
    """base64Encode/base64Decode of a String: exactly the routines' text, nothing leaked"""
    from chk_stream import guard
    from chk_fmt import rcaops_owned
    def g():
        ip = f.ip; W = rca.World(f.mod, 'S', WrapModels)
        ip.gcache = dict(W.gcache); st = W.state(); f.st = st; f.cx = rcaops.Cx(W, ip, None)
        enc = 'enc' in f.fn
        kind, cs = label.split('/')
        o = W.empty_obj(st, 'text') if kind == 'empty' else W.obj(st, 'text', kind)
        if kind != 'empty': st.store.add_ge(K(2 ** 40) - o.len)
        r = W.raw_obj(st, 'result')
        chars = NULL if cs == 'default' else charset(f, 'custom')
        had = {x for x, y in st.regs.items() if y.kind == 'heap'}
        for s, k, v in ip.call_fn(st.copy(), f.fn, [P(r, ZERO), P(o.rid, ZERO), chars]):
            if not s.store.sat() or k == 'exit': continue
            if k == 'unw':
                if not rcaops.is_oom(v): ip.fail(s, 'throw', 'throws %s' % models.exc_name(v))
                continue
            f.outcomes += 1
            own = rcaops_owned(W, s, r)
            lost = [y for x, y in s.regs.items() if y.kind == 'heap' and y.live and x not in had and x not in own]
            if lost: ip.fail(s, 'leak', '%s is never released' % lost[0].name)
            else: ip.ok('leak')
            gs = s.ghost.get(('b64',), ())
            if len(gs) != 1:
                if kind == 'empty' and not gs:
                    for s2, vw in W.view(ip, s.copy(), r, 'result'): f.same(s2, 'length', vw['n'], ZERO, 'result for an empty text')
                else: ip.res.add('content', ip.site(), 'undecided', 'conversion routine called %d times' % len(gs), None, ip.entry)
                continue
            e, d, n, c, m, sid = gs[0]
            f.same(s, 'length', n, o.len, 'number of bytes converted')
            if enc and cs != 'default' and kind != 'empty' and not (isinstance(c, P) and isinstance(chars, P) and c.r == chars.r): ip.fail(s, 'content', 'the given character set is not used')
            if enc and cs == 'default' and isinstance(c, P) and s.regs[c.r].name == 'charset': ip.fail(s, 'content', 'wrong character set')
            if not enc and cs != 'default' and kind != 'empty' and (not isinstance(c, P) or s.regs[c.r].kind == 'global' and s.regs[c.r].flags.get('const')):
                for s2 in ip.split_ge(s.copy(), n - 1, True): ip.fail(s2, 'content', 'the given character set is not used')
            for s2, vw in W.view(ip, s.copy(), r, 'result'):
                rcaops.seq_equal(f.cx, s2, vw['n'], vw['segs'], [(m, 'src', sid, ZERO)], 'content', 'result text')
    return guard(f, g)
WRAP = [('full', fn, k + '/' + c, wrapper) for fn in ('h_S_b64enc', 'h_S_b64dec') for k in ('empty', 'own', 'shared') for c in ('default', 'custom')]
CASES = [('full', fn, l, g) for fn, g in (('h_enc_buf', enc), ('h_dec_buf', dec), ('h_enc', enc), ('h_dec', dec)) for l in ('default charset', 'custom charset')]
ROUND = [('full', 'h_round', '%s n=%d' % (cs, n), round_trip) for cs in SETS for n in range(0, 13 if cs == 'default' else 8)]
SMALL = [('full', 'h_dec', '%s n=%d' % (cs, n), dec_small) for cs in ('default', 'high') for n in range(0, 10)]
KINDS = {'C20': {'bounds', 'bounds-r', 'bounds-w', 'null', 'uaf', 'range', 'overlap', 'const-write', 'invalid', 'length', 'content', 'loop-progress'},
         'C30': {'leak', 'double-free', 'bad-free', 'uaf'}}
RULES = {'C19': 'bit provenance: every bit of the decoded encoding is the same input bit, every encoded character is the documented 6-bit group looked up in the character set, padding and lengths are as documented',
         'C20': 'every access of the encoders and decoders lies inside the given input length, the 64/256 entry tables and the documented output size, for all lengths and byte values',
         'C30': 'each block obtained from malloc is returned or freed exactly once'}
KINDS['C19'] = {'content', 'length', 'result', 'alloc', 'bounds', 'bounds-r', 'bounds-w', 'uaf', 'null', 'overlap', 'invalid'}
BITS = {'bits': True, 'unroll_sym': 300}
def run(rep, prop, tier):
    rep.rule(RULES[prop])
    mods = {'full': ir.load('harness/h_b64.cpp', 'full')}
    ex = ROUND if prop == 'C19' else SMALL if prop == 'C20' else []
    if tier == 'thorough' and prop == 'C19': ex = [('full', 'h_round', '%s n=%d' % (cs, n), round_trip) for cs in SETS for n in range(0, 14)]
    if prop != 'C19': drive(rep, mods, CASES, lambda k: k in KINDS[prop], tier)
    else: drive(rep, mods, CASES, lambda k: k in ('length',), tier)
    drive(rep, {'full': ir.load('harness/h_fmt.cpp', 'full')}, WRAP, lambda k: k in (KINDS[prop] | {'leak'} if prop == 'C30' else KINDS[prop]), tier, M=WrapModels)
    if ex: drive(rep, mods, ex, lambda k: k in KINDS[prop], tier, BITS)
    if prop == 'C19':
        rep.assume('contents are established for all byte values at lengths up to 7 (12 for the default set) and, through the lengths and positions proved for the group loops at every length, carry over to longer inputs group by group; custom character sets are represented by %d sets including bytes above 127 and NUL' % (len(SETS) - 1))
