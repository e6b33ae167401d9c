"""C13: every loop of the splitting, scanning, substituting, repeating, encoding and line
reading routines makes progress: a ranking function is found for each loop met on any path."""
import ir, models, rca, rcaops
from fx import *
from drive import drive
from chk_stream import guard
import chk_cmp

TRUST = ['clang 18 front end (C++ to LLVM IR)', 'tool/irdump', 'abstract semantics in engine/core.py, lin.py, loops.py (ranking search: loops.progress)', 'library models in engine/models.py', 'specification in engine/chk_loop.py']
MODELS = chk_cmp.MODELS
HARNESS = 'harness/h_rca.cpp'

# Contracts of the accumulating operations (judged by C03, C05, C06): only what they do to lengths matters here.
def m_append(W):
    L = W.L
    def h(ip, st, args, ins, fn):
        out = []
        a, b = args[0], args[1]
        if not (isinstance(a, P) and isinstance(b, P)): raise Unsupported('append operand')
        for s, n in ip.load(st, P(a.r, a.o + L.len), 8, 'i', 64):
            for s2, m in ip.load(s, P(b.r, b.o + L.len), 8, 'i', 64):
                for s3, x in ip.ints(s2, n, 64, False):
                    for s4, y in ip.ints(s3, m, 64, False):
                        blk = W.block(s4, 'text', False)
                        if not (s4.store.add_ge(blk['cap'] - x - y) and s4.store.sat()): continue
                        w = s4.w(a.r); o = s4.const(a.o)
                        if o is None: raise Unsupported('append target')
                        w.cells[o + L.ref] = (8, P(blk['ref'], ZERO)); w.cells[o + L.off] = (8, ci(0)); w.cells[o + L.len] = (8, I(s4.canon(x + y), 64))
                        if L.hash is not None: w.cells[o + L.hash] = (8, ci(0))
                        out.append((s4, 'ret', a))
        return out
    return h
def m_push(W):
    L = W.L
    def h(ip, st, args, ins, fn):
        out = []
        a = args[0]
        if not isinstance(a, P): raise Unsupported('array operand')
        for s, n in ip.load(st, P(a.r, a.o + L.len), 8, 'i', 64):
            for s3, x in ip.ints(s, n, 64, False):
                if not (s3.store.add_ge(K(MAXOBJ // 32) - x - 1) and s3.store.sat()): continue     # the allocation fails
                w = s3.w(a.r); o = s3.const(a.o)
                if o is None: raise Unsupported('array operand')
                w.cells[o + L.len] = (8, I(s3.canon(x + 1), 64))
                out.append((s3, 'ret', a))
        return out
    return h
def contracts(ip, W, A):
    ov = ip.models.overrides
    for n in ('bd::String::operator+=(bd::String const&) &', 'bd::String::operator+=(bd::String&&) &', 'bd::String::append(bd::String const&)'): ov[n] = m_append(W)
    for n in ('bd::operator<<(bd::Array<bd::String>&, bd::String const&)', 'bd::operator<<(bd::Array<bd::String>&, bd::String&&)',
              'bd::ReferenceCountedArray<bd::String, std::allocator<bd::String>>::append(bd::String const&)', 'bd::ReferenceCountedArray<bd::String, std::allocator<bd::String>>::append(bd::String&&)',
              'bd::ReferenceCountedArray<bd::String, std::allocator<bd::String>>::push_back(bd::String const&)', 'bd::ReferenceCountedArray<bd::String, std::allocator<bd::String>>::push_back(bd::String&&)'): ov[n] = m_push(A)
    ov['bd::Array<bd::String>::~Array()'] = chk_cmp.m_dtor

def c_str(f, label):
    """label: kinds of the String operands separated by '/'; ints appended as arbitrary values"""
    def g():
        ip = f.ip; fn = f.fn
        ip.opts['check_noexit'] = True
        W = rca.World(f.mod, 'S', models.Models); ip.gcache = dict(W.gcache)
        st = f.st = W.state(); f.cx = rcaops.Cx(W, ip, None)
        if fn in ('h_S_sub', 'h_S_split', 'h_S_subst'): contracts(ip, W, rca.World(f.mod, 'AI', models.Models))
        args = []
        for t, k in zip(SIG[fn], label.split('/')):
            if t == 'r': args.append(P(W.slot(st, 'result') if hasattr(W, 'slot') else st.add(Region('ext', 'result', K(W.L.size))), ZERO)); continue
            if t == 's':
                o = W.empty_obj(st, 's') if k == 'empty' else W.obj(st, 's%d' % len(args), k)
                if W.L.hash is not None and k in ('own', 'shared'): st.w(o.rid).cells[W.L.hash] = (8, ci(0))
                args.append(P(o.rid, ZERO))
            elif t == 'i' and k == 'all': args.append(ci(-1, 32))
            elif t == 'i': x = fresh('n'); st.store.add_ge(x + 2**31); st.store.add_ge(K(2**31 - 1) - x); args.append(I(x, 32))
            elif t == 'c': x = fresh('c'); st.store.add_ge(x); st.store.add_ge(K(255) - x); args.append(I(x, 8))
            elif t == 'z' and k == 'all': args.append(ci(2**64 - 1))
            elif t == 'z': args.append(I(f.size('limit'), 64))
        for s, kind, v in ip.call_fn(st.copy(), fn, args):
            if s.store.sat(): f.outcomes += 1
    return guard(f, g)
SIG = {'h_S_chomp': 's', 'h_S_trim': 's', 'h_S_times': 'rsi', 'h_S_newsplit': 'rsc', 'h_S_sub': 'rsssi', 'h_S_split': 'rssz'}
def cases(prop, tier):
    out = []
    for fn, sig in SIG.items():
        ks = [c for c in sig]
        opts = ['']
        for c in ks:
            opts = [o + ('/' if o else '') + k for o in opts for k in (('empty', 'own') if c == 's' else ('all', '-') if (c == 'i' and fn == 'h_S_sub') or c == 'z' else ('-',))]
        for o in opts: out.append(('full', fn, o, c_str))
    return out
KINDS = {'C13': ('loop-progress',)}
def others(tier):
    """(harness, configurations, cases, models, options): the scanning routines specified by other modules"""
    import chk_stream, chk_b64, chk_cstr, kernel
    cs = [c for c in chk_cmp.c12(tier) if c[3] is chk_cmp.c_sound and (c[2].startswith('own/own') or c[2] == 'own/item') and not c[1].startswith('h_ri')]
    yield 'harness/h_cmp.cpp', cs, chk_cmp.MODELS
    cs = [c for c in chk_stream.cases('C18', tier) if c[1] in ('h_T_read', 'h_T_read_delim', 'h_T_getline', 'h_T_getline_n', 'h_T_puts')]
    cs += [c for c in chk_stream.cases('C17', tier) if c[2].startswith('own') and 'load_fd' in c[1]]
    yield 'harness/h_io.cpp', cs, kernel.IOModels
    yield 'harness/h_b64.cpp', chk_b64.CASES, None
    yield 'harness/h_cstr.cpp', [('full',) + c for c in chk_cstr.CASES], None
def run(rep, prop, tier):
    rep.rule('for every loop met on any path, some quantity strictly decreases with every iteration and is bounded below (or increases towards a bound that does not move, or every iteration consumes input); a loop is reported when, from a reachable state, no iteration can leave it')
    rep.assume('allocations succeed; in split and sub, appending to the result is replaced by its contract (the length grows by the length appended), which C03 and C05 decide')
    k = lambda x: x in KINDS[prop]
    cs = cases(prop, tier)
    drive(rep, {c: ir.load(HARNESS, c) for c in sorted({c[0] for c in cs})}, cs, k, tier, M=MODELS, seconds=60, second=False)
    for har, cs, M in others(tier):
        drive(rep, {c: ir.load(har, c) for c in sorted({c[0] for c in cs})}, cs, k, tier, opts={'check_noexit': True}, M=M, seconds=60, minimum=1, second=False)
