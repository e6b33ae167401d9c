"""C string helpers (C21) and C memory discipline (C30)."""
import ir
from fx import *
from drive import drive

TRUST = ['clang 18 front end (C++ to LLVM IR)', 'tool/irdump', 'abstract semantics in engine/core.py, lin.py, loops.py', 'library models in engine/models.py', 'specifications in engine/chk_cstr.py']
NUL = (ONE, 'c', ci(0, 8))

def strlcpy(f, label):
    src, sid, n = f.cstr('src')
    siz = f.size('siz')
    st = f.st
    if label == 'zero': st.store.add_eq(siz); room = ZERO
    else:
        st.store.add_ge(siz - 1); st.store.add_ge(K(MAXOBJ) - siz); room = siz
    dst, dsid = f.buf('dst', room)
    def check(s, kind, v):
        if kind != 'ret': f.ip.fail(s, 'result', 'strlcpy does not return'); return
        for s1, e in f.ip.ints(s, v, 64, False): f.same(s1, 'result', e, n, 'strlcpy return value')
        if label == 'zero': return
        for s1, m in f.min(s, n, siz - 1):
            f.seq(s1, 'content', dst, ZERO, m + 1, [(m, 'src', sid, ZERO), NUL], 'strlcpy destination')
        f.heap_left(s)
    return f.run([P(dst, ZERO), P(src, ZERO), I(siz, 64)], check)
def strlcat(f, label):
    src, sid, n = f.cstr('src')
    siz = f.size('siz'); st = f.st
    if label == 'zero':
        st.store.add_eq(siz); dst, dsid = f.buf('dst', ZERO); dl = ZERO
    elif label == 'terminated':
        st.store.add_ge(siz - 1); st.store.add_ge(K(MAXOBJ) - siz)
        dl = f.size('dst.len'); st.store.add_ge(siz - 1 - dl)
        dsid = new_src('dst', 8, kind='cstr', len=dl)
        tail = new_src('dst tail', 8, kind='free')
        dst = st.add(Region('ext', 'dst', siz, 1, ((dl + 1, ('src', dsid, ZERO)), (siz, ('src', tail, ZERO)))))
    else:
        st.store.add_ge(siz - 1); st.store.add_ge(K(MAXOBJ) - siz)
        dl = siz
        dst, dsid = f.buf('dst', siz, nonul=True)
    def check(s, kind, v):
        if kind != 'ret': f.ip.fail(s, 'result', 'strlcat does not return'); return
        for s1, e in f.ip.ints(s, v, 64, False): f.same(s1, 'result', e, dl + n, 'strlcat return value')
        if label == 'terminated':
            for s1, m in f.min(s, n, siz - 1 - dl):
                f.seq(s1, 'content', dst, ZERO, dl + m + 1, [(dl, 'src', dsid, ZERO), (m, 'src', sid, ZERO), NUL], 'strlcat destination')
        elif label == 'unterminated':
            f.seq(s, 'content', dst, ZERO, siz, [(siz, 'src', dsid, ZERO)], 'strlcat destination without room')
    return f.run([P(dst, ZERO), P(src, ZERO), I(siz, 64)], check)
def dup(f, label):
    src, sid, n = f.cstr('src')
    args = [P(src, ZERO)]
    mx = None
    if f.fn == 'h_strldup': mx = f.size('maxlen'); args.append(I(mx, 64))
    def check(s, kind, v):
        if kind != 'ret': return
        if not isinstance(v, P):
            f.ip.fail(s, 'alloc', 'null returned to the caller'); return
        f.ip.res.add('alloc', f.ip.site(), 'proved')
        for s1, m in ([(s, n)] if mx is None else f.min(s, n, mx)):
            if s1.regs[v.r].kind != 'heap' or not s1.regs[v.r].live: f.ip.fail(s1, 'content', 'result is not a fresh allocation'); continue
            for s2, q in f.ip.access(s1, v, m + 1, False, ' (result)'):
                f.seq(s2, 'content', q.r, q.o, m + 1, [(m, 'src', sid, ZERO), NUL], 'copy')
            f.heap_left(s1, (v.r,))
    return f.run(args, check)
def redup(f, label):
    old, new = label.split('/')
    if old == 'null': ov = NULL
    else:
        r, _, _ = f.cstr('old', const=False, kind='heap', alloc='malloc'); ov = P(r, ZERO)
    c = f.cell('*str', ov)
    if new == 'null': nv = NULL
    else: nr, sid, n = f.cstr('new'); nv = P(nr, ZERO)
    def check(s, kind, v):
        if kind != 'ret': return
        x = s.regs[c].cells[0][1]
        if new == 'null':
            if isinstance(x, P): f.ip.fail(s, 'content', 'str_redup(null) leaves a non-null pointer')
            else: f.ip.res.add('content', f.ip.site(), 'proved')
            f.heap_left(s); return
        if not isinstance(x, P): f.ip.fail(s, 'alloc', 'str_redup stores a null pointer'); return
        if s.regs[x.r].kind != 'heap' or not s.regs[x.r].live: f.ip.fail(s, 'content', 'str_redup stores a pointer that is not a live allocation'); return
        for s2, q in f.ip.access(s, x, n + 1, False, ' (result)'):
            f.seq(s2, 'content', q.r, q.o, n + 1, [(n, 'src', sid, ZERO), NUL], 'str_redup result')
        f.heap_left(s, (x.r,))
    return f.run([P(c, ZERO), nv], check)
def callocw(f, label):
    n = f.size('nmemb', 0, 2**31); m = f.size('size', 0, 2**31); st = f.st
    if label == 'one': st.store.add_eq(n - 1); tot = m
    elif label == 'bytes': st.store.add_eq(m - 1); tot = n
    else: tot = None
    def check(s, kind, v):
        if kind == 'unw': f.ip.fail(s, 'alloc', 'calloc throws'); return
        if kind != 'ret': return
        if not isinstance(v, P):
            if tot is None: f.ip.fail(s, 'alloc', 'null returned for a non-zero request', [n - 1, m - 1])
            else: f.ip.fail(s, 'alloc', 'null returned for a non-zero request', [tot - 1])
            return
        f.ip.res.add('alloc', f.ip.site(), 'proved')
        if tot is not None:
            f.seq(s, 'content', v.r, v.o, tot, [(tot, 'c', ci(0, 8))], 'calloc result')
        f.heap_left(s, (v.r,))
    return f.run([I(n, 64), I(m, 64)], check)
def reallocw(f, label):
    n = f.size('size', 0, 2**40)
    if label == 'null': pv = NULL; k = ZERO
    else:
        k = f.size('old size', 1, 2**40)
        r, sid = f.buf('old', k, kind='heap', alloc='malloc'); pv = P(r, ZERO)
    def check(s, kind, v):
        if kind == 'unw': f.ip.fail(s, 'alloc', 'realloc throws'); return
        if kind != 'ret': return
        if not isinstance(v, P):
            f.ip.fail(s, 'alloc', 'null returned for a non-zero request', [n - 1]); return
        f.ip.res.add('alloc', f.ip.site(), 'proved')
        if label != 'null':
            for s1, m in f.min(s, n, k): f.seq(s1, 'content', v.r, v.o, m, [(m, 'src', sid, ZERO)], 'realloc result')
        f.heap_left(s, (v.r,))
    return f.run([pv, I(n, 64)], check)

CASES = [('h_strlcpy', l, strlcpy) for l in ('zero', 'sized')] + \
        [('h_strlcat', l, strlcat) for l in ('zero', 'terminated', 'unterminated')] + \
        [('h_strdup', 'any', dup), ('h_strldup', 'any', dup)] + \
        [('h_str_redup', l, redup) for l in ('null/null', 'null/str', 'str/null', 'str/str')] + \
        [('h_calloc', l, callocw) for l in ('one', 'bytes', 'product')] + [('h_realloc', l, reallocw) for l in ('null', 'block')]
KINDS = {
    'C21': {'bounds-r', 'bounds-w', 'null', 'uaf', 'content', 'result', 'const-write', 'overlap', 'range', 'loop-progress', 'bad-free', 'double-free'},
    'C30': {'alloc', 'leak', 'double-free', 'bad-free', 'uaf', 'null', 'free-shared'},
}
RULES = {
    'C21': 'every load/store of the helpers lies inside the given sizes, the destination holds exactly the documented prefix and terminator, and the returned length is the documented one, for all lengths and sizes',
    'C30': 'on every path, including every allocation failing, the wrappers return non-null for non-zero requests and each C allocation is returned or freed exactly once',
}
def run(rep, prop, tier):
    rep.rule(RULES[prop])
    mods = {'full': ir.load('harness/h_cstr.cpp', 'full')}
    cases = [('full',) + c for c in CASES if c[0] not in (('h_strlcpy', 'h_strlcat') if prop == 'C30' else ('h_calloc', 'h_realloc'))]
    drive(rep, mods, cases, lambda k: k in KINDS[prop], tier, {'malloc_null': True} if prop == 'C30' else {})
