"""Bit provenance: a bit is 0, 1, an atom ('a', ...) standing for one input bit, or ('f', atoms, table):
the Boolean function of at most MAXS atoms given by its truth table (bit i of table = value at assignment i)."""
MAXS = 14
_u = [0]
def atoms(b):
    if b in (0, 1): return ()
    if b[0] == 'f': return b[1]
    return (b,)
def opaque():
    _u[0] += 1; return ('u', _u[0])
_cols = {}
def col(n, j):
    """truth table of variable j among n"""
    k = (n, j)
    if k not in _cols:
        blk = ((1 << (1 << j)) - 1) << (1 << j); r = 0
        for i in range(0, 1 << n, 2 << j): r |= blk << i
        _cols[k] = r
    return _cols[k]
def table(b, ats):
    n = len(ats)
    if b == 0: return 0
    if b == 1: return (1 << (1 << n)) - 1
    if b[0] != 'f': return col(n, ats.index(b))
    src = b[1]; pos = [ats.index(a) for a in src]
    if tuple(src) == tuple(ats): return b[2]
    r = 0; full = (1 << (1 << n)) - 1
    # sum of minterms over the source variables
    for i in range(1 << len(src)):
        if b[2] >> i & 1:
            m = full
            for j, p in enumerate(pos):
                c = col(n, p); m &= c if i >> j & 1 else full & ~c
            r |= m
    return r
def norm(ats, t):
    ats = list(ats)
    full = (1 << (1 << len(ats))) - 1
    if t == 0: return 0
    if t == full: return 1
    j = 0
    while j < len(ats):
        n = len(ats); c = col(n, j); s = 1 << j
        if (t & c) >> s == t & ~c & ((1 << (1 << n)) - 1):
            # independent of variable j: drop it
            nt = 0; k = 0
            for i in range(1 << n):
                if not i >> j & 1:
                    if t >> i & 1: nt |= 1 << k
                    k += 1
            t = nt; del ats[j]
        else: j += 1
    if len(ats) == 1 and t == 2: return ats[0]
    return ('f', tuple(ats), t)
def union(bs):
    s = set()
    for b in bs: s.update(atoms(b))
    return tuple(sorted(s, key=repr))
def comb(op, p, q):
    if op == 'and':
        if p == 0 or q == 0: return 0
        if p == 1: return q
        if q == 1 or p == q: return p
    elif op == 'or':
        if p == 1 or q == 1: return 1
        if p == 0: return q
        if q == 0 or p == q: return p
    else:
        if p == 0: return q
        if q == 0: return p
        if p == q: return 0
    ats = union((p, q))
    if len(ats) > MAXS: return opaque()
    x, y = table(p, ats), table(q, ats)
    return norm(ats, x & y if op == 'and' else x | y if op == 'or' else x ^ y)
def inv(b): return comb('xor', b, 1)
def add(x, y, carry=0):
    out = []
    for p, q in zip(x, y):
        s = comb('xor', p, q)
        out.append(comb('xor', s, carry))
        carry = comb('or', comb('and', p, q), comb('and', s, carry))
    return tuple(out)
def sub(x, y): return add(x, [inv(b) for b in y], 1)
def eq(x, y):
    r = 1
    for p, q in zip(x, y):
        r = comb('and', r, inv(comb('xor', p, q)))
        if r == 0: return 0
    return r
def ult(x, y):
    """x < y, unsigned, LSB first"""
    r = 0
    for p, q in zip(x, y):
        e = inv(comb('xor', p, q))
        r = comb('or', comb('and', inv(p), q), comb('and', e, r))
    return r
def lookup(tab, idx, w):
    """tab: function index -> tuple of w bits; idx: bits.  None when too large"""
    live = [i for i, b in enumerate(idx) if b not in (0, 1)]
    base = sum(1 << i for i, b in enumerate(idx) if b == 1)
    if len(live) > 8: return None
    out = [0] * w
    # one-hot selection, built over the support of the index bits
    ats = union([idx[i] for i in live])
    if len(ats) > MAXS: return None
    tabs = [table(idx[i], ats) for i in live]
    full = (1 << (1 << len(ats))) - 1
    acc = [0] * w
    extra = [None] * w
    for k in range(1 << len(live)):
        m = full
        for j, t in enumerate(tabs): m &= t if k >> j & 1 else full & ~t
        if not m: continue
        v = tab(base + sum(1 << live[j] for j in range(len(live)) if k >> j & 1))
        if v is None: return None
        for i in range(w):
            if v[i] == 1: acc[i] |= m
            elif v[i] != 0: return None
    return tuple(norm(ats, a) for a in acc)
def evaluate(b, asg):
    if b in (0, 1): return b
    if b[0] == 'f':
        i = 0
        for j, a in enumerate(b[1]):
            if asg(a): i |= 1 << j
        return b[2] >> i & 1
    return asg(b)
def differ(x, y):
    """an assignment under which the bits differ, or None"""
    ats = union((x, y))
    if any(a[0] == 'u' for a in ats) or len(ats) > MAXS: return None
    d = table(x, ats) ^ table(y, ats)
    if not d: return None
    i = (d & -d).bit_length() - 1
    return {a: i >> j & 1 for j, a in enumerate(ats)}
