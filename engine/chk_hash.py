"""HashTable (C22): every operation against the specification of a map, on the entry of one arbitrary key.
The standard container is a stand-in (harness/stub/unordered_map) with exactly the standard's guarantees."""
import ir, models
from fx import *
from drive import drive
from chk_stream import guard

HARNESS = 'harness/h_hash.cpp'
EXTRA = ('-I' + ir.VERIF + '/harness/stub',)
TRUST = ['clang 18 front end (C++ to LLVM IR)', 'tool/irdump', 'abstract semantics in engine/core.py, lin.py, loops.py', 'stand-in for std::unordered_map in harness/stub', 'specification in engine/chk_hash.py']

class MODELS(models.Models):
    def __init__(self):
        super().__init__()
        self.name('v_obs', lambda ip, st, a, ins, fn: [(st, 'ret', I(ip.opts['obs'], 32))])
        def choice(ip, st, a, ins, fn):
            x = fresh('choice'); s = st; s.store.add_ge(x); s.store.add_ge(K(1) - x)
            return [(s, 'ret', I(x, 32))]
        self.name('v_choice', choice)
        def size(ip, st, a, ins, fn):
            x = fresh('size'); st.store.add_ge(x); st.store.add_ge(K(NPOS) - x); return [(st, 'ret', I(x, 64))]
        self.name('v_size', size)
        self.name('v_full', lambda ip, st, a, ins, fn: (_ for _ in ()).throw(models.Unsupported('iteration over the whole table')))

def const(mod, fn):
    i = Interp(mod, MODELS()); (s, k, v), = i.call_fn(State(), fn, [])
    return s.const(v.e)

class Env:
    def __init__(self, f):
        self.f = f; self.ip = f.ip
        m = f.mod
        self.has = const(m, 'h_off_has'); self.n = const(m, 'h_off_n'); self.oth = const(m, 'h_off_oth'); self.key = const(m, 'h_off_key'); self.val = self.key + 4
        self.size = const(m, 'h_sizeof')
        self.obs = self.num('key')
        f.ip.opts['obs'] = self.obs
    def num(self, name):
        x = fresh(name); st = self.f.st; st.store.add_ge(x); st.store.add_ge(K(2**31 - 1) - x); return x
    def map(self, name, present):
        """(rid, (has, value, size))"""
        st = self.f.st; size = {'empty': 0, 'single': 1}.get(present)
        if isinstance(present, str): present = present in ('present', 'single')
        r = Region('ext', name, K(self.size)); v = self.num(name + '.value')
        n = K(size) if size is not None else self.f.size(name + '.size', 1 if present else 0, MAXOBJ)
        o = fresh(name + '.other'); st.store.add_ge(o); st.store.add_ge(K(1) - o); st.store.add_ge(n - o - int(present))
        r.cells = {self.has: (4, ci(int(present), 32)), self.n: (8, I(n, 64)), self.oth: (4, I(o, 32))}
        if present: r.cells[self.key] = (4, I(self.obs, 32)); r.cells[self.val] = (4, I(v, 32))
        return st.add(r), (int(present), v, n)
    def raw(self, name):
        r = Region('ext', name, K(self.size)); r.cells = {}; return self.f.st.add(r)
    def tok(self, name, e, const=False):
        r = Region('ext', name, K(4)); r.cells = {0: (4, I(e, 32))}
        if const: r.flags['const'] = True
        return self.f.st.add(r)
    def cell(self, s, rid, off, w):
        c = s.regs[rid].cells.get(off)
        return c[1] if c else None
    def check(self, s, rid, want, what):
        """want = (has, value, size or None)"""
        f = self.f; ip = self.ip
        for s1, h in self.ints(s, self.cell(s, rid, self.has, 32), 32, what):
            if not f.same(s1, 'state', h, K(want[0]), '%s: presence of the key' % what): continue
            if want[2] is not None:
                for s2, n in self.ints(s1, self.cell(s1, rid, self.n, 64), 64, what): f.same(s2, 'state', n, want[2], '%s: number of entries' % what)
            if want[0]:
                for s2, k in self.ints(s1, self.cell(s1, rid, self.key, 32), 32, what): f.same(s2, 'state', k, self.obs, '%s: stored key' % what)
                if want[1] is not None:
                    for s2, v in self.ints(s1, self.cell(s1, rid, self.val, 32), 32, what): f.same(s2, 'state', v, want[1], '%s: stored value' % what)
    def ints(self, s, v, w, what):
        if v is None: self.ip.fail(s, 'state', '%s: never set' % what); return []
        return self.ip.ints(s.copy(), v, w, False)
    def run(self, args, post):
        f = self.f; ip = self.ip
        for s, kind, v in ip.call_fn(f.st.copy(), f.fn, args):
            if not s.store.sat() or kind == 'exit': continue
            if kind == 'unw': ip.fail(s, 'throw', 'throws %s' % models.exc_name(v)); continue
            f.outcomes += 1
            post(s, v)
    def flag(self, s, v, want, what):
        for s1, e in self.ip.ints(s.copy(), v, 1, False): self.f.same(s1, 'result', e, K(int(want)), what)

def case(g0):
    def c(f, label):
        return guard(f, lambda: g0(Env(f), label))
    return c

@case
def insert(E, label):
    f = E.f; st = f.st
    state, which = label.split('/')
    m, (has, val, n) = E.map('table', state == 'present')
    k = E.obs
    if which == 'other': k = E.num('otherkey'); st.store.add_ne(k - E.obs)
    v = E.num('value')
    kk, vv = f.fn[-2:]
    ak = E.tok('key argument', k, kk == 'c'); av = E.tok('value argument', v, vv == 'c')
    def post(s, r):
        if which == 'same':
            E.flag(s, r, not has, 'insert returns whether it stored')
            E.check(s, m, (1, val if has else v, n if has else n + 1), 'table after insert')
            if has:
                for a, x in ((ak, k), (av, v)):
                    for s1, e in E.ints(s, E.cell(s, a, 0, 32), 32, 'argument'): f.same(s1, 'state', e, x, 'argument of an insert that stored nothing')
        else:
            for s1, e in E.ip.ints(s.copy(), r, 1, False): E.check(s1, m, (has, val, s1.canon(n + e)), 'entry of another key after insert')
    E.run([P(m, ZERO), P(ak, ZERO), P(av, ZERO)], post)

@case
def lookup(E, label):
    f = E.f; st = f.st
    state, which = label.split('/')
    m, (has, val, n) = E.map('table', state == 'present')
    k = E.obs
    if which == 'other': k = E.num('otherkey'); st.store.add_ne(k - E.obs)
    ak = E.tok('key argument', k, True)
    def post(s, r):
        E.check(s, m, (has, val, n), 'table after a lookup')
        if which == 'other': return
        if f.fn == 'h_contains': E.flag(s, r, has, 'contains')
        elif f.fn in ('h_getValue', 'h_cindex'):
            for s1, e in E.ip.ints(s.copy(), r, 32, False): f.same(s1, 'result', e, val if has else ZERO, 'value looked up')
        else:
            if not has:
                if isinstance(r, P): E.ip.fail(s, 'result', 'find returns an entry for an absent key')
                else: E.ip.ok('result')
            elif isinstance(r, P) and r.r == m: f.same(s, 'result', r.o, K(E.val), 'entry found')
            else: E.ip.fail(s, 'result', 'find does not return the entry of a present key')
    E.run([P(m, ZERO), P(ak, ZERO)], post)

@case
def index(E, label):
    f = E.f; st = f.st
    state, which = label.split('/')
    m, (has, val, n) = E.map('table', state == 'present')
    k = E.obs
    if which == 'other': k = E.num('otherkey'); st.store.add_ne(k - E.obs)
    ak = E.tok('key argument', k, f.fn != 'h_index_m'); args = [P(m, ZERO), P(ak, ZERO)]
    v = None
    if f.fn == 'h_index_set': v = E.num('value'); args.append(P(E.tok('value argument', v, True), ZERO))
    def post(s, r):
        if which == 'other': E.check(s, m, (has, val, None), 'entry of another key after operator[]'); return
        E.check(s, m, (1, v if v is not None else val if has else ZERO, n if has else n + 1), 'table after operator[]')
        if f.fn == 'h_index_get':
            for s1, e in E.ip.ints(s.copy(), r, 32, False): f.same(s1, 'result', e, val if has else ZERO, 'value of operator[]')
        elif f.fn != 'h_index_set':
            if isinstance(r, P) and r.r == m: f.same(s, 'result', r.o, K(E.val), 'reference returned')
            else: E.ip.fail(s, 'result', 'operator[] does not return a reference to the entry')
    E.run(args, post)

@case
def remove(E, label):
    f = E.f; st = f.st
    state, which = label.split('/')
    m, (has, val, n) = E.map('table', state == 'present')
    k = E.obs
    if which == 'other': k = E.num('otherkey'); st.store.add_ne(k - E.obs)
    ak = E.tok('key argument', k, True)
    def post(s, r):
        if which == 'same':
            E.flag(s, r, has, 'remove returns whether the key existed'); E.check(s, m, (0, None, n - has), 'table after remove')
        else:
            for s1, e in E.ip.ints(s.copy(), r, 1, False): E.check(s1, m, (has, val, s1.canon(n - e)), 'entry of another key after remove')
    E.run([P(m, ZERO), P(ak, ZERO)], post)

@case
def whole(E, label):
    f = E.f; st = f.st
    m, (has, val, n) = E.map('table', label.startswith('present'))
    def post(s, r):
        if f.fn == 'h_clear': E.check(s, m, (0, None, ZERO), 'table after clear'); return
        E.check(s, m, (has, val, n), 'table after a query')
        if f.fn == 'h_size':
            for s1, e in E.ip.ints(s.copy(), r, 64, False): f.same(s1, 'result', e, n, 'size')
        else:
            want_empty = f.fn != 'h_bool'
            for s1 in E.ip.split_ge(s.copy(), n - 1, True): E.flag(s1, r, not want_empty, 'emptiness of a table with entries')
            for s1 in E.ip.split_ge(s, -n, True): E.flag(s1, r, want_empty, 'emptiness of an empty table')
    E.run([P(m, ZERO)], post)

@case
def create(E, label):
    f = E.f; st = f.st; r = E.raw('new table'); args = [P(r, ZERO)]
    if f.fn == 'h_sized': args.append(I(f.size('capacity'), 64))
    E.run(args, lambda s, v: E.check(s, r, (0, None, ZERO), 'new table'))

@case
def transfer(E, label):
    f = E.f; st = f.st
    a, b = label.split('/')
    m, (has, val, n) = E.map('source', b)
    if a == 'self': d = m; hd = None
    elif a == 'new': d = E.raw('new table')
    else: d, hd = E.map('target', a)
    def post(s, r):
        E.check(s, d, (has, val, n), 'target')
        if f.fn in ('h_copy', 'h_assign'): E.check(s, m, (has, val, n), 'source of a copy')
        if f.fn == 'h_swap' and a != 'self': E.check(s, m, hd, 'other table after swap')
    E.run([P(d, ZERO), P(m, ZERO)], post)

@case
def lists(E, label):
    """a list of one or two pairs, the observed key first, second or missing"""
    f = E.f; st = f.st
    ks = []
    for w in label.split(','):
        k = E.obs
        if w == 'other': k = E.num('otherkey'); st.store.add_ne(k - E.obs)
        ks.append((k, E.num('value')))
    r = Region('ext', 'list', K(8 * len(ks))); r.flags['const'] = True
    r.cells = {}
    for i, (k, v) in enumerate(ks): r.cells[8 * i] = (4, I(k, 32)); r.cells[8 * i + 4] = (4, I(v, 32))
    a = [P(st.add(r), ZERO), I(K(len(ks)), 64)]
    d = E.map('target', True)[0] if f.fn == 'h_assign_list' else E.raw('new table')
    mine = [v for k, v in ks if k is E.obs]
    want = (1, mine[0], K(len(ks))) if mine else (0, None, K(len(ks)))
    E.run([P(d, ZERO)] + a, lambda s, r: E.check(s, d, want, 'table made from a list'))

def cases(prop, tier):
    out = []
    sides = ('present', 'absent', 'empty', 'single')
    both = [a + '/' + b for a in ('present', 'absent') for b in ('same', 'other')]
    add = lambda fn, ls, g: out.extend(('full', 'h_' + fn, l, g) for l in ls)
    for x in ('cc', 'mc', 'cm', 'mm'): add('insert_' + x, both, insert)
    for x in ('contains', 'getValue', 'cindex', 'find', 'cfind'): add(x, both, lookup)
    for x in ('index', 'index_m', 'index_set', 'index_get'): add(x, both, index)
    add('remove', both, remove)
    for x in ('size', 'isEmpty', 'bool', 'clear', 'begin_end', 'cbegin_cend'): add(x, ('present', 'absent'), whole)
    add('default', ('-',), create); add('sized', ('-',), create)
    for x in ('copy', 'move'): add(x, ['new/' + b for b in sides], transfer)
    for x in ('assign', 'massign', 'swap'): add(x, [a + '/' + b for a in sides + ('self',) for b in sides], transfer)
    for x in ('list', 'assign_list'): add(x, ('same', 'other', 'same,other', 'other,same'), lists)
    return out
def load(cfg): return ir.load(HARNESS, cfg, extra=EXTRA)
KINDS = {'C22': ('state', 'result', 'throw', 'terminate', 'const-write', 'null', 'bounds', 'bounds-r', 'bounds-w', 'uaf')}
def run(rep, prop, tier):
    mods = {'full': load('full')}
    drive(rep, mods, cases(prop, tier), lambda k: k in KINDS[prop], tier, M=MODELS, seconds=30)
