"""Module loading: runs clang/opt/irdump on a harness TU and indexes the result."""
import json, os, subprocess, sys, hashlib, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BDLIB_REPO', '/repo')

class AnalysisBroken(Exception):
    """the analysis could not be carried out (vanished anchor, compile error, ...)"""

def workdir():
    d = os.environ.get('VERIF_WORK')
    if not d:
        d = tempfile.mkdtemp(prefix='bdv-')
        os.environ['VERIF_WORK'] = d
        import atexit
        me = os.getpid()
        def clean():
            if os.getpid() == me: shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
    return d

def tool_irdump():
    src = os.path.join(VERIF, 'tool', 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    cands = [os.path.join(VERIF, '.cache', 'irdump-' + h)]
    for c in cands:
        if os.path.exists(c): return c
    out = cands[0]
    try:
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        open(tmp, 'w').close()
    except OSError:
        out = os.path.join(workdir(), 'irdump-' + h)
        tmp = out + '.tmp'
        if os.path.exists(out): return out
    flags = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).replace('-fno-exceptions', '').split()
    libs = subprocess.check_output(['llvm-config-18', '--ldflags', '--libs', 'core', 'irreader', 'support', 'demangle', '--link-shared'], text=True).split()
    r = subprocess.run(['clang++-18', '-O1'] + flags + [src, '-o', tmp] + libs, capture_output=True, text=True)
    if r.returncode: raise AnalysisBroken('cannot build irdump: ' + r.stderr[-2000:])
    os.rename(tmp, out)
    return out

CXXFLAGS = ['-std=c++14', '-DHAVE_CONFIG_H', '-DNDEBUG', '-I' + REPO + '/src', '-I/usr/include/tcl8.6',
            '-include', REPO + '/src/stdio-gets-hack.h', '-Wno-everything', '-fno-access-control',
            '-ferror-limit=5']

def compile_bc(tu, config, extra=(), opt='sroa,loop-simplify', O='-O0'):
    w = workdir()
    base = os.path.join(w, '%s-%s-%s' % (os.path.basename(tu).split('.')[0], config, hashlib.md5(repr((extra, opt, O)).encode()).hexdigest()[:6]))
    bc = base + '.bc'
    cmd = ['clang++-18'] + ['-I' + os.path.join(VERIF, 'config', config)] + CXXFLAGS + list(extra) + [O, '-g', '-emit-llvm', '-c', os.path.join(VERIF, tu), '-o', bc]
    if O == '-O0': cmd += ['-Xclang', '-disable-O0-optnone']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise AnalysisBroken('harness %s does not compile against the repository:\n%s' % (tu, r.stderr[-3000:]))
    if opt:
        bc2 = base + '.opt.bc'
        r = subprocess.run(['opt-18', '-passes=' + opt, bc, '-o', bc2], capture_output=True, text=True)
        if r.returncode: raise AnalysisBroken('opt failed: ' + r.stderr[-2000:])
        bc = bc2
    return bc

def load(tu, config='full', extra=(), opt='sroa,loop-simplify', O='-O0'):
    bc = compile_bc(tu, config, extra, opt, O)
    r = subprocess.run([tool_irdump(), bc], capture_output=True, text=True)
    if r.returncode: raise AnalysisBroken('irdump failed: ' + r.stderr[-2000:])
    return Module(json.loads(r.stdout))

class Loop:
    __slots__ = ('header', 'blocks', 'parent')
    def __init__(self, h, b): self.header = h; self.blocks = b; self.parent = None

class Func:
    def __init__(self, name, j):
        self.name = name
        self.dem = j.get('dem', name)
        self.decl = j['decl']
        self.nounwind = j['nounwind']
        self.noreturn = j['noreturn']
        self.args = j['args']
        self.ret = j['ret']
        self.file = j.get('file'); self.line = j.get('line')
        self.blocks = j.get('blocks') or []
        self._loops = None; self._live = None
    def live(self, b):
        """SSA values needed at the start of block b (after its phis), phi results of b included"""
        if self._live is None: self._compute_live()
        return self._live[b]
    def _compute_live(self):
        def refs(j, acc):
            if isinstance(j, dict):
                if j.get('k') == 'v' and 'id' in j: acc.add(j['id'])
                for x in j.values():
                    if isinstance(x, (dict, list)): refs(x, acc)
            elif isinstance(j, list):
                for x in j:
                    if isinstance(x, (dict, list)): refs(x, acc)
        n = len(self.blocks)
        use = []; defs = []; phiuse = [dict() for _ in range(n)]; phidef = []
        for b in range(n):
            u = set(); d = set(); pd = set()
            for ins in self.blocks[b]:
                if ins['op'] == 'phi':
                    pd.add(ins['id'])
                    for p, v in ins['in']: refs(v, phiuse[b].setdefault(p, set()))
                    continue
                a = set(); refs({k: v for k, v in ins.items() if k != 'id'}, a)
                u |= a - d
                if 'id' in ins: d.add(ins['id'])
            use.append(u); defs.append(d); phidef.append(pd)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set()
                for s in self.succs(b): o |= (live[s] - phidef[s]) | phiuse[s].get(b, set())
                l = use[b] | (o - defs[b])
                if l != live[b]: live[b] = l; ch = True
        self._live = live
    def succs(self, b):
        t = self.blocks[b][-1]
        op = t['op']
        if op == 'br': return [t['T']] + ([t['F']] if 'F' in t else [])
        if op == 'switch': return [t['def']] + [c[1] for c in t['cases']]
        if op == 'invoke': return [t['norm'], t['unw']]
        return []
    def loops(self):
        if self._loops is not None: return self._loops
        n = len(self.blocks)
        succ = [self.succs(b) for b in range(n)]
        # reachable, rpo
        seen = set(); order = []
        stack = [(0, iter(succ[0]))] if n else []
        if n: seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(succ[s]))); break
            else:
                order.append(b); stack.pop()
        order.reverse()
        pos = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in succ[b]: preds[s].append(b)
        idom = {order[0]: order[0]} if order else {}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps: continue
                d = ps[0]
                for p in ps[1:]:
                    x, y = d, p
                    while x != y:
                        while pos[x] > pos[y]: x = idom[x]
                        while pos[y] > pos[x]: y = idom[y]
                    d = x
                if idom.get(b) != d: idom[b] = d; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == idom[b]: return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(preds[x])
        self._loops = {h: Loop(h, b) for h, b in loops.items()}
        self.idom = idom; self.preds = preds
        return self._loops

class Module:
    def __init__(self, j):
        self.globals = j['globals']
        self.funcs = {n: Func(n, f) for n, f in j['functions'].items()}
        self.by_dem = {}
        for f in self.funcs.values(): self.by_dem.setdefault(f.dem, f)
    def repo_functions(self):
        return [f for f in self.funcs.values() if not f.decl and f.file and f.file.startswith(REPO + '/')]
