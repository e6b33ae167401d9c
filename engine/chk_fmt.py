"""String::printf (C29): the result is the formatter's text for every format, argument list and length."""
import ir, par, models, rca, rcaops
from fx import *
from drive import drive
from chk_stream import guard

HARNESS = 'harness/h_fmt.cpp'
MODELS = models.Models
TRUST = ['clang 18 front end (C++ to LLVM IR)', 'tool/irdump', 'abstract semantics in engine/core.py, lin.py, loops.py', 'model of vsnprintf in engine/models.py', 'specification in engine/chk_fmt.py']

def c_printf(f, label):
    def g():
        ip = f.ip
        W = rca.World(f.mod, 'S', MODELS)
        ip.gcache = dict(W.gcache)
        st = W.state(); f.st = st; f.cx = rcaops.Cx(W, ip, None)
        r = W.raw_obj(st, 'result')
        fmt, _, _ = f.cstr('format')
        x = f.size('argument', -(2**63), 2**63 - 1)
        y, _, _ = f.cstr('text')
        ip.opts['fmt_free'] = True
        for s, k, v in ip.call_fn(st.copy(), f.fn, [P(r, ZERO), P(fmt, ZERO), I(x, 64), P(y, ZERO)]):
            if not s.store.sat() or k == 'exit': continue
            if k == 'unw':
                if not rcaops.is_oom(v): ip.fail(s, 'throw', 'printf throws %s' % models.exc_name(v))
                continue
            f.outcomes += 1
            g2 = s.ghost.get(('fmt-last',))
            if s.ghost.get(('fmt-error',)): pieces = []
            elif g2 is None:
                ip.fail(s, 'content', 'the formatter is never called'); continue
            else: pieces = [(g2[1], 'src', g2[2], ZERO)]
            for s2, vw in W.view(ip, s.copy(), r, 'result'):
                rcaops.seq_equal(f.cx, s2, vw['n'], vw['segs'], pieces, 'content', 'result of printf')
            for rid, reg in s.regs.items():
                if reg.kind == 'heap' and reg.live and rid not in rcaops_owned(W, s, r): ip.fail(s, 'leak', '%s is never released' % reg.name)
            ip.ok('leak')
    return guard(f, g)

def rcaops_owned(W, s, r):
    ref = W.fields(s, r)[0]
    if not isinstance(ref, P): return ()
    b = s.regs[ref.r].cells[W.L.buf][1]
    return (ref.r,) + ((b.r,) if isinstance(b, P) else ())

CASES = [('h_S_printf', 'any format', c_printf)]
def cases(prop, tier): return [('full', fn, l, g) for fn, l, g in CASES]
KINDS = {'C29': ('content', 'length', 'leak', 'throw', 'va', 'bounds', 'bounds-r', 'bounds-w', 'uaf', 'double-free', 'invalid', 'null')}
def run(rep, prop, tier):
    mods = {'full': ir.load(HARNESS, 'full')}
    drive(rep, mods, cases(prop, tier), lambda k: k in KINDS[prop], tier, M=MODELS, seconds=120, minimum=1)
