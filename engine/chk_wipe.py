"""C14: the destructor of the last user overwrites every byte of the buffer before
releasing it, in the program as written and in the optimised program."""
import ir, models, rca, rcaops
from fx import *
from drive import drive

TRUST = ['clang 18 front end and -O2 pipeline', 'tool/irdump', 'abstract semantics in engine/core.py, lin.py, loops.py', 'library models in engine/models.py', 'specification in engine/chk_wipe.py']

def c_dtor(f, label):
    ip = f.ip; f.outcomes = 0
    try:
        kind = label.split('/')[0]
        W = rca.World(f.mod, 'S', models.Models)
        ip.gcache = dict(W.gcache)
        st = W.state()
        o = W.empty_obj(st, 's') if kind == 'empty' else W.obj(st, 's', 'own' if kind == 'view' else kind)
        other = W.obj(st, 'other', 'view', o.blk) if kind == 'view' else None
        if o.sid is not None:
            SRC[o.sid]['name'] = 'contents'
            st.regs[o.blk['buf']].flags['mark'] = o.sid
        if f.fn == 'h_S_delete':
            st.regs[o.rid].kind = 'heap'; st.regs[o.rid].flags['alloc'] = 'new'
        for s, k, v in ip.call_fn(st.copy(), f.fn, [P(o.rid, ZERO)]):
            if not s.store.sat() or k == 'exit': continue
            f.outcomes += 1
            if k == 'unw': ip.fail(s, 'wipe', 'the destructor throws'); continue
            if o.sid is None: ip.ok('wipe'); continue
            r = s.regs[o.blk['buf']]
            if kind in ('shared', 'view'):
                # nothing changed for the others
                for s2, segs in ip.arr_extract(s.copy(), o.blk['buf'], ZERO, o.blk['cap']):
                    f.cx = rcaops.Cx(W, ip, None)
                    rcaops.seq_equal(f.cx, s2, o.blk['cap'], segs, [(o.blk['cap'], 'src', o.sid, ZERO)], 'wipe', 'buffer still used by another String')
                continue
            if r.live: ip.fail(s, 'leak', 'the buffer is not released'); continue
            lo = ZERO; bad = False
            for hi, d in r.arr:
                if d[0] == 'top':
                    if not s.store.entails_ge(lo - hi): ip.res.add('wipe', ip.site(), 'undecided', 'bytes [%s, %s) not tracked' % (s.canon(lo), s.canon(hi)), None, ip.entry); bad = True
                elif d[0] != 'val' and not s.store.entails_ge(lo - hi):
                    ip.fail(s, 'wipe', 'bytes [%s, %s) of a buffer of %s bytes are released without being overwritten' % (s.canon(lo), s.canon(hi), s.canon(o.blk['cap'])), [hi - lo - 1]); bad = True
                lo = hi
            if not s.store.entails_ge(lo - o.blk['cap']): ip.res.add('wipe', ip.site(), 'undecided', 'coverage', None, ip.entry); bad = True
            if not bad: ip.ok('wipe')
    except Budget: ip.res.add('analysis', ip.default_site, 'undecided', 'budget exhausted', None, ip.entry)
    except Unsupported as e: ip.res.add('analysis', ip.default_site, 'undecided', 'unsupported: %s' % e, None, ip.entry)
    ip.res.visited = ip.visited
    return ip.res
KINDS = {'C14': {'wipe', 'cow', 'bounds-w', 'uaf'}}
HARNESS = 'harness/h_wipe.cpp'
MODELS = models.Models
def cases(prop, tier):
    return [(c, fn, k, c_dtor) for c in ('full', 'optimised') for fn in ('h_S_dtor',) for k in ('null', 'empty', 'own', 'shared', 'view')]
def load(cfg):
    if cfg == 'full': return ir.load(HARNESS, 'full')
    return ir.load(HARNESS, 'full', extra=('-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops'), opt='loop-simplify', O='-O2')
def run(rep, prop, tier):
    rep.rule('after the destructor of the only user, every element of the released buffer carries a store made after entry; with another user, no byte changes. Decided on the unoptimised IR and on the IR after the -O2 pipeline.')
    rep.assume('applies to destruction; buffers replaced by growth or assignment are released without wiping by design')
    drive(rep, {c: load(c) for c in ('full', 'optimised')}, cases(prop, tier), lambda k: k in KINDS[prop], tier, M=models.Models, seconds=60)
