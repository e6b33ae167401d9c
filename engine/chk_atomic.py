"""AtomicFile (C15, C16): typestate of the descriptor and the temporary name over
every call sequence and every failing system call."""
import ir, par, time
from fx import *
from kernel import *
from drive import drive
import kernel

TRUST = ['clang 18 front end (C++ to LLVM IR)', 'tool/irdump', 'abstract semantics in engine/core.py, lin.py, loops.py', 'system call models in engine/kernel.py and engine/models.py', 'specification in engine/chk_atomic.py']

def fname(f, kind):
    """a target path: no '/' at all, or a last '/' at position p"""
    st = f.st
    if kind == 'plain':
        n = f.size('name.len', 1, 2**31)
        sid = new_src('name', 8, kind='free', nonul=True, ne=(47,))
        rid = st.add(Region('ext', 'file name', n + 1, 1, ((n, ('src', sid, ZERO)), (n + 1, ('val', ci(0, 8)))), flags={'const': True}))
        return rid, [(n, 'src', sid, ZERO)], None, sid, n
    p = f.size('dir.len', 0, 2**30); m = f.size('base.len', 0, 2**30)
    d = new_src('dir', 8, kind='free', nonul=True); b = new_src('base', 8, kind='free', nonul=True, ne=(47,))
    segs = ((p, ('src', d, ZERO)), (p + 1, ('val', ci(47, 8))), (p + 1 + m, ('src', b, -p - 1)), (p + 2 + m, ('val', ci(0, 8))))
    rid = st.add(Region('ext', 'file name', p + 2 + m, 1, segs, flags={'const': True}))
    return rid, [(p, 'src', d, ZERO), (ONE, 'c', ci(47, 8)), (m, 'src', b, ZERO)], (d, p), b, p + 1 + m

def flat(ip, st, rid, n):
    """[(st, tokens)]: the text as literal bytes and source runs"""
    for s, ps in pieces(ip, st, rid, ZERO, n):
        toks = []
        for q in ps:
            if s.store.entails_ge(-q[0]): continue
            if q[1] == 'c':
                c = s.const(q[2].e) if isinstance(q[2], I) and q[2].src is None else None
                k = s.const(q[0])
                if c is not None and k is not None: toks += [c & 255] * k; continue
                toks.append(None); continue
            if q[1] == 'src':
                sc = SRC[q[2]]
                if sc.get('kind') == 'const' and s.const(q[0]) is not None and s.const(q[3]) is not None:
                    toks += [v & 255 for v in sc['vals'][s.const(q[3]):s.const(q[3]) + s.const(q[0])]]; continue
                toks.append((q[2], s.canon(q[3]), s.canon(q[0]), 47 in sc.get('ne', ()))); continue
            toks.append(None)
        yield s, toks

def same_dir(f, s, toks, dirinfo):
    """is the directory part of the text that of the target? True / False / None (unknown)"""
    if None in toks: return None
    # the last '/' after which nothing can be a '/'
    i = len(toks)
    while i and toks[i - 1] != 47:
        t = toks[i - 1]
        if isinstance(t, tuple) and not t[3]: return None
        i -= 1
    pre = toks[:i]          # including the final '/'
    # remove "." components
    norm = []
    for t in pre:
        norm.append(t)
        while len(norm) >= 2 and norm[-1] == 47 and norm[-2] == 46 and (len(norm) == 2 or norm[-3] == 47): del norm[-2:]
    while len(norm) >= 2 and norm[-1] == 47 and norm[-2] == 47: norm.pop()
    if dirinfo is None: return norm == []
    d, p = dirinfo
    if not norm or norm[-1] != 47: return False
    body = norm[:-1]
    # body must be exactly dir[0, p)
    at = ZERO
    for t in body:
        if not isinstance(t, tuple) or t[0] != d or not s.store.entails_eq(t[1] - at): return False
        at = at + t[2]
    if s.store.entails_eq(at - p): return True
    return False

def run_seq(f, label):
    """label: path kind / mode / operations"""
    pk, mk, ops = label.split('/')
    f.reps = not f.ip.opts.get('thorough'); f.ip.budget = 4000000
    st = f.st; ip = f.ip
    rid, want, dirinfo, bsid, nlen = fname(f, pk)
    mode = None
    if mk == 'mode':
        mode = f.size('mode', 0, 0o7777)
    snapw = (rid, nlen)
    obj = None
    def on_rename(ip, s, k, a, b):
        # the target is only replaced by a finished temporary
        same = s.copy()
        if k is None:
            for key, r in recs(s, 'tmp'):
                if s.ghost[key]['state'] == 'exists':
                    same_text(ip, s, a, r['path'], 'publish', 'rename source', f.seq); break
            else: ip.fail(s, 'publish', 'rename of something that is not the temporary')
            return
        t = s.ghost[k]; r = s.ghost[t['fd']]
        if t['state'] != 'exists': ip.fail(s, 'publish', 'rename of a temporary that is already %s' % t['state'])
        same_text(ip, s, b, snapw, 'publish', 'rename target', f.seq)
        if not r['sync']: ip.fail(s, 'publish', 'the target is replaced although its data was not synced successfully')
        if r['open'] or not r.get('closeok'): ip.fail(s, 'publish', 'the target is replaced although the descriptor was not closed successfully')
        if mk == 'mode':
            v = r['mode']
            if v is None: ip.fail(s, 'publish', 'the target is replaced although the requested mode was not set')
            else:
                for s1, e in ip.ints(s.copy(), v, 32, False): f.same(s1, 'publish', e, mode, 'mode of the new file')
        elif r['mode'] is not None: ip.fail(s, 'publish', 'the mode is changed although none was requested')
        ip.ok('publish')
    def on_unlink(ip, s, snap):
        if text_same(ip, s, snap, snapw): ip.fail(s, 'publish', 'the target itself is unlinked')
        for k, t in recs(s, 'tmp'):
            if t['state'] != 'exists' and text_same(ip, s, snap, t['path']): ip.fail(s, 'tmpname', 'the temporary is unlinked again after it was %s' % t['state'])
    def on_path(ip, s, call, snap):
        if text_same(ip, s, snap, snapw): ip.fail(s, 'publish', 'the target is changed in place by %s' % call)
    ip.opts.update(on_rename=on_rename, on_unlink=on_unlink, on_path=on_path)
    size = f.mod
    def call(s, fn, args):
        ip.default_site = opsite(f.mod, fn)
        for s1, kind, v in ip.call_fn(s, fn, args):
            if not s1.store.sat(): continue
            if kind == 'exit': continue
            if kind == 'unw':
                if not models.exc_name(v) or v.get('type') not in OOM: ip.fail(s1, 'report', 'unexpected exception %s' % models.exc_name(v))
                continue
            f.outcomes += 1
            yield s1, v
    def truth(s, v):
        c = ip.to_cond(s, v)
        for t in (True, False):
            for s1 in ip.assume(s.copy(), c, t): yield s1, t
    f.outcomes = 0
    def opened(s): return [k for k, r in recs(s, 'fd') if r['kind'] == 'tmp' and r['open']]
    def settled(s, after):
        """after commit/abort/destruction: nothing is left behind"""
        bad = False
        for k, r in recs(s, 'fd'):
            if r['open']: ip.fail(s, 'fd', 'descriptor still open after %s' % after); bad = True
        for k, t in recs(s, 'tmp'):
            n = t.get('unlinks', 0)
            if t['state'] == 'renamed': pass
            elif n == 0: ip.fail(s, 'tmpname', 'temporary name neither renamed nor unlinked after %s' % after); bad = True
            if n > 1: ip.fail(s, 'tmpname', 'temporary name unlinked %d times' % n); bad = True
        if recs(s, 'unlink-other'):
            r = recs(s, 'unlink-other')[0][1]
            ip.fail(s, 'tmpname', 'unlink of a name that is not the temporary'); bad = True
        if not bad: ip.ok('fd'); ip.ok('tmpname')
    def notopen(s, a, after):
        for s1, v in call(s.copy(), 'h_af_is_open', [a]):
            for s2, t in truth(s1, v):
                if t: ip.fail(s2, 'state', 'object reports open after %s' % after)
                else: ip.ok('state')
        for s1, v in call(s, 'h_af_fd', [a]):
            for s2, e in ip.ints(s1, v, 32, True): f.same(s2, 'state', e, K(-1), 'fd() after ' + after)
    try:
        (s0, _, v), = [x for x in ip.call_fn(st.copy(), 'h_af_sizeof', []) if x[1] == 'ret']
        a = P(st.add(Region('obj', 'AtomicFile', K(s0.const(v.e)))), ZERO)
        cur = [(s, ) for s, _ in call(st.copy(), 'h_af_ctor', [a])]
        cur = [s for (s,) in cur]
        for op in ops.split(','):
            nxt = []
            for s in cur:
                # a call sequence starts from whatever the previous operation left
                if op == 'open':
                    args = [a, P(rid, ZERO)] + ([I(mode, 32)] if mk == 'mode' else [])
                    before = {k for k, r in recs(s, 'tmp')}
                    for s1, v in call(s, 'h_af_open' if mk == 'mode' else 'h_af_open_default', args):
                        for s2, t in truth(s1, v):
                            o = opened(s2)
                            newt = [r for k, r in recs(s2, 'tmp') if k not in before]
                            for k, r in recs(s2, 'fd'):
                                if r['kind'] == 'file': ip.fail(s2, 'publish', 'open does not use a temporary')
                            if t and len(o) != 1: ip.fail(s2, 'report', 'open reports success with %d open descriptors' % len(o)); continue
                            if not t and o: ip.fail(s2, 'fd', 'open reports failure but leaves a descriptor open'); continue
                            # an earlier file was dropped
                            for k, r in recs(s2, 'tmp'):
                                if k in before and r['state'] != 'renamed' and r.get('unlinks', 0) != 1: ip.fail(s2, 'tmpname', 'reopening leaves the earlier temporary behind')
                            for r in newt:
                                for s3, toks in flat(ip, s2, r['path'][0], r['path'][1]):
                                    d = same_dir(f, s3, toks, dirinfo)
                                    if d is None: ip.res.add('publish', ip.site(), 'undecided', 'directory of the temporary', None, ip.entry)
                                    elif not d: ip.fail(s3, 'publish', 'the temporary is not created in the directory of the target')
                                    else: ip.ok('publish')
                            if t:
                                for s3, v3 in call(s2.copy(), 'h_af_fd', [a]):
                                    for s4, e in ip.ints(s3, v3, 32, True): f.same(s4, 'state', e, s4.ghost[o[0]]['fd'], 'fd() of an open file')
                            else: notopen(s2.copy(), a, 'a failed open')
                            nxt.append(s2)
                elif op in ('commit', 'abort'):
                    was = bool(opened(s))
                    ren = sum(r.get('renames', 0) for k, r in recs(s, 'tmp')); nev = len(s.ev)
                    for s1, v in call(s, 'h_af_' + op, [a]):
                        for s2, t in truth(s1, v):
                            did = sum(r.get('renames', 0) for k, r in recs(s2, 'tmp')) - ren
                            if op == 'commit':
                                if t and did != 1: ip.fail(s2, 'report', 'commit reports success without publishing the file')
                                elif not t and did: ip.fail(s2, 'report', 'commit reports failure although the target was replaced')
                                else: ip.ok('report')
                                fl = [e[1] for e in s2.ev[nev:] if e[0] == 'fail' and e[1] not in ('unlink',)]
                                if t and fl: ip.fail(s2, 'report', 'commit reports success although %s failed' % fl[0])
                                if was and not fl and not t: ip.fail(s2, 'report', 'commit reports failure although every step succeeded')
                            else:
                                if did: ip.fail(s2, 'publish', 'abort replaces the target')
                                if t != was: ip.fail(s2, 'report', 'abort returns %s for a file that was %s' % (t, 'open' if was else 'not open'))
                                else: ip.ok('report')
                            if not was and len(s2.ev) > nev and any(e[0] in ('unlink', 'rename', 'close', 'fail') for e in s2.ev[nev:]):
                                ip.fail(s2, 'tmpname', '%s touches the file system although no file is open' % op)
                            settled(s2, op); notopen(s2.copy(), a, op)
                            nxt.append(s2)
                elif op == 'dtor':
                    ren = sum(r.get('renames', 0) for k, r in recs(s, 'tmp'))
                    for s1, v in call(s, 'h_af_dtor', [a]):
                        if sum(r.get('renames', 0) for k, r in recs(s1, 'tmp')) != ren: ip.fail(s1, 'publish', 'destruction replaces the target')
                        settled(s1, 'destruction'); f.heap_left(s1)
            if ops.count('open') > 1 and f.reps:
                # one representative per outcome class of a prefix whose own obligations are discharged in full by the shorter sequences
                seen = {}
                for s in nxt: seen.setdefault((len(opened(s)), tuple(sorted((t['state'], t.get('unlinks', 0)) for k, t in recs(s, 'tmp')))), s)
                nxt = list(seen.values())
            cur = nxt
    except Budget: ip.res.add('analysis', ip.default_site, 'undecided', 'budget exhausted', None, ip.entry)
    except Unsupported as e: ip.res.add('analysis', ip.default_site, 'undecided', 'unsupported: %s' % e, None, ip.entry)
    except RecursionError: ip.res.add('analysis', ip.default_site, 'undecided', 'recursion', None, ip.entry)
    ip.res.visited = ip.visited
    return ip.res

SEQS = ['dtor', 'commit,dtor', 'abort,dtor', 'open,dtor', 'open,commit,dtor', 'open,abort,dtor', 'open,commit,commit,dtor', 'open,abort,commit,dtor', 'open,commit,abort,dtor', 'open,abort,abort,dtor', 'open,open,dtor', 'open,open,commit,dtor']
MORE = ['open,commit,open,commit,dtor', 'open,abort,open,abort,dtor', 'open,open,abort,dtor', 'open,open,open,dtor']
KINDS = {'C15': {'publish', 'report'}, 'C16': {'fd', 'tmpname', 'state', 'leak', 'double-free', 'uaf', 'io-release'}}
RULES = {
    'C15': 'on every path, rename(temporary, target) happens only after successful fsync, close and (if requested) fchmod of that temporary, commit returns true exactly when that rename succeeded, and nothing else modifies the target; the temporary has the directory of the target',
    'C16': 'typestate over all call sequences and failures: each descriptor closed once, never used closed, each temporary renamed or unlinked exactly once, object reports not open afterwards',
}
def run(rep, prop, tier):
    rep.rule(RULES[prop])
    rep.assume('system calls fail or succeed independently; unlink may fail without consequence; a failing close still releases the descriptor')
    mods = {'full': ir.load('harness/h_io.cpp', 'full')}
    cases = []
    for q in SEQS + (MORE if tier == 'thorough' else MORE[:1]):
        for pk in ('plain', 'dir'):
            for mk in ('mode', 'default'):
                if 'open' not in q and (pk, mk) != ('plain', 'mode'): continue
                if tier == 'quick' and q.count('open') > 1 and pk != mk.replace('mode', 'dir').replace('default', 'plain'): continue
                cases.append(('full', 'h_af_ctor', '%s/%s/%s' % (pk, mk, q), run_seq))
    rep.assume('for sequences with more than one open, the quick tier continues from one representative per outcome class of the prefix')
    drive(rep, mods, cases, lambda k: k in KINDS[prop], tier, opts=dict(thorough=tier == 'thorough'), M=IOModels, seconds=90)
