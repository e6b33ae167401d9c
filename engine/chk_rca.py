"""String/Array operations: which obligations of the operation analyses belong to which property."""
import ir, par, rcaops, drive, time, os
from rca import World
from specs import SPECS
from ir import AnalysisBroken

MEM = {'bounds', 'bounds-r', 'bounds-w', 'null', 'uaf', 'range', 'overlap', 'const-write', 'invalid', 'ctype', 'uninit', 'double-free', 'bad-free', 'div0'}
OWN = {'refcount', 'double-free', 'leak', 'free-shared', 'bad-free', 'uaf', 'race'}
KINDS = {
    'C01': lambda k, o: k in ('cow', 'cow-ref', 'other'),
    'C02': lambda k, o: k in MEM,
    'C03': lambda k, o: k in ('content', 'length', 'result') and not o.tags & {'window', 'cstr'},
    'C04': lambda k, o: k == 'hash',
    'C05': lambda k, o: k in OWN,
    'C06': lambda k, o: k in ('throw', 'throw-changed', 'terminate'),
    'C07': lambda k, o: k in ('elem', 'elem-leak'),
    'C08': lambda k, o: bool(o.tags & {'move'}) and k not in ('analysis', 'terminate-oom', 'elem-leak'),
    'C09': lambda k, o: bool(o.tags & {'window'}) and k in ('content', 'length', 'result', 'throw', 'other', 'cow'),
    'C10': lambda k, o: bool(o.tags & {'cstr'}) and k in ('cstr', 'bounds', 'bounds-r', 'bounds-w', 'null', 'content', 'other', 'cow', 'uaf', 'result', 'throw', 'invalid'),
}
# undefined behaviour in an operation also means that it does not deliver what it documents
ALSO = {
    'C03': lambda k, o: k in MEM and not o.tags & {'window', 'cstr'},
    'C07': lambda k, o: k in ('leak', 'double-free', 'bad-free'),
    'C09': lambda k, o: k in MEM,
}
OPS = {
    'C07': lambda p, o: p == 'AE',
    'C08': lambda p, o: 'move' in o.tags,
    'C09': lambda p, o: 'window' in o.tags,
    'C10': lambda p, o: 'cstr' in o.tags,
}
RULES = {
    'C01': 'no store reaches element storage while another object may hold a reference to it; const operands and objects not named by the specification keep their abstract sequence; no modifiable reference is handed out into shared storage',
    'C02': 'every load, store and bulk element operation lies inside the live allocation it addresses',
    'C03': 'the abstract element sequence (length and every segment) after the operation equals the one its specification gives from the entry sequences',
    'C04': 'a cached hash that is non-zero on exit was computed from exactly the current abstract sequence',
    'C05': 'the reference counter equals the number of live handles on every exit, the block is released exactly when it reaches zero, and nothing allocated is lost',
    'C06': 'std::out_of_range is raised exactly for the positions beyond the end, leaves every object unchanged, and never reaches a noexcept boundary',
    'C07': 'element typestate (raw, live, moved-from, dead): construct only raw, use/destroy only live, none live when storage is released',
    'C08': 'after move/swap the abstract sequences are exchanged as documented, the source is a well-formed empty object, self-move keeps the contents',
    'C09': 'the abstract sequence of the window equals the clamped subrange for every start/length in the signed 64-bit range',
    'C10': 'the returned pointer addresses length+1 readable characters: the contents followed by NUL, in storage owned by the object or static; no object changes',
}
TRUST = ['clang 18 front end (C++ to LLVM IR)', 'tool/irdump', 'abstract semantics in engine/core.py, lin.py, loops.py', 'library models in engine/models.py', 'operation specifications in engine/specs.py']

def run(rep, prop, tier):
    kinds = KINDS[prop]; ops = OPS.get(prop, lambda p, o: True)
    secs = 20 if tier == 'quick' else 240
    variants = [('full', ())]
    if tier == 'thorough': variants.append(('full', ('-std=c++17',)))
    rep.rule(RULES[prop])
    rep.assume('every object satisfies the representation invariant on entry (offset+length within capacity, counter >= 1 and equal to the number of users, cached hash 0 or current); each operation is shown to re-establish it')
    rep.assume('storage exhaustion (std::bad_alloc) is not followed; element operations do not throw; sizes are below 2^62 bytes')
    for cfg, extra in variants:
        m = ir.load('harness/h_rca.cpp', cfg, extra)
        pres = sorted({p for p, n in SPECS})
        tasks = []
        ws = {}
        seenops = set()
        for (p, n), o in SPECS.items():
            if not ops(p, o): continue
            seenops.add((p, n))
            if p not in ws: ws[p] = World(m, p)
            for part in rcaops.partitions(o): tasks.append((p, n, part))
        # longest first
        tasks.sort(key=lambda t: (0 if 'range' in t[1] else 1 if 'slice_set_slice' in t[1] else 2, -len(SPECS[t[:2]].params)))
        conc = prop == 'C05'
        def f(t):
            r = rcaops.run_one(ws[t[0]], SPECS[t[:2]], t[2], seconds=8 if secs == 20 and t[1] == 'insert_range' else secs)
            if r is None: return None
            ob = r.ob; o = SPECS[t[:2]]
            if drive.unsettled(ob, lambda k: kinds(k, o)):
                y = rcaops.run_one(ws[t[0]], o, t[2], seconds=secs, opts=dict(unroll_sym=drive.UNROLL))
                if y is not None: drive.add_violations(ob, y.ob)
            if conc and 'shared' in t[2]:
                r2 = rcaops.run_one(ws[t[0]], SPECS[t[:2]], t[2], conc=True, check=False, seconds=secs)
                return ob, list(r.visited), r2.ob if r2 else None
            return ob, list(r.visited), None
        res = par.run(f, tasks, limit=500 if tier == 'quick' else 3000)
        done = set()
        for t, r, dt in res:
            o = SPECS[t[:2]]
            if r is None: continue
            if r[0] == 'crash':
                rep.undecided('analysis', 'h_%s_%s' % t[:2], 'analysis error: ' + r[1].strip().splitlines()[-1], str(t)); continue
            if r[0] == 'late':
                rep.undecided('analysis', 'h_%s_%s' % t[:2], 'time limit', str(t)); continue
            rep.units += 1
            ob, vis, ob2 = r
            before = len(rep.viol), sum(rep.proved.values())
            rep.absorb(ob, lambda k: kinds(k, o), '%s.%s' % t[:2])
            if prop in ALSO: rep.absorb({k: dict(x, proved=0, undecided=[]) for k, x in ob.items()}, lambda k: ALSO[prop](k, o))
            if ob2: rep.absorb(ob2, lambda k: k in ('race', 'uaf', 'double-free', 'free-shared'), '%s.%s' % t[:2])
            for k, x in ob.items():
                if k[0] == 'analysis':
                    for y in x['undecided']: rep.undecided('analysis', k[1], y[0], y[2])
            rep.functions.update(vis)
            if len(rep.samples) < 8 and dt < 2 and sum(rep.proved.values()) > before[1] + 3:
                rep.samples.append('%s.%s from state %s: %d obligations discharged' % (t[0], t[1], t[2], sum(rep.proved.values()) - before[1]))
            if sum(rep.proved.values()) > before[1]: done.add(t[:2])
        rep.counts['operations'] = len(seenops)
        rep.counts['operations_with_discharged_obligations'] = len(done)
        rep.need('operations analysed with at least one discharged obligation', len(done), max(1, int(FLOOR.get(prop, 0.8) * len(seenops))))
FLOOR = {'C07': 0.5, 'C04': 0.5, 'C06': 0.1, 'C01': 0.4, 'C03': 0.6}
