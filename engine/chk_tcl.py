"""The Tcl interface (C23 script to C, C24 C to script, C25 commands, C26 running scripts, C27 linked variables).
Tcl values are abstract objects: a number, boolean, double, text or list; the interpreter's callbacks
(traces, commands) are driven by the stand-in in harness/h_tcl.cpp."""
import ir, models, rca, rcaops
from fx import *
from drive import drive
from chk_stream import guard

HARNESS = 'harness/h_tcl.cpp'
EXTRA = ('-I' + ir.VERIF + '/harness/stubtcl',)
TRUST = ['clang 18 front end (C++ to LLVM IR)', 'tool/irdump', 'abstract semantics in engine/core.py, lin.py, loops.py', 'model of the Tcl C API in engine/chk_tcl.py and harness/h_tcl.cpp', 'stand-in for std::unordered_map in harness/stubtcl', 'specification in engine/chk_tcl.py']
TCL_OK, TCL_ERROR = 0, 1
OBJ = 48
EVAL_GLOBAL = 0x20000

# ------------------------------------------------------------------ Tcl values
def new_tcl(st, name, what, refs=0, owned=False):
    r = Region('ext', name, K(OBJ), flags={'tcl': what})
    if owned: r.flags['script'] = True
    r.cells = {0: (4, ci(refs, 32))}
    return st.add(r)
def val(ip, st, p, what):
    """[(st, rid, description)] of a live Tcl object"""
    out = []
    if not isinstance(p, P):
        if isinstance(p, I): ip.fail(st, 'null', '%s: null object' % what); return []
        raise Unsupported('%s on %r' % (what, p))
    for s, q in ip.access(st, p, K(OBJ), False, ' (%s)' % what):
        if not isinstance(q, P): continue
        d = s.regs[q.r].flags.get('tcl')
        if d is None: raise Unsupported('%s on an unknown object' % what)
        out.append((s, q.r, d))
    return out
def text_of(ip, st, p, n, what):
    """[(st, rid)] copy of n bytes at p, NUL-terminated, in storage of its own"""
    tmp = st.add(Region('ext', 'script text', n + 1, 1, ((n, ('raw',)), (n + 1, ('val', ci(0, 8)))), flags={}))
    return [(s, tmp) for s in models.bulk(ip, st, P(tmp, ZERO), p, n, 1, what=what)]
def number(ip, st, d):
    """[(st, n)] if the value is an integer"""
    if d[0] == 'int': return [(st, d[1])]
    if d[0] == 'bool': return [(st, d[1])]
    if d[0] == 'str':
        n = decimal(ip, st, d)
        if n is not None: return [(st, n)]
        raise Unsupported('number from a text')
    return None
def decimal(ip, st, d):
    r = st.regs[d[1]]
    sg = [x for hi, x in r.arr if x[0] == 'src']
    if sg and len(sg) == 1 and st.canon(sg[0][2]) == ZERO:
        x = SRC[sg[0][1]]
        if x.get('decimal') is not None and st.store.entails_eq(x['len'] - d[2]): return x['decimal']
    return None

class MODELS(models.Models):
    def __init__(self):
        super().__init__()
        N = self.name
        def setp(ip, st, p, size, v, rv):
            if isinstance(p, I): return [(st, 'ret', ci(rv, 32))]
            return [(s, 'ret', ci(rv, 32)) for s in ip.store_(st, p, size, v, 'double' if isinstance(v, D) else 'ptr' if isinstance(v, P) else 'i%d' % (size * 8))]
        def get_int(w):
            def h(ip, st, a, ins, fn):
                out = []
                for s, r, d in val(ip, st, a[1], fn.name):
                    q = number(ip, s, d)
                    if q is None: out.append((s, 'ret', ci(TCL_ERROR, 32))); continue
                    for s1, n in q:
                        # long and wide: any magnitude below 2^64 is accepted and wraps around; int: any long of magnitude up to UINT_MAX
                        lim = 2 ** 64 - 1
                        for s2 in ip.split_ge(s1.copy(), n - lim - 1, True) + ip.split_ge(s1.copy(), -n - lim - 1, True): out.append((s2, 'ret', ci(TCL_ERROR, 32)))
                        for s2 in ip.split_ge(s1, K(lim) - n, True):
                            for s3 in ip.split_ge(s2, n + lim, True):
                                for s4, l in wrap64(ip, s3, n):
                                    if w == 64: out.extend(setp(ip, s4, a[2], 8, I(l, 64), TCL_OK)); continue
                                    u = 2 ** 32 - 1
                                    for s5 in ip.split_ge(s4.copy(), l - u - 1, True) + ip.split_ge(s4.copy(), -l - u - 1, True): out.append((s5, 'ret', ci(TCL_ERROR, 32)))
                                    for s5 in ip.split_ge(s4, K(u) - l, True):
                                        for s6 in ip.split_ge(s5, l + u, True): out.extend(setp(ip, s6, a[2], 4, I(l, 32), TCL_OK))
                return out
            return h
        def wrap64(ip, st, n):
            out = []
            for s in ip.split_ge(st.copy(), n - 2 ** 63, True): out.append((s, n - 2 ** 64))
            for s in ip.split_ge(st.copy(), -n - 2 ** 63 - 1, True): out.append((s, n + 2 ** 64))
            for s in ip.split_ge(st, K(2 ** 63 - 1) - n, True):
                for s2 in ip.split_ge(s, n + 2 ** 63, True): out.append((s2, n))
            return out
        N('Tcl_GetLongFromObj', get_int(64)); N('Tcl_GetWideIntFromObj', get_int(64)); N('Tcl_GetIntFromObj', get_int(32))
        def get_dbl(ip, st, a, ins, fn):
            out = []
            for s, r, d in val(ip, st, a[1], fn.name):
                if d[0] == 'dbl': out.extend(setp(ip, s, a[2], 8, d[1], TCL_OK)); continue
                q = number(ip, s, d)
                if q is None or d[0] == 'bool': out.append((s, 'ret', ci(TCL_ERROR, 32))); continue
                for s1, n in q: out.extend(setp(ip, s1, a[2], 8, D(n, 1, 'round'), TCL_OK))
            return out
        N('Tcl_GetDoubleFromObj', get_dbl)
        def get_bool(ip, st, a, ins, fn):
            out = []
            for s, r, d in val(ip, st, a[1], fn.name):
                if d[0] == 'dbl': out.extend(setp(ip, s, a[2], 4, ci(1, 32), TCL_OK)); continue      # a double other than zero
                q = number(ip, s, d)
                if q is None: out.append((s, 'ret', ci(TCL_ERROR, 32))); continue
                for s1, n in q:
                    for s2 in ip.split_eq(s1.copy(), n, True): out.extend(setp(ip, s2, a[2], 4, ci(0, 32), TCL_OK))
                    for s2 in ip.split_eq(s1, n, False): out.extend(setp(ip, s2, a[2], 4, ci(1, 32), TCL_OK))
            return out
        N('Tcl_GetBooleanFromObj', get_bool)
        def get_str(ip, st, a, ins, fn):
            out = []
            for s, r, d in val(ip, st, a[0], fn.name):
                t = textual(s, r, d)
                if len(a) > 1 and isinstance(a[1], P):
                    for s1 in ip.store_(s, a[1], 4, I(t[1], 32), 'i32'): out.append((s1, 'ret', P(t[0], ZERO)))
                else: out.append((s, 'ret', P(t[0], ZERO)))
            return out
        def textual(s, r, d):
            if d[0] == 'str': return d[1], d[2]
            t = s.regs[r].flags.get('rep')
            if t is None:
                n = fresh('text.len'); s.store.add_ge(n - 1); s.store.add_ge(K(400) - n)
                sid = new_src('script text of a value', 8, kind='cstr', len=n)
                t = (s.add(Region('ext', 'script text', n + 1, 1, ((n + 1, ('src', sid, ZERO)),), flags={'const': True})), n)
                s.w(r).flags['rep'] = t
            return t
        N('Tcl_GetStringFromObj', get_str); N('Tcl_GetString', get_str)
        def get_list(ip, st, a, ins, fn):
            out = []
            for s, r, d in val(ip, st, a[1], fn.name):
                if d[0] != 'list': out.append((s, 'ret', ci(TCL_ERROR, 32))); continue
                e = s.add(Region('ext', 'list elements', K(8 * len(d[1])), flags={'const': True})); s.regs[e].cells = {8 * i: (8, P(x, ZERO)) for i, x in enumerate(d[1])}
                for s1 in ip.store_(s, a[2], 4, ci(len(d[1]), 32), 'i32'):
                    for s2 in ip.store_(s1, a[3], 8, P(e, ZERO), 'ptr'): out.append((s2, 'ret', ci(TCL_OK, 32)))
            return out
        N('Tcl_ListObjGetElements', get_list)
        def get_len(ip, st, a, ins, fn):
            out = []
            for s, r, d in val(ip, st, a[1], fn.name):
                if d[0] != 'list': out.append((s, 'ret', ci(TCL_ERROR, 32)))
                else: out.extend(setp(ip, s, a[2], 4, ci(len(d[1]), 32), TCL_OK))
            return out
        N('Tcl_ListObjLength', get_len)
        def get_index(ip, st, a, ins, fn):
            out = []
            for s, r, d in val(ip, st, a[1], fn.name):
                if d[0] != 'list': out.append((s, 'ret', ci(TCL_ERROR, 32))); continue
                for s1, i in ip.ints(s, a[2], 32, True):
                    i = s1.const(i)
                    if i is None: raise Unsupported('list index')
                    out.extend(setp(ip, s1, a[3], 8, P(d[1][i], ZERO) if 0 <= i < len(d[1]) else NULL, TCL_OK))
            return out
        N('Tcl_ListObjIndex', get_index)
        # ---- creation
        def new_int(w):
            def h(ip, st, a, ins, fn):
                return [(s, 'ret', P(new_tcl(s, 'script value', ('int', n)), ZERO)) for s, n in ip.ints(st, a[0], w, True)]
            return h
        N('Tcl_NewIntObj', new_int(32)); N('Tcl_NewLongObj', new_int(64)); N('Tcl_NewWideIntObj', new_int(64))
        def new_bool(ip, st, a, ins, fn):
            out = []
            for s, n in ip.ints(st, a[0], 32, True):
                for s2 in ip.split_eq(s.copy(), n, True): out.append((s2, 'ret', P(new_tcl(s2, 'script value', ('int', ZERO)), ZERO)))
                for s2 in ip.split_eq(s, n, False): out.append((s2, 'ret', P(new_tcl(s2, 'script value', ('int', ONE)), ZERO)))
            return out
        N('Tcl_NewBooleanObj', new_bool)
        N('Tcl_NewDoubleObj', lambda ip, st, a, ins, fn: [(st, 'ret', P(new_tcl(st, 'script value', ('dbl', a[0])), ZERO))])
        def mkstr(ip, st, p, lv):
            out = []
            for s, n in ip.ints(st, lv, 32, True):
                for s1 in ip.split_ge(s.copy(), -n - 1, True):
                    for s2, m in models.cstr_len(ip, s1, p): out.extend(fill(ip, s2, p, m))
                for s1 in ip.split_ge(s, n, True): out.extend(fill(ip, s1, p, n))
            return out
        def fill(ip, st, p, n):
            return [(s, new_tcl(s, 'script text value', ('str', t, s.canon(n)))) for s, t in text_of(ip, st, p, n, 'script text')]
        N('Tcl_NewStringObj', lambda ip, st, a, ins, fn: [(s, 'ret', P(r, ZERO)) for s, r in mkstr(ip, st, a[0], a[1])])
        def new_list(ip, st, a, ins, fn):
            out = []
            if isinstance(a[1], I) and st.store.entails_eq(a[1].e): return [(st, 'ret', P(new_tcl(st, 'script list', ('list', ())), ZERO))]
            for s, n in ip.ints(st, a[0], 32, True):
                n = s.const(n)
                if n is None: raise Unsupported('list of unknown length')
                es = []
                sts = [(s, [])]
                for i in range(n):
                    nx = []
                    for s1, l in sts:
                        for s2, v in ip.load(s1, P(a[1].r, a[1].o + 8 * i), 8, 'ptr', 64):
                            for s3, r, d in val(ip, s2, v, 'list element'): nx.append((s3, l + [r]))
                    sts = nx
                for s1, l in sts: out.append((s1, 'ret', P(new_tcl(s1, 'script list', ('list', tuple(l))), ZERO)))
            return out
        N('Tcl_NewListObj', new_list)
        def append(ip, st, a, ins, fn):
            out = []
            for s, r, d in val(ip, st, a[1], fn.name):
                for s1, r2, d2 in val(ip, s, a[2], fn.name):
                    if d[0] != 'list': out.append((s1, 'ret', ci(TCL_ERROR, 32))); continue
                    s1.w(r).flags['tcl'] = ('list', d[1] + (r2,)); s1.ghost[('ts', 'list', r)] = len(d[1]) + 1; bump(ip, s1, r2)
                    out.append((s1, 'ret', ci(TCL_OK, 32)))
            return out
        N('Tcl_ListObjAppendElement', append)
        def bump(ip, s, r):
            reg = s.w(r); v = reg.cells[0][1]
            reg.cells[0] = (4, I(s.canon(v.e + 1), 32)) if isinstance(v, I) and v.src is None else (4, ci(1, 32))
        def free(ip, st, a, ins, fn):
            for s, r, d in val(ip, st, a[0], 'release of a script value'):
                reg = s.w(r)
                if reg.flags.get('script'): ip.fail(s, 'bad-free', 'releases a script value it does not own')
                else: ip.ok('bad-free')
                reg.live = False
                return [(s, 'ret', None)]
            return []
        N('TclFreeObj', free)
        def refs(d):
            def h(ip, st, a, ins, fn):
                out = []
                for s, r, x in val(ip, st, a[0], fn.name):
                    v = s.regs[r].cells[0][1]; n = s.const(v.e)
                    if n is None: raise Unsupported('reference count')
                    s.w(r).cells[0] = (4, ci(n + d, 32))
                    if d < 0 and n + d <= 0: out.extend(free(ip, s, a, ins, fn))
                    else: out.append((s, 'ret', None))
                return out
            return h
        N('Tcl_DbIncrRefCount', refs(1)); N('Tcl_DbDecrRefCount', refs(-1))
        N('Tcl_DuplicateObj', lambda ip, st, a, ins, fn: [(s, 'ret', P(new_tcl(s, 'script value', d), ZERO)) for s, r, d in val(ip, st, a[0], fn.name)])
        # ---- interpreter
        def interp(ip, st, a, ins, fn):
            return [(st, 'ret', P(st.add(Region('ext', 'interpreter', K(4096), flags={'opaque': True})), ZERO))]
        N('Tcl_CreateInterp', interp)
        N('Tcl_Init', lambda ip, st, a, ins, fn: [(st, 'ret', ci(TCL_OK, 32))])
        N('Tcl_InterpDeleted', lambda ip, st, a, ins, fn: [(st, 'ret', ci(0, 32))])
        N('v_full', lambda ip, st, a, ins, fn: (_ for _ in ()).throw(Unsupported('stand-in exhausted')))
        N('v_written', lambda ip, st, a, ins, fn: [(st, 'ret', None)])
        def set_ex(ip, st, a, ins, fn):
            out = []
            for s, r, d in val(ip, st, a[3], fn.name):
                bump(ip, s, r)
                s.ghost[('ts', 'setvar')] = r
                s.ghost[('ts', 'setvarflags')] = a[4] if len(a) > 4 else None
                out.append((s, 'ret', a[3]))
            return out
        N('Tcl_SetVar2Ex', set_ex)
        N('Tcl_ObjSetVar2', set_ex)
        def set_str(ip, st, a, ins, fn):
            out = []
            for s, r in mkstr(ip, st, a[3], ci(2 ** 32 - 1, 32)):
                s.ghost[('ts', 'setvar')] = r; out.append((s, 'ret', a[3]))
            return out
        N('Tcl_SetVar2', set_str)
        N('Tcl_SetVar', lambda ip, st, a, ins, fn: set_str(ip, st, [a[0], a[1], NULL, a[2], a[3]], ins, fn))
        def get_var(ip, st, a, ins, fn):
            v = ip.opts.get('value')
            if 'evals' in ip.opts: v = ip.opts['evals'][1]          # the error trace
            return [(st, 'ret', P(v, ZERO) if v is not None else NULL)]
        N('Tcl_ObjGetVar2', get_var); N('Tcl_GetVar2Ex', get_var)
        def get_var_str(ip, st, a, ins, fn):
            v = ip.opts.get('value')
            if v is None: return [(st, 'ret', NULL)]
            return get_str(ip, st, [P(v, ZERO)], ins, fn)
        N('Tcl_GetVar2', get_var_str); N('Tcl_GetVar', get_var_str)
        def set_result(ip, st, a, ins, fn):
            out = []
            for s, r, d in val(ip, st, a[1], fn.name):
                bump(ip, s, r); s.ghost[('ts', 'result')] = r; out.append((s, 'ret', None))
            return out
        N('Tcl_SetObjResult', set_result)
        N('Tcl_ResetResult', lambda ip, st, a, ins, fn: [(st, 'ret', None)])
        def set_res_str(ip, st, a, ins, fn):
            out = []
            for s, r in mkstr(ip, st, a[1], ci(2 ** 32 - 1, 32)): s.ghost[('ts', 'result')] = r; out.append((s, 'ret', None))
            return out
        N('Tcl_SetResult', set_res_str)
        # ---- running scripts: each run either succeeds or fails, with a result of its own; the error trace is readable afterwards
        def ran(ip, st, p, n, flags, ins, fn):
            out = []
            for s, t in text_of(ip, st, p, n, 'script'):
                k = s.ghost.get(('ts', 'evals'), ())
                ok = s.copy(); bad = s
                for s1, good in ((ok, True), (bad, False)):
                    if k and not good: continue                     # reading the error trace succeeds
                    rec = (t, s1.canon(n), flags, good)
                    s1.ghost[('ts', 'evals')] = k + (rec,)
                    s1.ghost[('ts', 'evalresult')] = ip.opts['evals'][0 if good and not k else 2 if not good else 1]
                    out.append((s1, 'ret', ci(TCL_OK if good else TCL_ERROR, 32)))
            return out
        def eval_ex(ip, st, a, ins, fn):
            out = []
            for s, n in ip.ints(st, a[2], 32, True):
                for s1 in ip.split_ge(s.copy(), -n - 1, True):
                    for s2, m in models.cstr_len(ip, s1, a[1]): out.extend(ran(ip, s2, a[1], m, a[3], ins, fn))
                for s1 in ip.split_ge(s, n, True): out.extend(ran(ip, s1, a[1], n, a[3], ins, fn))
            return out
        N('Tcl_EvalEx', eval_ex)
        N('Tcl_Eval', lambda ip, st, a, ins, fn: eval_ex(ip, st, [a[0], a[1], ci(2 ** 32 - 1, 32), ci(0, 32)], ins, fn))
        N('Tcl_GlobalEval', lambda ip, st, a, ins, fn: eval_ex(ip, st, [a[0], a[1], ci(2 ** 32 - 1, 32), ci(EVAL_GLOBAL, 32)], ins, fn))
        def eval_obj(ip, st, a, ins, fn):
            out = []
            for s, r, d in val(ip, st, a[1], fn.name):
                t = textual(s, r, d); out.extend(ran(ip, s, P(t[0], ZERO), t[1], a[2] if len(a) > 2 else ci(0, 32), ins, fn))
            return out
        N('Tcl_EvalObjEx', eval_obj); N('Tcl_EvalObj', eval_obj)
        N('Tcl_GlobalEvalObj', lambda ip, st, a, ins, fn: eval_obj(ip, st, [a[0], a[1], ci(EVAL_GLOBAL, 32)], ins, fn))
        def eval_file(ip, st, a, ins, fn):
            out = []
            for s, m in models.cstr_len(ip, st, a[1]): out.extend(ran(ip, s, a[1], m, None, ins, fn))
            return out
        N('Tcl_EvalFile', eval_file)
        def get_result(ip, st, a, ins, fn):
            r = st.ghost.get(('ts', 'evalresult'))
            if r is None: raise Unsupported('result of the interpreter')
            return [(st, 'ret', P(r, ZERO))]
        N('Tcl_GetObjResult', get_result)
        N('Tcl_GetStringResult', lambda ip, st, a, ins, fn: get_str(ip, st, [get_result(ip, st, a, ins, fn)[0][2]], ins, fn))
        # ---- formatted text
        def printf(ip, st, a, ins, fn):
            f = a[1]; fmt = None
            if isinstance(f, P):
                r = st.regs[f.r]
                if r.arr and r.arr[0][1][0] == 'src' and st.const(f.o) == 0:
                    x = SRC[r.arr[0][1][1]]
                    if x.get('vals'): fmt = bytes(v & 255 for v in x['vals']).split(b'\0')[0].decode('latin1')
            n = fresh('text.len'); st.store.add_ge(n); st.store.add_ge(K(2 ** 20) - n)
            sid = new_src('formatted text', 8, kind='cstr', len=n)
            sts = [(st, None)]
            w = {'%llu': (64, False), '%lu': (64, False), '%zu': (64, False), '%ju': (64, False), '%lld': (64, True), '%ld': (64, True), '%u': (32, False), '%d': (32, True), '%i': (32, True)}.get(fmt)
            if w: sts = [(s, e) for s, e in ip.ints(st, a[2], w[0], w[1])]
            out = []
            for s, e in sts:
                q = sid
                if e is not None: q = new_src('decimal digits', 8, kind='cstr', len=n, decimal=e); s.store.add_ge(n - 1); s.store.add_ge(K(20) - n)
                t = s.add(Region('ext', 'formatted text', n + 1, 1, ((n + 1, ('src', q, ZERO)),), flags={'const': True}))
                for s1, k, v in ip.call_fn(s, 'h_S_text', [a[0], P(t, ZERO), I(n, 64)]): out.append((s1, k, v))
            return out
        self.overrides['bd::String::printf(char const*, ...)'] = printf
        self.overrides['bd::String::cleanse()'] = lambda ip, st, a, ins, fn: [(st, 'ret', None)]      # wiping is C14's
        # ---- observers
        def hook(i):
            def h(ip, st, a, ins, fn):
                st.ghost[('ts', 'hook')] = st.ghost.get(('ts', 'hook'), ()) + (i,)
                g = ip.opts.get('hook')
                return [(s, 'ret', None) for s in (g(ip, st, i, a[0], a[1]) if g else [st])]
            return h
        N('v_hook', hook(1)); N('v_hook2', hook(2))
        def cmd(ip, st, a, ins, fn):
            sts = [(st, ())]
            for x in a:
                sts = [(s1, l + (s1.canon(e),)) for s, l in sts for s1, e in ip.ints(s, x, 64, True)]
            out = []
            for s, l in sts:
                s.ghost[('ts', 'cmd')] = s.ghost.get(('ts', 'cmd'), ()) + ((fn.name, l),)
                r = ip.opts.get('cmdret')
                out.append((s, 'ret', I(r, 64) if fn.ret != 'void' and r is not None else None))
            return out
        for x in ('v_cmd0', 'v_cmd1', 'v_cmd3', 'v_cmdv', 'v_ran'): N(x, cmd)
        def nested(ip, st, a, ins, fn):
            out = []
            for s, e in ip.ints(st, a[0], 32, True): s.ghost[('ts', 'nested')] = s.canon(e); out.append((s, 'ret', None))
            return out
        N('v_nested', nested)
        def cmds(ip, st, a, ins, fn):
            st.ghost[('ts', 'cmd')] = st.ghost.get(('ts', 'cmd'), ()) + ((fn.name, ()),)
            g = ip.opts.get('cmds')
            return [(s, 'ret', None) for s in g(ip, st, a)]
        N('v_cmds_', cmds)

# ------------------------------------------------------------------ specification helpers
INTS = {'i8': (8, True), 'u8': (8, False), 'i16': (16, True), 'u16': (16, False), 'i32': (32, True), 'u32': (32, False), 'i64': (64, True), 'u64': (64, False)}
def rng(t):
    w, s = INTS[t]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
CLASSES = {'long': (-2 ** 63, 2 ** 63 - 1), 'above long': (2 ** 63, 2 ** 64 - 1), 'below long': (-2 ** 64 + 1, -2 ** 63 - 1), 'huge': (2 ** 64, 2 ** 100), 'huge negative': (-2 ** 100, -2 ** 64)}

class Env:
    def __init__(self, f):
        self.f = f; self.ip = f.ip
        self.W = rca.World(f.mod, 'S', MODELS)
        f.ip.gcache = dict(self.W.gcache)
        self.st = f.st = self.W.state();
        g = f.ip.glob_ptr(self.st, '__libc_single_threaded') if '__libc_single_threaded' in f.mod.globals else None
        if isinstance(g, P): self.st.w(g.r).cells[0] = (1, ci(1, 8))    # how shared_ptr counts, not whether
        f.cx = rcaops.Cx(self.W, f.ip, None)
    def script(self, cls, name='value'):
        """(rid, n) a value held by the interpreter"""
        st = self.st
        if cls in CLASSES:
            lo, hi = CLASSES[cls]; n = fresh(name); st.store.add_ge(n - lo); st.store.add_ge(K(hi) - n)
            return new_tcl(st, name, ('int', n), 1, True), n
        if cls == 'bool':
            n = fresh(name); st.store.add_ge(n); st.store.add_ge(K(1) - n)
            return new_tcl(st, name, ('bool', n), 1, True), n
        if cls == 'fraction':
            d = D(None, 1, ('fraction', name)); return new_tcl(st, name, ('dbl', d), 1, True), d
        if cls == 'text': # not a number, boolean or list
            t, sid, n = self.text(name); r = new_tcl(st, name, ('nan',), 1, True); st.regs[r].flags['rep'] = (t, n)
            return r, (sid, n)
        if cls == 'str':
            t, sid, n = self.text(name); return new_tcl(st, name, ('str', t, n), 1, True), (sid, n)
    def text(self, name, hi=2 ** 31 - 1):
        st = self.st
        n = self.f.size(name + '.len', 0, hi - 1); sid = new_src(name, 8, kind='free')
        r = Region('ext', name, n + 1, 1, ((n, ('src', sid, ZERO)), (n + 1, ('val', ci(0, 8)))), flags={'const': True})
        return st.add(r), sid, n
    def outcomes(self, args, throw='throw'):
        f = self.f; ip = f.ip
        for s, k, v in ip.call_fn(self.st.copy(), f.fn, args):
            if not s.store.sat() or k == 'exit': continue
            if k == 'unw':
                if rcaops.is_oom(v): continue
                ip.fail(s, throw, 'an exception (%s) leaves the call' % models.exc_name(v)); continue
            f.outcomes += 1
            yield s, v
    def converted(self, s, t, cls, n):
        """[(state, expected)]: the C value of script integer n for type t"""
        ip = self.ip
        lo, hi = rng(t); out = []
        for s1 in ip.split_ge(s.copy(), n - hi - 1, True) + ip.split_ge(s.copy(), K(lo) - n - 1, True): out.append((s1, ZERO))
        for s1 in ip.split_ge(s, K(hi) - n, True):
            for s2 in ip.split_ge(s1, n - lo, True): out.append((s2, n))
        return out
    def expect_tcl(self, s, r, want, what, kind='content'):
        """the Tcl object r is exactly want: ('int', n) / ('dbl', D) / ('str', pieces, len)"""
        f = self.f; ip = self.ip
        if r is None: ip.fail(s, kind, '%s: no value' % what); return
        d = s.regs[r].flags['tcl']
        if want[0] == 'int':
            n = d[1] if d[0] in ('int', 'bool') else decimal(ip, s, d) if d[0] == 'str' else None
            if n is None:
                if d[0] == 'str' and any(x[0] == 'src' and SRC[x[1]].get('decimal') is not None for _, x in s.regs[d[1]].arr): raise Unsupported('part of a number')
                ip.fail(s, kind, '%s: not an integer value' % what); return
            f.same(s, kind, n, want[1], what)
        elif want[0] == 'dbl':
            if d[0] == 'dbl' and d[1] == want[1]: ip.ok(kind)
            elif d[0] == 'dbl': raise Unsupported('computed double')
            else: ip.fail(s, kind, '%s: not the double' % what)
        elif want[0] == 'str':
            if d[0] != 'str': ip.fail(s, kind, '%s: not a text' % what); return
            if not f.same(s, kind, d[2], want[2], '%s: length' % what): return
            f.seq(s, kind, d[1], ZERO, d[2], want[1], what)
        elif want[0] == 'list':
            if d[0] != 'list': ip.fail(s, kind, '%s: not a list' % what); return
            if len(d[1]) != len(want[1]): ip.fail(s, kind, '%s: %d elements, expected %d' % (what, len(d[1]), len(want[1]))); return
            ip.ok(kind)
            for i, (x, y) in enumerate(zip(d[1], want[1])): self.expect_tcl(s, x, y, '%s: element %d' % (what, i), kind)
    def string(self, kind, name, hi=2 ** 31 - 2):
        o = self.W.empty_obj(self.st, name) if kind == 'empty' else self.W.obj(self.st, name, kind)
        if kind not in ('empty', 'null'): self.st.store.add_ge(K(hi) - o.len)
        return o
    def pieces(self, o): return [(o.len, 'src', o.sid, o.off)] if o.sid is not None else []
def case(g0):
    def c(f, label): return guard(f, lambda: g0(Env(f), label))
    return c

# ------------------------------------------------------------------ C23
@case
def to_c(E, cls):
    f = E.f; ip = f.ip; t = f.fn[5:]
    r, n = E.script(cls)
    for s, v in E.outcomes([P(r, ZERO)]):
        if t in INTS:
            w, sg = INTS[t]
            if cls in CLASSES:
                for s1, want in E.converted(s, t, cls, n):
                    for s2, e in ip.ints(s1, v, w, sg): f.same(s2, 'result', e, want, 'script number converted')
            else:
                for s2, e in ip.ints(s, v, w, sg): f.same(s2, 'result', e, ZERO, 'value that is no integer')
        elif t == 'bool':
            want = n if cls == 'bool' else None
            for s2, e in ip.ints(s, v, 1, False):
                if cls == 'bool': f.same(s2, 'result', e, n, 'script boolean')
                elif cls == 'text': f.same(s2, 'result', e, ZERO, 'value that is no boolean')
                elif cls == 'fraction': f.same(s2, 'result', e, ONE, 'number other than zero')
                else:
                    for s3 in ip.split_eq(s2.copy(), n, True): f.same(s3, 'result', e, ZERO, 'zero')
                    for s3 in ip.split_eq(s2, n, False): f.same(s3, 'result', e, ONE, 'number other than zero')
        elif t == 'f64':
            if cls == 'fraction':
                if v == n: ip.ok('result')
                elif isinstance(v, D) and v.n is not None and s.const(v.n) is not None: ip.fail(s, 'result', 'a script double is not passed on')
                else: raise Unsupported('computed double')
            elif isinstance(v, D) and v.n is not None and v.d == 1:
                f.same(s, 'result', v.n, n if cls in CLASSES else ZERO, 'script number as a double')
            else: raise Unsupported('computed double')
        else: # char*
            want = s.regs[r].flags.get('rep') or s.regs[r].flags['tcl'][1:]
            if isinstance(v, P) and v.r == want[0]: f.same(s, 'content', v.o, ZERO, 'start of the text')
            else:
                d = s.regs[r].flags['tcl']
                ip.fail(s, 'content', 'not the text of the script value')
@case
def to_str(E, cls):
    f = E.f; ip = f.ip
    r, x = E.script(cls); o = E.W.raw_obj(E.st, 'result')
    for s, v in E.outcomes([P(o, ZERO), P(r, ZERO)]):
        for s1, vw in E.W.view(ip, s.copy(), o, 'result'): rcaops.seq_equal(f.cx, s1, vw['n'], vw['segs'], [(x[1], 'src', x[0], ZERO)], 'content', 'text of a script value')
@case
def to_list(E, label):
    f = E.f; ip = f.ip; st = E.st; ip.opts['unroll_sym'] = 12
    if label == 'text': r, x = E.script('text'); el = []
    else:
        el = [E.script('str', 'element %d' % i) for i in range(int(label))]
        r = new_tcl(st, 'list', ('list', tuple(x[0] for x in el)), 1, True)
    i2 = Interp(f.mod, MODELS()); (s0, k, v), = i2.call_fn(State(), 'h_list_sizeof', [])
    o = st.add(Region('obj', 'result', K(s0.const(v.e))))
    for s, v in E.outcomes([P(o, ZERO), P(r, ZERO)]):
        for s1, k, n in ip.call_fn(s, 'h_list_len', [P(o, ZERO)]):
            for s2, e in ip.ints(s1, n, 64, False):
                if not f.same(s2, 'length', e, K(len(el)), 'number of elements'): continue
                for i, (q, x) in enumerate(el):
                    for s3, k, p in ip.call_fn(s2.copy(), 'h_list_at', [P(o, ZERO), ci(i)]):
                        elem(E, s3, p, x, i)
def elem(E, s, p, x, i):
    """the String at p inside an array"""
    L = E.W.L; ip = E.ip
    base = s.const(p.o)
    if base is None: raise Unsupported('element position')
    r = s.regs[p.r]
    if r.arr is not None: raise Unsupported('array of strings')
    o = E.W.raw_obj(s, 'element %d' % i)
    s.regs[o].cells = {k - base: v for k, v in r.cells.items() if base <= k < base + L.size}
    for s1, vw in E.W.view(ip, s, o, 'element %d' % i): rcaops.seq_equal(E.f.cx, s1, vw['n'], vw['segs'], [(x[1], 'src', x[0], ZERO)], 'content', 'element of a script list')

# ------------------------------------------------------------------ C24
def c_value(E, t, name='value', const=True):
    """(argument, want) a C value of type t in storage"""
    st = E.st
    if t in INTS:
        lo, hi = rng(t); x = fresh(name); st.store.add_ge(x - lo); st.store.add_ge(K(hi) - x); w = INTS[t][0] // 8
        r = Region('ext', name, K(w), flags={'const': True} if const else {}); r.cells = {0: (w, I(x, 8 * w))}
        return st.add(r), ('int', x)
    if t == 'bool':
        x = fresh(name); st.store.add_ge(x); st.store.add_ge(K(1) - x)
        r = Region('ext', name, K(1), flags={'const': True} if const else {}); r.cells = {0: (1, I(x, 8))}
        return st.add(r), ('int', x)
    if t == 'f64':
        d = D(None, 1, ('double', name)); r = Region('ext', name, K(8), flags={'const': True} if const else {}); r.cells = {0: (8, d)}
        return st.add(r), ('dbl', d)
def interp_arg(E): return P(E.st.add(Region('ext', 'interpreter', K(4096), flags={'opaque': True})), ZERO)
@case
def from_c(E, label):
    f = E.f; ip = f.ip; t = f.fn[7:]
    if t == 'str':
        o = E.string(label, 'text'); a = o.rid; want = ('str', E.pieces(o), o.len)
    elif t == 'cstr':
        a, sid, n = f.cstr('text', f.size('text.len', 0, 2 ** 31 - 2)); want = ('str', [(n, 'src', sid, ZERO)], n)
    else: a, want = c_value(E, t)
    for s, v in E.outcomes([P(a, ZERO), interp_arg(E)]):
        for s1, r, d in val(ip, s, v, 'converted value'): E.expect_tcl(s1, r, want, 'C value as seen by a script')
@case
def from_list(E, label):
    f = E.f; ip = f.ip; ip.opts['unroll_sym'] = 12; kinds = [x for x in label.split(',') if x]
    os = [E.string(k, 'text %d' % i) for i, k in enumerate(kinds)]
    want = ('list', [('str', E.pieces(o), o.len) for o in os])
    if f.fn == 'h_from_llist': want = ('list', [want, ('list', [])])
    for s, v in E.outcomes([P(o.rid, ZERO) for o in os] + [interp_arg(E)]):
        for s1, r, d in val(ip, s, v, 'converted list'): E.expect_tcl(s1, r, want, 'list as seen by a script')
@case
def get_var(E, label):
    """a script reads a linked variable"""
    f = E.f; ip = f.ip; t = f.fn.split('_', 2)[2]
    args = []
    if t == 'str': o = E.string(label, 'variable'); a = o.rid; want = ('str', E.pieces(o), o.len)
    elif t in ('buf', 'cbuf'):
        n = f.size('text.len', 0, 2 ** 31 - 2); a, sid, n = f.cstr('variable', n, const=t == 'cbuf'); want = ('str', [(n, 'src', sid, ZERO)], n)
        if t == 'buf': args = [I(n + 1, 64)]
    else: a, want = c_value(E, t, 'variable', const=f.fn.startswith('h_getc'))
    for s, v in E.outcomes([P(a, ZERO)] + args):
        if isinstance(v, P): ip.fail(s, 'result', 'reading a linked variable fails')
        else: ip.ok('result')
        E.expect_tcl(s, s.ghost.get(('ts', 'setvar')), want, 'linked variable as seen by a script')
@case
def cmd_ret(E, label):
    """the result of a command"""
    commands(E, label)

# ------------------------------------------------------------------ C27
@case
def set_var(E, label):
    f = E.f; ip = f.ip; t = f.fn.split('_', 2)[2]; hooked = f.fn.startswith('h_seth'); ro = f.fn.startswith('h_setc')
    kind, _, cls = label.partition('/')
    st = E.st
    if t == 'buf': return set_buf(E, label)
    if t == 'str':
        o = E.string(kind, 'variable'); a = o.rid; v, x = E.script('str'); old = None
        if ro: st.w(a).flags['const'] = True
    else:
        a, old = c_value(E, t, 'variable', const=ro)
        v, x = E.script('long' if cls == 'unset' else cls)
    if cls == 'unset': v = None
    ip.opts['value'] = v
    def after(s, p, what):
        """the storage at p holds the new value"""
        if t == 'str':
            for s1, vw in E.W.view(ip, s.copy(), p.r, what): rcaops.seq_equal(f.cx, s1, vw['n'], vw['segs'], [(x[1], 'src', x[0], ZERO)], 'content', what)
        elif t == 'f64':
            for s1, y in ip.load(s.copy(), p, 8, 'double', 64):
                if y == x: ip.ok('content')
                elif isinstance(y, D) and y == old[1]: ip.fail(s1, 'content', '%s: not written' % what)
                else: raise Unsupported('computed double')
        else:
            w, sg = INTS.get(t, (8, False))
            for s1, y in ip.load(s.copy(), p, w // 8, 'i%d' % w, w):
                for s2, e in ip.ints(s1, y, w, sg):
                    if t == 'bool': f.same(s2, 'content', e, x, what)
                    else:
                        for s3, want in E.converted(s2, t, cls, x) if cls in CLASSES else [(s2, ZERO)]: f.same(s3, 'content', e, want, what)
    def before(s, p, what):
        if t == 'str':
            for s1, vw in E.W.view(ip, s.copy(), p.r, what): rcaops.seq_equal(f.cx, s1, vw['n'], vw['segs'], E.pieces(o), 'hook', what)
        elif t == 'f64':
            for s1, y in ip.load(s.copy(), p, 8, 'double', 64):
                if y == old[1]: ip.ok('hook')
                else: ip.fail(s1, 'hook', '%s: not the old value' % what)
        else:
            w, sg = INTS.get(t, (8, False))
            for s1, y in ip.load(s.copy(), p, w // 8, 'i%d' % w, w):
                for s2, e in ip.ints(s1, y, w, sg): f.same(s2, 'hook', e, old[1], what)
    def hook(ip, s, i, p, q):
        if ro: ip.fail(s, 'hook', 'the hook of a read-only variable is called'); return [s]
        if isinstance(p, P): before(s, p, 'old value given to the hook')
        else: ip.fail(s, 'hook', 'the hook gets no old value')
        if isinstance(q, P) and q.r == a: f.same(s, 'hook', q.o, ZERO, 'new value given to the hook'); after(s, q, 'new value given to the hook')
        elif isinstance(q, P): after(s, q, 'new value given to the hook')
        else: ip.fail(s, 'hook', 'the hook gets no new value')
        return [s]
    ip.opts['hook'] = hook
    for s, e in E.outcomes([P(a, ZERO)]):
        calls = s.ghost.get(('ts', 'hook'), ())
        if ro:
            if isinstance(e, P): ip.ok('result')
            else: ip.fail(s, 'result', 'writing a read-only variable is not reported')
            if calls: ip.fail(s, 'hook', 'the hook of a read-only variable is called')
            if t in INTS or t == 'bool':
                w, sg = INTS.get(t, (8, False))
                for s2, y in ip.ints(s.copy(), s.regs[a].cells[0][1], w, sg): f.same(s2, 'content', y, old[1], 'read-only variable')
            continue
        if v is None:
            if t in INTS:
                for s2, y in ip.ints(s.copy(), s.regs[a].cells[0][1], *INTS[t]): f.same(s2, 'content', y, old[1], 'variable after a failed write')
            if calls: ip.fail(s, 'hook', 'hook called without a write')
            continue
        if isinstance(e, P): ip.fail(s, 'result', 'writing a linked variable fails')
        else: ip.ok('result')
        after(s, P(a, ZERO), 'linked variable')
        want = (1,) if hooked else ()
        if calls != want: ip.fail(s, 'hook', 'hook called %d times, expected %d' % (len(calls), len(want)))
        else: ip.ok('hook')
def set_buf(E, label):
    f = E.f; ip = f.ip; st = E.st; hooked = f.fn.startswith('h_seth'); ro = f.fn.startswith('h_setc')
    v, (tsid, tn) = E.script('str'); ip.opts['value'] = v
    if ro:
        n = f.size('text.len', 0, 2 ** 31 - 2); a, sid, _ = f.cstr('variable', n, const=True)
        for s, e in E.outcomes([P(a, ZERO)]):
            if isinstance(e, P): ip.ok('result')
            else: ip.fail(s, 'result', 'writing a read-only variable is not reported')
            f.seq(s, 'content', a, ZERO, n + 1, [(n + 1, 'src', sid, ZERO)], 'read-only variable')
        return
    n = f.size('size', 0 if label == 'zero' else 1, 0 if label == 'zero' else 2 ** 40)
    a, sid = f.buf('variable', n)
    def new(s, r, lo, what):
        for s1, m in f.min(s.copy(), tn, n - 1):
            f.seq(s1, 'content', r, lo, n, [(m, 'src', tsid, ZERO), (ONE, 'c', ci(0, 8)), (n - 1 - m, 'src', sid, m + 1)], what)
    def hook(ip, s, i, p, q):
        if not isinstance(p, P): ip.fail(s, 'hook', 'the hook gets no old value'); return [s]
        f.seq(s, 'hook', p.r, p.o, n, [(n, 'src', sid, ZERO)], 'old value given to the hook')
        if not isinstance(q, P): ip.fail(s, 'hook', 'the hook gets no new value'); return [s]
        if q.r == a: f.same(s, 'hook', q.o, ZERO, 'new value given to the hook')
        if label != 'zero': new(s, q.r, q.o, 'new value given to the hook')
        return [s]
    ip.opts['hook'] = hook
    for s, e in E.outcomes([P(a, ZERO), I(n, 64)]):
        if label != 'zero': new(s, a, ZERO, 'linked C string')
        calls = s.ghost.get(('ts', 'hook'), ())
        want = (1,) if hooked else ()
        if calls != want: ip.fail(s, 'hook', 'hook called %d times, expected %d' % (len(calls), len(want)))
        else: ip.ok('hook')
@case
def link_history(E, label):
    """which storage and which hook a write reaches after several links"""
    f = E.f; ip = f.ip; st = E.st
    a, oa = c_value(E, 'i32', 'x', const=False); b, ob = c_value(E, 'i32', 'y', const=False)
    v, x = E.script('long'); ip.opts['value'] = v
    hit = f.fn != 'h_unlink'
    def hook(ip, s, i, p, q):
        if isinstance(p, P):
            for s1, y in ip.load(s.copy(), p, 4, 'i32', 32):
                for s2, e in ip.ints(s1, y, 32, True): f.same(s2, 'hook', e, ob[1], 'old value given to the hook')
        return [s]
    ip.opts['hook'] = hook
    for s, e in E.outcomes([P(a, ZERO), P(b, ZERO)]):
        def holds(r, want, what):
            for s1, y in ip.ints(s.copy(), s.regs[r].cells[0][1], 32, True): f.same(s1, 'content', y, want, what)
        holds(a, oa[1], 'variable that is not linked to the name')
        if not hit: holds(b, ob[1], 'variable of another name')
        else:
            for s0, want in E.converted(s.copy(), 'i32', 'long', x):
                for s1, y in ip.ints(s0, s0.regs[b].cells[0][1], 32, True): f.same(s1, 'content', y, want, 'linked variable')
        calls = s.ghost.get(('ts', 'hook'), ())
        if calls != ((2,) if hit else ()): ip.fail(s, 'hook', 'hooks called: %s' % (calls,))
        else: ip.ok('hook')

# ------------------------------------------------------------------ C25
def commands(E, label):
    f = E.f; ip = f.ip; st = E.st
    name = f.fn[2:]
    n = {'cmd3': 3, 'cmd3d': 3, 'cmd1': 1, 'cmd0': 0, 'cmdv': 2, 'cmds': 2}[name]
    part = label.split('/')
    objc = None if part[0] == 'many' else int(part[0])
    mn = n if name in ('cmd3d', 'cmd0') else int(part[1])
    args = []; rest = []
    nm = E.script('str', 'command name')[0]
    if objc is None:
        cnt = f.size('arguments', n + 2, 2 ** 31 - 1); r = Region('ext', 'argument vector', cnt * 8, flags={'const': True}); r.cells = {0: (8, P(nm, ZERO))}
        oc = I(cnt, 32)
        for i in range(n + 1):
            a = E.script('long', 'argument %d' % (i + 1)); args.append(a); r.cells[8 * (i + 1)] = (8, P(a[0], ZERO))
    else:
        r = Region('ext', 'argument vector', K(8 * objc), flags={'const': True}); r.cells = {0: (8, P(nm, ZERO))}; oc = ci(objc, 32)
        for i in range(objc - 1):
            a = E.script('str' if name == 'cmds' else 'long', 'argument %d' % (i + 1)); args.append(a); r.cells[8 * (i + 1)] = (8, P(a[0], ZERO))
    if name not in ('cmd3d', 'cmd0'): rest = [ci(mn)]
    rv = f.size('returned', -2 ** 63, 2 ** 63 - 1); ip.opts['cmdret'] = rv
    ok = objc is not None and mn <= objc - 1 <= n
    ret = [None]
    def cmds(ip, s, a):
        for i in range(2):
            for s1, vw in E.W.view(ip, s.copy(), a[i].r, 'argument %d' % (i + 1)):
                want = [(args[i][1][1], 'src', args[i][1][0], ZERO)] if i < len(args) else []
                rcaops.seq_equal(f.cx, s1, vw['n'], vw['segs'], want, 'args', 'argument %d' % (i + 1))
        t = s.add(Region('ext', 'returned text', rn, 1, ((rn, ('src', rsid, ZERO)),), flags={'const': True}))
        out = []
        tmp = E.W.raw_obj(s, 'returned')
        for s1, k, v in ip.call_fn(s, 'h_S_text', [P(tmp, ZERO), P(t, ZERO), I(rn, 64)]):
            if k != 'ret': continue
            s1.w(a[2].r).cells = dict(s1.regs[tmp].cells); out.append(s1)
        return out
    rn = f.size('returned.len', 0, 2 ** 31 - 2); rsid = new_src('returned text', 8, kind='free')
    ip.opts['cmds'] = cmds
    for s, v in E.outcomes([oc, P(st.add(r), ZERO)] + rest):
        calls = s.ghost.get(('ts', 'cmd'), ())
        for s1, e in ip.ints(s.copy(), v, 32, True): f.same(s1, 'result', e, K(TCL_OK if ok else TCL_ERROR), 'status of the call')
        if len(calls) != (1 if ok else 0):
            ip.fail(s, 'args', 'the command runs %d times with %s arguments (%d to %d allowed)' % (len(calls), objc - 1 if objc else 'too many', mn, n)); continue
        ip.ok('args')
        if not ok:
            if s.ghost.get(('ts', 'result')) is None: ip.fail(s, 'result', 'no error message')
            continue
        if name != 'cmds':
            got = calls[0][1]
            for i in range(n):
                want = ZERO
                sts = [(s.copy(), args[i][1])] if i < len(args) else [(s.copy(), ZERO)]
                for s1, w in sts: f.same(s1, 'args', got[i], w, 'argument %d' % (i + 1))
        if name == 'cmdv': continue
        E.expect_tcl(s, s.ghost.get(('ts', 'result')), ('str', [(rn, 'src', rsid, ZERO)], rn) if name == 'cmds' else ('int', rv), 'result of the command')
@case
def cmd_args(E, label): commands(E, label)
@case
def cmd_throw(E, label):
    f = E.f; ip = f.ip; st = E.st
    nm = E.script('str', 'command name')[0]; a = E.script('long', 'argument')
    r = Region('ext', 'argument vector', K(16), flags={'const': True}); r.cells = {0: (8, P(nm, ZERO)), 8: (8, P(a[0], ZERO))}
    args = [ci(2, 32), P(st.add(r), ZERO)]
    if f.fn == 'h_throw_string': o = E.string(label, 'message'); args.append(P(o.rid, ZERO))
    for s, v in E.outcomes(args, 'escape'):
        ip.ok('escape')
        for s1, e in ip.ints(s.copy(), v, 32, True): f.same(s1, 'result', e, K(TCL_ERROR), 'status of a command that throws')
        res = s.ghost.get(('ts', 'result'))
        if f.fn == 'h_throw_string': E.expect_tcl(s, res, ('str', E.pieces(o), o.len), 'error message')
        elif res is None: ip.fail(s, 'result', 'no error message')
        calls = s.ghost.get(('ts', 'cmd'), ())
        if len(calls) != 1: ip.fail(s, 'args', 'command ran %d times' % len(calls))
        else: f.same(s, 'args', calls[0][1][0], a[1], 'argument')
@case
def cmd_history(E, label):
    f = E.f; ip = f.ip; st = E.st
    nm = E.script('str', 'command name')[0]; a = E.script('long', 'argument')
    r = Region('ext', 'argument vector', K(16), flags={'const': True}); r.cells = {0: (8, P(nm, ZERO)), 8: (8, P(a[0], ZERO))}
    rv = f.size('returned', -2 ** 63, 2 ** 63 - 1); ip.opts['cmdret'] = rv
    runs, status = {'h_del_self': (1, 0), 'h_del_self2': (1, -2), 'h_repl_self': (1, 0), 'h_deleted': (0, -2), 'h_deleted_other': (1, 0), 'h_replaced': (1, 0), 'h_script_deleted': (0, -2), 'h_d_nested': (1, 0), 'h_r_nested': (2, 0), 'h_n_nested': (2, 0)}[f.fn]
    for s, v in E.outcomes([ci(2, 32), P(st.add(r), ZERO)], 'escape'):
        calls = s.ghost.get(('ts', 'cmd'), ())
        if len(calls) != runs or any(c[0] != 'v_cmd1' for c in calls): ip.fail(s, 'args', 'command ran %d times, expected %d' % (len(calls), runs)); continue
        ip.ok('args')
        if runs: f.same(s, 'args', calls[0][1][0], a[1], 'argument')
        if f.fn.endswith('_nested'): f.same(s, 'result', s.ghost[('ts', 'nested')], K(-2 if f.fn == 'h_d_nested' else 0), 'status of the call made while the command runs')
        for s1, e in ip.ints(s.copy(), v, 32, True): f.same(s1, 'result', e, K(status), 'status of the call')
        if f.fn != 'h_del_self2' and runs: E.expect_tcl(s, s.ghost.get(('ts', 'result')), ('int', rv), 'result of the command')

# ------------------------------------------------------------------ C26
def results(E):
    """what the interpreter answers: result, error trace, error message"""
    rs = [E.script('str', x) for x in ('result', 'error trace', 'error message')]
    E.ip.opts['evals'] = [x[0] for x in rs]
    return [[(x[1][1], 'src', x[1][0], ZERO)] for x in rs]
@case
def run_script(E, label):
    f = E.f; ip = f.ip
    o = E.string(label, 'script'); out = E.W.raw_obj(E.st, 'returned'); want = results(E)
    for s, v in E.outcomes([P(out, ZERO), P(o.rid, ZERO)]):
        ev = s.ghost.get(('ts', 'evals'), ())
        if not ev: ip.fail(s, 'args', 'the script is not run'); continue
        t, n, flags, good = ev[0]
        if f.same(s.copy(), 'args', n, o.len, 'length of the script that is run'):
            f.seq(s.copy(), 'args', t, ZERO, n, E.pieces(o), 'script that is run')
        fl = s.const(flags.e) if isinstance(flags, I) else None
        if fl is None: raise Unsupported('flags of a script')
        if fl & EVAL_GLOBAL: ip.ok('args')
        else: ip.fail(s, 'args', 'the script does not run in the global scope')
        if good and len(ev) > 1: ip.fail(s, 'args', 'something else is run after a script that succeeded')
        for s1, vw in E.W.view(ip, s.copy(), out, 'returned'): rcaops.seq_equal(f.cx, s1, vw['n'], vw['segs'], want[0 if good else 1], 'content', 'returned text' if good else 'error trace')
@case
def load_script(E, label):
    f = E.f; st = E.st
    n = f.size('stem', 0, 2 ** 20); sid = new_src('file name', 8, kind='free'); SRC[sid]['nonul'] = True
    tail = b'.tcl'; i = int(label[6:]) if label.startswith('other') else None
    if label == 'short':
        st.store.add_ge(K(3) - n); return load_case(E, n, [(n, ('src', sid, ZERO))], [(n, 'src', sid, ZERO)], False)
    if label == 'inner':   # .tcl and one more character
        E.ip.opts['unroll_sym'] = 12
        x = f.size('character', 1, 255); v = I(x, 8); cs = [ci(c, 8) for c in tail] + [v]
        return load_case(E, K(5), [(K(j + 1), ('val', c)) for j, c in enumerate(cs)], [(ONE, 'c', c) for c in cs], False)
    st0 = E.st
    for lo, hi in ((None, None),) if i is None else ((1, tail[i] - 1), (tail[i] + 1, 255)):    # character i of the suffix is another one
        st = st0.copy(); E.st = f.st = st
        x = None
        if i is not None: x = fresh('character'); st.store.add_ge(x - lo); st.store.add_ge(K(hi) - x)
        segs = [(n, ('src', sid, ZERO))]; pieces = [(n, 'src', sid, ZERO)]
        for j in range(4):
            v = I(x, 8) if j == i else ci(tail[j], 8); segs.append((n + j + 1, ('val', v))); pieces.append((ONE, 'c', v))
        load_case(E, n + 4, segs, pieces, i is None, label == 'script in a longer text')
def load_case(E, total, segs, pieces, ends, part=False):
    f = E.f; ip = f.ip
    codes = {}
    for x in ('ok', 'error', 'wrong'):
        i2 = Interp(f.mod, MODELS()); (s0, k, v), = i2.call_fn(State(), 'h_load_' + x, []); codes[x] = s0.const(v.e)
    txt = E.st.add(Region('ext', 'file name', total, 1, tuple(segs), flags={'const': True}))
    name = E.W.raw_obj(E.st, 'file'); o = E.string('own', 'message'); want = results(E)
    if part:
        whole = E.W.raw_obj(E.st, 'longer text'); E.st.w(txt).arr = tuple(segs) + ((total + 1, ('val', ci(120, 8))),); E.st.w(txt).size = total + 1
        sts = [s2 for s, k, v in ip.call_fn(E.st, 'h_S_text', [P(whole, ZERO), P(txt, ZERO), I(total + 1, 64)]) if k == 'ret' for s2, k2, v2 in ip.call_fn(s, 'h_S_front', [P(name, ZERO), P(whole, ZERO), I(total, 64)]) if k2 == 'ret']
    else: sts = [s for s, k, v in ip.call_fn(E.st, 'h_S_text', [P(name, ZERO), P(txt, ZERO), I(total, 64)]) if k == 'ret']
    for st in sts:
        E.st = f.st = st
        for s, v in E.outcomes([P(name, ZERO), P(o.rid, ZERO)]):
            ev = s.ghost.get(('ts', 'evals'), ())
            code = codes['wrong'] if not ends else codes['ok'] if ev and ev[0][3] else codes['error']
            for s1, e in ip.ints(s.copy(), v, 32, True): f.same(s1, 'result', e, K(code), 'result of loading %s' % ('a script' if ends else 'a file that is no script'))
            if len(ev) != (1 if ends else 0): ip.fail(s, 'args', '%d files are run' % len(ev)); continue
            ip.ok('args')
            if ends:
                if f.same(s.copy(), 'args', ev[0][1], total, 'length of the file name'): f.seq(s.copy(), 'args', ev[0][0], ZERO, total, pieces, 'file that is run')
                if not ev[0][3]:
                    for s1, vw in E.W.view(ip, s.copy(), o.rid, 'message'): rcaops.seq_equal(f.cx, s1, vw['n'], vw['segs'], want[2], 'content', 'error message')

# ------------------------------------------------------------------ cases
def cases(prop, tier):
    out = []
    add = lambda fn, ls, g: out.extend(('full', 'h_' + fn, l, g) for l in ls)
    if prop == 'C23':
        for t in INTS: add('to_' + t, list(CLASSES) + ['fraction', 'text'], to_c)
        add('to_bool', ('bool', 'long', 'above long', 'huge', 'fraction', 'text'), to_c)
        add('to_f64', ('long', 'above long', 'huge', 'fraction', 'text'), to_c)
        add('to_cstr', ('str', 'text'), to_c); add('to_ccstr', ('str', 'text'), to_c)
        add('to_str', ('str', 'text'), to_str)
        add('to_list', ('text', '0', '1', '2', '3'), to_list)
    if prop == 'C24':
        for t in list(INTS) + ['f64', 'bool', 'cstr']: add('from_' + t, ('any',), from_c)
        add('from_str', ('null', 'empty', 'own', 'shared'), from_c)
        add('from_list0', ('',), from_list); add('from_list1', ('own', 'shared', 'null'), from_list); add('from_list3', ('own,shared,own', 'shared,null,own'), from_list); add('from_llist', ('own,shared',), from_list)
        for t in list(INTS) + ['f64', 'bool']: add('get_' + t, ('any',), get_var); add('getc_' + t, ('any',), get_var)
        for x in ('get_', 'getc_'): add(x + 'str', ('null', 'empty', 'own', 'shared'), get_var)
        add('get_buf', ('any',), get_var); add('get_cbuf', ('any',), get_var)
        add('cmd3', ('4/3',), cmd_ret); add('cmds', ('3/2',), cmd_ret)
    if prop == 'C25':
        add('cmd3', ['%s/%d' % (c, m) for m in range(4) for c in (1, 2, 3, 4, 5, 'many')], cmd_args)
        add('cmd3d', ('1', '2', '3', '4', '5', 'many'), cmd_args)
        add('cmd1', ['%s/%d' % (c, m) for m in (0, 1) for c in (1, 2, 3, 'many')], cmd_args)
        add('cmd0', ('1', '2', 'many'), cmd_args)
        add('cmdv', ['%s/%d' % (c, m) for m in (0, 1, 2) for c in (1, 2, 3, 4)], cmd_args)
        add('cmds', ['%s/%d' % (c, m) for m in (0, 1, 2) for c in (1, 2, 3, 4)], cmd_args)
        add('throw_string', ('null', 'own', 'shared'), cmd_throw)
        for x in ('int', 'std', 'cstr'): add('throw_' + x, ('any',), cmd_throw)
        for x in ('del_self', 'del_self2', 'repl_self', 'deleted', 'deleted_other', 'replaced', 'script_deleted', 'd_nested', 'r_nested', 'n_nested'): add(x, ('any',), cmd_history)
    if prop == 'C26':
        add('eval', ('null', 'empty', 'own', 'shared'), run_script)
        add('load', ('script', 'script in a longer text', 'inner', 'short', 'other 0', 'other 1', 'other 2', 'other 3'), load_script)
    if prop == 'C27':
        for x in ('set_', 'seth_', 'setc_'):
            for t in INTS: add(x + t, ('any/long', 'any/text') if x == 'set_' else ('any/long',), set_var)
            add(x + 'f64', ('any/fraction',), set_var); add(x + 'bool', ('any/bool',), set_var)
            add(x + 'str', ('null/str', 'empty/str', 'own/str', 'shared/str'), set_var)
            add(x + 'buf', ('any',) if x == 'setc_' else ('zero', 'sized'), set_var)
        add('set_i32', ('any/unset',), set_var); add('seth_i32', ('any/unset',), set_var); add('seth_i64', ('any/above long',), set_var)
        for x in ('relink', 'unlink', 'unlink_other', 'two', 'again'): add(x, ('any',), link_history)
    return out
def load(cfg): return ir.load(HARNESS, cfg, extra=EXTRA)
MEM = {'bounds', 'bounds-r', 'bounds-w', 'null', 'uaf', 'double-free', 'bad-free', 'invalid', 'overlap', 'throw', 'terminate'}
KINDS = {'C23': {'result', 'content', 'length'} | MEM, 'C24': {'result', 'content', 'args'} | MEM,
         'C26': {'result', 'content', 'args'} | MEM,
         'C25': {'result', 'content', 'args', 'escape', 'terminate'} | MEM, 'C27': {'result', 'content', 'hook', 'const-write'} | MEM}
def run(rep, prop, tier):
    mods = {'full': load('full')}
    drive(rep, mods, cases(prop, tier), lambda k: k in KINDS[prop], tier, M=MODELS, seconds=60, second=False)
