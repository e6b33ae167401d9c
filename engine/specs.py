"""Specifications of the String/Array operations, over the abstract sequences of
their operands.

A specification is a function spec(cx, s) yielding (s', exp): the cases of the
documented behaviour.  exp maps
  'throw'            -> the operation must report std::out_of_range (and change nothing)
  'a', 'b', 'r'      -> expected content as a list of pieces, or 'valid'
  'ret'              -> expected result
Objects that are not mentioned must keep their contents.
pieces: (n, kind, ...) with kind 'src' sid start | 'rep' sid idx | 'any' | 'c' value
"""
from core import *
from lin import K, ZERO, ONE, fresh

SPECS = {}
class Op:
    def __init__(self, name, pres, params, spec, pre=None, tags=(), bkinds=None, akinds=None):
        self.name = name; self.pres = pres; self.params = params.split(); self.spec = spec
        self.pre = pre; self.tags = set(tags); self.bkinds = bkinds; self.akinds = akinds

def op(names, params, pres=('S', 'AI', 'AE'), pre=None, tags=(), bkinds=None, akinds=None):
    def deco(f):
        for n in names.split():
            for p in pres:
                SPECS[(p, n)] = Op(n, pres, params, f, pre, tags, bkinds, akinds)
        return f
    return deco
ALL = ('S', 'AI', 'AE'); STR = ('S',); ARR = ('AI', 'AE'); AEO = ('AE',)

def A(cx, lo=None, hi=None): return cx.piece('a', lo, hi)
def B(cx, lo=None, hi=None): return cx.piece('b', lo, hi)

# ---- construction
@op('ctor_default', 'r')
def _(cx, s): yield s, {'r': []}
@op('ctor_copy', 'r b')
def _(cx, s): yield s, {'r': [B(cx)]}
@op('ctor_move', 'r bm', tags=('move',))
def _(cx, s): yield s, {'r': [B(cx)], 'b': []}
@op('ctor_size', 'r n')
def _(cx, s): yield s, {'r': [], 'cap': ('r', cx.n[0])}
@op('ctor_fill', 'r n v')
def _(cx, s): yield s, {'r': [(cx.n[0],) + cx.rep('v')]}
@op('ctor_ptr', 'r p')
def _(cx, s): yield s, {'r': [cx.ptr('p')]}
@op('ctor_il', 'r il')
def _(cx, s): yield s, {'r': [cx.ptr('p')]}
@op('ctor_range', 'r pe')
def _(cx, s): yield s, {'r': [cx.ptr('p')]}
@op('dtor', 'a', tags=('dtor',))
def _(cx, s): yield s, {'dead': ('a',)}
# ---- assignment
@op('assign_copy', 'a b')
def _(cx, s): yield s, {'a': [B(cx)]}
@op('assign_move', 'a bm', tags=('move', 'selfok'))
def _(cx, s):
    if cx.same: yield s, {}
    else: yield s, {'a': [B(cx)], 'b': []}
@op('assign_il', 'a il')
def _(cx, s): yield s, {'a': [cx.ptr('p')]}
@op('swap', 'a bm', tags=('move', 'selfok'))
def _(cx, s):
    if cx.same: yield s, {}
    else: yield s, {'a': [B(cx)], 'b': [A(cx)]}
# ---- size
@op('reserve', 'a n')
def _(cx, s): yield s, {'cap': ('a', cx.n[0])}
@op('clear', 'a')
def _(cx, s): yield s, {'a': []}
@op('resize', 'a n')
def _(cx, s):
    n = cx.n[0]; l = cx.len('a')
    for s1, c in cx.cases(s, l - 1 - n):
        if c == 0: yield s1, {'a': [A(cx, ZERO, n)]}
        else: yield s1, {'a': [A(cx), (n - l, 'any')]}
@op('resize_fill', 'a n v')
def _(cx, s):
    n = cx.n[0]; l = cx.len('a')
    for s1, c in cx.cases(s, l - 1 - n):
        if c == 0: yield s1, {'a': [A(cx, ZERO, n)]}
        else: yield s1, {'a': [A(cx), (n - l,) + cx.rep('v')]}
# ---- observers
@op('length size', 'ac')
def _(cx, s): yield s, {'ret': ('int', cx.len('a'))}
@op('isEmpty not', 'ac')
def _(cx, s): yield s, {'ret': ('cond', -cx.len('a'))}
@op('bool', 'ac')
def _(cx, s): yield s, {'ret': ('cond', cx.len('a') - 1)}
@op('capacity rcount isShared', 'ac')
def _(cx, s): yield s, {}
@op('data cbegin begin_const crend', 'ac')
def _(cx, s): yield s, {'ret': ('ptr', 'a', ZERO, False)}
@op('cend end_const crbegin', 'ac')
def _(cx, s): yield s, {'ret': ('ptr', 'a', cx.len('a'), False)}
@op('mdata begin rend', 'a', tags=('mut',))
def _(cx, s): yield s, {'ret': ('ptr', 'a', ZERO, True)}
@op('end rbegin', 'a', tags=('mut',))
def _(cx, s): yield s, {'ret': ('ptr', 'a', cx.len('a'), True)}
# ---- element access
def pre_pos(cx, s): return [cx.len('a') - 1 - cx.n[0]]
def pre_nonempty(cx, s): return [cx.len('a') - 1]
@op('read_const index_const', 'ac n', pre=pre_pos)
def _(cx, s): yield s, {'ret': ('ptr', 'a', cx.n[0], False)}
@op('cref_mget', 'a n', pre=pre_pos, tags=('mut',))
def _(cx, s): yield s, {'ret': ('ptr', 'a', cx.n[0], True)}
@op('read cref_get', 'a n', pre=pre_pos)
def _(cx, s): yield s, {'ret': ('ptr', 'a', cx.n[0], False)}
@op('read_mut', 'a n', pre=pre_pos, tags=('mut',))
def _(cx, s): yield s, {'ret': ('ptr0', 'a', cx.n[0], True)}
@op('at', 'ac n', tags=('range',))
def _(cx, s):
    for s1, c in cx.cases(s, cx.len('a') - 1 - cx.n[0]):
        if c == 0: yield s1, {'ret': ('ptr', 'a', cx.n[0], False)}
        else: yield s1, {'throw': True}
@op('charAt', 'ac n', pres=STR, tags=('range',))
def _(cx, s):
    for s1, c in cx.cases(s, cx.len('a') - 1 - cx.n[0]):
        if c == 0: yield s1, {'ret': ('elem', 'a', cx.n[0])}
        else: yield s1, {'throw': True}
@op('front_const', 'ac', pre=pre_nonempty)
def _(cx, s): yield s, {'ret': ('ptr', 'a', ZERO, False)}
@op('back_const', 'ac', pre=pre_nonempty)
def _(cx, s): yield s, {'ret': ('ptr', 'a', cx.len('a') - 1, False)}
@op('front', 'a', pre=pre_nonempty, tags=('mut',))
def _(cx, s): yield s, {'ret': ('ptr', 'a', ZERO, True)}
@op('back', 'a', pre=pre_nonempty, tags=('mut',))
def _(cx, s): yield s, {'ret': ('ptr', 'a', cx.len('a') - 1, True)}
@op('write cref_set', 'a n v', pre=pre_pos)
@op('write_move cref_set_move', 'a n vm', pre=pre_pos)
def _(cx, s):
    p = cx.n[0]; l = cx.len('a')
    yield s, {'a': [A(cx, ZERO, p), cx.one('v'), A(cx, p + 1, l)]}
def pre_cc(cx, s): return [cx.len('a') - 1 - cx.n[0], cx.len('b') - 1 - cx.n[1]]
@op('cref_copy', 'a n b n', pre=pre_cc)
def _(cx, s):
    p = cx.n[0]; q = cx.n[1]; l = cx.len('a')
    yield s, {'a': [A(cx, ZERO, p), B(cx, q, q + 1), A(cx, p + 1, l)]}
# ---- windows
def window(cx, s, n, st, ln):
    """[(s, lo, count)] of the documented clamped window"""
    for s1, c in cx.cases(s, st - n, st, st + n):
        if c == 0: yield s1, n, ZERO; continue
        lo = st if c == 1 else (n + st if c == 2 else ZERO)
        for s2 in cx.ip.split_eq(s1.copy(), ln + 1, True): yield s2, lo, n - lo
        for s2 in cx.ip.split_eq(s1, ln + 1, False):
            for s3, d in cx.cases(s2, lo + ln - n, ln, n - lo + ln):
                if d == 0: yield s3, lo, n - lo
                elif d == 1: yield s3, lo, ln
                elif d == 2: yield s3, lo, n - lo + ln
                else: yield s3, lo, ZERO
@op('slice', 'a sn sn', tags=('window',))
def _(cx, s):
    for s1, lo, k in window(cx, s, cx.len('a'), cx.n[0], cx.n[1]): yield s1, {'a': [A(cx, lo, lo + k)]}
@op('call_const', 'r ac sn sn', tags=('window',))
@op('slice_get slice_conv', 'r a sn sn', tags=('window',))
@op('substring', 'r ac sn sn', pres=STR, tags=('window',))
@op('subarray', 'r ac sn sn', pres=ARR, tags=('window',))
def _(cx, s):
    for s1, lo, k in window(cx, s, cx.len('a'), cx.n[0], cx.n[1]): yield s1, {'r': [A(cx, lo, lo + k)]}
# ---- insertion
def ins(cx, s, pos, pieces, n):
    """insert n elements (pieces) at pos, or report a bad position"""
    l = cx.len('a')
    for s1, c in cx.cases(s, l - pos):
        if c == 0: yield s1, {'a': [A(cx, ZERO, pos)] + pieces + [A(cx, pos, l)]}
        else: yield s1, {'throw': True}
@op('insert_item', 'a n v', tags=('range',))
@op('insert_item_move', 'a n vm', tags=('range',))
def _(cx, s): yield from ins(cx, s, cx.n[0], [cx.one('v')], ONE)
def pre_itpos(cx, s): return [cx.len('a') - cx.n[0]]
@op('insert_it', 'a n v', pre=pre_itpos, tags=('mut',))
@op('insert_it_move', 'a n vm', pre=pre_itpos, tags=('mut',))
def _(cx, s):
    for s1, e in ins(cx, s, cx.n[0], [cx.one('v')], ONE):
        e['ret'] = ('ptr', 'a', cx.n[0], True); yield s1, e
@op('insert_range', 'a n pe', pre=pre_itpos, tags=('mut',))
def _(cx, s):
    for s1, e in ins(cx, s, cx.n[0], [cx.ptr('p')], ONE):
        e['ret'] = ('ptr', 'a', cx.n[0], True); yield s1, e
@op('append_item push_back', 'a v')
@op('append_item_move push_back_move', 'a vm')
@op('shl pluseq_item', 'a v', pres=ARR)
@op('shl_move', 'a vm', pres=ARR)
def _(cx, s): yield s, {'a': [A(cx), cx.one('v')]}
@op('push_front', 'a v', pres=ARR)
@op('push_front_move', 'a vm', pres=ARR)
def _(cx, s): yield s, {'a': [cx.one('v'), A(cx)]}
@op('insert', 'a n b', tags=('range',))
def _(cx, s): yield from ins(cx, s, cx.n[0], [B(cx)], cx.len('b'))
@op('insert_move', 'a n bm', tags=('range',))
def _(cx, s):
    for s1, e in ins(cx, s, cx.n[0], [B(cx)], cx.len('b')):
        if not e.get('throw'): e['b'] = 'valid'
        yield s1, e
def clampn(cx, s, n, m):
    """[(s, min(n, m))]"""
    for s1, c in cx.cases(s, m - n): yield s1, (n if c == 0 else m)
def insn(cx, s, mv):
    p, n = cx.n[0], cx.n[1]
    for s1 in cx.ip.split_eq(s.copy(), n, True): yield s1, {'maythrow': True}
    for s1 in cx.ip.split_ge(s, n - 1, True):
        for s2, k in clampn(cx, s1, n, cx.len('b')):
            for s3, e in ins(cx, s2, p, [B(cx, ZERO, k)], k):
                if mv and not e.get('throw'): e['b'] = 'valid'
                yield s3, e
@op('insert_n', 'a n b n', tags=('range',))
def _(cx, s): yield from insn(cx, s, False)
@op('insert_move_n', 'a n bm n', tags=('range',))
def _(cx, s): yield from insn(cx, s, True)
@op('append', 'a b')
@op('pluseq', 'a b')
def _(cx, s): yield s, {'a': [A(cx), B(cx)]}
@op('append_move', 'a bm')
@op('pluseq_move', 'a bm')
def _(cx, s): yield s, {'a': [A(cx), B(cx)], 'b': 'valid'}
@op('append_n', 'a b n')
def _(cx, s):
    for s1, k in clampn(cx, s, cx.n[0], cx.len('b')): yield s1, {'a': [A(cx), B(cx, ZERO, k)]}
@op('append_move_n', 'a bm n')
def _(cx, s):
    for s1, k in clampn(cx, s, cx.n[0], cx.len('b')): yield s1, {'a': [A(cx), B(cx, ZERO, k)], 'b': 'valid'}
# ---- replacement
def repl(cx, s, pos, piece_fn, k):
    l = cx.len('a')
    for s1, c in cx.cases(s, l - pos):
        if c: yield s1, {'throw': True}; continue
        for s2, d in cx.cases(s1, l - pos - k):
            yield s2, {'a': [A(cx, ZERO, pos), piece_fn(k)] + ([A(cx, pos + k, l)] if d == 0 else [])}
@op('replace_item', 'a n v', tags=('range',))
@op('replace_item_move', 'a n vm', tags=('range',))
def _(cx, s):
    p = cx.n[0]; l = cx.len('a')
    for s1, c in cx.cases(s, l - 1 - p, l - p):
        if c == 0: yield s1, {'a': [A(cx, ZERO, p), cx.one('v'), A(cx, p + 1, l)]}
        elif c == 1: yield s1, {'a': 'prefix'}
        else: yield s1, {'throw': True}
@op('replace', 'a n b', tags=('range',))
def _(cx, s): yield from repl(cx, s, cx.n[0], lambda k: B(cx, ZERO, k), cx.len('b'))
@op('replace_move', 'a n bm', tags=('range',))
def _(cx, s):
    for s1, e in repl(cx, s, cx.n[0], lambda k: B(cx, ZERO, k), cx.len('b')):
        if not e.get('throw'): e['b'] = 'valid'
        yield s1, e
def repln(cx, s, p, n, mv):
    for s1 in cx.ip.split_eq(s.copy(), n, True): yield s1, {'maythrow': True}
    for s1 in cx.ip.split_ge(s, n - 1, True):
        for s2, k in clampn(cx, s1, n, cx.len('b')):
            for s3, e in repl(cx, s2, p, lambda k2: B(cx, ZERO, k2), k):
                if mv and not e.get('throw'): e['b'] = 'valid'
                yield s3, e
@op('replace_n', 'a n b n', tags=('range',))
def _(cx, s): yield from repln(cx, s, cx.n[0], cx.n[1], False)
@op('replace_move_n', 'a n bm n', tags=('range',))
def _(cx, s): yield from repln(cx, s, cx.n[0], cx.n[1], True)
def pre_slset(cx, s): return [cx.n[0], cx.n[1] + 1]
def slset(cx, s, mv):
    st, ln = cx.n[0], cx.n[1]
    for s1 in cx.ip.split_eq(s.copy(), ln + 1, True):
        for s2, e in repl(cx, s1, st, lambda k: B(cx, ZERO, k), cx.len('b')):
            if mv and not e.get('throw'): e['b'] = 'valid'
            yield s2, e
    for s1 in cx.ip.split_ge(s, ln, True): yield from repln(cx, s1, st, ln, mv)
@op('slice_set', 'a sn sn b', pre=pre_slset)
def _(cx, s): yield from slset(cx, s, False)
@op('slice_set_move', 'a sn sn bm', pre=pre_slset)
def _(cx, s): yield from slset(cx, s, True)
def pre_slsl(cx, s): return [cx.n[0], cx.n[1] + 1, cx.n[2], cx.len('b') - cx.n[2], cx.n[3], cx.len('b') - cx.n[2] - cx.n[3]]
@op('slice_set_slice', 'a sn sn b sn sn', pre=pre_slsl)
def _(cx, s):
    st, ln, s2_, l2 = cx.n
    def go(s, k):
        yield from repl(cx, s, st, lambda k2: B(cx, s2_, s2_ + k2), k)
    for s1 in cx.ip.split_eq(s.copy(), ln + 1, True): yield from go(s1, l2)
    for s1 in cx.ip.split_eq(s.copy(), ln, True): yield s1, {'maythrow': True}
    for s1 in cx.ip.split_ge(s, ln - 1, True):
        for s2, k in clampn(cx, s1, ln, l2): yield from go(s2, k)
# ---- removal
@op('pop_back', 'a', pre=pre_nonempty)
@op('predec', 'a', pre=pre_nonempty)
def _(cx, s): yield s, {'a': [A(cx, ZERO, cx.len('a') - 1)]}
@op('shift', 'rv a', pres=ARR, pre=pre_nonempty)
def _(cx, s): yield s, {'rv': A(cx, ZERO, ONE), 'a': [A(cx, ONE, cx.len('a'))]}
@op('pop', 'rv a', pres=ARR, pre=pre_nonempty)
def _(cx, s):
    l = cx.len('a'); yield s, {'rv': A(cx, l - 1, l), 'a': [A(cx, ZERO, l - 1)]}
@op('shift_rv', 'rv a', pres=ARR, pre=pre_nonempty)
def _(cx, s): yield s, {'rv': A(cx, ZERO, ONE), 'a': 'valid'}
@op('pop_rv', 'rv a', pres=ARR, pre=pre_nonempty)
def _(cx, s):
    l = cx.len('a'); yield s, {'rv': A(cx, l - 1, l), 'a': 'valid'}
@op('shr', 'a vo', pres=ARR, pre=pre_nonempty)
def _(cx, s):
    l = cx.len('a'); yield s, {'v': A(cx, l - 1, l), 'a': [A(cx, ZERO, l - 1)]}
@op('postinc', 'r a', pres=STR, pre=pre_nonempty)
def _(cx, s): yield s, {'r': [A(cx)], 'a': [A(cx, ONE, cx.len('a'))]}
@op('postinc', 'r a', pres=ARR, pre=pre_nonempty)
def _(cx, s): yield s, {'r': [A(cx, ZERO, ONE)], 'a': [A(cx, ONE, cx.len('a'))]}
@op('postdec', 'r a', pres=STR, pre=pre_nonempty)
def _(cx, s): yield s, {'r': [A(cx)], 'a': [A(cx, ZERO, cx.len('a') - 1)]}
@op('postdec', 'r a', pres=ARR, pre=pre_nonempty)
def _(cx, s):
    l = cx.len('a'); yield s, {'r': [A(cx, l - 1, l)], 'a': [A(cx, ZERO, l - 1)]}
def adv(cx, s, n, front):
    l = cx.len('a')
    for s1, c in cx.cases(s, l - n):
        if c == 0: yield s1, {'a': [A(cx, n, l) if front else A(cx, ZERO, l - n)]}
        else: yield s1, {'a': []}
@op('advance', 'a n', pres=STR)
def _(cx, s): yield from adv(cx, s, cx.n[0], True)
@op('retreat', 'a n', pres=STR)
def _(cx, s): yield from adv(cx, s, cx.n[0], False)
def pre_nn(cx, s): return [cx.n[0]]
@op('advance', 'a i', pres=AEO, pre=pre_nn)
def _(cx, s): yield from adv(cx, s, cx.n[0], True)
@op('retreat', 'a i', pres=AEO, pre=pre_nn)
def _(cx, s): yield from adv(cx, s, cx.n[0], False)
@op('preinc', 'a')
def _(cx, s): yield from adv(cx, s, ONE, True)
@op('plus', 'r ac b')
def _(cx, s): yield s, {'r': [A(cx), B(cx)]}
# ---- String
@op('ctor_cstr', 'r cs', pres=STR)
def _(cx, s): yield s, {'r': [cx.ptr('p')]}
@op('ctor_char', 'r c', pres=STR)
def _(cx, s): yield s, {'r': [(ONE, 'c', cx.c)]}
@op('ctor_stdstring', 'r ss', pres=STR)
def _(cx, s): yield s, {'r': [cx.sstr(s)]}
@op('assign_cstr', 'a cs', pres=STR)
def _(cx, s): yield s, {'a': [cx.ptr('p')]}
@op('assign_stdstring', 'a ss', pres=STR)
def _(cx, s): yield s, {'a': [cx.sstr(s)]}
@op('c_str star', 'ac', pres=STR, tags=('cstr',))
def _(cx, s): yield s, {'ret': ('cstr', 'a')}
@op('dup', 'ac', pres=STR)
def _(cx, s): yield s, {'ret': ('dup', 'a')}
@op('to_stdstring', 'sso ac', pres=STR)
def _(cx, s): yield s, {'ret': ('sstr', 'a')}
@op('copy', 'ac dst', pres=STR)
def _(cx, s):
    for s1, k in clampn(cx, s, cx.n[0], cx.len('a')): yield s1, {'ret': ('copied', 'a', k)}
@op('append_cstr pluseq_cstr', 'a cs', pres=STR)
@op('append_cstr_n', 'a pz', pres=STR)
def _(cx, s): yield s, {'a': [A(cx), cx.ptr('p')]}
@op('pluseq_char', 'a c', pres=STR)
def _(cx, s): yield s, {'a': [A(cx), (ONE, 'c', cx.c)]}
@op('insert_cstr', 'a n cs', pres=STR, tags=('range',))
def _(cx, s): yield from ins(cx, s, cx.n[0], [cx.ptr('p')], cx.ptr('p')[0])
@op('insert_cstr_n', 'a n pz', pres=STR, tags=('range',))
def _(cx, s):
    k = cx.ptr('p')[0]
    for s1 in cx.ip.split_eq(s.copy(), k, True): yield s1, {'maythrow': True}
    for s1 in cx.ip.split_ge(s, k - 1, True): yield from ins(cx, s1, cx.n[0], [cx.ptr('p')], k)
@op('replace_cstr', 'a n cs', pres=STR, tags=('range',))
def _(cx, s): yield from repl(cx, s, cx.n[0], lambda k: cx.ptr('p'), cx.ptr('p')[0])
@op('replace_cstr_n', 'a n pz', pres=STR, tags=('range',))
def _(cx, s):
    k = cx.ptr('p')[0]
    for s1 in cx.ip.split_eq(s.copy(), k, True): yield s1, {'maythrow': True}
    for s1 in cx.ip.split_ge(s, k - 1, True): yield from repl(cx, s1, cx.n[0], lambda k2: cx.ptr('p'), k)
