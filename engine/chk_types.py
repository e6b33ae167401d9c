"""C28: compile-time witnesses.  Each witness is a tiny translation unit over the public headers; the compiler's type checker decides it.
 no(expr)  - the expression must not be well-formed for the given operand types
 yes(expr) - it must be well-formed
 nothrow(expr) - it must be well-formed and declared not to throw
 build - the whole unit must compile (member-by-member instantiation)"""
import os, subprocess, ir, par
from ir import AnalysisBroken, VERIF, REPO
TRUST = ['clang 18 semantic analysis (overload resolution, access, constant evaluation)', 'witness list in engine/chk_types.py']
PRE = r'''
#include "String.h"
#include "Array.h"
#include "HashTable.h"
#include "Stream.h"
#include "AtomicFile.h"
#include "base64.h"
#define USE_SCRIPT_TCL 1
#include "ScriptInterpTCL.h"
#include <type_traits>
#include <utility>
#include <string>
#include <vector>
#include <list>
using namespace bd; using std::declval;
typedef Array<int> AI; typedef Array<String> AS; typedef Array<std::string> AX; typedef Array<double> AD; typedef Array<unsigned long> AL;
typedef HashTable<String, String> HS; typedef HashTable<int, String> HI;
struct Plain { int v; Plain(int x = 0) : v(x) {} bool operator==(const Plain& o) const { return v == o.v; } bool operator!=(const Plain& o) const { return v != o.v; } };
namespace std { template<> struct hash<Plain> { size_t operator()(const Plain& p) const { return p.v; } }; }
typedef Array<Plain> AP;
template <class...> struct mkvoid { typedef void type; };
'''
W = []
def wit(kind, group, types, expr, desc):
    for t in types.split(): W.append((kind, group, t, expr, desc))
def no(types, expr, desc, group='read-only'): wit('no', group, types, expr, desc)
def yes(types, expr, desc, group='usable'): wit('yes', group, types, expr, desc)
def nothrow(types, expr, desc): wit('nothrow', 'noexcept', types, expr, desc)
def build(name, code): W.append(('build', 'instantiation', name, code, name))

SEQ = 'String AI AS AX AP'
ARR = 'AI AS AX AP'
C = 'declval<const T&>()'; M = 'declval<T&>()'; RV = 'declval<T&&>()'; E = 'declval<typename T::value_type&>()'
# ---- read-only views
for f in ('begin()', 'end()', 'cbegin()', 'cend()', 'rbegin()', 'crbegin()', 'rend()', 'crend()', 'data()'):
    no(SEQ, '*%s.%s = %s' % (C, f, E), 'assign through const %s' % f)
for f in ('cbegin()', 'cend()', 'crbegin()', 'crend()', 'data()'):
    no(SEQ, '*%s.%s = %s' % (M, f, E), 'assign through %s of a modifiable object' % f)
for f in ('operator[](0)', 'at(0)', 'read(0)', 'front()', 'back()'):
    no('AI AD AL String', '%s.%s = %s' % (C, f, E), 'assign through const %s' % f)
    wit('true', 'read-only', SEQ, 'std::is_const<typename std::remove_reference<decltype(%s.%s)>::type>::value || !std::is_reference<decltype(%s.%s)>::value' % (C, f, C, f), 'const %s gives a const reference' % f)
for f in ('at(0)',):
    wit('true', 'read-only', SEQ, 'std::is_const<typename std::remove_reference<decltype(%s.%s)>::type>::value || !std::is_reference<decltype(%s.%s)>::value' % (M, f, M, f), '%s gives a const reference' % f)
no('String', '*declval<const T&>().c_str() = 1', 'assign through c_str()'); no('String', '*declval<T&>().c_str() = 1', 'assign through c_str()')
no('String', '**declval<const T&>() = 1', 'assign through operator*'); no('String', '**declval<T&>() = 1', 'assign through operator*')
for f in ('push_back(%s)' % E, 'append(%s)' % E, 'insert(0, %s)' % E, 'append(declval<const T&>())', 'insert(0, declval<const T&>())', 'replace(0, declval<const T&>())', 'replace(0, %s)' % E,
          'clear()', 'slice(0, 1)', 'resize(1)', 'pop_back()', 'write(0, %s)' % E):
    no(SEQ, '%s.%s' % (C, f), 'modifying member %s on a const object' % f.split('(')[0])
for f in ('shift()', 'pop()', 'push(%s)' % E): no(ARR, '%s.%s' % (C, f), 'modifying member on a const object')
for f in ('chomp()', 'trim()'): wit('true', 'read-only', 'String', 'std::is_same<decltype(%s.%s), String>::value' % (C, f), 'const %s gives a new object' % f)
no(SEQ, '%s = declval<const T&>()' % C, 'assignment to a const object')
no(SEQ, '%s(0, 1) = declval<const T&>()' % C, 'slice assignment on a const object')
no(SEQ, '%s[0] = %s' % (C, E) if False else '%s += declval<const T&>()' % C, 'append to a const object')
no('AI AD', '%s[0] = 1' % C, 'element assignment on a const object')
no('HS', '%s[String("k")] = String("v")' % C, 'assignment through a const table'); no('HS HI', '%s.begin()->second = String("v")' % C, 'assignment through a const iterator')
no('HS HI', '%s.insert(declval<typename T::value_type::first_type>(), String("v"))' % C, 'insert into a const table'); no('HS HI', '%s.remove(declval<typename T::value_type::first_type>())' % C, 'remove from a const table')
no('HS HI', '%s.clear()' % C, 'clear a const table'); no('HS HI', '%s.find(declval<typename T::value_type::first_type>())->second = String("v")' % C, 'assignment through a const find')
no('Stream', '%s.puts(String("x"))' % C, 'write to a const stream'); no('Stream', '%s.seek(0, 0)' % C, 'seek in a const stream'); no('Stream', '%s.truncate()' % C, 'truncate a const stream'); no('Stream', '%s.read(1)' % C, 'read from a const stream')
# ---- unique handles
for t in ('AtomicFile', 'ArrayRef<char>', 'ReferenceCountedArrayBase'):
    W.append(('true', 'unique', t, '!std::is_copy_constructible<T>::value && !std::is_copy_assignable<T>::value', '%s cannot be copied' % t))
for t in ('ScriptInterpTCL', 'ScriptCallbackerTCL', 'ScriptInterp', 'ScriptCallbacker'):
    W.append(('true', 'unique', t, '!std::is_copy_constructible<T>::value && !std::is_copy_assignable<T>::value', '%s cannot be copied' % t))
for t in ('ScriptInterp', 'ScriptCallbacker', 'ScriptCommandHandlerBase', 'ReferenceCountedArrayBase'):
    W.append(('true', 'unique', t, 'std::has_virtual_destructor<T>::value', '%s can be deleted through a pointer to it' % t))
# ---- lvalue-only operations, proxy assignment
for f in ("+= declval<const T&>()", "+= declval<T&&>()"):
    no('String AI AS AX', '%s %s' % (RV, f), 'compound assignment to a temporary', 'lvalue-only')
no('String', "declval<T&&>() += 'c'", 'compound assignment to a temporary', 'lvalue-only'); no('String', 'declval<T&&>() += "c"', 'compound assignment to a temporary', 'lvalue-only')
no('String', 'declval<T&&>() -= size_t(1)', 'compound assignment to a temporary', 'lvalue-only'); no('AI AS', 'declval<T&&>() -= 1', 'compound assignment to a temporary', 'lvalue-only')
no('String AI AS', '++declval<T&&>()', 'increment of a temporary', 'lvalue-only'); no('String AI AS', '--declval<T&&>()', 'decrement of a temporary', 'lvalue-only')
no('String', 'declval<T&&>()++', 'increment of a temporary', 'lvalue-only')
no('HS HI', 'declval<T&&>() = declval<const T&>()', 'assignment to a temporary', 'lvalue-only'); no('Stream', 'declval<T&&>() = declval<const T&>()', 'assignment to a temporary', 'lvalue-only')
no('String AI AS', 'declval<Slice<T>&>() = declval<const T&>()', 'assignment to a named slice', 'lvalue-only')
no('String AI AS', 'declval<typename T::Cref&>() = %s' % E, 'assignment to a named element proxy', 'lvalue-only')
# ---- usable
yes(SEQ, '%s(0, 1) = declval<const T&>()' % M, 'slice assignment'); yes(SEQ, '%s(0, 1) = declval<T&&>()' % M, 'slice assignment'); yes(SEQ, '%s(0, 1) = %s(0, 1)' % (M, M), 'slice to slice assignment')
yes(SEQ, '%s[0] = %s' % (M, E), 'element assignment'); yes(SEQ, '%s[0] = %s[0]' % (M, M), 'element to element assignment')
yes('AS', '%s += %s' % (M, E), 'append element'); yes(SEQ, '%s += declval<const T&>()' % M, 'append'); yes(SEQ, '%s += declval<T&&>()' % M, 'append')
yes(SEQ, '++%s' % M, 'increment'); yes(SEQ, '%s++' % M, 'increment'); yes(SEQ, '--%s' % M, 'decrement'); yes(SEQ, '%s--' % M, 'decrement')
yes(SEQ, '%s == %s' % (C, C), 'equality'); yes(SEQ, '%s != %s' % (C, C), 'inequality'); yes(SEQ, '%s.find(%s)' % (C, E), 'find')
yes('Stream', 'declval<T&>() = declval<T&&>()', 'stream move assignment'); yes('Stream', 'declval<T&>() = declval<const T&>()', 'stream copy assignment')
yes('HS HI', 'declval<T&>() = declval<T&&>()', 'table move assignment'); yes('HS HI', 'declval<T&>() = declval<const T&>()', 'table copy assignment')
# ---- non-throwing declarations
for t in ('String', 'AI', 'AS', 'AX', 'AP'):
    for tr in ('copy_constructible', 'move_constructible', 'copy_assignable', 'move_assignable', 'destructible'):
        W.append(('true', 'noexcept', t, 'std::is_nothrow_%s<T>::value' % tr, '%s is nothrow %s' % (t, tr)))
for t in ('Stream',):
    for tr in ('copy_constructible', 'move_constructible', 'destructible'):
        W.append(('true', 'noexcept', t, 'std::is_nothrow_%s<T>::value' % tr, '%s is nothrow %s' % (t, tr)))
for f in ('length()', 'size()', 'isEmpty()', 'operator!()', 'capacity()', 'rcount()', 'isShared()', 'data()', 'cbegin()', 'cend()', 'begin()', 'end()', 'crbegin()', 'crend()', 'hash()', 'read(0)', 'operator[](0)', 'front()', 'back()', 'find(%s)' % E, 'rfind(%s)' % E, 'operator()(0, 1)'):
    nothrow(SEQ, '%s.%s' % (C, f), f)
for f in ('clear()', 'slice(0, 1)', 'pop_back()'): nothrow(SEQ, '%s.%s' % (M, f), f)
nothrow(SEQ, 'swap(declval<T&>(), declval<T&>())', 'swap'); nothrow('Stream HS HI', 'swap(declval<T&>(), declval<T&>())', 'swap')
for op in ('==', '!='): nothrow(SEQ, '%s %s %s' % (C, op, C), op)
for op in ('<', '<=', '>', '>=', '==', '!='):
    nothrow('String', '%s %s %s' % (C, op, C), op); nothrow('String', '%s %s "x"' % (C, op), op)
for f in ('c_str()', 'operator*()', 'copy(declval<char*>(), 1)', 'substring(0, 1)', 'find(declval<const T&>())', 'compare(declval<const T&>())'): nothrow('String', '%s.%s' % (C, f), f)
for f in ('chomp()', 'trim()'): nothrow('String', '%s.%s' % (M, f), f)
for f in ('size()', 'capacity()', 'isEmpty()', 'contains(declval<const typename T::value_type::first_type&>())', 'getValue(declval<const typename T::value_type::first_type&>())'): nothrow('HS HI', '%s.%s' % (C, f), f)
# ---- member-by-member instantiation
for t in ('String', 'std::string'): build('Array<%s>' % t, 'template class bd::Array<%s>;' % t)
MEMBERS = '''typedef bd::Array<X> T;
void members(T& a, const T& c, T& b, X& x, const X& cx) {
  T d; T e(c); T f(std::move(b)); T g(size_t(3)); T h(size_t(3), cx); T i{cx, cx}; T j(&cx, size_t(1)); T k(c.begin(), c.end());
  a = c; a = std::move(b); a = {cx, cx}; swap(a, b);
  a.rcount(); a.isShared(); a.reserve(3); a.capacity(); a.resize(2); a.resize(2, cx); c.length(); c.size(); c.isEmpty(); (void)!c; (void)bool(c);
  c.data(); a.mdata(); a.begin(); c.begin(); c.cbegin(); a.end(); c.end(); c.cend(); a.rbegin(); c.rbegin(); c.crbegin(); a.rend(); c.rend(); c.crend();
  c.hash(); c.find(cx); c.find(cx, 1); c.rfind(cx); c.read(0); a.write(0, cx); a.write(0, X(cx)); (void)c[0]; (void)a[0].get(); a[0].mget(); a[0] = cx; a[0] = X(cx); a[0] = a[1]; c.at(0); a.at(0);
  a.slice(0); a.slice(0, 1); a.append(cx); a.append(X(cx)); a.push_back(cx); a.push_back(X(cx)); a.front(); c.front(); a.back(); c.back(); a.pop_back();
  a.append(c); a.append(c, 1); a.append(T(c)); a.append(T(c), 1); a.insert(c.cbegin(), cx); a.insert(c.cbegin(), X(cx)); a.insert(a.cbegin(), c.cbegin(), c.cend());
  a.insert(size_t(0), c, 1); a.insert(size_t(0), c); a.insert(size_t(0), T(c), 1); a.insert(size_t(0), T(c)); a.insert(size_t(0), cx); a.insert(size_t(0), X(cx));
  a.replace(size_t(0), cx); a.replace(size_t(0), X(cx)); a.replace(size_t(0), c); a.replace(size_t(0), c, 1); a.replace(size_t(0), T(c)); a.replace(size_t(0), T(c), 1);
  a.push_front(cx); a.push_front(X(cx)); a << cx; a << X(cx); a >> x; a.shift(); T(c).shift(); a.pop(); T(c).pop();
  c.equals(a); c.equals(a, 1); (void)(c == a); (void)(c != a); T s1(c.subarray(0)); T s2(c(0, 1)); T s3(a(0, 1)); a(0, 1) = c; a(0, 1) = T(c); a(0, 1) = a(1, 1); a(0, 1).get();
  ++a; a++; --a; a--; a += c; a += T(c); T s4(c + a); a.clear(); std::hash<T>()(c);
}'''
for t in ('int', 'double', 'unsigned long', 'char', 'Plain', 'std::vector<int>', 'Array<String>', 'void*', 'std::string', 'String'):
    pre = 'namespace std { template<> struct hash<std::vector<int>> { size_t operator()(const std::vector<int>& v) const { return v.size(); } }; }\n' if 'vector' in t else ''
    build('members of Array<%s>' % t, pre + 'typedef %s X;\n' % t + MEMBERS)
build('ReferenceCountedArray<char>', 'template class bd::ReferenceCountedArray<char>;')
for k, v in (('String', 'String'), ('int', 'int'), ('String', 'Array<String>'), ('std::string', 'double')):
    build('HashTable<%s, %s>' % (k, v), 'template class bd::HashTable<%s, %s>;' % (k, v))
build('Slice<String>', 'template class bd::Slice<String>; template class bd::Slice<Array<int>>;')
build('member templates', 'void f() { std::list<int> l; int p[3] = {1,2,3}; Array<int> a(l.begin(), l.end()); Array<int> b(p, p + 3); a.insert(a.cbegin(), l.begin(), l.end()); b.insert(b.cbegin(), p, p + 3); const char* s = "x"; String t(s, s + 1); t.insert(t.cbegin(), s, s + 1); }')
build('initializer lists', 'void f() { Array<int> a{1, 2}; a = {3, 4}; String s{\'a\', \'b\'}; HashTable<String, int> h{{"a", 1}}; h = {{"b", 2}}; }')
for t in ('int8_t', 'uint8_t', 'int16_t', 'uint16_t', 'int32_t', 'uint32_t', 'int64_t', 'uint64_t', 'bool', 'double', 'String', 'Array<String>'):
    build('script commands and variables of type %s' % t, 'typedef %s X; X cb(X x) { return x; } void cv(X) {} X x; const X cx = X(); void hook(const void*, const void*) {}\n'
          'void f(ScriptInterpTCL& si) { si.createCommand("a", cb); si.createCommand("b", cv, "use", 0); ScriptInterp::createCommand(si, "c", cb); si.deleteCommand("a"); si.linkVar("x", x); si.linkVar("x", x, hook); si.linkVar("cx", cx); ScriptInterp::linkVar(si, "y", x); si.unlinkVar("x"); }' % t)
build('hashing', 'void f() { String s; Array<String> a; std::hash<String>()(s); std::hash<Array<String>>()(a); HashTable<Array<int>, int> h; h[Array<int>{1}] = 2; }')
build('split and join', 'void f() { String s("a b"); Array<String> a(s.split(" ")); String j(a.join(",")); s = s.sub("a", "b"); s = base64Encode(s); s = base64Decode(s); }')
build('stream operators', 'void f() { Stream s; String t("x"); s << t << String("y") << "z"; Stream u(s); Stream v(std::move(u)); u = v; u = std::move(v); const String q(s); }')

def unit(w, i):
    kind, group, t, expr, desc = w
    if kind == 'build': return expr + '\n'
    n = 'namespace w%d { ' % i
    if kind == 'true': return n + 'template <class T> struct Q { static constexpr bool value = %s; };\nstatic_assert(Q<%s>::value, "WITNESS %d."); }\n' % (expr, t, i)
    det = n + 'template <class T, class = void> struct D : std::false_type {};\ntemplate <class T> struct D<T, typename mkvoid<decltype(%s)>::type> : std::true_type {};\n' % expr
    if kind == 'no': return det + 'static_assert(!D<%s>::value, "WITNESS %d."); }\n' % (t, i)
    if kind == 'yes': return det + 'static_assert(D<%s>::value, "WITNESS %d."); }\n' % (t, i)
    return det + 'static_assert(D<%s>::value, "WITNESS %d.");\ntemplate <class T> struct N { static constexpr bool value = noexcept(%s); };\nstatic_assert(N<%s>::value, "WITNESS %d."); }\n' % (t, i, expr, t, i)
def source(w): return PRE + unit(w, 0)

def cc(src, name, std='-std=c++14'):
    p = os.path.join(ir.workdir(), name + '.cpp')
    with open(p, 'w') as f: f.write(src)
    flags = [std] + [f for f in ir.CXXFLAGS if f not in ('-fno-access-control', '-std=c++14')]
    r = subprocess.run(['clang++-18', '-fsyntax-only', '-I' + os.path.join(VERIF, 'config', 'full')] + flags + ['-ferror-limit=0', p], capture_output=True, text=True)
    return r.returncode, r.stderr

def run(rep, prop, tier):
    rep.rule('each witness unit type-checks exactly as stated: forbidden expressions are ill-formed, promised ones well-formed and noexcept, every member instantiates')
    stds = ['-std=c++14'] + (['-std=c++17'] if tier == 'thorough' else [])
    rc, err = cc(PRE, 'base')
    if rc: raise AnalysisBroken('public headers do not compile: ' + err[-1500:])
    # the detector itself must be able to say both yes and no
    for w, want in ((('no', '', 'String', 'declval<T&>().length()', ''), 1), (('yes', '', 'String', 'declval<T&>().nosuch()', ''), 1), (('nothrow', '', 'String', 'throw 1', ''), 1), (('no', '', 'String', 'declval<T&>().nosuch()', ''), 0)):
        rc, err = cc(source(w), 'self')
        if bool(rc) != bool(want): raise AnalysisBroken('witness self-test failed: %s' % (w,))
    single = [i for i, w in enumerate(W) if w[0] == 'build']; rest = [i for i, w in enumerate(W) if w[0] != 'build']
    groups = [[i] for i in single] + [rest[k:k + 40] for k in range(0, len(rest), 40)]
    gt = [(g, s) for s in stds for g in range(len(groups))]
    def fg(t): return cc(PRE + ''.join(unit(W[i], i) for i in groups[t[0]]), 'g%d%s' % (t[0], t[1][-2:]), t[1])
    known = {}; tasks = []
    for (g, s), r, dt in par.run(fg, gt, limit=600):
        if isinstance(r[0], str): tasks += [(i, s) for i in groups[g]]; continue
        rc, err = r
        errs = [l for l in err.splitlines() if 'error:' in l]
        if rc == 0 or (len(groups[g]) == 1) or all('WITNESS' in l for l in errs):
            for i in groups[g]:
                mine = [l for l in errs if 'WITNESS %d.' % i in l]
                if rc == 0 or (len(groups[g]) > 1 and not mine): known[(i, s)] = (0, '')
                else: known[(i, s)] = (1, err if len(groups[g]) == 1 else '\n'.join(mine))
        else: tasks += [(i, s) for i in groups[g]]
    def f(t): return cc(source(W[t[0]]), 'w%d%s' % (t[0], t[1][-2:]), t[1])
    for (i, s), r in [(k, known[k]) for k in sorted(known)] + [x[:2] for x in (par.run(f, tasks, limit=600) if tasks else [])]:
        kind, group, t, expr, desc = W[i]
        rep.units += 1
        if isinstance(r[0], str): rep.undecided('witness', desc, str(r)[:200]); continue
        rc, err = r
        if rc == 0: rep.ok(group, 1, t); continue
        lines = [l for l in err.splitlines() if 'error:' in l]
        site = next((l.split(':')[0].replace(REPO + '/', '') + ':' + l.split(':')[1] for l in lines if l.startswith(REPO)), 'public headers')
        if kind != 'build' and not any('WITNESS' in l for l in lines):
            if kind == 'no': rep.ok(group, 1, t); continue   # ill-formed outside the immediate context: cannot be used either
            msg = lines[0] if lines else err[-300:]
        else: msg = lines[0] if kind == 'build' and lines else ''
        what = {'no': 'accepted although it must be rejected', 'yes': 'rejected although it must be usable', 'nothrow': 'not declared noexcept (or missing)', 'true': 'does not hold', 'build': 'does not compile'}[kind]
        rep.violation(group, site, '%s [%s]: %s: %s %s' % (desc, t, expr if kind != 'build' else '', what, msg), entry='witness %d %s' % (i, s))
    if len(rep.samples) == 0: rep.samples = ['%s %s: %s' % (w[0], w[2], w[3][:120]) for w in W[::max(1, len(W) // 8)]]
    for g in ('read-only', 'unique', 'lvalue-only', 'usable', 'noexcept', 'instantiation'): rep.need('witnesses in group ' + g, sum(1 for w in W if w[1] == g), 3)
