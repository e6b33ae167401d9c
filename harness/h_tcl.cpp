/* Never executed: only its LLVM IR is read. The standard map is the stand-in in stubtcl/unordered_map. */
#define USE_SCRIPT_TCL 1
#include "String.cpp"
#include "ReferenceCountedArray.cpp"
#include "ScriptInterpTCL.cpp"
#include <new>
#include <stdexcept>
using namespace bd;
#define E extern "C"
typedef String S;
E void h_S_ctor_default(S* r) { new (r) S(); }
E void h_S_ctor_size(S* r, size_t n) { new (r) S(n); }
E void h_S_text(S* r, const char* p, size_t n) { new (r) S(p, n); }
E size_t h_S_sizeof() { return sizeof(S); }
E size_t h_S_length(const S& a) { return a.length(); }
E const char* h_S_data(const S& a) { return a.data(); }
E size_t h_S_capacity(const S& a) { return a.capacity(); }
E size_t h_S_rcount(const S& a) { return a.rcount(); }
E size_t h_S_hash(const S& a) { return a.hash(); }
/* ---- script to C */
#define TO(n, T) E T h_to_##n(Tcl_Obj* o) { return tcl_to_c_cast<T>::from(o, nullptr); }
TO(i8, int8_t) TO(u8, uint8_t) TO(i16, int16_t) TO(u16, uint16_t) TO(i32, int32_t) TO(u32, uint32_t) TO(i64, int64_t) TO(u64, uint64_t) TO(f64, double) TO(bool, bool) TO(cstr, char*) TO(ccstr, const char*)
E void h_to_str(S* r, Tcl_Obj* o) { new (r) S(tcl_to_c_cast<String>::from(o, nullptr)); }
E void h_to_list(Array<S>* r, Tcl_Obj* o) { new (r) Array<S>(tcl_to_c_cast<Array<S>>::from(o, nullptr)); }
E size_t h_list_len(const Array<S>& a) { return a.length(); }
E const S* h_list_at(const Array<S>& a, size_t i) { return a.data() + i; }
E size_t h_list_sizeof() { return sizeof(Array<S>); }
/* ---- C to script */
#define FROM(n, T) E Tcl_Obj* h_from_##n(const T& v, Tcl_Interp* i) { return c_to_tcl_cast<const T&>::from(v, i); }
FROM(i8, int8_t) FROM(u8, uint8_t) FROM(i16, int16_t) FROM(u16, uint16_t) FROM(i32, int32_t) FROM(u32, uint32_t) FROM(i64, int64_t) FROM(u64, uint64_t) FROM(f64, double) FROM(bool, bool) FROM(str, String)
E Tcl_Obj* h_from_cstr(const char* v, Tcl_Interp* i) { return c_to_tcl_cast<const char*>::from(v, i); }
E Tcl_Obj* h_from_list0(Tcl_Interp* i) { Array<S> a; return c_to_tcl_cast<const Array<S>&>::from(a, i); }
E Tcl_Obj* h_from_list1(const S& x, Tcl_Interp* i) { Array<S> a; a << x; return c_to_tcl_cast<const Array<S>&>::from(a, i); }
E Tcl_Obj* h_from_list3(const S& x, const S& y, const S& z, Tcl_Interp* i) { Array<S> a; a << x; a << y; a << z; return c_to_tcl_cast<const Array<S>&>::from(a, i); }
E Tcl_Obj* h_from_llist(const S& x, const S& y, Tcl_Interp* i) { Array<S> a; a << x; a << y; Array<Array<S>> l; l << a; l << Array<S>(); return c_to_tcl_cast<const Array<Array<S>>&>::from(l, i); }
/* ---- a stand-in for the parts of the interpreter that call back */
struct v_tr { char n0; int flags; Tcl_VarTraceProc* proc; ClientData cd; };
static v_tr v_t0, v_t1, v_t2, v_t3;
static bool v_put(v_tr& t, const char* n, int f, Tcl_VarTraceProc* p, ClientData cd) { if (t.proc) return false; t.n0 = n[0]; t.flags = f; t.proc = p; t.cd = cd; return true; }
E int Tcl_TraceVar2(Tcl_Interp*, const char* n, const char*, int f, Tcl_VarTraceProc* p, ClientData cd) {
  if (v_put(v_t0, n, f, p, cd) || v_put(v_t1, n, f, p, cd) || v_put(v_t2, n, f, p, cd) || v_put(v_t3, n, f, p, cd)) return TCL_OK;
  v_full(); return TCL_ERROR;
}
static void v_unset(v_tr& t, char n0, Tcl_Interp* i) {
  if (!t.proc || t.n0 != n0) return;
  v_tr c = t; t.proc = nullptr;
  if (c.flags & TCL_TRACE_UNSETS) c.proc(c.cd, i, &c.n0, nullptr, TCL_TRACE_UNSETS | TCL_TRACE_DESTROYED | TCL_GLOBAL_ONLY);
}
E int Tcl_UnsetVar2(Tcl_Interp* i, const char* n, const char*, int) { char c = n[0]; v_unset(v_t0, c, i); v_unset(v_t1, c, i); v_unset(v_t2, c, i); v_unset(v_t3, c, i); return TCL_OK; }
static void v_untr(v_tr& t, char n0, int f, Tcl_VarTraceProc* p, ClientData cd) { if (t.proc == p && t.n0 == n0 && t.cd == cd && (t.flags & 0xf0) == (f & 0xf0)) t.proc = nullptr; }
E void Tcl_UntraceVar2(Tcl_Interp*, const char* n, const char*, int f, Tcl_VarTraceProc* p, ClientData cd) { char c = n[0]; v_untr(v_t0, c, f, p, cd); v_untr(v_t1, c, f, p, cd); v_untr(v_t2, c, f, p, cd); v_untr(v_t3, c, f, p, cd); }
static char* v_fire(v_tr& t, char n0, int what, Tcl_Interp* i) {
  if (!t.proc || t.n0 != n0 || !(t.flags & what)) return nullptr;
  char name[2] = { n0, 0 };
  return t.proc(t.cd, i, name, nullptr, what | TCL_GLOBAL_ONLY);
}
/* a script reads or writes the variable: the last error, or null */
static const char* v_touch(char n0, int what, Tcl_Interp* i) {
  const char* e = v_fire(v_t3, n0, what, i);
  if (const char* x = v_fire(v_t2, n0, what, i)) e = x;
  if (const char* x = v_fire(v_t1, n0, what, i)) e = x;
  if (const char* x = v_fire(v_t0, n0, what, i)) e = x;
  return e;
}
/* a write: Tcl sets the variable first, then calls the traces */
E void v_written(char n0);
static const char* v_write(char n0, Tcl_Interp* i) { v_written(n0); return v_touch(n0, TCL_TRACE_WRITES, i); }
static const char* v_read(char n0, Tcl_Interp* i) { return v_touch(n0, TCL_TRACE_READS, i); }
struct v_cm { char n0; Tcl_ObjCmdProc* proc; ClientData cd; Tcl_CmdDeleteProc* del; };
static v_cm v_c0, v_c1;
static void v_delc(v_cm& c) { v_cm x = c; c.proc = nullptr; if (x.proc && x.del) x.del(x.cd); }
E Tcl_Command Tcl_CreateObjCommand(Tcl_Interp*, const char* n, Tcl_ObjCmdProc* p, ClientData cd, Tcl_CmdDeleteProc* del) {
  v_cm* c;
  if (v_c0.proc && v_c0.n0 == n[0]) { v_delc(v_c0); c = &v_c0; }
  else if (v_c1.proc && v_c1.n0 == n[0]) { v_delc(v_c1); c = &v_c1; }
  else if (!v_c0.proc) c = &v_c0;
  else { if (v_c1.proc) v_full(); c = &v_c1; }
  c->n0 = n[0]; c->proc = p; c->cd = cd; c->del = del;
  return reinterpret_cast<Tcl_Command>(c);
}
E int Tcl_DeleteCommandFromToken(Tcl_Interp*, Tcl_Command t) { v_cm* c = reinterpret_cast<v_cm*>(t); if (!c->proc) return -1; v_delc(*c); return 0; }
E int Tcl_DeleteCommand(Tcl_Interp*, const char* n) {
  if (v_c0.proc && v_c0.n0 == n[0]) { v_delc(v_c0); return 0; }
  if (v_c1.proc && v_c1.n0 == n[0]) { v_delc(v_c1); return 0; }
  return -1;
}
E void Tcl_DeleteInterp(Tcl_Interp* i) { v_delc(v_c0); v_delc(v_c1); Tcl_UnsetVar2(i, "a", nullptr, 0); Tcl_UnsetVar2(i, "b", nullptr, 0); }
/* -2: no such command */
static int v_invoke(char n0, Tcl_Interp* i, int objc, Tcl_Obj* const objv[]) {
  if (v_c0.proc && v_c0.n0 == n0) return v_c0.proc(v_c0.cd, i, objc, objv);
  if (v_c1.proc && v_c1.n0 == n0) return v_c1.proc(v_c1.cd, i, objc, objv);
  return -2;
}
/* ---- linked variables */
E void v_hook(const void* o, const void* n);
E void v_hook2(const void* o, const void* n);
#define LINK(n, T) \
  E const char* h_get_##n(T& v) { ScriptInterpTCL si; si.linkVar("a", v); return v_read('a', si.interp); } \
  E const char* h_getc_##n(const T& v) { ScriptInterpTCL si; si.linkVar("a", v); return v_read('a', si.interp); } \
  E const char* h_set_##n(T& v) { ScriptInterpTCL si; si.linkVar("a", v); return v_write('a', si.interp); } \
  E const char* h_seth_##n(T& v) { ScriptInterpTCL si; si.linkVar("a", v, v_hook); return v_write('a', si.interp); } \
  E const char* h_setc_##n(const T& v) { ScriptInterpTCL si; si.linkVar("a", v, v_hook); return v_write('a', si.interp); }
LINK(i8, int8_t) LINK(u8, uint8_t) LINK(i16, int16_t) LINK(u16, uint16_t) LINK(i32, int32_t) LINK(u32, uint32_t) LINK(i64, int64_t) LINK(u64, uint64_t) LINK(f64, double) LINK(bool, bool) LINK(str, String)
E const char* h_get_buf(char* p, size_t n) { ScriptInterpTCL si; si.linkVar("a", p, n); return v_read('a', si.interp); }
E const char* h_get_cbuf(const char* p) { ScriptInterpTCL si; si.linkVar("a", p); return v_read('a', si.interp); }
E const char* h_set_buf(char* p, size_t n) { ScriptInterpTCL si; si.linkVar("a", p, n); return v_write('a', si.interp); }
E const char* h_seth_buf(char* p, size_t n) { ScriptInterpTCL si; si.linkVar("a", p, n, v_hook); return v_write('a', si.interp); }
E const char* h_setc_buf(const char* p) { ScriptInterpTCL si; si.linkVar("a", p, v_hook); return v_write('a', si.interp); }
/* histories of links; two variables */
E const char* h_relink(int& x, int& y) { ScriptInterpTCL si; si.linkVar("a", x, v_hook); si.linkVar("a", y, v_hook2); return v_write('a', si.interp); }
E const char* h_unlink(int& x, int& y) { ScriptInterpTCL si; si.linkVar("a", x, v_hook); si.linkVar("b", y, v_hook2); si.unlinkVar("a"); return v_write('a', si.interp); }
E const char* h_unlink_other(int& x, int& y) { ScriptInterpTCL si; si.linkVar("a", x, v_hook); si.linkVar("b", y, v_hook2); si.unlinkVar("a"); return v_write('b', si.interp); }
E const char* h_two(int& x, int& y) { ScriptInterpTCL si; si.linkVar("a", x, v_hook); si.linkVar("b", y, v_hook2); return v_write('b', si.interp); }
E const char* h_again(int& x, int& y) { ScriptInterpTCL si; si.linkVar("a", x, v_hook); si.unlinkVar("a"); si.linkVar("a", y, v_hook2); return v_write('a', si.interp); }
/* ---- commands */
E int64_t v_cmd3(int64_t, int64_t, int64_t);
E int64_t v_cmd1(int64_t);
E int64_t v_cmd0();
E void v_cmdv(int64_t, int64_t);
E void v_cmds_(const S* a, const S* b, S* r);
static S v_cmds(S a, S b) { S r; v_cmds_(&a, &b, &r); return r; }
E int h_cmd3(int objc, Tcl_Obj* const objv[], size_t min) { ScriptInterpTCL si; si.createCommand("c", v_cmd3, "a b c", min); return v_invoke('c', si.interp, objc, objv); }
E int h_cmd3d(int objc, Tcl_Obj* const objv[]) { ScriptInterpTCL si; si.createCommand("c", v_cmd3); return v_invoke('c', si.interp, objc, objv); }
E int h_cmd1(int objc, Tcl_Obj* const objv[], size_t min) { ScriptInterpTCL si; si.createCommand("c", v_cmd1, nullptr, min); return v_invoke('c', si.interp, objc, objv); }
E int h_cmd0(int objc, Tcl_Obj* const objv[]) { ScriptInterpTCL si; si.createCommand("c", v_cmd0); return v_invoke('c', si.interp, objc, objv); }
E int h_cmdv(int objc, Tcl_Obj* const objv[], size_t min) { ScriptInterpTCL si; si.createCommand("c", v_cmdv, "x y", min); return v_invoke('c', si.interp, objc, objv); }
E int h_cmds(int objc, Tcl_Obj* const objv[], size_t min) { ScriptInterpTCL si; si.createCommand("c", v_cmds, "x y", min); return v_invoke('c', si.interp, objc, objv); }
E int64_t v_ran(int64_t);
static const S* v_message;
static int64_t t_string(int64_t x) { v_ran(x); throw S(*v_message); }
static int64_t t_int(int64_t x) { v_ran(x); throw 42; }
static int64_t t_std(int64_t x) { v_ran(x); throw std::out_of_range("x"); }
static int64_t t_cstr(int64_t x) { v_ran(x); throw "text"; }
E int h_throw_string(int objc, Tcl_Obj* const objv[], const S& m) { v_message = &m; ScriptInterpTCL si; si.createCommand("c", t_string); return v_invoke('c', si.interp, objc, objv); }
E int h_throw_int(int objc, Tcl_Obj* const objv[]) { ScriptInterpTCL si; si.createCommand("c", t_int); return v_invoke('c', si.interp, objc, objv); }
E int h_throw_std(int objc, Tcl_Obj* const objv[]) { ScriptInterpTCL si; si.createCommand("c", t_std); return v_invoke('c', si.interp, objc, objv); }
E int h_throw_cstr(int objc, Tcl_Obj* const objv[]) { ScriptInterpTCL si; si.createCommand("c", t_cstr); return v_invoke('c', si.interp, objc, objv); }
/* the command deletes or replaces itself */
static ScriptInterpTCL* v_si;
static int64_t d_self(int64_t x) { v_si->deleteCommand("c"); return v_cmd1(x); }
static int64_t r_self(int64_t x) { v_si->createCommand("c", v_cmd0); return v_cmd1(x); }
E int h_del_self(int objc, Tcl_Obj* const objv[]) { ScriptInterpTCL si; v_si = &si; si.createCommand("c", d_self); return v_invoke('c', si.interp, objc, objv); }
E int h_del_self2(int objc, Tcl_Obj* const objv[]) { ScriptInterpTCL si; v_si = &si; si.createCommand("c", d_self); v_invoke('c', si.interp, objc, objv); return v_invoke('c', si.interp, objc, objv); }
E int h_repl_self(int objc, Tcl_Obj* const objv[]) { ScriptInterpTCL si; v_si = &si; si.createCommand("c", r_self); return v_invoke('c', si.interp, objc, objv); }
E int h_deleted(int objc, Tcl_Obj* const objv[]) { ScriptInterpTCL si; si.createCommand("c", v_cmd1); si.createCommand("d", v_cmd0); si.deleteCommand("c"); return v_invoke('c', si.interp, objc, objv); }
E int h_deleted_other(int objc, Tcl_Obj* const objv[]) { ScriptInterpTCL si; si.createCommand("c", v_cmd1); si.createCommand("d", v_cmd0); si.deleteCommand("d"); return v_invoke('c', si.interp, objc, objv); }
E int h_replaced(int objc, Tcl_Obj* const objv[]) { ScriptInterpTCL si; si.createCommand("c", v_cmd0); si.createCommand("c", v_cmd1); return v_invoke('c', si.interp, objc, objv); }
E int h_script_deleted(int objc, Tcl_Obj* const objv[]) { ScriptInterpTCL si; si.createCommand("c", v_cmd1); Tcl_DeleteCommand(si.interp, "c"); si.deleteCommand("c"); return v_invoke('c', si.interp, objc, objv); }
/* ... and is called again before it returns */
static int v_argc; static Tcl_Obj* const* v_argv; static bool v_in;
E void v_nested(int status);
static int64_t d_nested(int64_t x) { if (!v_in) { v_in = true; v_si->deleteCommand("c"); v_nested(v_invoke('c', v_si->interp, v_argc, v_argv)); } return v_cmd1(x); }
static int64_t r_nested(int64_t x) { v_si->createCommand("c", v_cmd1); v_nested(v_invoke('c', v_si->interp, v_argc, v_argv)); return v_cmd1(x); }
static int64_t n_nested(int64_t x) { if (!v_in) { v_in = true; v_nested(v_invoke('c', v_si->interp, v_argc, v_argv)); } return v_cmd1(x); }
#define NEST(n) E int h_##n(int objc, Tcl_Obj* const objv[]) { ScriptInterpTCL si; v_si = &si; v_argc = objc; v_argv = objv; si.createCommand("c", n); return v_invoke('c', si.interp, objc, objv); }
NEST(d_nested) NEST(r_nested) NEST(n_nested)
/* ---- scripts */
E void h_S_front(S* r, const S& a, size_t n) { new (r) S(a.substring(0, n)); }
E void h_eval(S* r, const S& script) { ScriptInterpTCL si; ScriptInterp& b = si; new (r) S(b.eval(script)); }
E int h_load(const S& file, S& result) { ScriptInterpTCL si; ScriptInterp& b = si; return b.loadScript(file, result); }
E int h_load_ok() { return ScriptInterp::SCRIPT_LOAD_OK; }
E int h_load_error() { return ScriptInterp::SCRIPT_LOAD_ERROR; }
E int h_load_wrong() { return ScriptInterp::SCRIPT_LOAD_WRONG_INTERP; }
