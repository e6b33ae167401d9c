/* Never executed: only its LLVM IR is read. */
#include "String.cpp"
#include "ReferenceCountedArray.cpp"
#include "AtomicFile.cpp"
#include "Stream.cpp"
#include <new>
using namespace bd;
#define E extern "C"
typedef AtomicFile AF;
E size_t h_af_sizeof() { return sizeof(AF); }
E void h_af_ctor(AF* a) { new (a) AF(); }
E bool h_af_open(AF& a, const char* f, mode_t mode) { return a.open(String(f), mode); }
E bool h_af_open_default(AF& a, const char* f) { return a.open(String(f)); }
E bool h_af_commit(AF& a) { return a.commit(); }
E bool h_af_abort(AF& a) { return a.abort(); }
E bool h_af_is_open(const AF& a) { return a.is_open(); }
E int h_af_fd(AF& a) { return a.fd(); }
E void h_af_dtor(AF& a) { a.~AF(); }
/* String accessors used to find its layout */
typedef String S;
E size_t h_S_sizeof() { return sizeof(S); }
E void h_S_ctor_default(S* r) { new (r) S(); }
E void h_S_ctor_size(S* r, size_t n) { new (r) S(n); }
E size_t h_S_length(const S& a) { return a.length(); }
E const char* h_S_data(const S& a) { return a.data(); }
E size_t h_S_capacity(const S& a) { return a.capacity(); }
E size_t h_S_rcount(const S& a) { return a.rcount(); }
E size_t h_S_hash(const S& a) { return a.hash(); }
/* Stream */
typedef Stream T;
E size_t h_T_sizeof() { return sizeof(T); }
E void h_T_ctor(T* a) { new (a) T(); }
E void h_T_ctor_string(T* a, const S& s) { new (a) T(s); }
E void h_T_ctor_string_move(T* a, S& s) { new (a) T(std::move(s)); }
E void h_T_ctor_size(T* a, int n) { new (a) T(n); }
E void h_T_ctor_copy(T* a, const T& b) { new (a) T(b); }
E void h_T_ctor_move(T* a, T& b) { new (a) T(std::move(b)); }
E void h_T_assign_copy(T& a, const T& b) { a = b; }
E void h_T_assign_move(T& a, T& b) { a = std::move(b); }
E size_t h_T_tell(const T& a) { return a.tell(); }
E size_t h_T_length(const T& a) { return a.length(); }
E void h_T_reserve(T& a, size_t n) { a.reserve(n); }
E int h_T_seek(T& a, int off, int wh) { return a.seek(off, wh); }
E void h_T_truncate(T& a) { a.truncate(); }
E void h_T_clear(T& a) { a.clear(); }
E void h_T_peek(S* r, T& a) { new (r) S(a.peek()); }
E void h_T_string(S* r, const T& a) { new (r) S(a); }
E void h_T_puts(T& a, const S& s) { a.puts(s); }
E void h_T_puts_move(T& a, S& s) { a.puts(std::move(s)); }
E void h_T_out(T& a, const S& s) { a << s; }
E void h_T_out_move(T& a, S& s) { a << std::move(s); }
E void h_T_read(S* r, T& a, size_t n) { new (r) S(a.read(n)); }
E void h_T_read_delim(S* r, T& a, size_t n, char c) { new (r) S(a.read(n, c)); }
E void h_T_getline(S* r, T& a) { new (r) S(a.getline()); }
E void h_T_getline_n(S* r, T& a, size_t n) { new (r) S(a.getline(n)); }
E int h_T_load_fd(T& a, int fd) { return a.loadFile(fd); }
E int h_T_load_name(T& a, const S& f) { return a.loadFile(f); }
E int h_T_write_fd(const T& a, int fd) { return a.writeFile(fd); }
E int h_T_write_name(const T& a, const S& f) { return a.writeFile(f); }
E int h_T_write_name_mode(const T& a, const S& f, mode_t m) { return a.writeFile(f, m); }
