/* Never executed: only its LLVM IR is read. */
#include "String.cpp"
#include "ReferenceCountedArray.cpp"
#include "base64.cpp"
#include <new>
using namespace bd;
#define E extern "C"
typedef String S;
E size_t h_S_sizeof() { return sizeof(S); }
E void h_S_ctor_default(S* r) { new (r) S(); }
E void h_S_ctor_size(S* r, size_t n) { new (r) S(n); }
E size_t h_S_length(const S& a) { return a.length(); }
E const char* h_S_data(const S& a) { return a.data(); }
E size_t h_S_capacity(const S& a) { return a.capacity(); }
E size_t h_S_rcount(const S& a) { return a.rcount(); }
E size_t h_S_hash(const S& a) { return a.hash(); }
E void h_S_printf(S* r, const char* f, long x, const char* y) { new (r) S(S::printf(f, x, y)); }
E void h_S_b64enc(S* r, const S& s, const char* cs) { new (r) S(base64Encode(s, cs)); }
E void h_S_b64dec(S* r, const S& s, const char* cs) { new (r) S(base64Decode(s, cs)); }
