/* Never executed: only its LLVM IR is read. */
#include "String.cpp"
#include "ReferenceCountedArray.cpp"
#include "Array.h"
#include <new>
using namespace bd;
#define E extern "C"
typedef String S;
E size_t h_S_sizeof() { return sizeof(S); }
E void h_S_ctor_default(S* r) { new (r) S(); }
E void h_S_ctor_size(S* r, size_t n) { new (r) S(n); }
E size_t h_S_length(const S& a) { return a.length(); }
E const char* h_S_data(const S& a) { return a.data(); }
E size_t h_S_capacity(const S& a) { return a.capacity(); }
E size_t h_S_rcount(const S& a) { return a.rcount(); }
E size_t h_S_hash(const S& a) { return a.hash(); }
E size_t h_list_len(const Array<S>& a) { return a.length(); }
E const S* h_list_at(const Array<S>& a, size_t i) { return a.data() + i; }
E size_t h_list_sizeof() { return sizeof(Array<S>); }
/* text utilities */
E void h_chomp(S& a) { a.chomp(); }
E void h_chomp_c(S* r, const S& a) { new (r) S(a.chomp()); }
E void h_trim(S& a) { a.trim(); }
E void h_trim_c(S* r, const S& a) { new (r) S(a.trim()); }
E void h_times(S* r, const S& a, int n) { new (r) S(a * n); }
E void h_newsplit(S* r, S& a, char d) { new (r) S(newsplit(a, d)); }
E void h_sub(S* r, const S& a, const S& b, const S& c, int limit) { new (r) S(a.sub(b, c, limit)); }
E void h_split(Array<S>* r, const S& a, const S& d, size_t limit) { new (r) Array<S>(a.split(d, limit)); }
E void h_join0(S* r, const S& d, bool q) { Array<S> v; new (r) S(v.join(d, q)); }
E void h_join1(S* r, const S& d, bool q, const S& a) { Array<S> v; v << a; new (r) S(v.join(d, q)); }
E void h_join2(S* r, const S& d, bool q, const S& a, const S& b) { Array<S> v; v << a; v << b; new (r) S(v.join(d, q)); }
E void h_join3(S* r, const S& d, bool q, const S& a, const S& b, const S& c) { Array<S> v; v << a; v << b; v << c; new (r) S(v.join(d, q)); }
E void h_getline(std::istream& is, S& a) { getline(is, a); }
E void h_extract(std::istream& is, S& a) { is >> a; }
E void h_out(std::ostream& os, const S& a) { os << a; }
E void h_out_move(std::ostream& os, S& a) { os << std::move(a); }
