/* Never executed: only its LLVM IR is read. */
#include "String.cpp"
#include "ReferenceCountedArray.cpp"
#include "Array.h"
#include <new>
using namespace bd;
#define E extern "C"
typedef String S; typedef Array<int> AI;
E size_t h_S_sizeof() { return sizeof(S); }
E void h_S_ctor_default(S* r) { new (r) S(); }
E void h_S_ctor_size(S* r, size_t n) { new (r) S(n); }
E size_t h_S_length(const S& a) { return a.length(); }
E const char* h_S_data(const S& a) { return a.data(); }
E size_t h_S_capacity(const S& a) { return a.capacity(); }
E size_t h_S_rcount(const S& a) { return a.rcount(); }
E size_t h_S_hash(const S& a) { return a.hash(); }
E size_t h_AI_sizeof() { return sizeof(AI); }
E void h_AI_ctor_default(AI* r) { new (r) AI(); }
E void h_AI_ctor_size(AI* r, size_t n) { new (r) AI(n); }
E size_t h_AI_length(const AI& a) { return a.length(); }
E const int* h_AI_data(const AI& a) { return a.data(); }
E size_t h_AI_capacity(const AI& a) { return a.capacity(); }
E size_t h_AI_rcount(const AI& a) { return a.rcount(); }
E size_t h_AI_hash(const AI& a) { return a.hash(); }
/* comparisons */
E int h_cmp(const S& a, const S& b) { return a.compare(b); }
E int h_cmp_n(const S& a, const S& b, size_t n) { return a.compare(b, n); }
E int h_cmp_c(const S& a, const char* b) { return a.compare(b); }
E int h_cmp_cn(const S& a, const char* b, size_t n) { return a.compare(b, n); }
#define OP(n, o) E bool h_##n(const S& a, const S& b) { return a o b; } \
  E bool h_##n##_c(const S& a, const char* b) { return a o b; } \
  E bool h_c_##n(const char* a, const S& b) { return a o b; }
OP(eq, ==) OP(ne, !=) OP(lt, <) OP(le, <=) OP(gt, >) OP(ge, >=)
E bool h_AI_eq(const AI& a, const AI& b) { return a == b; }
E bool h_AI_ne(const AI& a, const AI& b) { return a != b; }
E bool h_AI_equals(const AI& a, const AI& b) { return a.equals(b); }
E bool h_AI_equals_n(const AI& a, const AI& b, size_t n) { return a.equals(b, n); }
/* searches */
E void h_append_n(S& a, const char* p, size_t n) { a.append(p, n); }
E size_t h_find_c(const S& a, char c) { return a.find(c); }
E size_t h_find_c_pos(const S& a, char c, size_t p) { return a.find(c, p); }
E size_t h_rfind_c(const S& a, char c) { return a.rfind(c); }
E size_t h_find(const S& a, const S& b) { return a.find(b); }
E size_t h_find_pos(const S& a, const S& b, size_t p) { return a.find(b, p); }
E size_t h_rfind(const S& a, const S& b) { return a.rfind(b); }
E size_t h_rfind_pos(const S& a, const S& b, size_t p) { return a.rfind(b, p); }
E size_t h_ifind(const S& a, const S& b) { return a.ifind(b); }
E size_t h_rifind(const S& a, const S& b) { return a.rifind(b); }
E size_t h_rifind_pos(const S& a, const S& b, size_t p) { return a.rifind(b, p); }
E size_t h_AI_find(const AI& a, const int& c) { return a.find(c); }
E size_t h_AI_find_pos(const AI& a, const int& c, size_t p) { return a.find(c, p); }
E size_t h_AI_rfind(const AI& a, const int& c) { return a.rfind(c); }
