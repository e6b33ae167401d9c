/* Instantiates the containers for analysis.  Never executed: only its LLVM IR is read. */
#include "String.cpp"
#include "Array.h"
#include "HashTable.h"
#include "ReferenceCountedArray.cpp"
using namespace bd;

/* An element class with opaque special members. */
struct Elem {
  Elem(); Elem(const Elem&); Elem(Elem&&) noexcept; ~Elem();
  Elem& operator=(const Elem&); Elem& operator=(Elem&&) noexcept;
  bool operator==(const Elem&) const noexcept; bool operator!=(const Elem&) const noexcept;
  size_t v;
};
namespace std { template<> struct hash<Elem> { size_t operator()(const Elem&) const noexcept; }; }

typedef String S; typedef Array<long> AI; typedef Array<Elem> AE;
#define E extern "C"
/* The pointer if it can be written through, null if it is read-only. */
template <class T> inline T* wr(T* p) { return p; }
template <class T> inline T* wr(const T*) { return nullptr; }

#define COMMON(P, A, T) \
E void h_##P##_ctor_default(A* r) { new (r) A(); } \
E void h_##P##_ctor_copy(A* r, const A& b) { new (r) A(b); } \
E void h_##P##_ctor_move(A* r, A& b) { new (r) A(std::move(b)); } \
E void h_##P##_ctor_size(A* r, size_t n) { new (r) A(n); } \
E void h_##P##_ctor_fill(A* r, size_t n, const T* v) { new (r) A(n, *v); } \
E void h_##P##_ctor_ptr(A* r, const T* p, size_t n) { new (r) A(p, n); } \
E void h_##P##_ctor_il(A* r, const std::initializer_list<T>* il) { new (r) A(*il); } \
E void h_##P##_ctor_range(A* r, const T* f, const T* l) { new (r) A(f, l); } \
E size_t h_##P##_rcount(const A& a) { return a.rcount(); } \
E bool h_##P##_isShared(const A& a) { return a.isShared(); } \
E size_t h_##P##_sizeof() { return sizeof(A); } \
E void h_##P##_dtor(A& a) { a.A::~A(); } \
E void h_##P##_assign_copy(A& a, const A& b) { a = b; } \
E void h_##P##_assign_move(A& a, A& b) { a = std::move(b); } \
E void h_##P##_assign_il(A& a, const std::initializer_list<T>* il) { a = *il; } \
E void h_##P##_swap(A& a, A& b) { using std::swap; swap(a, b); } \
E void h_##P##_reserve(A& a, size_t n) { a.reserve(n); } \
E void h_##P##_clear(A& a) { a.clear(); } \
E size_t h_##P##_capacity(const A& a) { return a.capacity(); } \
E void h_##P##_resize(A& a, size_t n) { a.resize(n); } \
E void h_##P##_resize_fill(A& a, size_t n, const T* v) { a.resize(n, *v); } \
E size_t h_##P##_length(const A& a) { return a.length(); } \
E size_t h_##P##_size(const A& a) { return a.size(); } \
E bool h_##P##_isEmpty(const A& a) { return a.isEmpty(); } \
E bool h_##P##_not(const A& a) { return !a; } \
E bool h_##P##_bool(const A& a) { return static_cast<bool>(a); } \
E const T* h_##P##_data(const A& a) { return a.data(); } \
E T* h_##P##_mdata(A& a) { return a.mdata(); } \
E T* h_##P##_begin(A& a) { return a.begin(); } \
E T* h_##P##_end(A& a) { return a.end(); } \
E const T* h_##P##_cbegin(const A& a) { return a.cbegin(); } \
E const T* h_##P##_cend(const A& a) { return a.cend(); } \
E const T* h_##P##_begin_const(const A& a) { return a.begin(); } \
E const T* h_##P##_end_const(const A& a) { return a.end(); } \
E T* h_##P##_rbegin(A& a) { return a.rbegin().base(); } \
E T* h_##P##_rend(A& a) { return a.rend().base(); } \
E const T* h_##P##_crbegin(const A& a) { return a.crbegin().base(); } \
E const T* h_##P##_crend(const A& a) { return a.crend().base(); } \
E size_t h_##P##_hash(const A& a) { return a.hash(); } \
E size_t h_##P##_find_item(const A& a, const T* v) { return a.find(*v); } \
E size_t h_##P##_find_item_pos(const A& a, const T* v, size_t pos) { return a.find(*v, pos); } \
E size_t h_##P##_rfind_item(const A& a, const T* v) { return a.rfind(*v); } \
E const T* h_##P##_read_const(const A& a, size_t pos) { return &a.read(pos); } \
E const T* h_##P##_read(A& a, size_t pos) { return &a.read(pos); } \
E T* h_##P##_read_mut(A& a, size_t pos) { return wr(&a.read(pos)); } \
E const T* h_##P##_index_const(const A& a, size_t pos) { return &a[pos]; } \
E const T* h_##P##_at(const A& a, size_t pos) { return &a.at(pos); } \
E void h_##P##_write(A& a, size_t pos, const T* v) { a.write(pos, *v); } \
E void h_##P##_write_move(A& a, size_t pos, T* v) { a.write(pos, std::move(*v)); } \
E void h_##P##_cref_set(A& a, size_t pos, const T* v) { a[pos] = *v; } \
E void h_##P##_cref_set_move(A& a, size_t pos, T* v) { a[pos] = std::move(*v); } \
E void h_##P##_cref_copy(A& a, size_t pos, A& b, size_t q) { const auto c = b[q]; a[pos] = c; } \
E const T* h_##P##_cref_get(A& a, size_t pos) { return &a[pos].get(); } \
E T* h_##P##_cref_mget(A& a, size_t pos) { return &a[pos].mget(); } \
E void h_##P##_slice(A& a, ssize_t s, ssize_t l) { a.slice(s, l); } \
E void h_##P##_call_const(A* r, const A& a, ssize_t s, ssize_t l) { new (r) A(a(s, l)); } \
E void h_##P##_slice_get(A* r, A& a, ssize_t s, ssize_t l) { new (r) A(a(s, l).get()); } \
E void h_##P##_slice_conv(A* r, A& a, ssize_t s, ssize_t l) { new (r) A(static_cast<A>(a(s, l))); } \
E void h_##P##_slice_set(A& a, ssize_t s, ssize_t l, const A& b) { a(s, l) = b; } \
E void h_##P##_slice_set_move(A& a, ssize_t s, ssize_t l, A& b) { a(s, l) = std::move(b); } \
E void h_##P##_slice_set_slice(A& a, ssize_t s, ssize_t l, A& b, ssize_t s2, ssize_t l2) { const Slice<A> x(b, s2, l2); a(s, l) = x; } \
E void h_##P##_append_item(A& a, const T* v) { a.append(*v); } \
E void h_##P##_append_item_move(A& a, T* v) { a.append(std::move(*v)); } \
E void h_##P##_push_back(A& a, const T* v) { a.push_back(*v); } \
E void h_##P##_push_back_move(A& a, T* v) { a.push_back(std::move(*v)); } \
E T* h_##P##_front(A& a) { return &a.front(); } \
E const T* h_##P##_front_const(const A& a) { return &a.front(); } \
E T* h_##P##_back(A& a) { return &a.back(); } \
E const T* h_##P##_back_const(const A& a) { return &a.back(); } \
E void h_##P##_pop_back(A& a) { a.pop_back(); } \
E void h_##P##_append(A& a, const A& b) { a.append(b); } \
E void h_##P##_append_n(A& a, const A& b, size_t n) { a.append(b, n); } \
E void h_##P##_append_move(A& a, A& b) { a.append(std::move(b)); } \
E void h_##P##_append_move_n(A& a, A& b, size_t n) { a.append(std::move(b), n); } \
E T* h_##P##_insert_it(A& a, size_t k, const T* v) { return a.insert(a.cbegin() + k, *v); } \
E T* h_##P##_insert_it_move(A& a, size_t k, T* v) { return a.insert(a.cbegin() + k, std::move(*v)); } \
E T* h_##P##_insert_range(A& a, size_t k, const T* f, const T* l) { return a.insert(a.cbegin() + k, f, l); } \
E void h_##P##_insert(A& a, size_t pos, const A& b) { a.insert(pos, b); } \
E void h_##P##_insert_n(A& a, size_t pos, const A& b, size_t n) { a.insert(pos, b, n); } \
E void h_##P##_insert_move(A& a, size_t pos, A& b) { a.insert(pos, std::move(b)); } \
E void h_##P##_insert_move_n(A& a, size_t pos, A& b, size_t n) { a.insert(pos, std::move(b), n); } \
E void h_##P##_insert_item(A& a, size_t pos, const T* v) { a.insert(pos, *v); } \
E void h_##P##_insert_item_move(A& a, size_t pos, T* v) { a.insert(pos, std::move(*v)); } \
E void h_##P##_replace_item(A& a, size_t pos, const T* v) { a.replace(pos, *v); } \
E void h_##P##_replace_item_move(A& a, size_t pos, T* v) { a.replace(pos, std::move(*v)); } \
E void h_##P##_replace(A& a, size_t pos, const A& b) { a.replace(pos, b); } \
E void h_##P##_replace_n(A& a, size_t pos, const A& b, size_t n) { a.replace(pos, b, n); } \
E void h_##P##_replace_move(A& a, size_t pos, A& b) { a.replace(pos, std::move(b)); } \
E void h_##P##_replace_move_n(A& a, size_t pos, A& b, size_t n) { a.replace(pos, std::move(b), n); }

COMMON(S, S, char)
COMMON(AI, AI, long)
COMMON(AE, AE, Elem)

/* String only */
E void h_S_ctor_cstr(S* r, const char* p) { new (r) S(p); }
E void h_S_ctor_char(S* r, char c) { new (r) S(c); }
E void h_S_ctor_stdstring(S* r, const std::string& s) { new (r) S(s); }
E void h_S_assign_cstr(S& a, const char* p) { a = p; }
E void h_S_assign_stdstring(S& a, const std::string& s) { a = s; }
E const char* h_S_c_str(const S& a) { return a.c_str(); }
E const char* h_S_star(const S& a) { return *a; }
E char* h_S_dup(const S& a) { return a.dup(); }
E void h_S_to_stdstring(std::string* r, const S& a) { new (r) std::string(static_cast<std::string>(a)); }
E size_t h_S_copy(const S& a, char* d, size_t n) { return a.copy(d, n); }
E char h_S_charAt(const S& a, size_t p) { return a.charAt(p); }
E void h_S_substring(S* r, const S& a, ssize_t s, ssize_t l) { new (r) S(a.substring(s, l)); }
E int h_S_compare(const S& a, const S& b) { return a.compare(b); }
E int h_S_compare_n(const S& a, const S& b, size_t n) { return a.compare(b, n); }
E int h_S_compare_cstr(const S& a, const char* p) { return a.compare(p); }
E int h_S_compare_cstr_n(const S& a, const char* p, size_t n) { return a.compare(p, n); }
#define CMP(N, OP) E bool h_S_##N(const S& a, const S& b) { return a OP b; } \
 E bool h_S_##N##_cstr(const S& a, const char* b) { return a OP b; }
CMP(eq, ==) CMP(ne, !=) CMP(lt, <) CMP(le, <=) CMP(gt, >) CMP(ge, >=)
E void h_S_append_cstr(S& a, const char* p) { a.append(p); }
E void h_S_append_cstr_n(S& a, const char* p, size_t n) { a.append(p, n); }
E void h_S_insert_cstr(S& a, size_t pos, const char* p) { a.insert(pos, p); }
E void h_S_insert_cstr_n(S& a, size_t pos, const char* p, size_t n) { a.insert(pos, p, n); }
E void h_S_replace_cstr(S& a, size_t pos, const char* p) { a.replace(pos, p); }
E void h_S_replace_cstr_n(S& a, size_t pos, const char* p, size_t n) { a.replace(pos, p, n); }
E void h_S_pluseq_char(S& a, char c) { a += c; }
E void h_S_pluseq_cstr(S& a, const char* p) { a += p; }
E void h_S_pluseq(S& a, const S& b) { a += b; }
E void h_S_pluseq_move(S& a, S& b) { a += std::move(b); }
E void h_S_advance(S& a, size_t n) { a += n; }
E void h_S_retreat(S& a, size_t n) { a -= n; }
E void h_S_preinc(S& a) { ++a; }
E void h_S_postinc(S* r, S& a) { new (r) S(a++); }
E void h_S_predec(S& a) { --a; }
E void h_S_postdec(S* r, S& a) { new (r) S(a--); }
E void h_S_plus(S* r, const S& a, const S& b) { new (r) S(a + b); }
E size_t h_S_find(const S& a, const S& b) { return a.find(b); }
E size_t h_S_find_pos(const S& a, const S& b, size_t pos) { return a.find(b, pos); }
E size_t h_S_rfind(const S& a, const S& b, size_t lpos) { return a.rfind(b, lpos); }
E size_t h_S_ifind(const S& a, const S& b) { return a.ifind(b); }
E size_t h_S_rifind(const S& a, const S& b, size_t lpos) { return a.rifind(b, lpos); }
E void h_S_chomp(S& a) { a.chomp(); }
E void h_S_chomp_const(S* r, const S& a) { new (r) S(a.chomp()); }
E void h_S_trim(S& a) { a.trim(); }
E void h_S_trim_const(S* r, const S& a) { new (r) S(a.trim()); }
E void h_S_times(S* r, const S& a, int n) { new (r) S(a * n); }
E void h_S_newsplit(S* r, S& a, char d) { new (r) S(newsplit(a, d)); }
E void h_S_sub(S* r, const S& a, const S& b, const S& c, int limit) { new (r) S(a.sub(b, c, limit)); }
E void h_S_split(Array<String>* r, const S& a, const S& d, size_t limit) { new (r) Array<String>(a.split(d, limit)); }
E void h_S_getline(std::istream& is, S& a) { getline(is, a); }
E void h_S_extract(std::istream& is, S& a) { is >> a; }
E void h_S_stream_out(std::ostream& os, const S& a) { os << a; }
E void h_S_stream_out_move(std::ostream& os, S& a) { os << std::move(a); }
E size_t h_S_stdhash(const S& a) { return std::hash<S>()(a); }

/* Array only */
#define ARR(P, A, T) \
E void h_##P##_push_front(A& a, const T* v) { a.push_front(*v); } \
E void h_##P##_push_front_move(A& a, T* v) { a.push_front(std::move(*v)); } \
E void h_##P##_shl(A& a, const T* v) { a << *v; } \
E void h_##P##_shl_move(A& a, T* v) { a << std::move(*v); } \
E void h_##P##_shift(T* r, A& a) { new (r) T(a.shift()); } \
E void h_##P##_shift_rv(T* r, A& a) { new (r) T(std::move(a).shift()); } \
E void h_##P##_pop(T* r, A& a) { new (r) T(a.pop()); } \
E void h_##P##_pop_rv(T* r, A& a) { new (r) T(std::move(a).pop()); } \
E void h_##P##_shr(A& a, T& v) { a >> v; } \
E bool h_##P##_equals(const A& a, const A& b) { return a.equals(b); } \
E bool h_##P##_equals_n(const A& a, const A& b, size_t n) { return a.equals(b, n); } \
E bool h_##P##_eq(const A& a, const A& b) { return a == b; } \
E bool h_##P##_ne(const A& a, const A& b) { return a != b; } \
E void h_##P##_subarray(A* r, const A& a, ssize_t s, ssize_t l) { new (r) A(a.subarray(s, l)); } \
E void h_##P##_plus(A* r, const A& a, const A& b) { new (r) A(a + b); } \
E void h_##P##_postinc(A* r, A& a) { new (r) A(a++); } \
E void h_##P##_predec(A& a) { --a; } \
E void h_##P##_postdec(A* r, A& a) { new (r) A(a--); } \
E void h_##P##_pluseq_item(A& a, const T* v) { a += *v; } \
E void h_##P##_pluseq(A& a, const A& b) { a += b; } \
E size_t h_##P##_stdhash(const A& a) { return std::hash<A>()(a); }
ARR(AI, AI, long)
ARR(AE, AE, Elem)
E void h_AI_preinc(AI& a) { ++a; }
E void h_AI_pluseq_move(AI& a, AI& b) { a += std::move(b); }
E void h_AE_pluseq_move(AE& a, AE& b) { a += std::move(b); }
E void h_AE_preinc(AE& a) { ++a; }
E void h_AE_advance(AE& a, int n) { a += n; }
E void h_AE_retreat(AE& a, int n) { a -= n; }
