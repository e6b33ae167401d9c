/* Never executed: only its LLVM IR is read. The standard map is the stand-in in stub/unordered_map. */
#include <stddef.h>
#include "HashTable.h"
#include <new>
using namespace bd;
#define E extern "C"
/* A key or value whose moves are visible: what was moved from is -1 */
struct T {
  int v;
  T() : v(0) {}
  T(int x, int) : v(x) {}
  T(const T& o) : v(o.v) {}
  T(T&& o) noexcept : v(o.v) { o.v = -1; }
  T& operator=(const T& o) { v = o.v; return *this; }
  T& operator=(T&& o) noexcept { int x = o.v; o.v = -1; v = x; return *this; }
};
inline bool operator==(const T& a, const T& b) { return a.v == b.v; }
namespace std { template <> struct hash<T> { size_t operator()(const T& x) const { return x.v; } }; }
typedef HashTable<T, T> M;
typedef std::unordered_map<T, T> U;
E size_t h_off_has() { return __builtin_offsetof(U, has); }
E size_t h_off_oth() { return __builtin_offsetof(U, oth); }
E size_t h_off_n() { return __builtin_offsetof(U, n); }
E size_t h_off_key() { return __builtin_offsetof(U, obs); }
E size_t h_sizeof() { return sizeof(M); }
E bool h_insert_cc(M& m, const T& k, const T& v) { return m.insert(k, v); }
E bool h_insert_mc(M& m, T& k, const T& v) { return m.insert(std::move(k), v); }
E bool h_insert_cm(M& m, const T& k, T& v) { return m.insert(k, std::move(v)); }
E bool h_insert_mm(M& m, T& k, T& v) { return m.insert(std::move(k), std::move(v)); }
E bool h_contains(const M& m, const T& k) { return m.contains(k); }
E bool h_remove(M& m, const T& k) { return m.remove(k); }
E int h_getValue(const M& m, const T& k) { return m.getValue(k).v; }
E int h_cindex(const M& m, const T& k) { return m[k].v; }
E T* h_index(M& m, const T& k) { return &m[k]; }
E T* h_index_m(M& m, T& k) { return &m[std::move(k)]; }
E void h_index_set(M& m, const T& k, const T& v) { m[k] = v; }
E int h_index_get(M& m, const T& k) { return m[k].v; }
E const T* h_find(M& m, const T& k) { auto it = m.find(k); return it == m.end() ? nullptr : &it->second; }
E const T* h_cfind(const M& m, const T& k) { auto it = m.find(k); return it == m.end() ? nullptr : &it->second; }
E bool h_begin_end(M& m) { return m.begin() == m.end(); }
E bool h_cbegin_cend(const M& m) { return m.begin() == m.end() && m.cbegin() == m.cend(); }
E size_t h_size(const M& m) { return m.size(); }
E bool h_isEmpty(const M& m) { return m.isEmpty(); }
E bool h_bool(const M& m) { return bool(m); }
E void h_clear(M& m) { m.clear(); }
E void h_default(M* r) { new (r) M(); }
E void h_sized(M* r, size_t n) { new (r) M(n); }
E void h_copy(M* r, const M& m) { new (r) M(m); }
E void h_move(M* r, M& m) { new (r) M(std::move(m)); }
E void h_assign(M& m, const M& o) { m = o; }
E void h_massign(M& m, M& o) { m = std::move(o); }
E void h_swap(M& m, M& o) { swap(m, o); }
typedef std::initializer_list<M::value_type> L;
E void h_list(M* r, const M::value_type* p, size_t n) { new (r) M(L(p, n)); }
E void h_assign_list(M& m, const M::value_type* p, size_t n) { m = L(p, n); }
