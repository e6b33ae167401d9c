/* Never executed: only its LLVM IR is read. */
#include "Cstrings.cpp"
#define E extern "C"
E size_t h_strlcpy(char* d, const char* s, size_t n) { return bd::strlcpy(d, s, n); }
E size_t h_strlcat(char* d, const char* s, size_t n) { return bd::strlcat(d, s, n); }
E char* h_strdup(const char* s) { return bd::strdup(s); }
E char* h_strldup(const char* s, size_t n) { return bd::strldup(s, n); }
E void h_str_redup(char** p, const char* s) { bd::str_redup(p, s); }
E void* h_calloc(size_t n, size_t m) { return bd::calloc(n, m); }
E void* h_realloc(void* p, size_t n) { return bd::realloc(p, n); }
