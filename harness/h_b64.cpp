/* Never executed: only its LLVM IR is read. */
#include "base64.cpp"
#define E extern "C"
typedef const unsigned char* U;
E void h_enc_buf(U d, size_t* len, char* dest, const char* cs) { bd::b64enc_buf(d, len, dest, cs); }
E void h_dec_buf(U d, size_t* len, char* dest, const char* ix) { bd::b64dec_buf(d, len, dest, ix); }
E char* h_enc(U d, size_t* len, const char* cs) { return bd::b64enc(d, len, cs); }
E char* h_dec(U d, size_t* len, const char* cs) { return bd::b64dec(d, len, cs); }
E char* h_round(U d, size_t* len, const char* cs, char** mid, size_t* midlen) { *mid = bd::b64enc(d, len, cs); *midlen = *len; return bd::b64dec(reinterpret_cast<U>(*mid), len, cs); }
E void h_Encode(void* r, const bd::String* s, const char* cs) { new (r) bd::String(bd::base64Encode(*s, cs)); }
E void h_Decode(void* r, const bd::String* s, const char* cs) { new (r) bd::String(bd::base64Decode(*s, cs)); }
