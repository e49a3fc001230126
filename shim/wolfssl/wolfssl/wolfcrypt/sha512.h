#pragma once
#include "standin.h"
typedef struct { SHA512_CTX c; } wc_Sha512;
inline int wc_InitSha512(wc_Sha512* s) { if (!s) return BAD_FUNC_ARG; if (vp_fault::fail("wc_InitSha512")) return MEMORY_E; return SHA512_Init(&s->c) == 1 ? 0 : MEMORY_E; }
inline int wc_Sha512Update(wc_Sha512* s, const byte* d, word32 n) { if (!s || (!d && n)) return BAD_FUNC_ARG; if (vp_fault::fail("wc_Sha512Update")) return MEMORY_E; return SHA512_Update(&s->c, d, n) == 1 ? 0 : MEMORY_E; }
inline int wc_Sha512Final(wc_Sha512* s, byte* out) { if (!s || !out) return BAD_FUNC_ARG; if (vp_fault::fail("wc_Sha512Final")) return MEMORY_E; if (SHA512_Final(out, &s->c) != 1) return MEMORY_E; return wc_InitSha512(s); }
inline void wc_Sha512Free(wc_Sha512*) {}
inline int wc_Sha512Copy(wc_Sha512* s, wc_Sha512* t) { if (vp_fault::fail("wc_Sha512Copy")) return MEMORY_E; *t = *s; return 0; }
