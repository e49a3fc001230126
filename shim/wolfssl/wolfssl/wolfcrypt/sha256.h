#pragma once
#include "standin.h"
typedef struct { SHA256_CTX c; } wc_Sha256;
inline int wc_InitSha256(wc_Sha256* s) { if (!s) return BAD_FUNC_ARG; if (vp_fault::fail("wc_InitSha256")) return MEMORY_E; return SHA256_Init(&s->c) == 1 ? 0 : MEMORY_E; }
inline int wc_Sha256Update(wc_Sha256* s, const byte* d, word32 n) { if (!s || (!d && n)) return BAD_FUNC_ARG; if (vp_fault::fail("wc_Sha256Update")) return MEMORY_E; return SHA256_Update(&s->c, d, n) == 1 ? 0 : MEMORY_E; }
inline int wc_Sha256Final(wc_Sha256* s, byte* out) { if (!s || !out) return BAD_FUNC_ARG; if (vp_fault::fail("wc_Sha256Final")) return MEMORY_E; if (SHA256_Final(out, &s->c) != 1) return MEMORY_E; return wc_InitSha256(s); }
inline void wc_Sha256Free(wc_Sha256*) {}
inline int wc_Sha256Copy(wc_Sha256* s, wc_Sha256* t) { if (vp_fault::fail("wc_Sha256Copy")) return MEMORY_E; *t = *s; return 0; }
