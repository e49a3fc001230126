#pragma once
#include "standin.h"
typedef struct { SHA_CTX c; } wc_Sha;
inline int wc_InitSha(wc_Sha* s) { if (!s) return BAD_FUNC_ARG; if (vp_fault::fail("wc_InitSha")) return MEMORY_E; return SHA1_Init(&s->c) == 1 ? 0 : MEMORY_E; }
inline int wc_ShaUpdate(wc_Sha* s, const byte* d, word32 n) { if (!s || (!d && n)) return BAD_FUNC_ARG; if (vp_fault::fail("wc_ShaUpdate")) return MEMORY_E; return SHA1_Update(&s->c, d, n) == 1 ? 0 : MEMORY_E; }
inline int wc_ShaFinal(wc_Sha* s, byte* out) { if (!s || !out) return BAD_FUNC_ARG; if (vp_fault::fail("wc_ShaFinal")) return MEMORY_E; if (SHA1_Final(out, &s->c) != 1) return MEMORY_E; return wc_InitSha(s); }
inline void wc_ShaFree(wc_Sha*) {}
inline int wc_ShaCopy(wc_Sha* s, wc_Sha* t) { if (vp_fault::fail("wc_ShaCopy")) return MEMORY_E; *t = *s; return 0; }
