#pragma once
#include "standin.h"
typedef struct { MD5_CTX c; } wc_Md5;
inline int wc_InitMd5(wc_Md5* s) { if (!s) return BAD_FUNC_ARG; if (vp_fault::fail("wc_InitMd5")) return MEMORY_E; return MD5_Init(&s->c) == 1 ? 0 : MEMORY_E; }
inline int wc_Md5Update(wc_Md5* s, const byte* d, word32 n) { if (!s || (!d && n)) return BAD_FUNC_ARG; if (vp_fault::fail("wc_Md5Update")) return MEMORY_E; return MD5_Update(&s->c, d, n) == 1 ? 0 : MEMORY_E; }
inline int wc_Md5Final(wc_Md5* s, byte* out) { if (!s || !out) return BAD_FUNC_ARG; if (vp_fault::fail("wc_Md5Final")) return MEMORY_E; if (MD5_Final(out, &s->c) != 1) return MEMORY_E; return wc_InitMd5(s); }
inline void wc_Md5Free(wc_Md5*) {}
inline int wc_Md5Copy(wc_Md5* s, wc_Md5* t) { if (vp_fault::fail("wc_Md5Copy")) return MEMORY_E; *t = *s; return 0; }
