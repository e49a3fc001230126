#pragma once
#include "standin.h"
#ifndef NO_MD4
// these report nothing
typedef struct { MD4_CTX c; } Md4;
inline void wc_InitMd4(Md4* s) { MD4_Init(&s->c); }
inline void wc_Md4Update(Md4* s, const byte* d, word32 n) { MD4_Update(&s->c, d, n); }
inline void wc_Md4Final(Md4* s, byte* out) { MD4_Final(out, &s->c); MD4_Init(&s->c); }
#endif
