#pragma once
#include "multi_buffer.h"
#define SHA512_DIGEST_NWORDS 8
#ifdef __cplusplus
extern "C" {
#endif
VP_ISAL(SHA512, sha512, uint64_t, SHA512_DIGEST_NWORDS, SHA512_CTX)
#ifdef __cplusplus
}
#endif
