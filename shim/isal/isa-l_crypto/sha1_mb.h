#pragma once
#include "multi_buffer.h"
#define SHA1_DIGEST_NWORDS 5
#ifdef __cplusplus
extern "C" {
#endif
VP_ISAL(SHA1, sha1, uint32_t, SHA1_DIGEST_NWORDS, SHA_CTX)
#ifdef __cplusplus
}
#endif
