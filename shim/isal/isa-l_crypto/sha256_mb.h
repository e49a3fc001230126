#pragma once
#include "multi_buffer.h"
#define SHA256_DIGEST_NWORDS 8
#ifdef __cplusplus
extern "C" {
#endif
VP_ISAL(SHA256, sha256, uint32_t, SHA256_DIGEST_NWORDS, SHA256_CTX)
#ifdef __cplusplus
}
#endif
