#pragma once
#include "multi_buffer.h"
#define MD5_DIGEST_NWORDS 4
#ifdef __cplusplus
extern "C" {
#endif
VP_ISAL(MD5, md5, uint32_t, MD5_DIGEST_NWORDS, MD5_CTX)
#ifdef __cplusplus
}
#endif
