#pragma once
#include <stdint.h>
static inline uint32_t byteswap32(uint32_t x) { return __builtin_bswap32(x); }
static inline uint64_t byteswap64(uint64_t x) { return __builtin_bswap64(x); }
#define to_be32(x) byteswap32(x)
#define to_be64(x) byteswap64(x)
#define to_le32(x) (x)
#define to_le64(x) (x)
