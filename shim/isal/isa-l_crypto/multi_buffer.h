// A stand-in of the multi-buffer interface of Intel's ISA-L crypto library, which is not in the sandbox: the same names,
// job states, flags and error rules.  A job that was submitted is only worked on when the lanes are full or on a
// flush, so its data has to stay valid until then, as with the original.  How many lanes there are and
// which of them is finished first is up to the explorer.
#pragma once
#include <stdint.h>
#include <openssl/md5.h>
#include <openssl/sha.h>
typedef enum { HASH_UPDATE = 0x00, HASH_FIRST = 0x01, HASH_LAST = 0x02, HASH_ENTIRE = 0x03 } HASH_CTX_FLAG;
typedef enum { HASH_CTX_STS_IDLE = 0x00, HASH_CTX_STS_PROCESSING = 0x01, HASH_CTX_STS_LAST = 0x02, HASH_CTX_STS_COMPLETE = 0x04 } HASH_CTX_STS;
typedef enum { HASH_CTX_ERROR_NONE = 0, HASH_CTX_ERROR_INVALID_FLAGS = -1, HASH_CTX_ERROR_ALREADY_PROCESSING = -2, HASH_CTX_ERROR_ALREADY_COMPLETED = -3 } HASH_CTX_ERROR;
#define hash_ctx_user_data(ctx) ((ctx)->user_data)
#define hash_ctx_digest(ctx) ((ctx)->job.result_digest)
#define hash_ctx_processing(ctx) ((ctx)->status & HASH_CTX_STS_PROCESSING)
#define hash_ctx_complete(ctx) ((ctx)->status == HASH_CTX_STS_COMPLETE)
#define hash_ctx_status(ctx) ((ctx)->status)
#define hash_ctx_error(ctx) ((ctx)->error)
#define hash_ctx_init(ctx) do { (ctx)->error = HASH_CTX_ERROR_NONE; (ctx)->status = HASH_CTX_STS_COMPLETE; } while (0)
#define VP_ISAL_LANES 16
#define VP_ISAL(NAME, name, WORD, NWORDS, STATE) \
    typedef struct { WORD result_digest[NWORDS]; STATE state; } NAME##_JOB; \
    typedef struct { NAME##_JOB job; HASH_CTX_STS status; HASH_CTX_ERROR error; uint64_t total_length; const void* incoming_buffer; uint32_t incoming_buffer_length; uint32_t partial_block_buffer_length; void* user_data; } NAME##_HASH_CTX; \
    typedef struct { NAME##_HASH_CTX* lane[VP_ISAL_LANES]; int used; } NAME##_HASH_CTX_MGR; \
    void name##_ctx_mgr_init(NAME##_HASH_CTX_MGR*); \
    NAME##_HASH_CTX* name##_ctx_mgr_submit(NAME##_HASH_CTX_MGR*, NAME##_HASH_CTX*, const void*, uint32_t, HASH_CTX_FLAG); \
    NAME##_HASH_CTX* name##_ctx_mgr_flush(NAME##_HASH_CTX_MGR*);
