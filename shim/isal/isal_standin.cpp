// Definitions of the stand-in of ISA-L crypto; see isa-l_crypto/multi_buffer.h.
#include "isa-l_crypto.h"
#include "isal_standin.hpp"
#include <cstring>
#include <type_traits>
namespace isal_standin { int lanes = 4, order = 0; unsigned long misuse = 0; }
namespace {
struct md5_alg { using state = MD5_CTX; static constexpr unsigned block = 64; static void init(state& s) { MD5_Init(&s); } static void update(state& s, const void* p, size_t n) { MD5_Update(&s, p, n); } static void end(state& s, uint32_t* w) { unsigned char d[16]; MD5_Final(d, &s); std::memcpy(w, d, 16); } };
template <class S, int N> void words32(const unsigned char* d, uint32_t* w) { for (int i = 0; i < N; ++i) w[i] = uint32_t(d[4 * i]) << 24 | uint32_t(d[4 * i + 1]) << 16 | uint32_t(d[4 * i + 2]) << 8 | d[4 * i + 3]; }
struct sha1_alg { using state = SHA_CTX; static constexpr unsigned block = 64; static void init(state& s) { SHA1_Init(&s); } static void update(state& s, const void* p, size_t n) { SHA1_Update(&s, p, n); } static void end(state& s, uint32_t* w) { unsigned char d[20]; SHA1_Final(d, &s); words32<state, 5>(d, w); } };
struct sha256_alg { using state = SHA256_CTX; static constexpr unsigned block = 64; static void init(state& s) { SHA256_Init(&s); } static void update(state& s, const void* p, size_t n) { SHA256_Update(&s, p, n); } static void end(state& s, uint32_t* w) { unsigned char d[32]; SHA256_Final(d, &s); words32<state, 8>(d, w); } };
struct sha512_alg { using state = SHA512_CTX; static constexpr unsigned block = 128; static void init(state& s) { SHA512_Init(&s); } static void update(state& s, const void* p, size_t n) { SHA512_Update(&s, p, n); } static void end(state& s, uint64_t* w) { unsigned char d[64]; SHA512_Final(d, &s); for (int i = 0; i < 8; ++i) { w[i] = 0; for (int k = 0; k < 8; ++k) w[i] = w[i] << 8 | d[8 * i + k]; } } };

template <class A, class C> void work(C* c)
{
    if (c->incoming_buffer_length) { volatile char touch = static_cast<const char*>(c->incoming_buffer)[0]; touch = static_cast<const char*>(c->incoming_buffer)[c->incoming_buffer_length - 1]; (void)touch; }
    A::update(c->job.state, c->incoming_buffer, c->incoming_buffer_length);
    c->incoming_buffer = nullptr; c->incoming_buffer_length = 0;
    if (c->status & HASH_CTX_STS_LAST) { A::end(c->job.state, c->job.result_digest); c->status = HASH_CTX_STS_COMPLETE; }
    else c->status = HASH_CTX_STS_IDLE;
}
template <class A, class M> auto finish_one(M* m) -> std::remove_reference_t<decltype(m->lane[0])>
{
    if (!m->used) return nullptr;
    int k = 0;
    if (isal_standin::order == 1) k = m->used - 1;
    if (isal_standin::order == 2) for (int i = 1; i < m->used; ++i) if (m->lane[i]->incoming_buffer_length < m->lane[k]->incoming_buffer_length) k = i;
    auto* c = m->lane[k];
    for (int i = k + 1; i < m->used; ++i) m->lane[i - 1] = m->lane[i];
    --m->used;
    work<A>(c);
    return c;
}
template <class A, class M, class C> C* submit(M* m, C* c, const void* p, uint32_t n, HASH_CTX_FLAG f)
{
    if (f & ~HASH_ENTIRE) { c->error = HASH_CTX_ERROR_INVALID_FLAGS; ++isal_standin::misuse; return c; }
    if (c->status & HASH_CTX_STS_PROCESSING) { c->error = HASH_CTX_ERROR_ALREADY_PROCESSING; ++isal_standin::misuse; return c; }
    if ((c->status & HASH_CTX_STS_COMPLETE) && !(f & HASH_FIRST)) { c->error = HASH_CTX_ERROR_ALREADY_COMPLETED; ++isal_standin::misuse; return c; }
    if (f & HASH_FIRST) { A::init(c->job.state); c->total_length = 0; std::memset(c->job.result_digest, 0xA5, sizeof c->job.result_digest); }
    c->error = HASH_CTX_ERROR_NONE;
    c->incoming_buffer = p; c->incoming_buffer_length = n;
    c->status = HASH_CTX_STS(HASH_CTX_STS_PROCESSING | (f & HASH_LAST ? HASH_CTX_STS_LAST : 0));
    bool small = !(f & HASH_LAST) && c->total_length % A::block + n < A::block;      // only buffered
    c->total_length += n;
    if (small) { work<A>(c); return c; }
    m->lane[m->used++] = c;
    return m->used >= isal_standin::lanes ? finish_one<A>(m) : nullptr;
}
}
#define DEF(NAME, name) \
    void name##_ctx_mgr_init(NAME##_HASH_CTX_MGR* m) { m->used = 0; } \
    NAME##_HASH_CTX* name##_ctx_mgr_submit(NAME##_HASH_CTX_MGR* m, NAME##_HASH_CTX* c, const void* p, uint32_t n, HASH_CTX_FLAG f) { return submit<name##_alg>(m, c, p, n, f); } \
    NAME##_HASH_CTX* name##_ctx_mgr_flush(NAME##_HASH_CTX_MGR* m) { return finish_one<name##_alg>(m); }
extern "C" {
DEF(MD5, md5)
DEF(SHA1, sha1)
DEF(SHA256, sha256)
DEF(SHA512, sha512)
}
