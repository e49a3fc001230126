#include "bcrypt.h"
#include "../fault.hpp"
#include <openssl/md4.h>
#include <openssl/md5.h>
#include <openssl/sha.h>
#include <cstring>
#include <cwchar>
#include <new>
namespace {
enum alg { md4, md5, sha1, sha256, sha384, sha512 };
struct provider { unsigned magic = 0xA161; alg a; ULONG flags; int hashes = 0; };
struct hash {
    unsigned magic = 0x4A54; provider* p; bool reusable, done = false, own;
    union { MD4_CTX m4; MD5_CTX m5; SHA_CTX s1; SHA256_CTX s2; SHA512_CTX s5; };
    void init() { switch (p->a) { case md4: MD4_Init(&m4); break; case md5: MD5_Init(&m5); break; case sha1: SHA1_Init(&s1); break; case sha256: SHA256_Init(&s2); break; case sha384: SHA384_Init(&s5); break; case sha512: SHA512_Init(&s5); } }
};
const struct { const wchar_t* name; alg a; ULONG size; } ALGS[] = {{L"MD4", md4, 16}, {L"MD5", md5, 16}, {L"SHA1", sha1, 20}, {L"SHA256", sha256, 32}, {L"SHA384", sha384, 48}, {L"SHA512", sha512, 64}};
ULONG size_of(alg a) { for (auto& x : ALGS) if (x.a == a) return x.size; return 0; }
provider* prov(void* h) { auto p = static_cast<provider*>(h); return p && p->magic == 0xA161 ? p : nullptr; }
hash* hsh(void* h) { auto p = static_cast<hash*>(h); return p && p->magic == 0x4A54 ? p : nullptr; }
}
NTSTATUS BCryptOpenAlgorithmProvider(BCRYPT_ALG_HANDLE* h, LPCWSTR name, LPCWSTR, ULONG flags)
{
    if (!h || !name) return STATUS_INVALID_PARAMETER;
    if (vp_fault::fail("BCryptOpenAlgorithmProvider")) return STATUS_NO_MEMORY;
    for (auto& x : ALGS) if (!std::wcscmp(x.name, name)) { *h = new provider{.a = x.a, .flags = flags}; vp_fault::opened("provider"); return STATUS_SUCCESS; }
    return STATUS_NOT_FOUND;
}
NTSTATUS BCryptCloseAlgorithmProvider(BCRYPT_ALG_HANDLE h, ULONG)
{
    auto p = prov(h); if (!p) return STATUS_INVALID_HANDLE;
    p->magic = 0; delete p; vp_fault::closed("provider"); return STATUS_SUCCESS;
}
NTSTATUS BCryptGetProperty(BCRYPT_HANDLE h, LPCWSTR name, PUCHAR out, ULONG n, ULONG* got, ULONG)
{
    auto p = prov(h); if (!p) return STATUS_INVALID_HANDLE;
    if (vp_fault::fail("BCryptGetProperty")) return STATUS_NO_MEMORY;
    ULONG v;
    if (!std::wcscmp(name, BCRYPT_OBJECT_LENGTH)) v = sizeof(hash); else if (!std::wcscmp(name, BCRYPT_HASH_LENGTH)) v = size_of(p->a); else return STATUS_NOT_SUPPORTED;
    if (n < sizeof v) return STATUS_BUFFER_TOO_SMALL;
    std::memcpy(out, &v, sizeof v); *got = sizeof v; return STATUS_SUCCESS;
}
NTSTATUS BCryptCreateHash(BCRYPT_ALG_HANDLE ph, BCRYPT_HASH_HANDLE* h, PUCHAR obj, ULONG n, PUCHAR, ULONG, ULONG flags)
{
    auto p = prov(ph); if (!p) return STATUS_INVALID_HANDLE;
    if (vp_fault::fail("BCryptCreateHash")) return STATUS_NO_MEMORY;
    bool own = obj == nullptr;
    if (!own && n < sizeof(hash)) return STATUS_BUFFER_TOO_SMALL;
    if (own) obj = static_cast<PUCHAR>(::operator new(sizeof(hash)));
    auto x = new (obj) hash{.p = p, .reusable = ((flags | p->flags) & BCRYPT_HASH_REUSABLE_FLAG) != 0, .own = own};
    x->init(); *h = x; vp_fault::opened("hash"); return STATUS_SUCCESS;
}
NTSTATUS BCryptHashData(BCRYPT_HASH_HANDLE h, PUCHAR d, ULONG n, ULONG)
{
    auto x = hsh(h); if (!x) return STATUS_INVALID_HANDLE;
    if (x->done) return STATUS_INVALID_HANDLE;
    if (vp_fault::fail("BCryptHashData")) return STATUS_NO_MEMORY;
    switch (x->p->a) { case md4: MD4_Update(&x->m4, d, n); break; case md5: MD5_Update(&x->m5, d, n); break; case sha1: SHA1_Update(&x->s1, d, n); break; case sha256: SHA256_Update(&x->s2, d, n); break; case sha384: SHA384_Update(&x->s5, d, n); break; case sha512: SHA512_Update(&x->s5, d, n); }
    return STATUS_SUCCESS;
}
NTSTATUS BCryptFinishHash(BCRYPT_HASH_HANDLE h, PUCHAR out, ULONG n, ULONG)
{
    auto x = hsh(h); if (!x) return STATUS_INVALID_HANDLE;
    if (x->done) return STATUS_INVALID_HANDLE;
    if (n != size_of(x->p->a)) return STATUS_INVALID_PARAMETER;
    if (vp_fault::fail("BCryptFinishHash")) return STATUS_NO_MEMORY;
    switch (x->p->a) { case md4: MD4_Final(out, &x->m4); break; case md5: MD5_Final(out, &x->m5); break; case sha1: SHA1_Final(out, &x->s1); break; case sha256: SHA256_Final(out, &x->s2); break; case sha384: SHA384_Final(out, &x->s5); break; case sha512: SHA512_Final(out, &x->s5); }
    if (x->reusable) x->init(); else x->done = true;
    return STATUS_SUCCESS;
}
NTSTATUS BCryptDuplicateHash(BCRYPT_HASH_HANDLE h, BCRYPT_HASH_HANDLE* to, PUCHAR obj, ULONG n, ULONG)
{
    auto x = hsh(h); if (!x) return STATUS_INVALID_HANDLE;
    if (vp_fault::fail("BCryptDuplicateHash")) return STATUS_NO_MEMORY;
    bool own = obj == nullptr;
    if (!own && n < sizeof(hash)) return STATUS_BUFFER_TOO_SMALL;
    if (own) obj = static_cast<PUCHAR>(::operator new(sizeof(hash)));
    auto y = new (obj) hash(*x); y->own = own; *to = y; vp_fault::opened("hash"); return STATUS_SUCCESS;
}
NTSTATUS BCryptDestroyHash(BCRYPT_HASH_HANDLE h)
{
    auto x = hsh(h); if (!x) return STATUS_INVALID_HANDLE;
    x->magic = 0; if (x->own) ::operator delete(x); vp_fault::closed("hash"); return STATUS_SUCCESS;
}
