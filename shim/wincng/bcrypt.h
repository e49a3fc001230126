#pragma once
// Stand-in of the part of bcrypt.h for message digests: providers and hashes are handles, the state of a hash lies in
// the object the caller supplies, lengths have 32 bits, the output has to have exactly the size of the digest.
#include "windows.h"
#include "ntstatus.h"
typedef PVOID BCRYPT_HANDLE, BCRYPT_ALG_HANDLE, BCRYPT_HASH_HANDLE;
#define BCRYPT_SUCCESS(s) (((NTSTATUS)(s)) >= 0)
#define BCRYPT_HASH_REUSABLE_FLAG 0x00000020
#define BCRYPT_OBJECT_LENGTH L"ObjectLength"
#define BCRYPT_HASH_LENGTH L"HashDigestLength"
#define BCRYPT_MD2_ALGORITHM L"MD2"
#define BCRYPT_MD4_ALGORITHM L"MD4"
#define BCRYPT_MD5_ALGORITHM L"MD5"
#define BCRYPT_SHA1_ALGORITHM L"SHA1"
#define BCRYPT_SHA256_ALGORITHM L"SHA256"
#define BCRYPT_SHA384_ALGORITHM L"SHA384"
#define BCRYPT_SHA512_ALGORITHM L"SHA512"
NTSTATUS BCryptOpenAlgorithmProvider(BCRYPT_ALG_HANDLE*, LPCWSTR, LPCWSTR, ULONG);
NTSTATUS BCryptCloseAlgorithmProvider(BCRYPT_ALG_HANDLE, ULONG);
NTSTATUS BCryptGetProperty(BCRYPT_HANDLE, LPCWSTR, PUCHAR, ULONG, ULONG*, ULONG);
NTSTATUS BCryptCreateHash(BCRYPT_ALG_HANDLE, BCRYPT_HASH_HANDLE*, PUCHAR, ULONG, PUCHAR, ULONG, ULONG);
NTSTATUS BCryptHashData(BCRYPT_HASH_HANDLE, PUCHAR, ULONG, ULONG);
NTSTATUS BCryptFinishHash(BCRYPT_HASH_HANDLE, PUCHAR, ULONG, ULONG);
NTSTATUS BCryptDuplicateHash(BCRYPT_HASH_HANDLE, BCRYPT_HASH_HANDLE*, PUCHAR, ULONG, ULONG);
NTSTATUS BCryptDestroyHash(BCRYPT_HASH_HANDLE);
