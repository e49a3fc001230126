#pragma once
// Stand-in of wolfSSL's interface to message digests, on OpenSSL's digests. A default build of wolfSSL has no MD4.
#ifndef VP_WOLFSSL_MD4
#define NO_MD4
#endif
