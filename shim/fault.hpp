#pragma once
// Asked by the stand-ins of cryptographic libraries before every call: true if this call has to fail.
namespace vp_fault { bool fail(const char* call); void opened(const char* what); void closed(const char* what); }
