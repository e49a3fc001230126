#pragma once
// Stand-in of the Windows types WinCNG's interface uses.
#include <cstdint>
typedef std::uint32_t ULONG, DWORD; typedef std::int32_t LONG, NTSTATUS; typedef unsigned char BYTE, UCHAR; typedef BYTE* PBYTE; typedef UCHAR* PUCHAR; typedef void* PVOID; typedef const wchar_t* LPCWSTR;
