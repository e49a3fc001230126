#pragma once
#include "windows.h"
#define STATUS_SUCCESS ((NTSTATUS)0x00000000L)
#define STATUS_NOT_FOUND ((NTSTATUS)0xC0000225L)
#define STATUS_INVALID_PARAMETER ((NTSTATUS)0xC000000DL)
#define STATUS_NO_MEMORY ((NTSTATUS)0xC0000017L)
#define STATUS_BUFFER_TOO_SMALL ((NTSTATUS)0xC0000023L)
#define STATUS_INVALID_HANDLE ((NTSTATUS)0xC0000008L)
#define STATUS_NOT_SUPPORTED ((NTSTATUS)0xC00000BBL)
