#pragma once
#include <openssl/md4.h>
#include <openssl/md5.h>
#include <openssl/sha.h>
#include "../../../fault.hpp"
typedef unsigned char byte;
typedef unsigned int word32;
enum { BAD_FUNC_ARG = -173, MEMORY_E = -125 };
