#pragma once
#define LIBWOLFSSL_VERSION_STRING "5.0.0"
