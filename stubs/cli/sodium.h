#pragma once
#include <cstddef>
extern "C" void randombytes_buf(void* buf, size_t size);
inline int sodium_init() { return 0; }
