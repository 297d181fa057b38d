#pragma once
#include <oqs/common.h>
void OQS_randombytes(uint8_t*, size_t);
