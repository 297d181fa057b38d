#pragma once
#include <KeccakHash.h>
enum { SUCCESS = 0, FAIL = 1 };
