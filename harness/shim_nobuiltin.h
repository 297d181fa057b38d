/* a compiler without the builtins asked for by version or __has_builtin (vector extensions stay) */
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <stdio.h>
#if defined(__x86_64__)
#include <immintrin.h>
#endif
#if defined(__cplusplus)
#include <string>
#include <vector>
#include <functional>
#include <memory>
#include <map>
#include <set>
#include <random>
#include <algorithm>
#include <thread>
#include <fstream>
#include <sstream>
#include <iostream>
#endif
#include "macros.h"
#undef GNUC_CHECK
#define GNUC_CHECK(a, b) 0
#undef __has_builtin
#define __has_builtin(b) 0
