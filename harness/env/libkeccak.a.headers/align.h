#include <align.h>
