#include <KeccakP-1600-times4-SnP.h>
