#include <immintrin.h>
