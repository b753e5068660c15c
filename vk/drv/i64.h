#include <stdint.h>
#include <inttypes.h>
#define int32_t int64_t
