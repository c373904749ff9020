#include <stddef.h>
#include <stdint.h>
typedef __PTRDIFF_TYPE__ ssize_t;
