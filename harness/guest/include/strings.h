#include <string.h>
