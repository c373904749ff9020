#ifndef GUEST_STDIO_H_
#define GUEST_STDIO_H_
#include <stdarg.h>
#include <stddef.h>
int sprintf(char* p, const char* fmt, ...);
int snprintf(char* p, size_t n, const char* fmt, ...);
int vsnprintf(char* p, size_t n, const char* fmt, va_list ap);
#endif
