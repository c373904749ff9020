#ifndef GUEST_STDLIB_H_
#define GUEST_STDLIB_H_
#include <stddef.h>
void* malloc(size_t n);
void* calloc(size_t n, size_t m);
void free(void* p);
void abort(void) __attribute__((noreturn));
int abs(int v);
long labs(long v);
unsigned long strtoul(const char* s, char** end, int base);
long strtol(const char* s, char** end, int base);
int atoi(const char* s);
#endif
