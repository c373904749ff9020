/* What a call of the library consumes: stack, heap, system services, work (M09, M10). Only in the builds made with MON_COST. */
#ifndef COST_H_
#define COST_H_
#include <stddef.h>
#include <stdint.h>

typedef struct {
    size_t stack;       /* bytes of stack below the caller, 0: not measured (the timer interrupted) */
    uint64_t work;      /* basic-block edges of the library plus bytes handled by libc on its behalf (MON_WORK builds) */
} cost;

#define COST_STACK_LIMIT 4096U

void cost_begin(void);
/* fails the case when the call used the heap, made a system call or exceeded COST_STACK_LIMIT */
cost cost_end(const char* name);
#endif
