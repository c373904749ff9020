/* Program for another machine: runs one operation of ops.c with the choices the monitor sends and answers with the digests
 * of the results. The monitor (../machine.c) calls guest_serve in an interpreter, or talks to a process through pipes. */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "../cost.h"
#include "../machine.h"
#include "../ops.h"
#include "../rng.h"

uint8_t guest_in[MACHINE_IN] __attribute__((aligned(16)));
uint8_t guest_out[MACHINE_OUT] __attribute__((aligned(16)));
bool mon_thorough;
uint64_t mon_seed;
extern size_t guest_heap_used;

static uint64_t idx;
static uint64_t place;

static uint32_t
get32(const uint8_t* p) {
    return (uint32_t)p[0] | ((uint32_t)p[1] << 8) | ((uint32_t)p[2] << 16) | ((uint32_t)p[3] << 24);
}

static uint64_t
get64(const uint8_t* p) {
    return (uint64_t)get32(p) | ((uint64_t)get32(p + 4) << 32);
}

static void
put32(uint8_t* p, uint32_t v) {
    for (unsigned i = 0; i < 4U; ++i) {
        p[i] = (uint8_t)(v >> (8U * i));
    }
}

static void
put64(uint8_t* p, uint64_t v) {
    put32(p, (uint32_t)v);
    put32(p + 4, (uint32_t)(v >> 32));
}

#ifdef __i386__
static int
sys(int nr, int a, void* b, size_t c) {
    int r;
    __asm__ volatile("int $0x80" : "=a"(r) : "a"(nr), "b"(a), "c"(b), "d"(c) : "memory");
    return r;
}

static void
transfer(int nr, int fd, uint8_t* p, size_t n) {
    while (n > 0) {
        int r = sys(nr, fd, p, n);
        if (r == -4) {
            continue;
        }
        if (r <= 0) {
            (void)sys(1, 0, NULL, 0);
        }
        p += r;
        n -= (size_t)r;
    }
}

#endif

/* ------------------------------------------------------------------ what ops.c needs of the monitor */
void*
mon_alloc(size_t n, int pl, size_t align) {
    (void)pl;
    place = mon_hash_u64(place, n);
    size_t gap = (size_t)((place >> 20) & 15U);
    size_t a = (align == 0) ? 1U : align;
    uint8_t* p = malloc(n + 64U);
    if (p == NULL) {
        mon_harness_error("out of memory");
    }
    return p + (gap + a - 1U) / a * a;
}

uint64_t
mon_cur_idx(void) {
    return idx;
}

void mon_check_guards(void) {}
void mon_seal(void* p) { (void)p; }
void mon_unseal(void* p) { (void)p; }
void mon_seal_check(void* p) { (void)p; }
void mon_uninit(void* p, size_t n) { (void)p; (void)n; }
void mon_defined(const void* p, size_t n, const char* what) { (void)p; (void)n; (void)what; }
void mon_event(const char* name, uint64_t n) { (void)name; (void)n; }
void mon_note(const char* fmt, ...) { (void)fmt; }
void cost_begin(void) {}
cost cost_end(const char* name) { (void)name; return (cost){0, 0}; }

static void
stop(uint32_t status, const char* fmt, va_list ap) {
    put32(guest_out, status);
    vsnprintf((char*)&guest_out[MACHINE_MSG], MACHINE_OUT - MACHINE_MSG, fmt, ap);
#ifdef __i386__
    transfer(4, 1, guest_out, MACHINE_OUT);
    (void)sys(1, 0, NULL, 0);
#endif
    __builtin_trap();
}

void
mon_fail(const char* key, const char* fmt, ...) {
    va_list ap;
    (void)key;
    va_start(ap, fmt);
    stop(2, fmt, ap);
    __builtin_unreachable();
}

void
mon_harness_error(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    stop(3, fmt, ap);
    __builtin_unreachable();
}

/* ------------------------------------------------------------------ */
static void __attribute__((noinline))
run(unsigned op) {
    x_start(XM_MACHINE, 0);
    uint64_t d = x_run(op);
    put32(guest_out, 1);
    put32(guest_out + 4, n_x_steps);
    put64(guest_out + 8, d);
    for (unsigned i = 0; (i < n_x_steps) && (i < X_STEPS); ++i) {
        put64(&guest_out[16U + 8U * i], x_steps[i].digest);
    }
}

void
guest_serve(void) {
    static size_t mark;
    const uint8_t* p = guest_in;
    put32(guest_out, 0);
    if (get32(p) == MACHINE_DICT) {
        n_rng_dict = get32(p + 4);
        n_rng_fresh = get32(p + 8);
        n_rng_words = get32(p + 12);
        p += 32;
        for (unsigned i = 0; i < n_rng_dict; ++i, p += 8) {
            rng_dict[i] = get64(p);
        }
        for (unsigned i = 0; i < n_rng_fresh; ++i, p += 8) {
            rng_fresh[i] = get64(p);
        }
        memcpy(rng_words, p, sizeof(rng_words));
        put32(guest_out, 1);
        return;
    }
    idx = get64(p + 8);
    rng_s = get64(p + 16);
    gin_n = get32(p + 24);
    gin_pos = get32(p + 28);
    gin = (gin_n > 0) ? p + 32 : NULL;
    n_rng_marks = 0;
    place = idx;
    if (mark == 0) {
        x_set_scratch(malloc(X_SCRATCH));
        mark = guest_heap_used;
    }
    guest_heap_used = mark;
    rng_focus = (get32(p + 4) >> 31) != 0U;
    run(get32(p + 4) & 0x7FFFFFFFU);
}

#ifdef __i386__
__attribute__((used)) static void
loop(void) {
    for (;;) {
        transfer(3, 0, guest_in, 32);
        size_t n = (get32(guest_in) == MACHINE_DICT) ? (8U * ((size_t)get32(guest_in + 4) + get32(guest_in + 8)) + sizeof(rng_words)) : get32(guest_in + 24);
        transfer(3, 0, guest_in + 32, n);
        guest_serve();
        transfer(4, 1, guest_out, MACHINE_OUT);
    }
}

__asm__(".globl _start\n_start:\n xorl %ebp, %ebp\n andl $-16, %esp\n call loop\n hlt\n");
#endif
