/* Monitoring kernel shared by all workloads: deterministic case scheduling, case PRNG,
 * guarded memory, event counters, violation reporting. */
#ifndef MON_H_
#define MON_H_

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MON_ASAN 1
#endif
#if __has_feature(memory_sanitizer)
#define MON_MSAN 1
#endif
#if __has_feature(thread_sanitizer)
#define MON_TSAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define MON_ASAN 1
#endif
#ifdef __SANITIZE_THREAD__
#define MON_TSAN 1
#endif
#ifndef MON_ASAN
#define MON_ASAN 0
#endif
#ifndef MON_MSAN
#define MON_MSAN 0
#endif
#ifndef MON_TSAN
#define MON_TSAN 0
#endif
#define MON_NATIVE (!MON_ASAN && !MON_MSAN && !MON_TSAN)

#if MON_MSAN
#include <sanitizer/msan_interface.h>
#endif

/* ------------------------------------------------------------------ cases */
typedef void (*mon_fn)(uint64_t idx);

enum {
    MON_EXH = 1,        /* the group enumerates a finite space: never scaled down */
    MON_NATIVE_ONLY = 2,/* skipped in sanitizer builds */
    MON_SLOW = 4,       /* a case may legitimately use up to 300 s of CPU */
    MON_MSAN_ONLY = 8,
    MON_SERIAL = 16,    /* only shard 0 runs it */
    MON_TSAN_ONLY = 32,
    MON_ASAN_ALSO = 64, /* scale divisor does not apply in sanitizer builds */
    MON_BIG = 128       /* uses GiBs of address space: one at a time, native only */
};

typedef struct {
    const char* prop;   /* property the group decides */
    const char* name;
    uint64_t n_quick;
    uint64_t n_thorough;
    mon_fn fn;
    unsigned flags;
} mon_group;

#define MON_END {NULL, NULL, 0, 0, NULL, 0}

extern bool mon_thorough;
extern uint64_t mon_seed;

/* ------------------------------------------------------------------ PRNG (per case) */
uint64_t mon_mix(uint64_t x);
uint64_t mon_rnd(void);
uint64_t mon_below(uint64_t n);                 /* 0..n-1, n>=1 */
uint64_t mon_range(uint64_t lo, uint64_t hi);   /* inclusive */
bool mon_chance(unsigned num, unsigned den);
uint64_t mon_rng_get(void);                     /* PRNG state, for replaying the same choices within a case */
void mon_rng_set(uint64_t s);
size_t mon_len(size_t max);                     /* length biased to small, powers of two +-2, log-uniform */
uint32_t mon_u32(void);                         /* biased 32-bit value */
uint8_t mon_byte(void);                         /* biased byte */
uint8_t mon_bias(uint64_t r);                   /* biased byte, a function of r */
enum { FILL_RANDOM, FILL_ZERO, FILL_ONES, FILL_BIASED, FILL_RUNS, FILL_COUNT, FILL_ASCII, FILL_N };
void mon_fill(void* p, size_t n, int style);
void mon_fill_any(void* p, size_t n);
bool mon_fresh(uint64_t lo, uint64_t hi, uint64_t* v); /* perhaps a constant the original has not: dimensions */
uint64_t mon_either(unsigned one_in, uint64_t big, uint64_t small); /* below big in one of so many cases, else below small; or such a constant */
size_t mon_word(char* p);                       /* a word worth trying, up to 31 characters and NUL; its length */
void mon_overlay(char* p, size_t n);            /* sometimes puts such a word into the text */
/* independent stream (for oracles / data known by position) */
uint64_t mon_hash(const void* p, size_t n, uint64_t h);
uint64_t mon_hash_u64(uint64_t h, uint64_t v);

/* ------------------------------------------------------------------ memory */
enum { PL_RIGHT = 0, PL_LEFT = 1, PL_ANY = 2, PL_MIDDLE = 3 };
/* n writable bytes. PL_RIGHT: end flush with an inaccessible page; PL_LEFT: start flush;
 * PL_MIDDLE: inside a large valid area (canaries on both sides).  Slack bytes are canaries,
 * verified by mon_check_guards().  align: required alignment (1 = any, may be odd). */
void* mon_alloc(size_t n, int place, size_t align);
void* mon_copy(const void* src, size_t n, int place, size_t align);
char* mon_str(const char* s, int place);        /* NUL-terminated copy, NUL is the last byte */
void mon_seal(void* p);                         /* from now on read-only (native); content hash kept elsewhere */
void mon_seal_check(void* p);                   /* content still the sealed one */
void mon_unseal(void* p);
void mon_check_guards(void);                    /* all live canaries and sealed contents intact */
void mon_reset(void);                           /* release everything (start of a case) */
void mon_uninit(void* p, size_t n);             /* MSan: contents become uninitialised */
void mon_defined(const void* p, size_t n, const char* what); /* MSan: all bytes initialised */

/* ------------------------------------------------------------------ reporting */
void mon_fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
#define MON_REQUIRE(cond, key, ...) do { if (!(cond)) { mon_fail(key, __VA_ARGS__); } } while (0)
void mon_harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void mon_event(const char* name, uint64_t n);   /* name: string literal */
void mon_sig(uint64_t h);                       /* this case is non-trivial, with this signature */
void mon_sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void mon_note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); /* context printed on failure */
void mon_digest(uint64_t h);                    /* folded into the case's output digest (M08) */
uint64_t mon_digest_get(void);
void mon_digest_set(uint64_t d);
uint64_t mon_cur_idx(void);
const char* mon_hex(const void* p, size_t n);   /* up to 48 bytes, rotating static buffers */

/* ------------------------------------------------------------------ comparison helpers */
bool mon_eq(const void* a, const void* b, size_t n);
size_t mon_diff(const void* a, const void* b, size_t n); /* first difference or n */

#endif
