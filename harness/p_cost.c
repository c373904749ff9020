/* M09: no heap, no system services, little stack.  M10: work proportional to the data.
 * The stack below the call is painted and inspected afterwards; the allocator of the process is replaced; system calls
 * made while the library runs are delivered as SIGSYS (syscall user dispatch); the library of the "work" build counts its
 * basic-block edges, its calls of libc's string functions go through counting wrappers. */
#define _GNU_SOURCE
#include "cost.h"
#include "mon.h"
#include "ops.h"

#include <dlfcn.h>
#include <errno.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/prctl.h>
#include <time.h>
#include <unistd.h>

#include "base64.h"
#include "bit_manipulation.h"
#include "bubble_sort.h"
#include "caesar_cipher.h"
#include "chacha20.h"
#include "crc16_base.h"
#include "crc32_base.h"
#include "crc8_base.h"
#include "crc_variants.h"
#include "heap_sort.h"
#include "insertion_sort.h"
#include "json.h"
#include "map.h"
#include "priority_queue.h"
#include "queue.h"
#include "scheduler.h"
#include "selection_sort.h"
#include "utils.h"
#include "vernam_cipher.h"

extern volatile char mon_watch_syscalls;
extern volatile unsigned mon_ticked;

#ifdef MON_COST

#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#endif

static volatile int in_call;
static volatile uint64_t work;
static int dispatch = -1;           /* 1: system calls are watched, 0: the kernel cannot */
static unsigned tick_before;

/* ------------------------------------------------------------------ services */
static void
service(const char* what) {
    in_call = 0;
    mon_watch_syscalls = 0;
    mon_fail("service", "the library called %s", what);
}
#define SERVICE(what) do { if (in_call) { service(what); } } while (0)

extern void* __libc_malloc(size_t n);
extern void* __libc_calloc(size_t a, size_t b);
extern void* __libc_realloc(void* p, size_t n);
extern void* __libc_memalign(size_t a, size_t n);
extern void __libc_free(void* p);

void*
malloc(size_t n) {
    SERVICE("malloc");
    return __libc_malloc(n);
}
void*
calloc(size_t a, size_t b) {
    SERVICE("calloc");
    return __libc_calloc(a, b);
}
void*
realloc(void* p, size_t n) {
    SERVICE("realloc");
    return __libc_realloc(p, n);
}
void
free(void* p) {
    SERVICE("free");
    __libc_free(p);
}
void*
aligned_alloc(size_t a, size_t n) {
    SERVICE("aligned_alloc");
    return __libc_memalign(a, n);
}
void*
memalign(size_t a, size_t n) {
    SERVICE("memalign");
    return __libc_memalign(a, n);
}
int
posix_memalign(void** out, size_t a, size_t n) {
    SERVICE("posix_memalign");
    *out = __libc_memalign(a, n);
    return (*out == NULL) ? ENOMEM : 0;
}

static void
on_sigsys(int sig, siginfo_t* si, void* uc) {
    (void)sig;
    (void)uc;
    char what[40];
    mon_watch_syscalls = 0;
    snprintf(what, sizeof(what), "the kernel (system call %d)", si->si_syscall);
    service(what);
}

static void
watch(void) {
    if (dispatch >= 0) {
        return;
    }
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_sigaction = on_sigsys;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigemptyset(&sa.sa_mask);
    sigaction(SIGSYS, &sa, NULL);
    dispatch = (prctl(PR_SET_SYSCALL_USER_DISPATCH, 1, 0, 0, &mon_watch_syscalls) == 0) ? 1 : 0;
}

/* ------------------------------------------------------------------ stack */
#define PAINT_WORDS 8192U
#define PAINT 0x7AC35AE1969D2B47ULL
static uintptr_t paint_lo, paint_hi, caller;    /* the few words between paint_hi and caller are not painted */

static void __attribute__((noinline))
paint(void) {
    volatile uint64_t a[PAINT_WORDS];
    for (unsigned i = 0; i < PAINT_WORDS; ++i) {
        a[i] = PAINT;
    }
    paint_lo = (uintptr_t)&a[0];
    paint_hi = (uintptr_t)&a[PAINT_WORDS];
}

static size_t __attribute__((noinline))
depth(void) {
    const volatile uint64_t* p = (const volatile uint64_t*)paint_lo;
    const volatile uint64_t* e = (const volatile uint64_t*)paint_hi;
    while ((p < e) && (*p == PAINT)) {
        ++p;
    }
    return (size_t)(caller - (uintptr_t)p);
}

void
cost_begin(void) {
    watch();
    caller = (uintptr_t)__builtin_frame_address(0) + 2U * sizeof(void*);
    paint();
    tick_before = mon_ticked;
    work = 0;
    in_call = 1;
    mon_watch_syscalls = (char)dispatch;
}

cost
cost_end(const char* name) {
    mon_watch_syscalls = 0;
    in_call = 0;
    cost c;
    c.work = work;
    c.stack = depth();
    if (mon_ticked != tick_before) {
        c.stack = 0;
    }
    if (c.stack > COST_STACK_LIMIT) {
        mon_fail("stack", "%s used %s%zu bytes of stack", name, (c.stack > PAINT_WORDS * 8U) ? "at least " : "", c.stack);
    }
    return c;
}

/* ------------------------------------------------------------------ work */
#ifdef MON_WORK
void
__sanitizer_cov_trace_pc(void) {
    ++work;
}

#define BULK(n) do { if (in_call) { work += (uint64_t)(n) + 1U; } } while (0)
void* __real_memcpy(void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { BULK(n); return __real_memcpy(d, s, n); }
void* __real_memmove(void*, const void*, size_t);
void* __wrap_memmove(void* d, const void* s, size_t n) { BULK(n); return __real_memmove(d, s, n); }
void* __real_memset(void*, int, size_t);
void* __wrap_memset(void* d, int c, size_t n) { BULK(n); return __real_memset(d, c, n); }
int __real_memcmp(const void*, const void*, size_t);
int __wrap_memcmp(const void* a, const void* b, size_t n) { BULK(n); return __real_memcmp(a, b, n); }
size_t __real_strlen(const char*);
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); BULK(n); return n; }
size_t __real_strnlen(const char*, size_t);
size_t __wrap_strnlen(const char* s, size_t m) { size_t n = __real_strnlen(s, m); BULK(n); return n; }
static size_t
common(const char* a, const char* b, size_t n) {
    size_t i = 0;
    while ((i < n) && (a[i] == b[i]) && (a[i] != '\0')) {
        ++i;
    }
    return i;
}
int __real_strcmp(const char*, const char*);
int __wrap_strcmp(const char* a, const char* b) { if (in_call) { BULK(common(a, b, SIZE_MAX)); } return __real_strcmp(a, b); }
int __real_strncmp(const char*, const char*, size_t);
int __wrap_strncmp(const char* a, const char* b, size_t n) { if (in_call) { BULK(common(a, b, n)); } return __real_strncmp(a, b, n); }
char* __real_strcpy(char*, const char*);
char* __wrap_strcpy(char* d, const char* s) { if (in_call) { BULK(__real_strlen(s)); } return __real_strcpy(d, s); }
char* __real_strncpy(char*, const char*, size_t);
char* __wrap_strncpy(char* d, const char* s, size_t n) { BULK(n); return __real_strncpy(d, s, n); }
char* __real_strcat(char*, const char*);
char* __wrap_strcat(char* d, const char* s) { if (in_call) { BULK(__real_strlen(d) + __real_strlen(s)); } return __real_strcat(d, s); }
char* __real_strncat(char*, const char*, size_t);
char* __wrap_strncat(char* d, const char* s, size_t n) { if (in_call) { BULK(__real_strlen(d) + __real_strnlen(s, n)); } return __real_strncat(d, s, n); }
void* __real_memchr(const void*, int, size_t);
void* __wrap_memchr(const void* s, int c, size_t n) {
    void* r = __real_memchr(s, c, n);
    BULK((r != NULL) ? (size_t)((const char*)r - (const char*)s) : n);
    return r;
}
char* __real_strchr(const char*, int);
char* __wrap_strchr(const char* s, int c) {
    char* r = __real_strchr(s, c);
    if (in_call) {
        BULK((r != NULL) ? (size_t)(r - s) : __real_strlen(s));
    }
    return r;
}
char* __real_strstr(const char*, const char*);
char* __wrap_strstr(const char* s, const char* t) {
    char* r = __real_strstr(s, t);
    if (in_call) {
        BULK(((r != NULL) ? (size_t)(r - s) : __real_strlen(s)) + __real_strlen(t));
    }
    return r;
}
#endif

#else /* !MON_COST: the groups below do not run in this build */
void
cost_begin(void) {
}
cost
cost_end(const char* name) {
    (void)name;
    cost c = {0, 0};
    return c;
}
#endif

/* ------------------------------------------------------------------ calls of any size */
/* The limit of the work of a call that handles n bytes: base plus per_byte * n, an order of magnitude above what the
 * simplest implementation needs. */
static size_t max_stack;        /* over the calls of the current scale */
static const char* stack_at;
static uint64_t sum;            /* of the work of the case */
static bool judge_work;

static void
account(const char* name, cost c, uint64_t limit, const char* what, uint64_t n) {
    if (c.stack > max_stack) {
        max_stack = c.stack;
        stack_at = name;
    }
    sum += c.work;
    if (judge_work) {
        if (getenv("MON_COST_SHOW") != NULL) {
            printf("COST %s n=%llu work=%llu limit=%llu %.3f\n", name, (unsigned long long)n, (unsigned long long)c.work, (unsigned long long)limit, (double)c.work / (double)limit);
        }
        MON_REQUIRE(c.work <= limit, "work", "%s did %llu steps on %llu %s (limit %llu)", name, (unsigned long long)c.work, (unsigned long long)n, what, (unsigned long long)limit);
        mon_event("calls whose work was judged", 1);
    } else {
        mon_event("calls whose stack, heap and system calls were watched", 1);
    }
}
#define COST(name, base, per, n, what, stmt) do { cost_begin(); stmt; cost cc_ = cost_end(name); \
        account(name, cc_, (uint64_t)(base) + (uint64_t)(per) * (uint64_t)(n), what, (uint64_t)(n)); } while (0)

#define FIXED 20000U        /* base: tables copied to the stack, fixed-size loops */
#define PER 400U            /* per byte: bit-wise loops with function calls inside */

static void
c_bits(size_t n) {
    uint32_t d = mon_u32();
    uint8_t b = (uint8_t)mon_below(40);
    uint32_t o = 0;
    bool f;
    (void)n;
    COST("BitManipulation_reflect", FIXED, 0, 0, "bytes", (void)BitManipulation_reflect(d, mon_byte()));
    COST("BitManipulation_rotl32", FIXED, 0, 0, "bytes", (void)BitManipulation_rotl32(d, b));
    COST("BitManipulation_bitSet", FIXED, 0, 0, "bytes", (void)BitManipulation_bitSet(d, b, &f));
    COST("BitManipulation_setBit", FIXED, 0, 0, "bytes", (void)BitManipulation_setBit(d, b, &o));
    COST("BitManipulation_clearBit", FIXED, 0, 0, "bytes", (void)BitManipulation_clearBit(d, b, &o));
    COST("BitManipulation_toggleBit", FIXED, 0, 0, "bytes", (void)BitManipulation_toggleBit(d, b, &o));
    COST("Utils_quickUint32Pow10", FIXED, 0, 0, "bytes", (void)Utils_quickUint32Pow10(b, &o));
    COST("Utils_isAlpha", FIXED, 0, 0, "bytes", (void)Utils_isAlpha((char)mon_byte()));
    COST("Utils_isUpperChar", FIXED, 0, 0, "bytes", (void)Utils_isUpperChar((char)mon_byte()));
    COST("Utils_isLowerChar", FIXED, 0, 0, "bytes", (void)Utils_isLowerChar((char)mon_byte()));
}

static void
c_number(size_t n) {
    uint8_t l = (uint8_t)((n > 255U) ? mon_range(1, 255) : (n + 1U));
    char t[256];
    for (unsigned i = 0; i < l; ++i) {
        t[i] = (char)('0' + (char)mon_below(10));
    }
    if (mon_chance(1, 4)) {
        t[mon_below(l)] = (char)mon_byte();
    }
    char* s = mon_copy(t, l, PL_RIGHT, 1);
    uint32_t v;
    COST("Utils_stringToUint32", FIXED, 0, 0, "bytes", (void)Utils_stringToUint32(s, l, &v));
}

static void
c_serial(size_t n) {
    (void)n;
    byte_t b[4];
    uint32_t v = mon_u32();
    COST("Utils_serialize32BE", FIXED, 0, 0, "bytes", Utils_serialize32BE(b, v));
    COST("Utils_serialize24LE", FIXED, 0, 0, "bytes", Utils_serialize24LE(b, v));
    COST("Utils_serialize16BE", FIXED, 0, 0, "bytes", Utils_serialize16BE(b, (uint16_t)v));
    COST("Utils_deserialize32LE", FIXED, 0, 0, "bytes", (void)Utils_deserialize32LE(b));
    COST("Utils_deserialize24BE", FIXED, 0, 0, "bytes", (void)Utils_deserialize24BE(b));
    COST("Utils_deserialize16LE", FIXED, 0, 0, "bytes", (void)Utils_deserialize16LE(b));
}

static void
c_blobs(size_t n) {
    uint8_t* a = mon_alloc(n, PL_RIGHT, 1);
    uint8_t* b = mon_alloc(n, PL_RIGHT, 1);
    mon_fill_any(a, n);
    COST("Utils_serializeBlobBE", FIXED, PER, n, "bytes", Utils_serializeBlobBE(b, a, (uint32_t)n));
    COST("Utils_serializeBlobLE", FIXED, PER, n, "bytes", Utils_serializeBlobLE(b, a, (uint32_t)n));
    COST("Utils_deserializeBlobBE", FIXED, PER, n, "bytes", Utils_deserializeBlobBE(b, a, (uint32_t)n));
    COST("Utils_deserializeBlobLE", FIXED, PER, n, "bytes", Utils_deserializeBlobLE(b, a, (uint32_t)n));
    COST("Utils_swapElements", FIXED, PER, n, "bytes", Utils_swapElements(a, b, (uint32_t)n));
}

static void
c_crc(size_t n) {
    uint8_t* a = mon_alloc(n, PL_RIGHT, 1);
    mon_fill_any(a, n);
    const crc_variant* v = &crc_variants[mon_below(n_crc_variants)];
    bool fin = mon_chance(1, 2);
    COST(v->name, FIXED, PER, n, "bytes", (void)v->fn(a, (uint32_t)n, fin, NULL));
    static uint8_t t8[256];
    static uint16_t t16[256];
    static uint32_t t32[256];
    bool ri = mon_chance(1, 2);
    bool ro = mon_chance(1, 2);
    bool fx = mon_chance(1, 2);
    COST("Crc8Base_tableCalculator", 20U * FIXED, 0, 0, "bytes", Crc8Base_tableCalculator((uint8_t)mon_byte(), t8));
    COST("Crc16Base_tableCalculator", 20U * FIXED, 0, 0, "bytes", Crc16Base_tableCalculator((uint16_t)mon_u32(), t16));
    COST("Crc32Base_tableCalculator", 20U * FIXED, 0, 0, "bytes", Crc32Base_tableCalculator(mon_u32(), t32));
    COST("Crc8Base", FIXED, PER, n, "bytes", (void)Crc8Base(t8, a, (uint32_t)n, 1, 2, ro, ri, fx));
    COST("Crc16Base", FIXED, PER, n, "bytes", (void)Crc16Base(t16, a, (uint32_t)n, 1, 2, ro, ri, fx));
    COST("Crc32Base", FIXED, PER, n, "bytes", (void)Crc32Base(t32, a, (uint32_t)n, 1, 2, ro, ri, fx));
}

static void
c_base64(size_t n) {
    char* in = mon_alloc(n, PL_RIGHT, 1);
    mon_fill_any(in, n);
    size_t cap = mon_chance(1, 3) ? (size_t)mon_below(2U * n + 8U) : (2U * n + 8U);
    char* t = mon_alloc(2U * n + 8U, PL_RIGHT, 1);
    COST("Base64_encode", FIXED, PER, n, "bytes", (void)Base64_encode(in, n, t, cap));
    uint8_t* o = mon_alloc(n + 4U, PL_RIGHT, 1);
    /* arbitrary text, then a valid one */
    COST("Base64_decode", FIXED, PER, n, "bytes", (void)Base64_decode(in, n, o, mon_chance(1, 3) ? (size_t)mon_below(n + 4U) : (n + 4U)));
    if (cap == 2U * n + 8U) {
        size_t l = strlen(t);
        uint8_t* o2 = mon_alloc(n + 4U, PL_RIGHT, 1);
        COST("Base64_decode", FIXED, PER, l, "bytes", (void)Base64_decode(t, l, o2, n + 4U));
    }
}

static char*
text_of(size_t n, unsigned style) {
    char* t = mon_alloc(n + 1U, PL_RIGHT, 1);
    static const char* const unit[] = {"a", "aB", "xyzzy!", "z", "A{}[]:,", "k\tl\n"};
    const char* u = unit[style % 6U];
    size_t ul = strlen(u);
    for (size_t i = 0; i < n; ++i) {
        t[i] = u[i % ul];
    }
    t[n] = '\0';
    return t;
}

static void
c_ciphers(size_t n) {
    uint8_t key[CHACHA20_KEY_SIZE];
    uint8_t nonce[CHACHA20_NONCE_SIZE];
    mon_fill_any(key, sizeof(key));
    mon_fill_any(nonce, sizeof(nonce));
    uint8_t* in = mon_alloc(n, PL_RIGHT, 1);
    uint8_t* out = mon_alloc(n, PL_RIGHT, 1);
    uint32_t ctr = mon_u32();
    COST("Chacha20_crypt", FIXED, PER, n, "bytes", Chacha20_crypt(in, (uint32_t)n, key, nonce, ctr, out));
    char* m = text_of(n, (unsigned)mon_below(6));
    char* k = text_of(n, (unsigned)mon_below(6));
    uint8_t sh = mon_byte();
    COST("CaesarCipher_encrypt", FIXED, PER, n, "bytes", CaesarCipher_encrypt(m, sh));
    COST("CaesarCipher_decrypt", FIXED, PER, n, "bytes", CaesarCipher_decrypt(m, sh));
    int32_t kl = (int32_t)n + (mon_chance(1, 5) ? 1 : 0);
    COST("VernamCipher_encrypt", FIXED, PER, n, "bytes", (void)VernamCipher_encrypt(m, k, kl));
    COST("VernamCipher_decrypt", FIXED, PER, n, "bytes", (void)VernamCipher_decrypt(m, k, kl));
}

static void
c_json_build(size_t n) {
    size_t cap = 3U * n + 64U;
    char* b = mon_alloc(cap, PL_RIGHT, 1);
    COST("Json_startString", FIXED, 0, 0, "bytes", (void)Json_startString(b, cap));
    char* k = text_of(n / 2U, (unsigned)mon_below(4));
    char* v = text_of(n, (unsigned)mon_below(4));
    char* sk = text_of(3, 0);
    size_t say = mon_chance(1, 4) ? (size_t)mon_below(cap) + 2U : cap;
    if (say > cap) {
        say = cap;
    }
    COST("Json_addData", FIXED, PER, strlen(b) + n + n / 2U, "bytes", (void)Json_addData(b, say, k, v));
    COST("Json_addData", FIXED, PER, strlen(b) + 6U, "bytes", (void)Json_addData(b, say, sk, sk));
    COST("Json_addData", FIXED, PER, strlen(b) + 3U + n, "bytes", (void)Json_addData(b, say, sk, v));
    COST("Json_endString", FIXED, PER, strlen(b), "bytes", (void)Json_endString(b, say));
}

/* documents made to be expensive for a careless search */
static void
c_json_find(size_t n) {
    static const char* const unit[] = {"\"", "\"\":", "\"a\":\"a\",", "\"a\" ", "\"aaaaaaa\":\"", " ", "\"a\":", "{", "\"\"", "\"aaaaaaaaaaaaaaa\" :\"\",", "a", ":", "\"a\":\"\",\t\n\r   ", "\"k\":[\"a\",\"a\"],", "\t", "\n", "\r", "\r\n", "[", "]", "}", "\\", "\\\"", ",", "\"a\":{"};
    char* doc = mon_alloc(n, PL_RIGHT, 1);
    const char* u = "";
    size_t ul = 0;
    /* one to three stretches, each of one unit */
    size_t at = 0;
    for (unsigned left = (unsigned)mon_range(1, 3); left > 0U; --left) {
        size_t e = (left == 1U) ? n : (at + (size_t)mon_below(n - at + 1U));
        u = unit[mon_below(sizeof(unit) / sizeof(unit[0]))];
        ul = strlen(u);
        for (size_t i = at; i < e; ++i) {
            doc[i] = u[(i - at) % ul];
        }
        at = e;
    }
    /* a valid object of many members in the other cases */
    if (mon_chance(1, 2) && (n > 40U)) {
        size_t pos = 0;
        doc[pos++] = '{';
        size_t kl = (size_t)mon_range(0, 14);
        while (pos + kl + 12U < n) {
            doc[pos++] = '"';
            memset(&doc[pos], 'a', kl);
            pos += kl;
            memcpy(&doc[pos], "\":\"", 3);
            pos += 3;
            doc[pos++] = 'a';
            memcpy(&doc[pos], "\",", 2);
            pos += 2;
        }
        memset(&doc[pos], ' ', n - pos);
    }
    char key[20];
    size_t kl = mon_chance(1, 2) ? (size_t)mon_below(16) : ((ul > 3U) ? ul - 3U : 1U);
    memset(key, 'a', kl);
    key[kl] = '\0';
    if ((kl > 0) && mon_chance(1, 2)) {
        key[kl - 1U] = 'b';
    }
    char* lk = text_of(mon_chance(1, 2) ? (n / 2U) : (size_t)mon_below(n + 2U), 0);
    size_t cap = mon_chance(1, 2) ? n : (size_t)mon_below(20);
    char* v = mon_alloc(cap, PL_RIGHT, 1);
    COST("Json_findByKey", FIXED, PER, n + kl, "bytes", (void)Json_findByKey(doc, n, key, v, cap));
    COST("Json_findByKey", FIXED, PER, n + strlen(lk), "bytes", (void)Json_findByKey(doc, n, lk, v, cap));
}

static void
c_queue(size_t n) {
    /* n: capacity with small elements, or the element size */
    bool wide = mon_chance(1, 3);
    uint32_t es = wide ? (uint32_t)(n + 1U) : (uint32_t)mon_range(1, 8);
    uint32_t cap = wide ? (uint32_t)mon_range(1, 6) : (uint32_t)(n + 1U);
    uint8_t* st = mon_alloc((size_t)es * cap, PL_RIGHT, 1);
    uint8_t* e = mon_alloc(es, PL_RIGHT, 1);
    Queue_t q;
    COST("Queue_init", FIXED, 0, 0, "bytes", (void)Queue_init(&q, cap, es, st));
    uint32_t fill = (uint32_t)mon_below((uint64_t)cap + 1U);
    for (uint32_t i = 0; i < fill; ++i) {
        (void)Queue_enqueue(&q, e);
    }
    for (unsigned i = 0; i < 4; ++i) {
        COST("Queue_enqueue", FIXED, PER, es, "bytes", (void)Queue_enqueue(&q, e));
        COST("Queue_front", FIXED, PER, es, "bytes", (void)Queue_front(&q, e));
        COST("Queue_rear", FIXED, PER, es, "bytes", (void)Queue_rear(&q, e));
        COST("Queue_full", FIXED, 0, 0, "bytes", (void)Queue_full(&q));
        COST("Queue_empty", FIXED, 0, 0, "bytes", (void)Queue_empty(&q));
        if (i & 1U) {
            COST("Queue_dequeue", FIXED, PER, es, "bytes", (void)Queue_dequeue(&q, e));
        }
    }
}

static void
c_pq(size_t n) {
    bool wide = mon_chance(1, 3);
    uint32_t es = wide ? (uint32_t)(n + 1U) : (uint32_t)mon_range(1, 8);
    uint32_t cap = wide ? (uint32_t)mon_range(1, 6) : (uint32_t)((n > 20000U ? 20000U : n) + 1U);
    uint8_t* st = mon_alloc((size_t)es * cap, PL_RIGHT, 1);
    uint32_t* ps = mon_alloc((size_t)cap * 4U, PL_RIGHT, 4);
    uint8_t* e = mon_alloc(es, PL_RIGHT, 1);
    PriorityQueueItem_t items = {ps, st};
    uint32_t pr = 0;
    PriorityQueueItem_t it = {&pr, e};
    PriorityQueue_t q;
    COST("PriorityQueue_init", FIXED, 0, 0, "bytes", (void)PriorityQueue_init(&q, cap, es, &items));
    uint32_t held = mon_chance(1, 2) ? cap : (uint32_t)mon_below((uint64_t)cap + 1U);
    unsigned order = (unsigned)mon_below(3);
    for (uint32_t i = 0; i < held; ++i) {
        pr = (order == 0) ? i : (order == 1) ? (held - i) : 5U;
        (void)PriorityQueue_enqueue(&q, &it);
    }
    uint64_t room = (uint64_t)(held + 3U) * ((uint64_t)es + 4U);
    for (unsigned i = 0; i < 3; ++i) {
        pr = mon_chance(1, 2) ? UINT32_MAX : mon_u32();
        COST("PriorityQueue_enqueue", FIXED, PER, room, "bytes held", (void)PriorityQueue_enqueue(&q, &it));
        COST("PriorityQueue_empty", FIXED, 0, 0, "bytes", (void)PriorityQueue_empty(&q));
        if (i & 1U) {
            COST("PriorityQueue_dequeue", FIXED, PER, room, "bytes held", (void)PriorityQueue_dequeue(&q, e));
        }
    }
}

static void
c_map(size_t n) {
    bool wide = mon_chance(1, 3);
    int32_t ks = wide ? (int32_t)(n + 1U) : (int32_t)mon_range(4, 9);
    int32_t vs = wide ? (int32_t)(mon_below(n + 1U) + 1U) : (int32_t)mon_range(1, 9);
    int32_t cap = wide ? (int32_t)mon_range(1, 6) : (int32_t)((n > 2000U ? 2000U : n) + 1U);
    byte_t* kst = mon_alloc((size_t)ks * (size_t)cap, PL_RIGHT, 1);
    byte_t* vst = mon_alloc((size_t)vs * (size_t)cap, PL_RIGHT, 1);
    byte_t* k = mon_alloc((size_t)ks, PL_RIGHT, 1);
    byte_t* v = mon_alloc((size_t)vs, PL_RIGHT, 1);
    memset(k, 'k', (size_t)ks);
    Map_t m;
    COST("Map_init", FIXED, 0, 0, "bytes", (void)Map_init(&m, kst, vst, ks, vs, cap));
    int32_t held = (int32_t)mon_below((uint64_t)cap + 1U);
    uint8_t* tail = &k[(ks >= 4) ? (ks - 4) : 0];
    size_t tl = (ks >= 4) ? 4U : (size_t)ks;
    for (int32_t i = 0; i < held; ++i) {
        memcpy(tail, &i, tl);
        (void)Map_insert(&m, k, v);
    }
    uint64_t room = (uint64_t)(held + 3) * (uint64_t)ks + (uint64_t)vs;
    for (unsigned i = 0; i < 4; ++i) {
        int32_t x = (int32_t)mon_below((uint64_t)held + 4U);
        memcpy(tail, &x, tl);
        COST("Map_insert", FIXED, PER, room, "bytes held", (void)Map_insert(&m, k, v));
        COST("Map_getValue", FIXED, PER, room, "bytes held", (void)Map_getValue(&m, k, v));
    }
}

static void
nothing(void) {
}

static void
c_sched(size_t n) {
    uint32_t slots = (uint32_t)n;
    SchedulerTask_t* t = mon_alloc(sizeof(*t) * slots, PL_RIGHT, 8);
    COST("Scheduler_init", FIXED, PER, slots, "slots", Scheduler_init(t, slots));
    SchedulerTask_t nt;
    memset(&nt, 0, sizeof(nt));
    nt.function = nothing;
    uint32_t used = (uint32_t)mon_below((uint64_t)slots + 1U);
    for (uint32_t i = 0; i < used; ++i) {
        t[i].function = nothing;
        t[i].active = mon_chance(1, 2);
    }
    COST("Scheduler_addTask", FIXED, PER, slots, "slots", (void)Scheduler_addTask(t, slots, &nt));
    COST("Scheduler_run", FIXED, PER, slots, "slots", Scheduler_run(t, slots));
}

static size_t cmp_es;
static bool
cmp_plain(void* a, void* b) {
    const uint8_t* x = a;
    const uint8_t* y = b;
    for (size_t i = 0; (i < cmp_es) && (i < 4U); ++i) {
        if (x[i] != y[i]) {
            return x[i] > y[i];
        }
    }
    return false;
}

static void
c_sorts(size_t n) {
    static void (*const ss[4])(byte_t*, int32_t, int32_t, bool (*)(void*, void*)) = {BubbleSort_sort, InsertionSort_sort, HeapSort_sort, SelectionSort_sort};
    static const char* const nm[4] = {"BubbleSort_sort", "InsertionSort_sort", "HeapSort_sort", "SelectionSort_sort"};
    unsigned k = (unsigned)mon_below(4);
    bool wide = mon_chance(1, 3) && (k != 1U);
    size_t es = wide ? n + 1U : (size_t)mon_range(1, (k == 1U) ? 64 : 8);
    size_t cnt = wide ? (size_t)mon_below(8) : ((k == 2U) ? ((n > 300000U) ? 300000U : n) : ((n > 1500U) ? 1500U : n));
    byte_t* a = mon_alloc(es * cnt, PL_RIGHT, 1);
    unsigned order = (unsigned)mon_below(4);
    for (size_t i = 0; i < cnt; ++i) {
        uint32_t v = (order == 0) ? (uint32_t)i : (order == 1) ? (uint32_t)(cnt - i) : (order == 2) ? 7U : (uint32_t)mon_rnd();
        for (size_t b = 0; b < es; ++b) {
            a[i * es + b] = (b < 4U) ? (uint8_t)(v >> (8U * (3U - b))) : (uint8_t)b;
        }
    }
    cmp_es = es;
    uint64_t lg = 1;
    while (((uint64_t)1 << lg) < cnt) {
        ++lg;
    }
    uint64_t steps = (uint64_t)cnt * ((k == 2U) ? lg : cnt);
    COST(nm[k], FIXED, 100U * (es + 1U), steps + 1U, "steps of its order", ss[k](a, (int32_t)cnt, (int32_t)es, cmp_plain));
}

static const struct {
    const char* name;
    void (*fn)(size_t n);
} cost_ops[] = {
    {"bits", c_bits}, {"number", c_number}, {"serialisation", c_serial}, {"blobs", c_blobs}, {"crc", c_crc}, {"base64", c_base64}, {"ciphers", c_ciphers}, {"json building", c_json_build},
    {"json lookup", c_json_find}, {"queue", c_queue}, {"priority queue", c_pq}, {"map", c_map}, {"scheduler", c_sched}, {"sorts", c_sorts}
};
#define N_COST (sizeof(cost_ops) / sizeof(cost_ops[0]))

/* M09: the stack a family of calls needs on large data is what it needs on small data */
static void
m09_scale(uint64_t idx) {
    unsigned op = (unsigned)(idx % N_COST);
    judge_work = false;
    mon_note("calls of: %s", cost_ops[op].name);
    max_stack = 0;
    for (unsigned i = 0; i < 24; ++i) {
        cost_ops[op].fn((size_t)mon_below(65));
        mon_check_guards();
        mon_reset();
    }
    size_t small = max_stack;
    max_stack = 0;
    for (unsigned i = 0; i < 4; ++i) {
        cost_ops[op].fn(1000U + mon_len(mon_chance(1, 24) ? 3000000U : mon_chance(1, 3) ? 200000U : 20000U));
        mon_check_guards();
        mon_reset();
    }
    MON_REQUIRE((small == 0) || (max_stack <= small + 512U), "stack-grows", "%s used %zu bytes of stack on large data, calls on small data at most %zu", stack_at, max_stack, small);
    mon_sig(mon_hash_u64(op, mon_rnd()));
    mon_sample("%s: %zu bytes of stack on small data, %zu on large data", cost_ops[op].name, small, max_stack);
}

static void
m09_ops(uint64_t idx) {
    unsigned op = (unsigned)(idx % n_x_ops);
    x_start(XM_SERVICE, 0);
    uint64_t d = x_run(op);
    mon_event(x_ops[op].name, 1);
    mon_sig(d);
    mon_sample("%s: one round of calls without heap, system call or more than %u bytes of stack", x_ops[op].name, COST_STACK_LIMIT);
}

static void
m10_work(uint64_t idx) {
    unsigned op = (unsigned)(idx % N_COST);
    judge_work = true;
    mon_note("calls of: %s", cost_ops[op].name);
    size_t n;
    switch (mon_below(6)) {
        case 0:
            n = (size_t)mon_below(65);
            break;
        case 1:
            n = mon_len(mon_chance(1, 12) ? 3000000 : 300000);
            break;
        case 2:
            n = (size_t)mon_range(20000, 60000);
            break;
        default:
            n = (size_t)mon_range(1500, 6000);
            break;
    }
    sum = 0;
    cost_ops[op].fn(n);
    mon_sig(mon_hash_u64(mon_hash_u64(op, n), sum));
    mon_sample("%s, size %zu: work within its bound", cost_ops[op].name, n);
}

const mon_group mon_groups_cost[] = {
    {"M09", "m09_scale", 700, 60000, m09_scale, 0},
    {"M09", "m09_ops", 3000, 400000, m09_ops, 0},
    {"M10", "m10_work", 2000, 200000, m10_work, 0},
    MON_END
};
