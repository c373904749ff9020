/* M07 (storage beyond 2 and 4 GiB) and the very long inputs of other properties.
 *
 * Storage is address space in which one small shared file is mapped over and over (so that gigabytes cost a few
 * megabytes), surrounded by inaccessible address space on both sides into which any truncated or wrapped offset
 * falls.  Private "islands" at the beginning, in the middle and at the end of every element hold distinct tags; what
 * lies between them must stay at the fill value, which is checked in the shared file afterwards. */
#define _GNU_SOURCE
#include "mon.h"
#include "ref.h"

#include <errno.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>

#include "base64.h"
#include "bubble_sort.h"
#include "chacha20.h"
#include "crc_variants.h"
#include "crc16_base.h"
#include "crc32_base.h"
#include "crc8_base.h"
#include "heap_sort.h"
#include "insertion_sort.h"
#include "map.h"
#include "priority_queue.h"
#include "queue.h"
#include "selection_sort.h"
#include "utils.h"
#include "vernam_cipher.h"

#define PG 4096UL
#define PERIOD (16UL << 20)
#define GUARD (9UL << 30)
#define GIB (1UL << 30)

typedef struct {
    uint8_t* base;      /* first byte of the storage */
    uint64_t n;
    uint8_t* map;
    uint64_t map_n;
    uint8_t* lo;        /* accessible pages */
    uint64_t pages_n;
    int fd;
    uint8_t fill;
    uint64_t from, to;  /* part of the file that belongs to the storage (all of it when n >= PERIOD) */
} big;

#define MAX_BIG 16
static big bigs[MAX_BIG];
static unsigned n_bigs;

static void
big_release(void) {
    while (n_bigs > 0) {
        big* b = &bigs[--n_bigs];
        (void)munmap(b->map, b->map_n);
        close(b->fd);
    }
}

static big*
big_new(uint64_t n, uint8_t fill) {
    if (n_bigs >= MAX_BIG) {
        mon_harness_error("too many big regions");
    }
    big* b = &bigs[n_bigs++];
    b->n = n;
    b->fill = fill;
    uint64_t skew = 64U + mon_below(2000); /* not page aligned at either end */
    b->pages_n = (skew + n + PG - 1U) / PG * PG;
    b->map_n = b->pages_n + 2U * GUARD;
    b->map = mmap(NULL, b->map_n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b->map == MAP_FAILED) {
        mon_harness_error("reserving %llu bytes: %s", (unsigned long long)b->map_n, strerror(errno));
    }
    b->lo = b->map + GUARD;
    b->fd = memfd_create("mon-big", 0);
    if ((b->fd < 0) || (ftruncate(b->fd, (off_t)PERIOD) != 0)) {
        mon_harness_error("memfd: %s", strerror(errno));
    }
    if (fill != 0) {
        uint8_t* w = mmap(NULL, PERIOD, PROT_READ | PROT_WRITE, MAP_SHARED, b->fd, 0);
        if (w == MAP_FAILED) {
            mon_harness_error("mapping the file: %s", strerror(errno));
        }
        memset(w, fill, PERIOD);
        munmap(w, PERIOD);
    }
    for (uint64_t o = 0; o < b->pages_n; o += PERIOD) {
        uint64_t len = (b->pages_n - o < PERIOD) ? (b->pages_n - o) : PERIOD;
        if (mmap(b->lo + o, len, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, b->fd, 0) == MAP_FAILED) {
            mon_harness_error("mapping the file: %s", strerror(errno));
        }
    }
    b->base = b->lo + skew;
    mon_event("bytes of storage address space", n);
    return b;
}

/* gives [off, off+len) memory of its own; to be called before the storage is used */
static void
big_island(big* b, uint64_t off, uint64_t len) {
    uint8_t* from = b->lo + (uint64_t)(b->base + off - b->lo) / PG * PG;
    uint8_t* to = b->lo + ((uint64_t)(b->base + off + len - b->lo) + PG - 1U) / PG * PG;
    if (to > b->lo + b->pages_n) {
        to = b->lo + b->pages_n;
    }
    if (mmap(from, (size_t)(to - from), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) {
        mon_harness_error("island: %s", strerror(errno));
    }
    if (b->fill != 0) {
        memset(from, b->fill, (size_t)(to - from));
    }
}

/* islands of an element of es bytes at off */
static void
big_elem_islands(big* b, uint64_t off, uint64_t es) {
    big_island(b, off, 8);
    big_island(b, off + es / 2U, 8);
    big_island(b, off + es - 8U, 8);
}

/* nothing outside the islands was given another value */
static void
big_clean(big* b, const char* what) {
    uint8_t* w = mmap(NULL, PERIOD, PROT_READ, MAP_SHARED, b->fd, 0);
    if (w == MAP_FAILED) {
        mon_harness_error("mapping the file: %s", strerror(errno));
    }
    for (uint64_t i = 0; i < PERIOD; ++i) {
        if (w[i] != b->fill) {
            mon_fail("big-stray-write", "%s: a byte of the storage that should hold 0x%02x was given the value 0x%02x (at offset %llu modulo 16 MiB)", what, b->fill, w[i], (unsigned long long)i);
        }
    }
    munmap(w, PERIOD);
}

static uint64_t
tag_of(uint64_t t, unsigned part) {
    return (t << 8) | 0x8000000000000000ULL | part;
}

static void
elem_put(uint8_t* p, uint64_t es, uint64_t t) {
    for (unsigned k = 0; k < 3; ++k) {
        uint64_t v = tag_of(t, k);
        memcpy(p + ((k == 0) ? 0 : (k == 1) ? (es / 2U) : (es - 8U)), &v, 8);
    }
}

static void
elem_is(const uint8_t* p, uint64_t es, uint64_t t, const char* what) {
    for (unsigned k = 0; k < 3; ++k) {
        uint64_t v;
        memcpy(&v, p + ((k == 0) ? 0 : (k == 1) ? (es / 2U) : (es - 8U)), 8);
        if (v != tag_of(t, k)) {
            mon_fail("big-element", "%s: %s of the element is 0x%llx instead of 0x%llx (element of %llu bytes)", what, (k == 0) ? "beginning" : (k == 1) ? "middle" : "end",
                     (unsigned long long)v, (unsigned long long)tag_of(t, k), (unsigned long long)es);
        }
    }
    mon_event("elements verified", 1);
}

static big*
big_elem(uint64_t es) {
    big* b = big_new(es, 0);
    big_elem_islands(b, 0, es);
    return b;
}

static big*
big_array(uint64_t n, uint64_t es) {
    big* b = big_new(n * es, 0);
    for (uint64_t i = 0; i < n; ++i) {
        big_elem_islands(b, i * es, es);
    }
    return b;
}

static void
all_clean(const char* what) {
    for (unsigned i = 0; i < n_bigs; ++i) {
        big_clean(&bigs[i], what);
    }
    big_release();
}

/* ------------------------------------------------------------------ containers */
static void
big_queue(uint64_t idx) {
    static const struct { uint32_t cap; uint32_t es; } cfg[] = {{5, 0x46000001U}, {3, 0xB0000003U}, {70, 0x04000003U}, {9, 0x2AAAAAABU}, {2, 0xFFFFFFFDU}, {5, 0x40000000U}, {4, 0x40000000U}};
    uint32_t cap = cfg[idx % 7U].cap;
    uint32_t es = cfg[idx % 7U].es;
    mon_note("queue of %u elements of %u bytes", cap, es);
    big* st = big_array(cap, es);
    big* in = big_elem(es);
    big* out = big_elem(es);
    Queue_t q;
    memset(&q, 0x5A, sizeof(q));
    MON_REQUIRE(Queue_init(&q, cap, es, st->base), "big-init", "Queue_init(%u, %u) failed", cap, es);
    uint64_t head = 1;
    uint64_t tail = 1;
    /* fill, take one, add one (wraps around), drain */
    for (unsigned step = 0; step < 2U * cap + 4U; ++step) {
        bool add = (step < cap + 1U) || (step == cap + 2U);
        if (add) {
            elem_put(in->base, es, tail);
            bool r = Queue_enqueue(&q, in->base);
            MON_REQUIRE(r == (tail - head < cap), "big-enqueue", "Queue_enqueue()=%d with %u of %u held", r, (unsigned)(tail - head), cap);
            if (r) {
                ++tail;
            }
        } else {
            elem_put(out->base, es, 0);
            bool r = Queue_dequeue(&q, out->base);
            MON_REQUIRE(r == (tail != head), "big-dequeue", "Queue_dequeue()=%d with %u held", r, (unsigned)(tail - head));
            if (r) {
                elem_is(out->base, es, head, "Queue_dequeue");
                ++head;
            }
        }
        if ((tail != head) && ((step == 0U) || (step == cap + 2U) || (es < 0x10000000U))) {
            MON_REQUIRE(Queue_front(&q, out->base), "big-front", "Queue_front failed");
            elem_is(out->base, es, head, "Queue_front");
            MON_REQUIRE(Queue_rear(&q, out->base), "big-rear", "Queue_rear failed");
            elem_is(out->base, es, tail - 1U, "Queue_rear");
        }
        MON_REQUIRE(Queue_full(&q) == (tail - head == cap) && Queue_empty(&q) == (tail == head), "big-status", "full/empty wrong with %u of %u held", (unsigned)(tail - head), cap);
    }
    all_clean("queue");
    mon_event("queues", 1);
    mon_sig(idx);
    mon_sample("queue of %u elements of %u bytes (%llu MiB)", cap, es, (unsigned long long)cap * es >> 20);
}

static void
big_pq(uint64_t idx) {
    static const struct { uint32_t cap; uint32_t es; } cfg[] = {{5, 0x46000001U}, {3, 0xB0000003U}, {3, 0x80000000U}, {5, 0x40000000U}};
    uint32_t cap = cfg[idx % 4U].cap;
    uint32_t es = cfg[idx % 4U].es;
    mon_note("priority queue of %u elements of %u bytes", cap, es);
    big* st = big_array(cap, es);
    big* in = big_elem(es);
    big* out = big_elem(es);
    uint32_t prios[5] = {0};
    PriorityQueueItem_t items = {prios, st->base};
    PriorityQueue_t q;
    memset(&q, 0x5A, sizeof(q));
    MON_REQUIRE(PriorityQueue_init(&q, cap, es, &items), "big-init", "PriorityQueue_init(%u, %u) failed", cap, es);
    /* priorities so that every position is moved: the lowest is second, evicted; the highest is in front */
    static const uint32_t pr[6] = {50, 10, 40, 30, 40, 45};
    uint32_t p;
    PriorityQueueItem_t item = {&p, in->base};
    uint32_t left[6];
    unsigned n_left = 0;
    for (unsigned i = 0; i <= cap; ++i) {
        p = pr[(i == cap) ? 5U : i];
        elem_put(in->base, es, 100U + i);
        MON_REQUIRE(PriorityQueue_enqueue(&q, &item), "big-enqueue", "PriorityQueue_enqueue(%u) failed as number %u", p, i);
        if (i == cap) {
            /* number 1 has gone */
            for (unsigned k = 1; k + 1U < n_left; ++k) {
                left[k] = left[k + 1U];
            }
            --n_left;
        }
        left[n_left++] = i;
    }
    p = 1;
    MON_REQUIRE(!PriorityQueue_enqueue(&q, &item), "big-enqueue", "an element of lowest priority was accepted by a full priority queue");
    while (n_left > 0) {
        unsigned best = 0;
        for (unsigned k = 1; k < n_left; ++k) {
            uint32_t a = pr[(left[k] == cap) ? 5U : left[k]];
            uint32_t b = pr[(left[best] == cap) ? 5U : left[best]];
            if (a > b) {
                best = k;
            }
        }
        elem_put(out->base, es, 0);
        MON_REQUIRE(PriorityQueue_dequeue(&q, out->base), "big-dequeue", "PriorityQueue_dequeue failed with %u held", n_left);
        elem_is(out->base, es, 100U + left[best], "PriorityQueue_dequeue");
        for (unsigned k = best; k + 1U < n_left; ++k) {
            left[k] = left[k + 1U];
        }
        --n_left;
    }
    MON_REQUIRE(PriorityQueue_empty(&q), "big-status", "not empty at the end");
    all_clean("priority queue");
    mon_event("priority queues", 1);
    mon_sig(idx);
    mon_sample("priority queue of %u elements of %u bytes", cap, es);
}

static void
big_map_values(uint64_t idx) {
    static const struct { int32_t cap; int32_t vs; } cfg[] = {{5, 0x46000001}, {3, 0x7FFFFFFF}, {5, 0x40000000}};
    int32_t cap = cfg[idx % 3U].cap;
    int32_t vs = cfg[idx % 3U].vs;
    mon_note("map of %d values of %d bytes", cap, vs);
    uint64_t es = (uint64_t)vs;
    big* st = big_array((uint64_t)cap, es);
    big* in = big_elem(es);
    big* out = big_elem(es);
    byte_t* keys = mon_alloc((size_t)cap * 3U, PL_RIGHT, 1);
    Map_t m;
    MON_REQUIRE(Map_init(&m, keys, st->base, 3, vs, cap), "big-init", "Map_init failed");
    byte_t k[3] = {0, 7, 7};
    for (int32_t i = 0; i <= cap; ++i) {
        k[0] = (byte_t)(200 - i);
        elem_put(in->base, es, 100U + (uint64_t)i);
        bool r = Map_insert(&m, k, in->base);
        MON_REQUIRE(r == (i < cap), "big-insert", "Map_insert number %d of %d: %d", i, cap, r);
    }
    k[0] = 200 - 1;
    elem_put(in->base, es, 300U);
    MON_REQUIRE(Map_insert(&m, k, in->base), "big-insert", "overwriting failed");
    k[0] = (byte_t)(200 - (cap - 1));
    elem_put(in->base, es, 301U);
    MON_REQUIRE(Map_insert(&m, k, in->base), "big-insert", "overwriting failed");
    for (int32_t i = cap - 1; i >= 0; --i) {
        k[0] = (byte_t)(200 - i);
        elem_put(out->base, es, 0);
        MON_REQUIRE(Map_getValue(&m, k, out->base), "big-lookup", "Map_getValue of key %d failed", i);
        elem_is(out->base, es, (i == 1) ? ((cap == 2) ? 301U : 300U) : (i == cap - 1) ? 301U : (100U + (uint64_t)i), "Map_getValue");
    }
    all_clean("map values");
    mon_event("maps", 1);
    mon_sig(idx);
    mon_sample("map of %d values of %d bytes", cap, vs);
}

static void
big_map_keys(uint64_t idx) {
    static const struct { int32_t cap; int32_t ks; } cfg[] = {{5, 0x46000001}, {3, 0x7FFFFFFF}};
    int32_t cap = cfg[idx % 2U].cap;
    int32_t ks = cfg[idx % 2U].ks;
    mon_note("map of %d keys of %d bytes", cap, ks);
    uint64_t es = (uint64_t)ks;
    big* st = big_array((uint64_t)cap, es);
    big* key = big_elem(es);
    byte_t* vals = mon_alloc((size_t)cap * 5U, PL_RIGHT, 1);
    Map_t m;
    MON_REQUIRE(Map_init(&m, st->base, vals, ks, 5, cap), "big-init", "Map_init failed");
    byte_t v[5];
    /* the keys agree in the beginning and the middle and differ in the last bytes */
    for (int32_t i = 0; i <= cap; ++i) {
        uint64_t t = 0x1122334455667788ULL + ((uint64_t)i << 56);
        memcpy(key->base + es - 8U, &t, 8);
        memset(v, 0x10 + i, sizeof(v));
        bool found = Map_getValue(&m, key->base, v);
        MON_REQUIRE(!found, "big-lookup", "key %d found before it was inserted", i);
        bool r = Map_insert(&m, key->base, v);
        MON_REQUIRE(r == (i < cap), "big-insert", "Map_insert number %d of %d: %d", i, cap, r);
    }
    for (int32_t i = cap - 1; i >= 0; --i) {
        uint64_t t = 0x1122334455667788ULL + ((uint64_t)i << 56);
        memcpy(key->base + es - 8U, &t, 8);
        MON_REQUIRE(Map_getValue(&m, key->base, v), "big-lookup", "Map_getValue of key %d failed", i);
        MON_REQUIRE((v[0] == 0x10 + i) && (v[4] == 0x10 + i), "big-element", "value of key %d is %02x..%02x", i, v[0], v[4]);
    }
    all_clean("map keys");
    mon_event("maps", 1);
    mon_sig(idx);
    mon_sample("map of %d keys of %d bytes", cap, ks);
}

/* ------------------------------------------------------------------ sorts */
static uint8_t* cmp_lo;
static uint64_t cmp_n, cmp_es, cmp_calls;

static uint64_t
cmp_key(const void* p) {
    uint64_t v;
    uint64_t off = (uint64_t)((const uint8_t*)p - cmp_lo);
    if ((off >= cmp_n) || (off % cmp_es != 0)) {
        /* maybe a faithful copy elsewhere (insertion sort's element): its own bytes decide */
        if (cmp_es > 64) {
            mon_fail("big-compare", "the compare function was called with an address that is not an element (offset %lld, element size %llu)", (long long)off, (unsigned long long)cmp_es);
        }
    }
    memcpy(&v, p, 8);
    return v;
}

static bool
cmp_gt(void* a, void* b) {
    ++cmp_calls;
    return cmp_key(a) > cmp_key(b);
}

static void
big_sort(uint64_t idx) {
    static void (*const sorts[3])(byte_t*, int32_t, int32_t, bool (*)(void*, void*)) = {BubbleSort_sort, SelectionSort_sort, HeapSort_sort};
    static const char* const names[3] = {"bubble", "selection", "heap"};
    static const struct { int32_t n; int32_t es; } cfg[] = {{5, 0x40000003}, {4, 0x7FFFFFFF}, {9, 0x20000001}};
    unsigned s = (unsigned)(idx % 3U);
    int32_t n = cfg[(idx / 3U) % 3U].n;
    int32_t es = cfg[(idx / 3U) % 3U].es;
    if ((s == 2U) && !mon_thorough) {
        n = 5; /* every swap moves an element byte by byte; both children of the second element are beyond 4 GiB */
        es = 0x56000001;
    }
    mon_note("%s sort of %d elements of %d bytes", names[s], n, es);
    big* st = big_array((uint64_t)n, (uint64_t)es);
    /* few exchanges: sorted but for the last two; for selection sort the first and the last exchanged */
    uint64_t order[16];
    for (int32_t i = 0; i < n; ++i) {
        order[i] = 1000U + (uint64_t)i;
    }
    unsigned a = (s == 1U) ? 1U : (unsigned)(n - 2);
    if ((s == 2U) && (n == 5)) {
        /* the fewest moves of the orders that come out wrong whenever one child beyond 4 GiB is not compared or not moved */
        static const uint8_t few[5] = {0, 2, 1, 3, 4};
        for (int32_t i = 0; i < n; ++i) {
            order[i] = 1000U + few[i];
        }
    }
    if (s != 2U) {
        order[a] = 1000U + (uint64_t)(n - 1);
        order[n - 1] = 1000U + a;
    }
    for (int32_t i = 0; i < n; ++i) {
        elem_put(st->base + (uint64_t)i * (uint64_t)es, (uint64_t)es, order[i]);
    }
    cmp_lo = st->base;
    cmp_n = st->n;
    cmp_es = (uint64_t)es;
    cmp_calls = 0;
    sorts[s](st->base, n, es, cmp_gt);
    for (int32_t i = 0; i < n; ++i) {
        elem_is(st->base + (uint64_t)i * (uint64_t)es, (uint64_t)es, 1000U + (uint64_t)i, names[s]);
    }
    all_clean("sort");
    mon_event("sorts", 1);
    mon_event("comparisons", cmp_calls);
    mon_sig(idx);
    mon_sample("%s sort of %d elements of %d bytes, %llu comparisons", names[s], n, es, (unsigned long long)cmp_calls);
}

static void
big_sort_many(uint64_t idx) {
    /* more than 4 GiB of small elements, in order but for the end */
    bool ins = (idx % 2U) == 0U;
    const int32_t es = 64;
    const int32_t n = 70000000 + (int32_t)mon_below(1000);
    mon_note("%s sort of %d elements of %d bytes", ins ? "insertion" : "bubble", n, es);
    big* st = big_new((uint64_t)n * 64U, 0);
    const int32_t tail = 64;
    uint8_t* t = st->base + (uint64_t)(n - tail) * 64U;
    big_island(st, (uint64_t)(n - tail) * 64U, (uint64_t)tail * 64U);
    for (int32_t i = 0; i < tail; ++i) {
        /* sorted, but for neighbours exchanged towards the end */
        uint64_t v = 100U + (uint64_t)i;
        if (i >= tail - 8) {
            v = 100U + ((uint64_t)i ^ 1U);
        }
        elem_put(t + (uint64_t)i * 64U, 64, v);
    }
    cmp_lo = st->base;
    cmp_n = st->n;
    cmp_es = 64;
    cmp_calls = 0;
    (ins ? InsertionSort_sort : BubbleSort_sort)(st->base, n, es, cmp_gt);
    for (int32_t i = 0; i < tail; ++i) {
        elem_is(t + (uint64_t)i * 64U, 64, 100U + (uint64_t)i, ins ? "insertion sort" : "bubble sort");
    }
    all_clean("sort");
    mon_event("sorts", 1);
    mon_event("comparisons", cmp_calls);
    mon_sig(idx);
    mon_sample("%s sort of %d elements of %d bytes, %llu comparisons", ins ? "insertion" : "bubble", n, es, (unsigned long long)cmp_calls);
}

static uint8_t* byte_lo;
static uint64_t byte_n;
static bool
byte_gt(void* a, void* b) {
    if (((uint64_t)((uint8_t*)a - byte_lo) >= byte_n) || ((uint64_t)((uint8_t*)b - byte_lo) >= byte_n)) {
        mon_fail("big-compare", "the compare function was called with an address outside the array (offset %lld)",
                 (long long)(((uint64_t)((uint8_t*)a - byte_lo) >= byte_n) ? ((uint8_t*)a - byte_lo) : ((uint8_t*)b - byte_lo)));
    }
    return *(uint8_t*)a > *(uint8_t*)b;
}

static void
big_heap_count(uint64_t idx) {
    /* the largest element counts an int32_t can name */
    (void)idx;
    const int32_t n = 0x7FFFFFFF - (int32_t)mon_below(3);
    mon_note("heap sort of %d elements of 1 byte", n);
    uint8_t* m = mmap(NULL, 3UL * GIB + 2UL * GUARD, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    uint8_t* b = m + GUARD;
    if ((m == MAP_FAILED) || (mprotect(b, 2UL * GIB, PROT_READ | PROT_WRITE) != 0)) {
        mon_harness_error("2 GiB: %s", strerror(errno));
    }
    memset(b, 9, (size_t)n);
    b[0] = 3;
    b[n - 1] = 10;
    byte_lo = b;
    byte_n = (uint64_t)n;
    HeapSort_sort(b, n, 1, byte_gt);
    MON_REQUIRE((b[0] == 3) && (b[n - 1] == 10), "big-element", "ends are %u and %u instead of 3 and 10", b[0], b[n - 1]);
    for (int32_t i = 1; i < n - 1; ++i) {
        if (b[i] != 9) {
            mon_fail("big-element", "element %d is %u instead of 9", i, b[i]);
        }
    }
    munmap(m, 3UL * GIB + 2UL * GUARD);
    mon_event("sorts", 1);
    mon_sig((uint64_t)n);
    mon_sample("heap sort of %d elements of 1 byte", n);
}

/* ------------------------------------------------------------------ blobs */
static void
big_blob(uint64_t idx) {
    static const char* const names[] = {"Utils_serializeBlobBE", "Utils_deserializeBlobBE", "Utils_serializeBlobLE", "Utils_deserializeBlobLE", "Utils_swapElements"};
    static const uint32_t sizes[] = {0x80000101U, 0xFFFFFFF1U, 0xC0000001U, 0x7FFFFFFFU, 0x80000000U, 0xFFFFFFFFU};
    unsigned f = (unsigned)(idx % 5U);
    uint32_t n = sizes[(idx / 5U) % 6U];
    mon_note("%s of %u bytes", names[f], n);
    big* src = big_elem(n);
    big* dst = big_elem(n);
    elem_put(src->base, n, 77);
    bool rev = (f == 2U) || (f == 3U);
    big_island(dst, n - n / 2U - 8U, 8); /* where the middle goes when reversed */
    switch (f) {
        case 0:
            Utils_serializeBlobBE(dst->base, src->base, n);
            break;
        case 1:
            Utils_deserializeBlobBE(src->base, dst->base, n);
            break;
        case 2:
            Utils_serializeBlobLE(dst->base, src->base, n);
            break;
        case 3:
            Utils_deserializeBlobLE(src->base, dst->base, n);
            break;
        default:
            elem_put(dst->base, n, 78);
            Utils_swapElements(dst->base, src->base, n);
            elem_is(src->base, n, 78, names[f]);
            break;
    }
    if (rev) {
        for (unsigned k = 0; k < 3; ++k) {
            uint64_t v;
            uint64_t at = (k == 0) ? 0 : (k == 1) ? (n / 2U) : ((uint64_t)n - 8U);
            memcpy(&v, dst->base + ((uint64_t)n - 8U - at), 8);
            v = __builtin_bswap64(v);
            MON_REQUIRE(v == tag_of(77, k), "big-element", "%s of %u bytes: part %u arrived as 0x%llx instead of 0x%llx", names[f], n, k, (unsigned long long)v, (unsigned long long)tag_of(77, k));
        }
    } else {
        elem_is(dst->base, n, 77, names[f]);
    }
    all_clean(names[f]);
    mon_event("blobs and swaps", 1);
    mon_sig(idx);
    mon_sample("%s of %u bytes", names[f], n);
}

/* ------------------------------------------------------------------ long inputs of other properties */
static void
long_vernam(uint64_t idx) {
    /* a message of more than 4 GiB never has the length of a key */
    static const struct { uint64_t len; int32_t kl; } cfg[] = {{(1ULL << 32) + 5U, 5}, {(1ULL << 32) - 1U, -1}, {1ULL << 31, INT32_MIN}, {1ULL << 32, 0}, {(1ULL << 32) + 5U, 5}, {(1ULL << 33) + 7U, 7}};
    uint64_t len = cfg[idx % 6U].len;
    int32_t kl = cfg[idx % 6U].kl;
    big* m = big_new(len + 1U, 'A');
    big_island(m, len, 1);
    m->base[len] = '\0';
    char* key = mon_str("BCDEFGH", PL_RIGHT);
    for (unsigned k = 0; k < 2; ++k) {
        bool r = (k == 0) ? VernamCipher_encrypt((char*)m->base, key, kl) : VernamCipher_decrypt((char*)m->base, key, kl);
        MON_REQUIRE(!r, "vernam-mismatch", "%s of a message of %llu characters with a key of length %d succeeded", k ? "decryption" : "encryption", (unsigned long long)len, kl);
    }
    MON_REQUIRE((m->base[len] == '\0') && (m->base[len - 1U] == 'A'), "vernam-mismatch-changed", "message changed");
    all_clean("refused message");
    mon_event("refusals", 2);
    mon_sig(idx);
    mon_sample("message of %llu characters, key length %d", (unsigned long long)len, kl);
}

static void
long_chacha(uint64_t idx) {
    static const uint32_t lens[] = {0x80000000U + 77U, 0xFFFFFFFFU, 0xFFFFFFC0U, 0x7FFFFFC1U};
    uint32_t n = lens[idx % 4U];
    uint8_t key[32];
    uint8_t nonce[12];
    mon_fill(key, 32, FILL_RANDOM);
    mon_fill(nonce, 12, FILL_RANDOM);
    uint32_t ctr = (idx & 1U) ? (uint32_t)mon_rnd() : (0U - (uint32_t)mon_below(1000));
    mon_note("ChaCha20 of %u bytes, counter %u", n, ctr);
    big* in = big_new(n, 0);
    big* out = big_new(n, 0);
    uint64_t spots[5] = {0, (1UL << 31) - 4096U, (uint64_t)n / 2U, (uint64_t)n / 3U, (uint64_t)n - 5000U};
    for (unsigned k = 0; k < 5; ++k) {
        if (spots[k] + 5000U > n) {
            spots[k] = (uint64_t)n - 5000U;
        }
        big_island(in, spots[k], 5000);
        big_island(out, spots[k], 5000);
    }
    for (unsigned k = 0; k < 5; ++k) {
        mon_fill(in->base + spots[k], 5000, FILL_RANDOM);
    }
    uint64_t h = mon_hash(in->base + spots[4], 5000, 1);
    Chacha20_crypt(in->base, n, key, nonce, ctr, out->base);
    static uint8_t want[5000];
    for (unsigned k = 0; k < 5; ++k) {
        ref_chacha_xor_at(key, ctr, nonce, spots[k], in->base + spots[k], 5000, want);
        if (!mon_eq(want, out->base + spots[k], 5000)) {
            size_t d = mon_diff(want, out->base + spots[k], 5000);
            mon_fail("chacha-output", "message of %u bytes: byte %llu is 0x%02x instead of 0x%02x", n, (unsigned long long)(spots[k] + d), out->base[spots[k] + d], want[d]);
        }
    }
    MON_REQUIRE(h == mon_hash(in->base + spots[4], 5000, 1), "chacha-input", "the message was changed");
    big_clean(in, "ChaCha20 input");
    big_release();
    mon_event("bytes", n);
    mon_sig(n);
    mon_sample("ChaCha20 of %u bytes with initial counter %u", n, ctr);
}

/* register after n zero bytes: the step is linear, so its matrix is squared */
static uint32_t
crc_zeros(const ref_crc_model* m, uint32_t reg, uint64_t n) {
    uint32_t mat[32];
    uint8_t z = 0;
    for (unsigned i = 0; i < m->width; ++i) {
        mat[i] = ref_crc_feed(m, (uint32_t)1U << i, &z, 1);
    }
    while (n > 0) {
        if ((n & 1U) != 0U) {
            uint32_t r = 0;
            for (unsigned i = 0; i < m->width; ++i) {
                if (((reg >> i) & 1U) != 0U) {
                    r ^= mat[i];
                }
            }
            reg = r;
        }
        uint32_t sq[32];
        for (unsigned i = 0; i < m->width; ++i) {
            uint32_t r = 0;
            for (unsigned k = 0; k < m->width; ++k) {
                if (((mat[i] >> k) & 1U) != 0U) {
                    r ^= mat[k];
                }
            }
            sq[i] = r;
        }
        memcpy(mat, sq, sizeof(sq));
        n >>= 1;
    }
    return reg;
}

static void
long_crc(uint64_t idx) {
    /* quick: one unreflected variant of each width; thorough: all */
    const crc_variant* v = NULL;
    if (mon_thorough) {
        v = &crc_variants[idx % n_crc_variants];
    } else {
        static const unsigned widths[3] = {8, 16, 32};
        unsigned skip = (unsigned)(mon_seed % 3U);
        for (unsigned i = 0; i < 2U * n_crc_variants; ++i) {
            const crc_variant* c = &crc_variants[i % n_crc_variants];
            if ((c->model.width == widths[idx % 3U]) && !c->model.refin) {
                v = c;
                if (skip-- == 0) {
                    break;
                }
            }
        }
    }
    uint32_t n = (mon_thorough && (idx >= n_crc_variants)) ? 0xFFFFFFFFU : 0x80000000U + 3U + (uint32_t)mon_below(100000);
    mon_note("%s of %u bytes", v->name, n);
    big* b = big_new(n, 0);
    const uint32_t part = 3000;
    big_island(b, 0, part);
    big_island(b, n - part, part);
    mon_fill(b->base, part, FILL_RANDOM);
    mon_fill(b->base + n - part, part, FILL_RANDOM);
    uint32_t reg = ref_crc_feed(&v->model, v->model.init, b->base, part);
    reg = crc_zeros(&v->model, reg, (uint64_t)n - 2U * part);
    reg = ref_crc_feed(&v->model, reg, b->base + n - part, part);
    uint32_t want = ref_crc_finish(&v->model, reg);
    uint32_t got = v->fn(b->base, n, true, NULL);
    MON_REQUIRE(got == want, "crc-long", "%s of a message of %u bytes is 0x%x instead of 0x%x", v->name, n, got, want);
    all_clean("CRC input");
    mon_event("bytes", n);
    mon_sig(idx);
    mon_sample("%s of %u bytes", v->name, n);
}

static void
long_engine(uint64_t idx) {
    static const unsigned ws[] = {8, 16, 32};
    ref_crc_model m = {0};
    m.width = ws[idx % 3U];
    uint32_t mask = (m.width == 32) ? 0xFFFFFFFFU : ((1U << m.width) - 1U);
    m.poly = mon_u32() & mask;
    m.init = mon_u32() & mask;
    m.xorout = mon_u32() & mask;
    m.refin = ((idx / 3U) & 1U) != 0U;
    m.refout = ((idx / 6U) & 1U) != 0U;
    uint32_t n = (mon_thorough && (idx >= 3U)) ? 0xFFFFFFFFU - (uint32_t)mon_below(3) : 0x80000000U + 3U + (uint32_t)mon_below(100000);
    mon_note("engine of width %u on %u bytes", m.width, n);
    big* b = big_new(n, 0);
    const uint32_t part = 3000;
    big_island(b, 0, part);
    big_island(b, n - part, part);
    mon_fill(b->base, part, FILL_RANDOM);
    mon_fill(b->base + n - part, part, FILL_RANDOM);
    uint32_t reg = ref_crc_feed(&m, m.init, b->base, part);
    reg = crc_zeros(&m, reg, (uint64_t)n - 2U * part);
    reg = ref_crc_feed(&m, reg, b->base + n - part, part);
    uint32_t want = ref_crc_finish(&m, reg);
    uint32_t got;
    if (m.width == 8) {
        uint8_t t[256];
        Crc8Base_tableCalculator((uint8_t)m.poly, t);
        got = Crc8Base(t, b->base, n, (uint8_t)m.init, (uint8_t)m.xorout, m.refout, m.refin, true);
    } else if (m.width == 16) {
        uint16_t t[256];
        Crc16Base_tableCalculator((uint16_t)m.poly, t);
        got = Crc16Base(t, b->base, n, (uint16_t)m.init, (uint16_t)m.xorout, m.refout, m.refin, true);
    } else {
        uint32_t t[256];
        Crc32Base_tableCalculator(m.poly, t);
        got = Crc32Base(t, b->base, n, m.init, m.xorout, m.refout, m.refin, true);
    }
    MON_REQUIRE(got == want, "crc-long", "width %u poly 0x%x init 0x%x xor 0x%x refin %d refout %d on %u bytes: 0x%x instead of 0x%x", m.width, m.poly, m.init, m.xorout,
                m.refin, m.refout, n, got, want);
    all_clean("CRC input");
    mon_event("bytes", n);
    mon_sig(idx);
    mon_sample("engine of width %u on %u bytes", m.width, n);
}

/* more than 4 GiB of Base64 text */
static void
long_base64(uint64_t idx) {
    bool dec = (idx & 1U) != 0U;
    const uint64_t raw = 3500000000ULL + mon_below(100);
    const uint64_t txt = ref_b64_len(raw);
    /* a period of 3 (4) bytes does not divide the file's: zeros, whose text is all 'A' */
    big* r = big_new(raw, 0);
    big* t = big_new(txt + 1U, 'A');
    const uint64_t part = 3000; /* multiple of 3 */
    uint64_t at[3] = {0, raw / 2U / 3U * 3U, raw / 3U * 3U - part};
    for (unsigned k = 0; k < 3; ++k) {
        big_island(r, at[k], part + ((k == 2) ? raw % 3U : 0U));
        big_island(t, at[k] / 3U * 4U, part / 3U * 4U + ((k == 2) ? 5U : 0U));
    }
    static uint8_t data[3][3000 + 3];
    static char text[3][4000 + 9];
    for (unsigned k = 0; k < 3; ++k) {
        uint64_t n = part + ((k == 2) ? raw % 3U : 0U);
        mon_fill(data[k], n, FILL_RANDOM);
        ref_b64_encode(data[k], n, text[k]);
        if (dec) {
            memcpy(t->base + at[k] / 3U * 4U, text[k], strlen(text[k]) + ((k == 2) ? 1U : 0U));
        } else {
            memcpy(r->base + at[k], data[k], n);
        }
    }
    if (dec) {
        MON_REQUIRE(Base64_decode((const char*)t->base, txt, r->base, raw) == 0, "decode-long", "decoding %llu characters failed", (unsigned long long)txt);
        for (unsigned k = 0; k < 3; ++k) {
            MON_REQUIRE(mon_eq(r->base + at[k], data[k], part + ((k == 2) ? raw % 3U : 0U)), "decode-long", "decoded bytes at %llu are wrong", (unsigned long long)at[k]);
        }
    } else {
        MON_REQUIRE(Base64_encode((const char*)r->base, raw, (char*)t->base, txt + 1U) == 0, "encode-long", "encoding %llu bytes failed", (unsigned long long)raw);
        for (unsigned k = 0; k < 3; ++k) {
            MON_REQUIRE(mon_eq(t->base + at[k] / 3U * 4U, text[k], strlen(text[k]) + ((k == 2) ? 1U : 0U)), "encode-long", "text at %llu is wrong", (unsigned long long)(at[k] / 3U * 4U));
        }
    }
    all_clean("Base64");
    mon_event("bytes", raw);
    mon_sig(idx);
    mon_sample("%s of %llu bytes", dec ? "decoding" : "encoding", (unsigned long long)raw);
}

static void
long_encode(uint64_t idx) {
    long_base64(idx * 2U);
}

static void
long_decode(uint64_t idx) {
    long_base64(idx * 2U + 1U);
}

const mon_group mon_groups_big[] = {
    {"M07", "big_sort", 3, 9, big_sort, MON_BIG | MON_EXH},
    {"M07", "big_heap_count", 1, 1, big_heap_count, MON_BIG | MON_EXH},
    {"M07", "big_blob", 10, 30, big_blob, MON_BIG | MON_EXH},
    {"M07", "big_sort_many", 2, 2, big_sort_many, MON_BIG | MON_EXH},
    {"M07", "big_queue", 3, 7, big_queue, MON_BIG | MON_EXH},
    {"M07", "big_pq", 1, 4, big_pq, MON_BIG | MON_EXH},
    {"M07", "big_map_values", 1, 3, big_map_values, MON_BIG | MON_EXH},
    {"M07", "big_map_keys", 1, 2, big_map_keys, MON_BIG | MON_EXH},
    {"E04", "long_vernam", 4, 6, long_vernam, MON_BIG | MON_EXH},
    {"E01", "long_chacha", 1, 4, long_chacha, MON_BIG | MON_EXH},
    {"C01", "long_crc", 3, 90, long_crc, MON_BIG | MON_EXH},
    {"C03", "long_engine", 3, 24, long_engine, MON_BIG | MON_EXH},
    {"B01", "long_encode", 1, 2, long_encode, MON_BIG | MON_EXH},
    {"B02", "long_decode", 1, 2, long_decode, MON_BIG | MON_EXH},
    MON_END
};
