/* S01..S04: bubble, heap, insertion, selection sort */
#include "mon.h"

#include <math.h>
#include <stdlib.h>

#include "bubble_sort.h"
#include "heap_sort.h"
#include "insertion_sort.h"
#include "selection_sort.h"

typedef bool (*cmp_fn)(void* first, void* second);
typedef void (*sort_fn)(byte_t* buffer, int32_t n, int32_t es, cmp_fn cmp);
enum { BUBBLE, HEAP, INSERTION, SELECTION, N_SORTS };
static const sort_fn sorts[N_SORTS] = {BubbleSort_sort, HeapSort_sort, InsertionSort_sort, SelectionSort_sort};
static const char* const names[N_SORTS] = {"bubble sort", "heap sort", "insertion sort", "selection sort"};
#define INS_MAX 64U

/* ------------------------------------------------------------------ compare functions */
/* The order is over a key inside the element: kind, offset and width are set per case. */
enum { K_U8, K_U16, K_U32, K_I32, K_U32_DESC, K_MEM, K_CASE, K_MASK, K_I8, K_F32, K_MOD, K_KINDS };
static int k_kind;
static size_t k_off;
static size_t k_es;

static bool
key_greater(const uint8_t* a, const uint8_t* b) {
    switch (k_kind) {
        case K_U8:
            return a[k_off] > b[k_off];
        case K_I8:
            return (int8_t)a[k_off] > (int8_t)b[k_off];
        case K_U16: {
            uint16_t x, y;
            memcpy(&x, a + k_off, 2);
            memcpy(&y, b + k_off, 2);
            return x > y;
        }
        case K_U32: {
            uint32_t x, y;
            memcpy(&x, a + k_off, 4);
            memcpy(&y, b + k_off, 4);
            return x > y;
        }
        case K_U32_DESC: {
            uint32_t x, y;
            memcpy(&x, a + k_off, 4);
            memcpy(&y, b + k_off, 4);
            return x < y;
        }
        case K_I32: {
            int32_t x, y;
            memcpy(&x, a + k_off, 4);
            memcpy(&y, b + k_off, 4);
            return x > y;
        }
        case K_F32: {
            float x, y;
            memcpy(&x, a + k_off, 4);
            memcpy(&y, b + k_off, 4);
            return x > y;
        }
        case K_MEM:
            return memcmp(a, b, k_es) > 0;
        case K_CASE:
            return (a[k_off] | 0x20U) > (b[k_off] | 0x20U);
        case K_MOD:
            return (a[k_off] % 5U) > (b[k_off] % 5U);
        default:
            return (a[k_off] & 3U) > (b[k_off] & 3U);
    }
}

static size_t
key_width(int kind) {
    switch (kind) {
        case K_U16:
            return 2;
        case K_U32:
        case K_I32:
        case K_U32_DESC:
        case K_F32:
            return 4;
        default:
            return 1;
    }
}

/* ------------------------------------------------------------------ monitor around the compare function */
static const uint8_t* a_base;       /* the array being sorted */
static size_t a_n, a_es;
static uint8_t* a_orig;             /* its original elements */
static uint64_t a_cmps;
static uint64_t a_limit;
static uint64_t a_inplace, a_copies;
static int a_mode;                  /* 0 consistent, >0 inconsistent kinds */
static uint64_t a_rng;
static int a_sort;
static bool a_light;                /* only range checks (large arrays) */

static uint64_t
arnd(void) {
    a_rng += 0x9E3779B97F4A7C15ULL;
    return mon_mix(a_rng);
}

static void
arg_check(const uint8_t* p, const char* which) {
    uintptr_t base = (uintptr_t)a_base;
    uintptr_t q = (uintptr_t)p;
    if ((q >= base) && (q < base + a_n * a_es)) {
        if (((q - base) % a_es) != 0) {
            mon_fail("compare-argument", "%s (%zu elements of %zu bytes): the %s argument of comparison %llu points into the middle of an element (offset %zu)", names[a_sort], a_n, a_es, which,
                     (unsigned long long)a_cmps, (size_t)(q - base));
        }
        ++a_inplace;
        return;
    }
    /* not in the array: has to be a copy of one of its elements */
    long dist = (long)(intptr_t)(q - base);
    if ((dist > -60000L) && (dist < (long)(a_n * a_es) + 60000L)) {
        mon_fail("compare-outside", "%s (%zu elements of %zu bytes): the %s argument of comparison %llu lies outside the array (offset %ld)", names[a_sort], a_n, a_es, which, (unsigned long long)a_cmps, dist);
    }
    if (!a_light) {
        bool found = false;
        for (size_t i = 0; (i < a_n) && !found; ++i) {
            found = memcmp(p, a_orig + i * a_es, a_es) == 0;
        }
        if (!found) {
            mon_fail("compare-outside", "%s (%zu elements of %zu bytes): the %s argument of comparison %llu is neither an element of the array nor a copy of one", names[a_sort], a_n, a_es, which,
                     (unsigned long long)a_cmps);
        }
    }
    ++a_copies;
}

static bool
mon_compare(void* first, void* second) {
    ++a_cmps;
    if (a_cmps > a_limit) {
        mon_fail("compare-count", "%s of %zu elements made more than %llu comparisons", names[a_sort], a_n, (unsigned long long)a_limit);
    }
    arg_check(first, "first");
    arg_check(second, "second");
    switch (a_mode) {
        case 0:
            return key_greater(first, second);
        case 1:
            return (arnd() & 1U) != 0;
        case 2:
            return true;
        case 3:
            return false;
        case 4:
            return (a_cmps & 1U) != 0;
        case 5: /* not a strict order: equal elements are "greater" too */
            return !key_greater(second, first);
        case 6: { /* not transitive */
            unsigned x = *(uint8_t*)first % 3U;
            unsigned y = *(uint8_t*)second % 3U;
            return ((x + 1U) % 3U) == y;
        }
        case 7: /* changes its mind half way */
            return (a_cmps < a_n) ? key_greater(first, second) : key_greater(second, first);
        case 8: /* mostly right */
            return ((arnd() % 10U) == 0) ? !key_greater(first, second) : key_greater(first, second);
        case 9: /* depends on the address */
            return first > second;
        case 10:
            return first < second;
        default: { /* floats with NaN */
            float x, y;
            memcpy(&x, first, sizeof(float));
            memcpy(&y, second, sizeof(float));
            return x > y;
        }
    }
}
#define N_MODES 12

/* plain compare without any of the above (for unobserved runs) */
static bool
plain_compare(void* first, void* second) {
    return key_greater(first, second);
}

/* ------------------------------------------------------------------ oracles */
static int
mem_order(const void* a, const void* b) {
    return memcmp(a, b, k_es);
}

static void
check_same_elements(const uint8_t* got, const uint8_t* orig, size_t n, size_t es) {
    if ((n == 0) || mon_eq(got, orig, n * es)) {
        return;
    }
    size_t keep = k_es;
    k_es = es;
    uint8_t* x = malloc(n * es);
    uint8_t* y = malloc(n * es);
    memcpy(x, got, n * es);
    memcpy(y, orig, n * es);
    qsort(x, n, es, mem_order);
    qsort(y, n, es, mem_order);
    k_es = keep;
    if (!mon_eq(x, y, n * es)) {
        size_t d = mon_diff(x, y, n * es);
        mon_fail("sort-elements", "%s of %zu elements of %zu bytes: the elements afterwards are not the original ones (sorted multisets differ in element %zu: %s instead of %s)", names[a_sort], n, es, d / es,
                 mon_hex(x + d / es * es, es), mon_hex(y + d / es * es, es));
    }
    free(x);
    free(y);
}

static void
check_ascending(const uint8_t* got, size_t n, size_t es) {
    for (size_t i = 0; i + 1 < n; ++i) {
        if (key_greater(got + i * es, got + (i + 1) * es)) {
            mon_fail("sort-order", "%s of %zu elements of %zu bytes: element %zu (%s) is greater than element %zu (%s)", names[a_sort], n, es, i, mon_hex(got + i * es, es), i + 1,
                     mon_hex(got + (i + 1) * es, es));
        }
    }
}

/* ------------------------------------------------------------------ inputs */
static void
put_key(uint8_t* e, uint64_t v) {
    if (k_kind == K_F32) {
        float f = (float)(int32_t)(uint32_t)v * (1.0F / 1024.0F);
        memcpy(e + k_off, &f, 4);
    } else {
        memcpy(e + k_off, &v, key_width(k_kind));
    }
}

/* fills n elements; returns a code of the shape */
static unsigned
gen_array(uint8_t* p, size_t n, size_t es) {
    unsigned style = (unsigned)mon_below(13);
    mon_fill(p, n * es, mon_chance(1, 3) ? FILL_BIASED : mon_chance(1, 4) ? FILL_ZERO : FILL_RANDOM);
    uint64_t few = 1U + mon_below(6);
    uint64_t salt = mon_rnd();
    for (size_t i = 0; i < n; ++i) {
        uint8_t* e = p + i * es;
        if (style == 12) {
            break; /* raw bytes decide */
        }
        uint64_t v;
        switch (style) {
            case 0:
                v = i;
                break;
            case 1:
                v = n - i;
                break;
            case 2:
                v = 7;
                break;
            case 3:
                v = mon_below(few);
                break;
            case 4:
                v = (i < n / 2) ? i : (n - i);
                break;
            case 5:
                v = (i < n / 2) ? (n - i) : i;
                break;
            case 6:
                v = mon_mix(i ^ salt);
                break;
            case 7:
                v = (i + 1 == n) ? 0 : (i + 1U);
                break;
            case 8:
                v = (i == 0) ? n : i;
                break;
            case 9:
                v = i ^ 1U;
                break;
            case 10:
                v = mon_u32();
                break;
            default:
                v = (i * 7U) % (n + 1U);
                break;
        }
        if (es >= key_width(k_kind)) {
            put_key(e, v);
        }
    }
    if (k_kind == K_F32) {
        for (size_t i = 0; i < n; ++i) {
            float f;
            memcpy(&f, p + i * es + k_off, 4);
            if (isnan(f)) {
                put_key(p + i * es, mon_u32());
            }
        }
    }
    return style;
}

/* a dimension as drawn, or a constant worth trying */
static size_t
pick_or(size_t max, size_t drawn) {
    uint64_t d;
    return mon_fresh(0, max, &d) ? (size_t)d : drawn;
}

static size_t
pick_es(bool small) {
    static const size_t sp[] = {1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 20, 24, 31, 32, 33, 40, 63, 64};
    static const size_t big[] = {65, 100, 127, 128, 129, 255, 256, 257, 300, 1000};
    size_t es = mon_chance(3, 4) ? sp[mon_below(sizeof(sp) / sizeof(sp[0]))] : (size_t)mon_range(1, 64);
    if (!small && mon_chance(1, 6)) {
        es = big[mon_below(sizeof(big) / sizeof(big[0]))];
    }
    es = pick_or(small ? 64 : 1000, es);
    return (es > 0) ? es : 1;
}

static void
pick_kind(size_t es) {
    do {
        k_kind = (int)mon_below(K_KINDS);
    } while (key_width(k_kind) > es);
    k_es = es;
    k_off = (size_t)mon_below(es - key_width(k_kind) + 1U);
}

static void
observe(int sort, uint8_t* arr, uint8_t* orig, size_t n, size_t es, int mode, uint64_t limit) {
    a_sort = sort;
    a_base = arr;
    a_n = n;
    a_es = es;
    a_orig = orig;
    a_cmps = 0;
    a_limit = limit;
    a_inplace = 0;
    a_copies = 0;
    a_mode = mode;
    a_rng = mon_rnd();
    a_light = false;
    sorts[sort](arr, (int32_t)n, (int32_t)es, mon_compare);
}

static uint64_t
lg(uint64_t n) {
    uint64_t r = 0;
    while (((uint64_t)1 << r) < n) {
        ++r;
    }
    return r;
}

static uint64_t
bound_of(int sort, uint64_t n) {
    if (sort == HEAP) {
        return 6U * n * (lg(n) + 2U) + 100U;
    }
    return 2U * n * n + 10U * n + 20U;
}
#define NO_LIMIT 4000000000ULL

/* ------------------------------------------------------------------ S01 */
static size_t
pick_n(size_t es) {
    size_t n = pick_or(400, mon_chance(1, 12) ? (size_t)mon_below(400) : mon_chance(1, 2) ? (size_t)mon_below(12) : (size_t)mon_below(60));
    if (n * es > 60000U) {
        n = 60000U / es;
    }
    return n;
}

static void
case_sort_random(uint64_t idx) {
    int sort = (int)(idx % N_SORTS);
    size_t es = pick_es(sort == INSERTION);
    pick_kind(es);
    size_t n = pick_n(es);
    int place = mon_chance(1, 2) ? PL_RIGHT : PL_LEFT;
    uint8_t* arr = mon_alloc(n * es, place, 1);
    unsigned style = gen_array(arr, n, es);
    uint8_t* orig = mon_copy(arr, n * es, PL_LEFT, 1);
    mon_note("%s, %zu elements of %zu bytes, key kind %d at %zu, shape %u", names[sort], n, es, k_kind, k_off, style);
    a_sort = sort;
    sorts[sort](arr, (int32_t)n, (int32_t)es, plain_compare);
    check_ascending(arr, n, es);
    check_same_elements(arr, orig, n, es);
    mon_event("sorts checked", 1);
    mon_event("elements sorted", n);
    mon_sig(mon_hash(orig, n * es, (uint64_t)sort * 100U + (uint64_t)k_kind));
    mon_sample("%s: %zu elements of %zu bytes, key kind %d at offset %zu, shape %u", names[sort], n, es, k_kind, k_off, style);
    mon_digest(mon_hash(arr, n * es, n));
}

/* every permutation of up to 7 (8 in the thorough run) elements; idx = first choice pattern */
static bool
next_perm(uint8_t* a, unsigned n) {
    if (n < 2) {
        return false;
    }
    unsigned i = n - 1;
    while ((i > 0) && (a[i - 1] >= a[i])) {
        --i;
    }
    if (i == 0) {
        return false;
    }
    unsigned j = n - 1;
    while (a[j] <= a[i - 1]) {
        --j;
    }
    uint8_t t = a[i - 1];
    a[i - 1] = a[j];
    a[j] = t;
    for (unsigned l = i, r = n - 1; l < r; ++l, --r) {
        t = a[l];
        a[l] = a[r];
        a[r] = t;
    }
    return true;
}

static void
run_small(int sort, const uint8_t* keys, unsigned n, size_t es, uint8_t* arr, uint8_t* orig) {
    /* key in byte 0 (es 1) or at a fixed place, tag = position in the rest */
    for (unsigned i = 0; i < n; ++i) {
        memset(arr + i * es, 0x11, es);
        if (es > 1) {
            arr[i * es + es - 1U] = (uint8_t)(i + 1U);
        }
        arr[i * es + k_off] = keys[i];
    }
    memcpy(orig, arr, n * es);
    sorts[sort](arr, (int32_t)n, (int32_t)es, plain_compare);
    check_ascending(arr, n, es);
    check_same_elements(arr, orig, n, es);
}

static void
case_sort_perm(uint64_t idx) {
    int sort = (int)(idx % N_SORTS);
    unsigned n = (unsigned)(idx / N_SORTS);
    static const size_t ess[] = {2, 3, 9, 33};
    a_sort = sort;
    k_kind = K_U8;
    for (unsigned e = 0; e < 4; ++e) {
        size_t es = ess[e];
        if ((n >= 7) && (e > 0)) {
            break;
        }
        k_off = (es == 2) ? 0 : 1;
        k_es = es;
        uint8_t* arr = mon_alloc(n * es, PL_RIGHT, 1);
        uint8_t* orig = mon_alloc(n * es, PL_LEFT, 1);
        uint8_t keys[16];
        for (unsigned i = 0; i < n; ++i) {
            keys[i] = (uint8_t)(i * 20U + 1U);
        }
        uint64_t cnt = 0;
        do {
            run_small(sort, keys, n, es, arr, orig);
            ++cnt;
        } while (next_perm(keys, n));
        mon_event("sorts checked", cnt);
        mon_event("permutations enumerated", cnt);
        mon_check_guards();
    }
    mon_sig(idx);
}

/* every word over k key values: n up to 12 for 2 values, up to 8 for 3, up to 6 for 4 */
static const struct { uint8_t k, n; } words[] = {
    {2, 1}, {2, 2}, {2, 3}, {2, 4}, {2, 5}, {2, 6}, {2, 7}, {2, 8}, {2, 9}, {2, 10}, {2, 11}, {2, 12}, {2, 13},
    {3, 3}, {3, 4}, {3, 5}, {3, 6}, {3, 7}, {3, 8}, {4, 4}, {4, 5}, {4, 6}, {4, 7}, {5, 5}, {5, 6}
};
#define N_WORDS (sizeof(words) / sizeof(words[0]))

static void
each_word(uint64_t idx, void (*f)(int sort, const uint8_t* keys, unsigned n, size_t es, uint8_t* arr, uint8_t* orig), int sort) {
    unsigned k = words[idx].k;
    unsigned n = words[idx].n;
    size_t es = 2U + (size_t)mon_below(5);
    k_kind = K_U8;
    k_off = 0;
    k_es = es;
    a_sort = sort;
    uint8_t* arr = mon_alloc(n * es, PL_RIGHT, 1);
    uint8_t* orig = mon_alloc(n * es, PL_LEFT, 1);
    uint8_t w[16] = {0};
    uint8_t keys[16];
    uint64_t cnt = 0;
    for (;;) {
        for (unsigned i = 0; i < n; ++i) {
            keys[i] = (uint8_t)(w[i] * 60U + 3U);
        }
        f(sort, keys, n, es, arr, orig);
        ++cnt;
        unsigned i = 0;
        while (i < n) {
            if (++w[i] < k) {
                break;
            }
            w[i++] = 0;
        }
        if (i == n) {
            break;
        }
    }
    mon_event("sorts checked", cnt);
    mon_event("key words enumerated", cnt);
}

static void
case_sort_words(uint64_t idx) {
    each_word(idx / N_SORTS, run_small, (int)(idx % N_SORTS));
    mon_sig(idx);
}

static void
case_sort_large(uint64_t idx) {
    int sort = (int)(idx % N_SORTS);
    static const size_t nh[] = {1000, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 100000, 200001};
    static const size_t nq[] = {255, 256, 257, 1000, 1023, 1024, 1025, 2047, 3000, 4097, 5000};
    unsigned w = (unsigned)(idx / N_SORTS) % 11U;
    size_t n = (sort == HEAP) ? nh[w] : nq[w];
    size_t es = (w % 3U == 0) ? 4 : (w % 3U == 1) ? 5 : 8;
    k_kind = ((idx / N_SORTS) & 1U) ? K_U32 : K_I32;
    k_off = 0;
    k_es = es;
    uint8_t* arr = mon_alloc(n * es, PL_RIGHT, 1);
    unsigned style = gen_array(arr, n, es);
    uint8_t* orig = mon_copy(arr, n * es, PL_LEFT, 1);
    mon_note("%s, %zu elements of %zu bytes, shape %u", names[sort], n, es, style);
    a_sort = sort;
    sorts[sort](arr, (int32_t)n, (int32_t)es, plain_compare);
    check_ascending(arr, n, es);
    check_same_elements(arr, orig, n, es);
    mon_event("sorts checked", 1);
    mon_event("elements sorted", n);
    mon_sig(idx);
}

/* more elements than 15 and 16 bits count, for the quadratic sorts: disorder of short range, and a few elements that have to
 * travel from one end to the other, so that bubble and insertion sort finish in time */
static void
gen_nearly(uint8_t* arr, size_t n, uint32_t spread, uint32_t equal) {
    for (uint32_t i = 0; i < n; ++i) {
        uint32_t k = (i / equal) + 10U + (uint32_t)mon_below(spread);
        memcpy(arr + (size_t)i * 8U, &k, 4);
        memcpy(arr + (size_t)i * 8U + 4U, &i, 4);
    }
    for (unsigned i = 0; i < 3; ++i) {
        uint32_t lo = i, hi = 0x7FFFFFF0U - i;
        memcpy(arr + (size_t)mon_below(20) * 8U, &hi, 4);
        memcpy(arr + (n - 1U - (size_t)mon_below(20)) * 8U, &lo, 4);
    }
}

static bool
quick_compare(void* a, void* b) {
    uint32_t x, y;
    memcpy(&x, a, 4);
    memcpy(&y, b, 4);
    return x > y;
}

static void check_stable(const uint8_t* got, size_t n, size_t es, size_t tag_off, size_t tag_w);

static void
many(uint64_t idx, int sort, bool stability, size_t n) {
    k_kind = K_U32;
    k_off = 0;
    k_es = 8;
    uint8_t* arr = mon_alloc(n * 8U, PL_RIGHT, 1);
    if (sort == BUBBLE) {
        /* small elements at the end would need a pass each */
        for (uint32_t i = 0; i < n; ++i) {
            uint32_t k = (i / 3U) + (uint32_t)mon_below(40);
            memcpy(arr + (size_t)i * 8U, &k, 4);
            memcpy(arr + (size_t)i * 8U + 4U, &i, 4);
        }
        for (uint32_t i = 0; i < 5; ++i) {
            uint32_t hi = 0x7FFFFFF0U + i / 2U;
            memcpy(arr + (size_t)i * 8U, &hi, 4);
        }
    } else {
        gen_nearly(arr, n, (sort == SELECTION) ? 70000U : 60U, 1U + (uint32_t)mon_below(4));
    }
    uint8_t* orig = mon_copy(arr, n * 8U, PL_LEFT, 1);
    mon_note("%s, %zu elements", names[sort], n);
    a_sort = sort;
    sorts[sort](arr, (int32_t)n, 8, quick_compare);
    if (stability) {
        check_stable(arr, n, 8, 4, 4);
    } else {
        check_ascending(arr, n, 8);
        check_same_elements(arr, orig, n, 8);
    }
    mon_event("sorts checked", 1);
    mon_event("elements sorted", n);
    mon_sig(idx);
    mon_sample("%s of %zu elements", names[sort], n);
}

static void
case_sort_many(uint64_t idx) {
    static const int ss[] = {BUBBLE, INSERTION, SELECTION};
    many(idx, ss[idx % 3U], false, (((idx / 3U) % 2U) == 0) ? 33500U : 66300U);
}

static void
case_stable_many(uint64_t idx) {
    many(idx, (idx & 1U) ? BUBBLE : INSERTION, true, ((idx / 2U) % 2U == 0) ? 33500U : 66300U);
}

/* few but very large elements */
static void
case_sort_fat(uint64_t idx) {
    static const int ss[] = {BUBBLE, HEAP, SELECTION};
    static const size_t ess[] = {65, 256, 65535, 65536, 65537, 300001, 1048577};
    int sort = ss[idx % 3U];
    size_t es = ess[(idx / 3U) % 7U];
    size_t n = 2U + (size_t)mon_below(7);
    k_es = es;
    k_kind = (idx & 1U) ? K_U32 : K_U8;
    k_off = mon_chance(1, 2) ? (es - 4U) : (size_t)mon_below(es - 4U);
    uint8_t* arr = mon_alloc(n * es, PL_RIGHT, 1);
    unsigned style = gen_array(arr, n, es);
    uint8_t* orig = mon_copy(arr, n * es, PL_LEFT, 1);
    mon_note("%s, %zu elements of %zu bytes, shape %u", names[sort], n, es, style);
    a_sort = sort;
    sorts[sort](arr, (int32_t)n, (int32_t)es, plain_compare);
    check_ascending(arr, n, es);
    check_same_elements(arr, orig, n, es);
    mon_event("sorts checked", 1);
    mon_sig(idx);
}

/* ------------------------------------------------------------------ S02 stability */
static void
check_stable(const uint8_t* got, size_t n, size_t es, size_t tag_off, size_t tag_w) {
    for (size_t i = 0; i + 1 < n; ++i) {
        const uint8_t* a = got + i * es;
        const uint8_t* b = got + (i + 1) * es;
        if (!key_greater(a, b) && !key_greater(b, a)) {
            uint32_t x = 0;
            uint32_t y = 0;
            memcpy(&x, a + tag_off, tag_w);
            memcpy(&y, b + tag_off, tag_w);
            mon_event("neighbours with equal keys", 1);
            if (x > y) {
                mon_fail("sort-stability", "%s of %zu elements of %zu bytes: elements originally at positions %u and %u have equal keys but came out in the opposite order (now at %zu)", names[a_sort], n, es, y, x, i);
            }
        }
    }
}

static void
case_stable_random(uint64_t idx) {
    int sort = (idx & 1U) ? BUBBLE : INSERTION;
    static const int kinds[] = {K_U8, K_I8, K_CASE, K_MASK, K_MOD, K_U16, K_U32, K_I32, K_U32_DESC};
    k_kind = kinds[mon_below(9)];
    size_t kw = key_width(k_kind);
    size_t es = kw + 2U + (size_t)mon_below((sort == INSERTION) ? (INS_MAX - kw - 1U) : 100U);
    bool tag_first = mon_chance(1, 2);
    size_t tag_off = tag_first ? 0 : (es - 2U);
    k_es = es;
    k_off = tag_first ? (2U + (size_t)mon_below(es - 2U - kw + 1U)) : (size_t)mon_below(es - 2U - kw + 1U);
    size_t n = pick_or(300, mon_chance(1, 10) ? (size_t)mon_below(300) : (size_t)mon_below(40));
    uint8_t* arr = mon_alloc(n * es, PL_ANY, 1);
    unsigned style = gen_array(arr, n, es);
    uint64_t distinct = 1U + mon_below(5);
    for (size_t i = 0; i < n; ++i) {
        if ((style % 2U) == 1U) {
            put_key(arr + i * es, mon_below(distinct) * 0x01010101U);
        }
        uint16_t t = (uint16_t)i;
        memcpy(arr + i * es + tag_off, &t, 2);
    }
    uint8_t* orig = mon_copy(arr, n * es, PL_LEFT, 1);
    mon_note("%s, %zu elements of %zu bytes, key kind %d at %zu, shape %u", names[sort], n, es, k_kind, k_off, style);
    a_sort = sort;
    sorts[sort](arr, (int32_t)n, (int32_t)es, plain_compare);
    check_stable(arr, n, es, tag_off, 2);
    mon_event("sorts checked", 1);
    mon_sig(mon_hash(orig, n * es, (uint64_t)sort));
    mon_sample("%s: %zu elements of %zu bytes, key kind %d", names[sort], n, es, k_kind);
}

static void
stable_small(int sort, const uint8_t* keys, unsigned n, size_t es, uint8_t* arr, uint8_t* orig) {
    (void)orig;
    for (unsigned i = 0; i < n; ++i) {
        memset(arr + i * es, 0x11, es);
        arr[i * es + es - 1U] = (uint8_t)(i + 1U);
        arr[i * es] = keys[i];
    }
    sorts[sort](arr, (int32_t)n, (int32_t)es, plain_compare);
    check_stable(arr, n, es, es - 1U, 1);
}

static void
case_stable_words(uint64_t idx) {
    each_word(idx / 2U, stable_small, (idx & 1U) ? BUBBLE : INSERTION);
    mon_sig(idx);
}

static void
case_stable_large(uint64_t idx) {
    int sort = (idx & 1U) ? BUBBLE : INSERTION;
    size_t n = 1000U + (size_t)mon_below(3000);
    size_t es = 8;
    k_kind = K_U32;
    k_off = 0;
    k_es = es;
    uint8_t* arr = mon_alloc(n * es, PL_RIGHT, 1);
    uint64_t distinct = 1U + mon_below(mon_chance(1, 2) ? 4 : 300);
    for (uint32_t i = 0; i < n; ++i) {
        uint32_t k = (uint32_t)mon_below(distinct);
        memcpy(arr + i * es, &k, 4);
        memcpy(arr + i * es + 4, &i, 4);
    }
    a_sort = sort;
    sorts[sort](arr, (int32_t)n, (int32_t)es, plain_compare);
    check_stable(arr, n, es, 4, 4);
    check_ascending(arr, n, es);
    mon_event("sorts checked", 1);
    mon_sig(mon_hash_u64(n, distinct));
}

/* ------------------------------------------------------------------ S03 */
static void
case_compare_args(uint64_t idx) {
    int sort = (int)(idx % N_SORTS);
    int mode = (int)((idx / N_SORTS) % N_MODES);
    size_t es = pick_es(sort == INSERTION);
    if ((mode == 11) && (es < 4)) {
        es = 4;
    }
    pick_kind(es);
    size_t n = pick_or(200, mon_chance(1, 10) ? (size_t)mon_below(150) : mon_chance(1, 2) ? (size_t)mon_below(5) : (size_t)mon_below(34));
    static const int places[] = {PL_RIGHT, PL_LEFT, PL_MIDDLE};
    uint8_t* arr = mon_alloc(n * es, places[mon_below(3)], 1);
    unsigned style = gen_array(arr, n, es);
    if (es >= 3) {
        /* make elements distinguishable from what lies around them */
        for (size_t i = 0; i < n; ++i) {
            arr[i * es + (k_off + 1U) % es] ^= (uint8_t)(i * 3U);
        }
    }
    if (mode == 11) {
        for (size_t i = 0; i < n; ++i) {
            float f = mon_chance(1, 3) ? NAN : (float)mon_below(10);
            memcpy(arr + i * es, &f, 4);
        }
    }
    uint8_t* orig = mon_copy(arr, n * es, PL_LEFT, 1);
    mon_note("%s, %zu elements of %zu bytes, compare mode %d, shape %u", names[sort], n, es, mode, style);
    observe(sort, arr, orig, n, es, mode, 40U * bound_of(BUBBLE, n) + 1000U);
    check_same_elements(arr, orig, n, es);
    mon_event("sorts observed", 1);
    mon_event("compare arguments inside the array", a_inplace);
    mon_event("compare arguments that were copies of elements", a_copies);
    if (mode != 0) {
        mon_event("sorts with an inconsistent compare function", 1);
    }
    mon_sig(mon_hash(orig, n * es, (uint64_t)sort * 16U + (uint64_t)mode));
    mon_sample("%s: %zu elements of %zu bytes, compare mode %d, %llu comparisons", names[sort], n, es, mode, (unsigned long long)a_cmps);
}

/* small n, every comparator outcome script of up to 14 answers: the outcome of comparison k is bit k */
static uint32_t script_bits;
static bool
script_compare(void* first, void* second) {
    bool r = ((script_bits >> (a_cmps % 14U)) & 1U) != 0;
    ++a_cmps;
    if (a_cmps > a_limit) {
        mon_fail("compare-count", "%s of %zu elements made more than %llu comparisons", names[a_sort], a_n, (unsigned long long)a_limit);
    }
    arg_check(first, "first");
    arg_check(second, "second");
    return r;
}

static void
case_compare_scripts(uint64_t idx) {
    int sort = (int)(idx % N_SORTS);
    unsigned n = (unsigned)((idx / N_SORTS) % 7U);
    uint32_t block = (uint32_t)(idx / (N_SORTS * 7U));
    size_t es = 3;
    uint8_t* arr = mon_alloc(n * es, (block & 1U) ? PL_RIGHT : PL_MIDDLE, 1);
    uint8_t* orig = mon_alloc(n * es, PL_LEFT, 1);
    k_es = es;
    for (unsigned i = 0; i < n * es; ++i) {
        orig[i] = (uint8_t)(i * 5U + 1U);
    }
    a_sort = sort;
    a_base = arr;
    a_n = n;
    a_es = es;
    a_orig = orig;
    a_light = false;
    a_limit = 100000;
    for (uint32_t s = block * 512U; s < (block + 1U) * 512U; ++s) {
        memcpy(arr, orig, n * es);
        script_bits = s;
        a_cmps = 0;
        sorts[sort](arr, (int32_t)n, (int32_t)es, script_compare);
        check_same_elements(arr, orig, n, es);
    }
    mon_event("sorts observed", 512);
    mon_event("sorts with an inconsistent compare function", 512);
    mon_sig(idx);
}

/* ------------------------------------------------------------------ S04 */
static void
case_cost(uint64_t idx) {
    int sort = (int)(idx % N_SORTS);
    bool big = mon_chance(1, 20);
    size_t n;
    if (sort == HEAP) {
        n = big ? (size_t)mon_below(30000) : (size_t)mon_below(600);
    } else {
        n = big ? (size_t)mon_below(800) : (size_t)mon_below(120);
    }
    size_t es = 4;
    k_kind = K_U32;
    k_off = 0;
    k_es = es;
    int mode = mon_chance(1, 2) ? 0 : (int)mon_below(11);
    uint8_t* arr = mon_alloc(n * es, PL_RIGHT, 1);
    unsigned style = gen_array(arr, n, es);
    uint8_t* orig = mon_copy(arr, n * es, PL_LEFT, 1);
    mon_note("%s, %zu elements, compare mode %d, shape %u", names[sort], n, mode, style);
    a_light = true;
    a_sort = sort;
    a_base = arr;
    a_n = n;
    a_es = es;
    a_orig = orig;
    a_cmps = 0;
    a_limit = bound_of(sort, n);
    a_mode = mode;
    a_rng = mon_rnd();
    sorts[sort](arr, (int32_t)n, (int32_t)es, mon_compare);
    mon_event("sorts counted", 1);
    mon_event("comparisons counted", a_cmps);
    mon_sig(mon_hash_u64(mon_hash_u64((uint64_t)sort, n), style * 16U + (unsigned)mode));
    mon_sample("%s: %zu elements, shape %u, compare mode %d: %llu comparisons (limit %llu)", names[sort], n, style, mode, (unsigned long long)a_cmps, (unsigned long long)a_limit);
}

/* already sorted input: linear for bubble and insertion sort */
static void
case_cost_sorted(uint64_t idx) {
    int sort = (idx & 1U) ? BUBBLE : INSERTION;
    size_t n = mon_chance(1, 10) ? (size_t)mon_below(100000) : (size_t)mon_below(3000);
    if (idx < 40) {
        n = (size_t)(idx / 2U);
    }
    size_t es = 4;
    k_kind = K_U32;
    k_off = 0;
    k_es = es;
    uint8_t* arr = mon_alloc(n * es, PL_RIGHT, 1);
    unsigned style = (unsigned)mon_below(3);
    uint32_t v = 0;
    for (size_t i = 0; i < n; ++i) {
        memcpy(arr + i * es, &v, 4);
        v += (style == 0) ? 1U : (style == 1) ? 0U : (uint32_t)mon_below(3);
    }
    a_light = true;
    a_sort = sort;
    a_base = arr;
    a_n = n;
    a_es = es;
    a_orig = NULL;
    a_cmps = 0;
    a_limit = 4U * n + 20U;
    a_mode = 0;
    sorts[sort](arr, (int32_t)n, (int32_t)es, mon_compare);
    mon_event("sorted arrays counted", 1);
    mon_event("comparisons counted", a_cmps);
    mon_sig(mon_hash_u64((uint64_t)sort * 4U + style, n));
    mon_sample("%s: %zu elements already sorted: %llu comparisons (limit %llu)", names[sort], n, (unsigned long long)a_cmps, (unsigned long long)a_limit);
}

/* big heap sorts: shapes that make a careless variant quadratic */
static void
case_cost_heap(uint64_t idx) {
    size_t n = (idx < 6) ? (size_t)20000 * (idx + 1U) : (size_t)mon_range(5000, 120000);
    size_t es = 4;
    k_kind = K_U32;
    k_off = 0;
    k_es = es;
    int mode = (int)mon_below(5);
    if (mode == 4) {
        mode = 9;
    }
    uint8_t* arr = mon_alloc(n * es, PL_RIGHT, 1);
    unsigned style = gen_array(arr, n, es);
    a_light = true;
    a_sort = HEAP;
    a_base = arr;
    a_n = n;
    a_es = es;
    a_orig = NULL;
    a_cmps = 0;
    a_limit = bound_of(HEAP, n);
    a_mode = mode;
    a_rng = mon_rnd();
    HeapSort_sort(arr, (int32_t)n, (int32_t)es, mon_compare);
    mon_event("sorts counted", 1);
    mon_event("comparisons counted", a_cmps);
    mon_sig(mon_hash_u64(n, style * 16U + (unsigned)mode));
    mon_sample("heap sort: %zu elements, shape %u, compare mode %d: %llu comparisons (limit %llu)", n, style, mode, (unsigned long long)a_cmps, (unsigned long long)a_limit);
}

const mon_group mon_groups_sort[] = {
    {"S01", "sort_perm", N_SORTS * 8, N_SORTS * 10, case_sort_perm, MON_EXH | MON_SLOW},
    {"S01", "sort_words", N_SORTS * N_WORDS, N_SORTS * N_WORDS, case_sort_words, MON_EXH},
    {"S01", "sort_random", 40000, 2000000, case_sort_random, 0},
    {"S01", "sort_large", N_SORTS * 22, N_SORTS * 220, case_sort_large, MON_SLOW},
    {"S01", "sort_fat", 42, 210, case_sort_fat, MON_SLOW},
    {"S01", "sort_many", 6, 24, case_sort_many, MON_SLOW | MON_NATIVE_ONLY},
    {"S02", "stable_words", 2 * N_WORDS, 2 * N_WORDS, case_stable_words, MON_EXH},
    {"S02", "stable_random", 30000, 2000000, case_stable_random, 0},
    {"S02", "stable_large", 24, 800, case_stable_large, MON_SLOW},
    {"S02", "stable_many", 4, 24, case_stable_many, MON_SLOW | MON_NATIVE_ONLY},
    {"S03", "compare_args", 24000, 1500000, case_compare_args, 0},
    {"S03", "compare_scripts", N_SORTS * 7 * 32, N_SORTS * 7 * 32, case_compare_scripts, MON_EXH},
    {"S04", "cost", 8000, 400000, case_cost, 0},
    {"S04", "cost_sorted", 2000, 60000, case_cost_sorted, 0},
    {"S04", "cost_heap", 24, 800, case_cost_heap, MON_SLOW},
    MON_END
};
