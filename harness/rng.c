/* The choices of a case: generator, guided inputs, constants, and the hashes of results. Also part of the programs for other
 * machines (guest/), so nothing here depends on the width of a word or on the order of bytes. */
#include "rng.h"

#include "mon.h"

uint64_t rng_s;

static void
put64(uint8_t* p, uint64_t v) {
#if defined(__BYTE_ORDER__) && (__BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__)
    memcpy(p, &v, 8);
#else
    for (unsigned i = 0; i < 8U; ++i) {
        p[i] = (uint8_t)(v >> (8U * i));
    }
#endif
}

static uint64_t
get64(const uint8_t* p) {
    uint64_t v = 0;
#if defined(__BYTE_ORDER__) && (__BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__)
    memcpy(&v, p, 8);
#else
    for (unsigned i = 0; i < 8U; ++i) {
        v |= (uint64_t)p[i] << (8U * i);
    }
#endif
    return v;
}

/* upper half of the 128-bit product */
static uint64_t
mul_high(uint64_t a, uint64_t b) {
#ifdef __SIZEOF_INT128__
    return (uint64_t)(((unsigned __int128)a * b) >> 64);
#else
    uint64_t al = a & 0xFFFFFFFFU;
    uint64_t ah = a >> 32;
    uint64_t bl = b & 0xFFFFFFFFU;
    uint64_t bh = b >> 32;
    uint64_t m = ah * bl + ((al * bl) >> 32);
    uint64_t n = al * bh + (m & 0xFFFFFFFFU);
    return ah * bh + (m >> 32) + (n >> 32);
#endif
}

/* ================================================================== PRNG */
uint64_t
mon_mix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ULL;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
    return x ^ (x >> 31);
}

/* Guided mode: the choices of a case are read from an input instead, one to eight bytes each (so that a byte of the
 * input keeps its meaning when others change); behind its end the generator goes on, seeded from the input's header. */
const uint8_t* gin;
size_t gin_n;
size_t gin_pos;

static bool
gin_take(unsigned bytes, uint64_t* v) {
    if ((gin == NULL) || (gin_pos + bytes > gin_n)) {
        return false;
    }
    uint64_t r = 0;
    for (unsigned i = 0; i < bytes; ++i) {
        r |= (uint64_t)gin[gin_pos + i] << (8U * i);
    }
    *v = r;
    gin_pos += bytes;
    return true;
}

uint64_t
mon_rnd(void) {
    uint64_t g;
    if (gin_take(8, &g)) {
        return g;
    }
    rng_s += 0x9E3779B97F4A7C15ULL;
    uint64_t x = rng_s;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
    return x ^ (x >> 31);
}

/* constants that occur in the library's machine code, sorted: values worth trying */
uint64_t rng_dict[RNG_DICT];
unsigned n_rng_dict;

uint64_t rng_fresh[RNG_FRESH];
unsigned n_rng_fresh;
bool rng_focus;
char rng_words[RNG_WORDS][RNG_WORD];
unsigned n_rng_words;

void
rng_case(void) {
    n_rng_marks = 0;
    rng_focus = (gin == NULL) && (n_rng_fresh > 0U) && ((mon_mix(rng_s) & 3U) == 0U);
}

/* a new constant within lo..hi (or next to one), when the case is one that goes after them */
static bool
fresh_pick(uint64_t lo, uint64_t hi, uint64_t r, uint64_t* v) {
    if (!rng_focus || ((r & 1U) == 0U)) {
        return false;
    }
    for (unsigned k = 0; k < 3U; ++k) {
        uint64_t x = rng_fresh[((r >> 8) + k) % n_rng_fresh];
        if (((r >> 1) & 7U) == 0U) {
            x += ((r >> 4) & 1U) ? 1U : UINT64_MAX;
        }
        if ((x >= lo) && (x <= hi)) {
            *v = x;
            return true;
        }
    }
    return false;
}

bool
mon_fresh(uint64_t lo, uint64_t hi, uint64_t* v) {
    return rng_focus && fresh_pick(lo, hi, mon_rnd(), v);
}

uint64_t
mon_either(unsigned one_in, uint64_t big, uint64_t small) {
    uint64_t v = mon_below(mon_chance(1, one_in) ? big : small);
    uint64_t d;
    return mon_fresh(0, ((big > small) ? big : small) - 1U, &d) ? d : v;
}

size_t
mon_word(char* p) {
    static const char* const common[] = {"null", "true", "false", "id", "name", "key", "value", "0", "-1", "NaN", "inf", "undefined", "1e9", "0x10", "type", "#", "_"};
    const unsigned n = (unsigned)(sizeof(common) / sizeof(common[0]));
    uint64_t r = mon_rnd();
    const char* w = ((n_rng_words > 0U) && ((r & 1U) != 0U)) ? rng_words[(r >> 8) % n_rng_words] : common[(r >> 8) % n];
    size_t l = 0;
    while (w[l] != '\0') {
        p[l] = w[l];
        ++l;
    }
    p[l] = '\0';
    return l;
}

void
mon_overlay(char* p, size_t n) {
    char w[RNG_WORD];
    if (!mon_chance(1, 10)) {
        return;
    }
    size_t l = mon_word(w);
    if (l <= n) {
        size_t at = mon_chance(2, 3) ? 0U : mon_chance(1, 2) ? (n - l) : (size_t)mon_below(n - l + 1U);
        memcpy(&p[at], w, l);
    }
}

static unsigned
dict_below(uint64_t n) { /* number of entries smaller than n */
    unsigned lo = 0;
    unsigned hi = n_rng_dict;
    while (lo < hi) {
        unsigned m = (lo + hi) / 2U;
        if (rng_dict[m] < n) {
            lo = m + 1U;
        } else {
            hi = m;
        }
    }
    return lo;
}

/* an entry within lo..hi, chosen by r; false when there is none */
static bool
dict_pick(uint64_t lo, uint64_t hi, uint64_t r, uint64_t* v) {
    unsigned a = dict_below(lo);
    unsigned b = (hi == UINT64_MAX) ? n_rng_dict : dict_below(hi + 1U);
    if (a >= b) {
        return false;
    }
    *v = rng_dict[a + r % (b - a)];
    return true;
}

#define DICT_RATE 15U

uint64_t
mon_range(uint64_t lo, uint64_t hi) {
    uint64_t v;
    uint64_t n = hi - lo + 1U;
    if ((gin != NULL) && (n != 0U) && gin_take((n <= 256U) ? 1 : (n <= 65536U) ? 2 : (n <= (1ULL << 32)) ? 4 : 8, &v)) {
        return lo + ((v < n) ? v : (v % n));
    }
    uint64_t r = mon_rnd();
    if ((n > 6U) && fresh_pick(lo, hi, r >> 20, &v)) {
        return v;
    }
    if ((n > 16U) && ((r & DICT_RATE) == 0U) && dict_pick(lo, hi, (r >> 4) & 0xFFFFFFU, &v)) {
        return v;
    }
    return (n == 0U) ? r : (lo + mul_high(r, n));
}

uint64_t
mon_below(uint64_t n) {
    return mon_range(0, n - 1U);
}

static struct { uint64_t s; size_t pos; } rng_marks[16];
unsigned n_rng_marks;

uint64_t
mon_rng_get(void) {
    if (n_rng_marks >= 16U) {
        mon_harness_error("too many generator marks");
    }
    rng_marks[n_rng_marks].s = rng_s;
    rng_marks[n_rng_marks].pos = gin_pos;
    return n_rng_marks++;
}

void
mon_rng_set(uint64_t mark) {
    rng_s = rng_marks[mark].s;
    gin_pos = rng_marks[mark].pos;
}

bool
mon_chance(unsigned num, unsigned den) {
    return mon_below(den) < num;
}

size_t
mon_len(size_t max) {
    size_t r = 0;
    uint64_t v;
    if (rng_focus && fresh_pick(0, max, mon_rnd(), &v)) {
        return (size_t)v;
    }
    if (mon_chance(1, 8) && dict_pick(0, max, mon_rnd(), &v)) {
        r = (size_t)v * ((mon_rnd() & 7U) ? 1U : (size_t)mon_range(1, 9)) + (size_t)mon_below(4);
        r = (r > 0) ? (r - 1U) : 0;
        return (r > max) ? (size_t)v : r;
    }
    switch (mon_below(6)) {
        case 0:
            r = (size_t)mon_below(9);
            break;
        case 1:
            r = (size_t)mon_below(70);
            break;
        case 2:
        case 3: {
            unsigned top = 0;
            while (((size_t)1 << top) < max && top < 40) {
                ++top;
            }
            size_t b = (size_t)1 << mon_below(top + 1U);
            r = b + (size_t)mon_below(5);
            r = (r >= 2) ? (r - 2) : 0;
            break;
        }
        case 4: {
            unsigned top = 1;
            while (((size_t)1 << top) < max && top < 40) {
                ++top;
            }
            r = (size_t)(mon_rnd() & (((uint64_t)1 << mon_range(1, top)) - 1U));
            break;
        }
        default:
            r = (size_t)mon_below((uint64_t)max + 1U);
            if (r > 4096) {
                r = (size_t)mon_below(4097);
            }
            break;
    }
    return (r > max) ? max : r;
}

uint32_t
mon_u32(void) {
    uint64_t v;
    if (rng_focus && fresh_pick(0, UINT32_MAX, mon_rnd(), &v)) {
        return (uint32_t)v;
    }
    if (mon_chance(1, 8) && dict_pick(0, UINT32_MAX, mon_rnd(), &v)) {
        return ((uint32_t)v + (uint32_t)mon_below(3) - 1U) << ((mon_rnd() & 7U) ? 0U : mon_below(32));
    }
    switch (mon_below(6)) {
        case 0:
            return (uint32_t)mon_below(17);
        case 1:
            return UINT32_MAX - (uint32_t)mon_below(17);
        case 2:
            return ((uint32_t)1 << mon_below(32)) + (uint32_t)mon_below(3) - 1U;
        case 3:
            return (uint32_t)mon_rnd() >> mon_below(32);
        default:
            return (uint32_t)mon_rnd();
    }
}

uint8_t
mon_byte(void) {
    static const uint8_t sp[] = {0, 1, 0x7F, 0x80, 0x81, 0xFE, 0xFF, '"', '=', ':', ',', '\\', 'A', 'Z', 'a', 'z', '0', '9', '@', '[', '`', '{', '/', '+', '-', '_', ' ', '\n'};
    if (mon_chance(1, 2)) {
        return (uint8_t)mon_range(0, 255);
    }
    return sp[mon_below(sizeof(sp))];
}

uint8_t
mon_bias(uint64_t r) {
    unsigned nb = dict_below(256);
    uint64_t v;
    if (rng_focus && ((r & 2U) != 0U) && fresh_pick(0, 255, r >> 16, &v)) {
        return (uint8_t)v;
    }
    if (((r & 3U) == 0U) && (nb > 0U)) {
        return (uint8_t)rng_dict[(r >> 8) % nb];
    }
    return ((r & 7U) == 1U) ? (uint8_t)(((r >> 3) & 1U) ? 0xFFU : 0U) : (uint8_t)(r >> 40);
}

void
mon_fill(void* p, size_t n, int style) {
    uint8_t* b = p;
    size_t i;
    switch (style) {
        case FILL_ZERO:
            if (n > 0) {
                memset(b, 0, n);
            }
            break;
        case FILL_ONES:
            if (n > 0) {
                memset(b, 0xFF, n);
            }
            break;
        case FILL_BIASED:
            for (i = 0; i < n; ++i) {
                b[i] = mon_byte();
            }
            break;
        case FILL_RUNS:
            for (i = 0; i < n;) {
                uint8_t v = mon_byte();
                size_t run = 1 + (size_t)mon_below(40);
                while ((run-- > 0) && (i < n)) {
                    b[i++] = v;
                }
            }
            break;
        case FILL_COUNT: {
            uint8_t v = (uint8_t)mon_rnd();
            for (i = 0; i < n; ++i) {
                b[i] = v++;
            }
            break;
        }
        case FILL_ASCII:
            for (i = 0; i < n; ++i) {
                b[i] = (uint8_t)mon_range(32, 126);
            }
            break;
        default:
            for (i = 0; i + 8 <= n; i += 8) {
                put64(&b[i], mon_rnd());
            }
            for (; i < n; ++i) {
                b[i] = (uint8_t)mon_rnd();
            }
            break;
    }
}

void
mon_fill_any(void* p, size_t n) {
    static const int st[] = {FILL_RANDOM, FILL_RANDOM, FILL_RANDOM, FILL_ZERO, FILL_ONES, FILL_BIASED, FILL_BIASED, FILL_RUNS, FILL_COUNT, FILL_ASCII};
    mon_fill(p, n, st[mon_below(sizeof(st) / sizeof(st[0]))]);
}

uint64_t
mon_hash_u64(uint64_t h, uint64_t v) {
    return mon_mix(h ^ (v + 0xD1B54A32D192ED03ULL));
}

uint64_t
mon_hash(const void* p, size_t n, uint64_t h) {
    const uint8_t* b = p;
    size_t i = 0;
    h ^= (uint64_t)n * 0x9E3779B97F4A7C15ULL;
    for (; i + 8 <= n; i += 8) {
        h = (h ^ get64(&b[i])) * 0xFF51AFD7ED558CCDULL;
        h ^= h >> 32;
    }
    for (; i < n; ++i) {
        h = (h ^ b[i]) * 0xFF51AFD7ED558CCDULL;
        h ^= h >> 29;
    }
    return mon_mix(h);
}
