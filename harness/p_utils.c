/* N01..N05: bit operations, number parsing, serialisation, blobs, letters */
#include "mon.h"
#include "ref.h"

#include <stdlib.h>

#include "bit_manipulation.h"
#include "utils.h"

/* ------------------------------------------------------------------ N01 */
static bool
ref_bit(uint32_t w, unsigned n) {
    return ((w / (n < 31 ? (1U << n) : 0x80000000U)) % 2U) == 1U;
}

static void
word_ops(uint32_t w) {
    for (unsigned n = 0; n < 256U; ++n) {
        if ((n >= 40U) && (n < 250U) && (n % 32U > 1U) && ((n * 7U + w) % 16U != 0U)) {
            continue;
        }
        bool in = (n <= 31U);
        bool b = (w & 1U) != 0U;
        bool b0 = b;
        bool r = BitManipulation_bitSet(w, (uint8_t)n, &b);
        MON_REQUIRE(r == in, "bitset-status", "bitSet(0x%08x, %u) reported %d", w, n, r);
        MON_REQUIRE(in ? (b == ref_bit(w, n)) : (b == b0), "bitset-value", "bitSet(0x%08x, %u) gave %d", w, n, b);
        uint32_t o = 0x5A5A1234U ^ w;
        uint32_t o0 = o;
        r = BitManipulation_setBit(w, (uint8_t)n, &o);
        uint32_t want = o0;
        if (in) {
            want = ref_bit(w, n) ? w : (w + (1U << n));
        }
        MON_REQUIRE((r == in) && (o == want), "setbit", "setBit(0x%08x, %u) reported %d, out 0x%08x want 0x%08x", w, n, r, o, want);
        o = o0;
        r = BitManipulation_clearBit(w, (uint8_t)n, &o);
        want = o0;
        if (in) {
            want = ref_bit(w, n) ? (w - (1U << n)) : w;
        }
        MON_REQUIRE((r == in) && (o == want), "clearbit", "clearBit(0x%08x, %u) reported %d, out 0x%08x want 0x%08x", w, n, r, o, want);
        o = o0;
        r = BitManipulation_toggleBit(w, (uint8_t)n, &o);
        want = o0;
        if (in) {
            want = ref_bit(w, n) ? (w - (1U << n)) : (w + (1U << n));
        }
        MON_REQUIRE((r == in) && (o == want), "togglebit", "toggleBit(0x%08x, %u) reported %d, out 0x%08x want 0x%08x", w, n, r, o, want);
    }
    for (unsigned n = 0; n <= 32U; ++n) {
        uint32_t lo = (n == 32U) ? w : (w & ((1U << n) - 1U));
        uint32_t want = ref_reflect(lo, n);
        uint32_t got = BitManipulation_reflect(w, (uint8_t)n);
        MON_REQUIRE(got == want, "reflect", "reflect(0x%08x, %u) = 0x%08x want 0x%08x", w, n, got, want);
        uint64_t d = ((uint64_t)w << 32) | w;
        want = (uint32_t)(d >> (32U - n));
        got = BitManipulation_rotl32(w, n);
        MON_REQUIRE(got == want, "rotl32", "rotl32(0x%08x, %u) = 0x%08x want 0x%08x", w, n, got, want);
    }
    mon_event("words", 1);
    mon_sig(w);
}

static void
n01_special(uint64_t idx) {
    uint32_t w;
    if (idx < 32) {
        w = 1U << idx;
    } else if (idx < 64) {
        w = ~(1U << (idx - 32));
    } else if (idx < 96) {
        w = (idx == 64) ? 0U : (0xFFFFFFFFU >> (96U - idx));
    } else if (idx < 128) {
        w = 0xFFFFFFFFU << (idx - 96U);
    } else if (idx < 624) {
        /* every pair of bits */
        unsigned k = (unsigned)idx - 128U;
        unsigned i = 0;
        while (k >= 31U - i) {
            k -= 31U - i;
            ++i;
        }
        w = (1U << i) | (1U << (i + 1U + k));
    } else {
        static const uint32_t sp[] = {0xAAAAAAAAU, 0x55555555U, 0xFFFFFFFFU, 0, 0x80000001U, 0x7FFFFFFFU, 0x12345678U, 0xDEADBEEFU};
        w = sp[idx - 624];
    }
    word_ops(w);
    mon_sample("word 0x%08x, all positions", w);
}

static void
n01_random(uint64_t idx) {
    (void)idx;
    word_ops(mon_u32());
}

static void
n01_bytes(uint64_t idx) {
    /* every 16-bit pattern at a few places; the 8/16-bit reflections used by the CRC engines */
    for (uint32_t k = 0; k < 256; ++k) {
        uint32_t v = (uint32_t)idx * 256U + k;
        static const unsigned sh[] = {0, 8, 16};
        for (unsigned s = 0; s < 3; ++s) {
            uint32_t w = v << sh[s];
            static const unsigned nb[] = {8, 16, 24, 32, 7, 1, 31};
            for (unsigned q = 0; q < 7; ++q) {
                uint32_t lo = (nb[q] == 32U) ? w : (w & ((1U << nb[q]) - 1U));
                uint32_t got = BitManipulation_reflect(w, (uint8_t)nb[q]);
                MON_REQUIRE(got == ref_reflect(lo, nb[q]), "reflect", "reflect(0x%08x, %u) = 0x%08x", w, nb[q], got);
            }
            unsigned r = (v + s) % 33U;
            uint64_t d = ((uint64_t)w << 32) | w;
            uint32_t got = BitManipulation_rotl32(w, r);
            MON_REQUIRE(got == (uint32_t)(d >> (32U - r)), "rotl32", "rotl32(0x%08x, %u) = 0x%08x", w, r, got);
        }
    }
    mon_sig(idx);
}

/* thorough: all 2^32 words through the single-bit operations, sharded by the high 16 bits */
static void
n01_all(uint64_t idx) {
    uint32_t hi = ((uint32_t)idx * 40503U) << 16;
    for (uint32_t lo = 0; lo < 65536U; ++lo) {
        uint32_t w = hi | lo;
        unsigned n = (unsigned)((w * 2654435761U) >> 27);
        uint32_t o = 0;
        bool b = false;
        uint32_t m = 1U << n;
        MON_REQUIRE(BitManipulation_bitSet(w, (uint8_t)n, &b) && (b == ((w & m) != 0)), "bitset-value", "bitSet(0x%08x, %u)", w, n);
        MON_REQUIRE(BitManipulation_setBit(w, (uint8_t)n, &o) && (o == (w | m)), "setbit", "setBit(0x%08x, %u) -> 0x%08x", w, n, o);
        MON_REQUIRE(BitManipulation_clearBit(w, (uint8_t)n, &o) && (o == (w & ~m)), "clearbit", "clearBit(0x%08x, %u) -> 0x%08x", w, n, o);
        MON_REQUIRE(BitManipulation_toggleBit(w, (uint8_t)n, &o) && (o == (w ^ m)), "togglebit", "toggleBit(0x%08x, %u) -> 0x%08x", w, n, o);
        uint32_t r = w;
        r = ((r >> 1) & 0x55555555U) | ((r & 0x55555555U) << 1);
        r = ((r >> 2) & 0x33333333U) | ((r & 0x33333333U) << 2);
        r = ((r >> 4) & 0x0F0F0F0FU) | ((r & 0x0F0F0F0FU) << 4);
        r = ((r >> 8) & 0x00FF00FFU) | ((r & 0x00FF00FFU) << 8);
        r = (r >> 16) | (r << 16);
        MON_REQUIRE(BitManipulation_reflect(w, 32) == r, "reflect", "reflect(0x%08x, 32)", w);
        uint64_t d = ((uint64_t)w << 32) | w;
        MON_REQUIRE(BitManipulation_rotl32(w, n) == (uint32_t)(d >> (32U - n)), "rotl32", "rotl32(0x%08x, %u)", w, n);
    }
    mon_event("words", 65536);
    mon_sig(idx);
}

/* ------------------------------------------------------------------ N02 */
static void
parse_check(const char* s, size_t n, int place) {
    char* in = mon_copy(s, n, place, 1);
    mon_seal(in);
    uint32_t got = 0xC0FFEE11U;
    bool want_ok = (n >= 1U) && (n <= 10U);
    uint64_t v = 0;
    for (size_t i = 0; (i < n) && want_ok; ++i) {
        if ((s[i] < '0') || (s[i] > '9')) {
            want_ok = false;
        } else {
            v = v * 10U + (uint64_t)(s[i] - '0');
        }
    }
    if (v > 0xFFFFFFFFULL) {
        want_ok = false;
    }
    bool ok = Utils_stringToUint32(in, (uint8_t)n, &got);
    MON_REQUIRE(ok == want_ok, ok ? "parse-accepted" : "parse-refused", "'%.*s' (length %zu, %s) reported %d value %u", (int)n, s, n, mon_hex(s, n), ok, got);
    if (ok) {
        MON_REQUIRE(got == (uint32_t)v, "parse-value", "'%.*s' gave %u", (int)n, s, got);
        mon_event("parsed", 1);
    } else {
        mon_event("rejected", 1);
    }
}

static void
n02_lengths(uint64_t idx) {
    /* digit strings of every length 1..255, plus each with one non-digit at each position */
    size_t n = 1U + (size_t)(idx % 255U);
    char s[256];
    for (size_t i = 0; i < n; ++i) {
        s[i] = (char)mon_range('0', '9');
    }
    if (mon_rnd() & 1U) {
        for (size_t i = 0; i + 3U < n; ++i) {
            s[i] = '0';
        }
    }
    parse_check(s, n, PL_RIGHT);
    for (size_t i = 0; i < n; ++i) {
        char k = s[i];
        static const char bad[] = {'/', ':', ' ', '-', '+', '\0', 'a', (char)0xB0, (char)0xFF, '.', (char)0x80, 'x', (char)0x30 + 64};
        s[i] = bad[mon_below(sizeof(bad))];
        parse_check(s, n, PL_RIGHT);
        s[i] = k;
        mon_reset();
    }
    mon_sig(mon_hash(s, n, idx));
}

static void
n02_chars(uint64_t idx) {
    /* every byte value at every position of every length 1..11 */
    size_t n = 1U + (size_t)(idx % 11U);
    unsigned base = (unsigned)(idx / 11U) % 3U;
    char s[16];
    for (size_t p = 0; p < n; ++p) {
        for (unsigned c = 0; c < 256U; ++c) {
            for (size_t i = 0; i < n; ++i) {
                s[i] = (base == 0) ? '0' : (base == 1) ? '4' : (char)mon_range('0', '9');
            }
            s[p] = (char)c;
            parse_check(s, n, (c & 1U) ? PL_RIGHT : PL_LEFT);
            mon_reset();
        }
    }
    mon_sig(idx);
    mon_sample("length %zu, all 256 characters at each position", n);
}

static void
n02_edges(uint64_t idx) {
    /* numbers around every power of ten, 2^k and UINT32_MAX, with every amount of zero padding */
    uint64_t v;
    if (idx < 110) {
        v = 1;
        for (uint64_t i = 0; i < idx / 10U; ++i) {
            v *= 10U;
        }
        v = v + idx % 10U - 5U;
    } else if (idx < 110 + 340) {
        v = ((uint64_t)1 << ((idx - 110U) / 10U)) + (idx - 110U) % 10U - 5U;
    } else if (idx < 110 + 340 + 60) {
        v = 4294967295ULL + (idx - 450U) - 30U;
    } else if (idx < 110 + 340 + 60 + 200) {
        v = 4294967295ULL / 10U * 10U + (idx - 510U) - 100U;
    } else {
        v = mon_rnd() % 9999999999ULL;
    }
    char d[32];
    if (v > 99999999999ULL) {
        v = 0;
    }
    int m = sprintf(d, "%llu", (unsigned long long)v);
    for (unsigned pad = 0; pad < 14U; ++pad) {
        char s[64];
        memset(s, '0', pad);
        memcpy(&s[pad], d, (size_t)m);
        parse_check(s, pad + (size_t)m, PL_RIGHT);
    }
    mon_sig(v);
    mon_sample("'%s' with 0..13 leading zeros", d);
}

static void
n02_random(uint64_t idx) {
    (void)idx;
    for (unsigned k = 0; k < 100; ++k) {
        char s[16];
        size_t n = (size_t)mon_range(1, 11);
        for (size_t i = 0; i < n; ++i) {
            s[i] = mon_chance(1, 40) ? (char)mon_byte() : (char)mon_range('0', '9');
        }
        if ((n == 10U) && mon_chance(1, 2)) {
            uint64_t v = mon_chance(1, 2) ? (uint64_t)mon_u32() : 4294967295ULL + mon_below(1000000000ULL);
            sprintf(s, "%010llu", (unsigned long long)v);
        }
        parse_check(s, n, PL_RIGHT);
        mon_reset();
        mon_sig(mon_hash(s, n, 1));
    }
}

/* thorough: every length-limited digit string up to 7 digits and a stride over the rest */
static void
n02_dense(uint64_t idx) {
    char* in = mon_alloc(10, PL_RIGHT, 1);
    for (uint32_t k = 0; k < 65536U; ++k) {
        uint32_t v = ((uint32_t)(idx * 65536U) + k) * 2654435761U; /* a permutation of the 32-bit numbers */
        char d[10];
        uint32_t x = v;
        for (int i = 9; i >= 0; --i) {
            d[i] = (char)('0' + x % 10U);
            x /= 10U;
        }
        unsigned skip = 0;
        while ((skip < 9U) && (d[skip] == '0') && ((k & 1U) == 0U)) {
            ++skip;
        }
        memcpy(&in[skip], &d[skip], 10U - skip);
        uint32_t got = ~v;
        bool ok = Utils_stringToUint32(&in[skip], (uint8_t)(10U - skip), &got);
        MON_REQUIRE(ok && (got == v), "parse-value", "'%.*s' reported %d value %u", (int)(10U - skip), &d[skip], ok, got);
    }
    mon_event("parsed", 65536);
    mon_sig(idx);
}

/* ------------------------------------------------------------------ N03 */
static void
ser_value(uint32_t v, uint8_t* b /* 4 guarded bytes of each width */, uint8_t* b1, uint8_t* b2, uint8_t* b3) {
    uint8_t e[4] = {(uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v};
    uint8_t f[4] = {e[3], e[2], e[1], e[0]};
    Utils_serialize32BE(b, v);
    MON_REQUIRE(memcmp(b, e, 4) == 0, "ser32be", "serialize32BE(0x%08x) stored %s", v, mon_hex(b, 4));
    MON_REQUIRE(Utils_deserialize32BE(b) == v, "des32be", "deserialize32BE(%s) = 0x%08x", mon_hex(b, 4), Utils_deserialize32BE(b));
    Utils_serialize32LE(b, v);
    MON_REQUIRE(memcmp(b, f, 4) == 0, "ser32le", "serialize32LE(0x%08x) stored %s", v, mon_hex(b, 4));
    MON_REQUIRE(Utils_deserialize32LE(b) == v, "des32le", "deserialize32LE(%s) = 0x%08x", mon_hex(b, 4), Utils_deserialize32LE(b));
    Utils_serialize24BE(b3, v);
    MON_REQUIRE(memcmp(b3, &e[1], 3) == 0, "ser24be", "serialize24BE(0x%08x) stored %s", v, mon_hex(b3, 3));
    MON_REQUIRE(Utils_deserialize24BE(b3) == (v & 0xFFFFFFU), "des24be", "deserialize24BE(%s) = 0x%08x", mon_hex(b3, 3), Utils_deserialize24BE(b3));
    Utils_serialize24LE(b3, v);
    MON_REQUIRE(memcmp(b3, f, 3) == 0, "ser24le", "serialize24LE(0x%08x) stored %s", v, mon_hex(b3, 3));
    MON_REQUIRE(Utils_deserialize24LE(b3) == (v & 0xFFFFFFU), "des24le", "deserialize24LE(%s) = 0x%08x", mon_hex(b3, 3), Utils_deserialize24LE(b3));
    Utils_serialize16BE(b2, (uint16_t)v);
    MON_REQUIRE(memcmp(b2, &e[2], 2) == 0, "ser16be", "serialize16BE(0x%04x) stored %s", v & 0xFFFFU, mon_hex(b2, 2));
    MON_REQUIRE(Utils_deserialize16BE(b2) == (v & 0xFFFFU), "des16be", "deserialize16BE(%s) = 0x%x", mon_hex(b2, 2), Utils_deserialize16BE(b2));
    Utils_serialize16LE(b2, (uint16_t)v);
    MON_REQUIRE(memcmp(b2, f, 2) == 0, "ser16le", "serialize16LE(0x%04x) stored %s", v & 0xFFFFU, mon_hex(b2, 2));
    MON_REQUIRE(Utils_deserialize16LE(b2) == (v & 0xFFFFU), "des16le", "deserialize16LE(%s) = 0x%x", mon_hex(b2, 2), Utils_deserialize16LE(b2));
    Utils_serialize8(b1, (uint8_t)v);
    MON_REQUIRE(b1[0] == (uint8_t)v, "ser8", "serialize8(0x%02x) stored 0x%02x", v & 0xFFU, b1[0]);
    MON_REQUIRE(Utils_deserialize8(b1) == (uint8_t)v, "des8", "deserialize8(0x%02x) = 0x%02x", b1[0], Utils_deserialize8(b1));
}

static void
ser_bytes(const uint8_t* s, int place) {
    /* reader then matching writer reproduces the bytes; bytes in read-only memory, flush against a guard */
    for (unsigned w = 1; w <= 4; ++w) {
        uint8_t* in = mon_copy(s, w, place, 1);
        mon_seal(in);
        uint8_t* o = mon_alloc(w, place, 1);
        if (w == 1) {
            Utils_serialize8(o, Utils_deserialize8(in));
            MON_REQUIRE(o[0] == s[0], "rw8", "8: %s", mon_hex(o, 1));
        } else if (w == 2) {
            Utils_serialize16BE(o, Utils_deserialize16BE(in));
            MON_REQUIRE(memcmp(o, s, 2) == 0, "rw16be", "16BE %s became %s", mon_hex(s, 2), mon_hex(o, 2));
            Utils_serialize16LE(o, Utils_deserialize16LE(in));
            MON_REQUIRE(memcmp(o, s, 2) == 0, "rw16le", "16LE %s became %s", mon_hex(s, 2), mon_hex(o, 2));
        } else if (w == 3) {
            Utils_serialize24BE(o, Utils_deserialize24BE(in));
            MON_REQUIRE(memcmp(o, s, 3) == 0, "rw24be", "24BE %s became %s", mon_hex(s, 3), mon_hex(o, 3));
            Utils_serialize24LE(o, Utils_deserialize24LE(in));
            MON_REQUIRE(memcmp(o, s, 3) == 0, "rw24le", "24LE %s became %s", mon_hex(s, 3), mon_hex(o, 3));
        } else {
            Utils_serialize32BE(o, Utils_deserialize32BE(in));
            MON_REQUIRE(memcmp(o, s, 4) == 0, "rw32be", "32BE %s became %s", mon_hex(s, 4), mon_hex(o, 4));
            Utils_serialize32LE(o, Utils_deserialize32LE(in));
            MON_REQUIRE(memcmp(o, s, 4) == 0, "rw32le", "32LE %s became %s", mon_hex(s, 4), mon_hex(o, 4));
        }
    }
    mon_check_guards();
}

static void
n03_values(uint64_t idx) {
    /* 4096 values per case at varying (mis)alignment, each against a canary */
    int place = (int)(idx % 2U) ? PL_RIGHT : PL_MIDDLE;
    uint8_t* b = mon_alloc(4, place, 1);
    uint8_t* b1 = mon_alloc(1, place, 1);
    uint8_t* b2 = mon_alloc(2, place, 1);
    uint8_t* b3 = mon_alloc(3, place, 1);
    for (unsigned k = 0; k < 4096U; ++k) {
        uint32_t v;
        if (idx < 16) {
            v = (uint32_t)idx * 4096U + k;              /* all 16-bit values */
        } else if (idx < 32) {
            v = ((uint32_t)(idx - 16U) * 4096U + k) << 16; /* and in the upper half */
        } else if (idx < 48) {
            v = ((uint32_t)(idx - 32U) * 4096U + k) << 8;
        } else {
            v = mon_u32();
        }
        ser_value(v, b, b1, b2, b3);
    }
    mon_check_guards();
    mon_event("values", 4096);
    mon_sig(mon_hash_u64(idx, mon_rnd()));
    mon_sample("4096 values, 14 functions, block %llu", (unsigned long long)idx);
}

static void
n03_bytes(uint64_t idx) {
    (void)idx;
    uint8_t s[4];
    for (unsigned k = 0; k < 16; ++k) {
        mon_fill_any(s, 4);
        ser_bytes(s, (k & 1U) ? PL_RIGHT : PL_LEFT);
        mon_sig(mon_hash(s, 4, 3));
        mon_reset();
    }
    mon_event("byte_strings", 16);
}

static void
n03_all(uint64_t idx) {
    /* thorough: every 32-bit value */
    uint8_t b[4], b1[1], b2[2], b3[3];
    for (uint32_t k = 0; k < 1048576U; ++k) {
        ser_value(((uint32_t)idx * 1048576U + k) * 2654435761U, b, b1, b2, b3);
    }
    mon_event("values", 1048576);
    mon_sig(idx);
}

/* ------------------------------------------------------------------ N04 */
static void
blob_check(size_t n, int place) {
    uint8_t* src = mon_alloc(n, place, 1);
    mon_fill(src, n, (n < 64U) ? FILL_RANDOM : (mon_rnd() & 1U) ? FILL_RANDOM : FILL_BIASED);
    mon_seal(src);
    uint8_t* d = mon_alloc(n, place, 1);
    uint8_t* e = mon_alloc(n, place, 1);
    /* big endian: order kept */
    mon_fill(d, n, FILL_ONES);
    Utils_serializeBlobBE(d, src, (uint32_t)n);
    MON_REQUIRE(mon_eq(d, src, n), "blobbe-ser", "serializeBlobBE size %zu differs at %zu", n, mon_diff(d, src, n));
    mon_fill(e, n, FILL_ONES);
    Utils_deserializeBlobBE(d, e, (uint32_t)n);
    MON_REQUIRE(mon_eq(e, src, n), "blobbe-des", "deserializeBlobBE size %zu differs at %zu", n, mon_diff(e, src, n));
    /* little endian: reversed */
    mon_fill(d, n, FILL_ONES);
    Utils_serializeBlobLE(d, src, (uint32_t)n);
    for (size_t i = 0; i < n; ++i) {
        if (d[i] != src[n - 1U - i]) {
            mon_fail("blobel-ser", "serializeBlobLE size %zu: byte %zu is 0x%02x want 0x%02x", n, i, d[i], src[n - 1U - i]);
        }
    }
    mon_fill(e, n, FILL_ZERO);
    Utils_deserializeBlobLE(src, e, (uint32_t)n);
    for (size_t i = 0; i < n; ++i) {
        if (e[i] != src[n - 1U - i]) {
            mon_fail("blobel-des", "deserializeBlobLE size %zu: byte %zu is 0x%02x want 0x%02x", n, i, e[i], src[n - 1U - i]);
        }
    }
    mon_fill(e, n, FILL_ZERO);
    Utils_deserializeBlobLE(d, e, (uint32_t)n);
    MON_REQUIRE(mon_eq(e, src, n), "blobel-roundtrip", "LE round trip of %zu bytes differs at %zu", n, mon_diff(e, src, n));
    /* swap */
    uint8_t* k0 = malloc(n + 1U);
    if (n > 0) {
        memcpy(k0, src, n);
    }
    mon_fill(d, n, FILL_RANDOM);
    uint8_t* k1 = malloc(n + 1U);
    if (n > 0) {
        memcpy(k1, d, n);
        memcpy(e, k0, n);
    }
    Utils_swapElements(e, d, (uint32_t)n);
    MON_REQUIRE(mon_eq(e, k1, n) && mon_eq(d, k0, n), "swap", "swap of %zu bytes: first differs at %zu, second at %zu", n, mon_diff(e, k1, n), mon_diff(d, k0, n));
    free(k0);
    free(k1);
    mon_check_guards();
    mon_event("sizes", 1);
    mon_event("bytes_moved", n);
}

static void
n04_sizes(uint64_t idx) {
    blob_check((size_t)(idx / 2U), (idx & 1U) ? PL_RIGHT : PL_LEFT);
    mon_sig(idx);
}

static void
n04_random(uint64_t idx) {
    (void)idx;
    size_t n = mon_len(mon_chance(1, 10) ? 1100000U : 70000U);
    blob_check(n, mon_chance(1, 2) ? PL_RIGHT : PL_MIDDLE);
    mon_sig(n);
    mon_sample("size %zu", n);
}

static void
n04_swap_array(uint64_t idx) {
    /* swapping two elements of one array leaves every other element alone, adjacent elements included */
    (void)idx;
    size_t es = 1U + mon_len(300);
    unsigned n = (unsigned)mon_range(2, 9);
    uint8_t* a = mon_alloc(es * n, PL_RIGHT, 1);
    mon_fill(a, es * n, FILL_RANDOM);
    uint8_t* m = malloc(es * n);
    memcpy(m, a, es * n);
    unsigned i = (unsigned)mon_below(n);
    unsigned j = (unsigned)mon_below(n);
    if (mon_chance(1, 2)) {
        j = (i + 1U) % n;
    }
    Utils_swapElements(&a[i * es], &a[j * es], (uint32_t)es);
    uint8_t* t = malloc(es);
    memcpy(t, &m[i * es], es);
    memmove(&m[i * es], &m[j * es], es);
    memcpy(&m[j * es], t, es);
    MON_REQUIRE(memcmp(a, m, es * n) == 0, "swap-array", "swap of elements %u and %u (size %zu, %u elements): differs at %zu", i, j, es, n, mon_diff(a, m, es * n));
    free(t);
    free(m);
    mon_sig(mon_hash_u64(es, i * 16U + j));
    mon_event("array_swaps", 1);
}

/* ------------------------------------------------------------------ N05 */
static void
n05_letters(uint64_t idx) {
    unsigned c = (unsigned)idx % 256U;
    static const char up[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ";
    static const char lo[] = "abcdefghijklmnopqrstuvwxyz";
    bool u = (c != 0U) && (strchr(up, (int)c) != NULL) && (c < 128U);
    bool l = (c != 0U) && (strchr(lo, (int)c) != NULL) && (c < 128U);
    char ch = (char)c;
    MON_REQUIRE(Utils_isUpperChar(ch) == u, "upper", "isUpperChar(0x%02x)", c);
    MON_REQUIRE(Utils_isLowerChar(ch) == l, "lower", "isLowerChar(0x%02x)", c);
    MON_REQUIRE(Utils_isAlpha(ch) == (u || l), "alpha", "isAlpha(0x%02x)", c);
    uint64_t want = 1;
    for (unsigned k = 0; (k < c) && (k < 10U); ++k) {
        want *= 10U;
    }
    for (unsigned k = 0; k < 2; ++k) {
        uint32_t init = k ? 0U : 0xFFFFFFFFU;
        uint32_t r = init;
        bool ok = Utils_quickUint32Pow10((uint8_t)c, &r);
        MON_REQUIRE(ok == (c <= 9U), "pow10-status", "quickUint32Pow10(%u) reported %d", c, ok);
        MON_REQUIRE(r == ((c <= 9U) ? (uint32_t)want : init), "pow10-value", "quickUint32Pow10(%u) gave %u", c, r);
    }
    mon_event("characters", 1);
    mon_event("exponents", 1);
    mon_sig(c);
    mon_sample("character and exponent %u", c);
}

const mon_group mon_groups_utils[] = {
    {"N01", "n01_special", 632, 632, n01_special, MON_EXH},
    {"N01", "n01_bytes", 256, 256, n01_bytes, MON_EXH},
    {"N01", "n01_random", 40000, 2000000, n01_random, 0},
    {"N01", "n01_all", 256, 65536, n01_all, MON_NATIVE_ONLY},
    {"N02", "n02_chars", 33, 33, n02_chars, MON_EXH},
    {"N02", "n02_edges", 1500, 20000, n02_edges, 0},
    {"N02", "n02_lengths", 1020, 20000, n02_lengths, 0},
    {"N02", "n02_random", 8000, 200000, n02_random, 0},
    {"N02", "n02_dense", 512, 65536, n02_dense, MON_NATIVE_ONLY},
    {"N03", "n03_values", 600, 20000, n03_values, 0},
    {"N03", "n03_bytes", 4000, 100000, n03_bytes, 0},
    {"N03", "n03_all", 160, 4096, n03_all, MON_NATIVE_ONLY},
    {"N04", "n04_sizes", 2400, 2400, n04_sizes, MON_EXH},
    {"N04", "n04_random", 4000, 60000, n04_random, 0},
    {"N04", "n04_swap_array", 6000, 100000, n04_swap_array, 0},
    {"N05", "n05_letters", 256, 256, n05_letters, MON_EXH},
    MON_END
};
