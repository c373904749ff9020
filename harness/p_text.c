/* B01, B02: Base64 */
#include "mon.h"
#include "ref.h"

#include <stdlib.h>

#include "base64.h"

/* one encode call judged completely; returns nothing, fails on violation */
static void
enc_check(const uint8_t* data, size_t n, size_t cap, int place) {
    size_t need = ref_b64_len(n);
    char* want = malloc(need + 1U);
    ref_b64_encode(data, n, want);
    char* in = mon_copy(data, n, place, 1);
    mon_seal(in);
    char* out = mon_alloc(cap, (place == PL_LEFT) ? PL_ANY : place, 1);
    mon_fill(out, cap, FILL_ONES);
    int32_t r = Base64_encode(in, n, out, cap);
    mon_seal_check(in);
    bool fits = (cap > need);
    if (fits) {
        MON_REQUIRE(r == 0, "encode-refused", "encode of %zu bytes into capacity %zu (needs %zu) reported %d", n, cap, need + 1, r);
        if (memcmp(out, want, need + 1U) != 0) {
            size_t d = mon_diff(out, want, need + 1U);
            mon_fail("encode-text", "encode of %zu bytes (cap %zu): text differs at %zu: got 0x%02x want 0x%02x, input around %s", n, cap, d,
                     (uint8_t)out[d], (uint8_t)want[d], mon_hex(&data[(d / 4U) * 3U < n ? (d / 4U) * 3U : 0], n > 3 ? 3 : n));
        }
        mon_event("encode_ok", 1);
    } else {
        MON_REQUIRE(r != 0, "encode-accepted", "encode of %zu bytes into capacity %zu (needs %zu) reported success", n, cap, need + 1);
        mon_event("encode_refused", 1);
    }
    mon_check_guards();
    free(want);
}

static void
b01_lengths(uint64_t idx) {
    /* idx -> (length, variant): every length 0..; capacities all around the needed size */
    size_t n = (size_t)(idx / 2U);
    int place = (idx % 2U) ? PL_RIGHT : PL_LEFT;
    uint8_t* d = malloc(n + 1U);
    mon_fill_any(d, n);
    size_t need = ref_b64_len(n);
    const size_t caps[] = {0, 1, need / 2U, need > 4 ? need - 4U : 2U, need > 3 ? need - 3U : 3U, need > 2 ? need - 2U : 0U, need > 1 ? need - 1U : 0U,
                           need, need + 1U, need + 2U, need + 3U, need + 4U, need + 5U, need + 100U
                          };
    for (size_t k = 0; k < sizeof(caps) / sizeof(caps[0]); ++k) {
        enc_check(d, n, caps[k], place);
        mon_reset();
    }
    mon_sig(mon_hash(d, n, idx));
    mon_sample("length %zu capacities 0..%zu input %s", n, need + 100U, mon_hex(d, n));
    free(d);
}

static void
b01_triples(uint64_t idx) {
    /* all 65536 3-byte groups with a fixed byte in position idx/256 */
    uint8_t fixed = (uint8_t)(idx % 256U);
    unsigned pos = (unsigned)(idx / 256U);
    size_t n = 65536U * 3U;
    uint8_t* d = malloc(n);
    for (uint32_t v = 0; v < 65536U; ++v) {
        uint8_t* t = &d[3U * v];
        uint8_t o[2] = {(uint8_t)(v >> 8), (uint8_t)v};
        unsigned k = 0;
        for (unsigned i = 0; i < 3; ++i) {
            t[i] = (i == pos) ? fixed : o[k++];
        }
    }
    enc_check(d, n, ref_b64_len(n) + 1U, PL_RIGHT);
    mon_sig(idx);
    mon_event("encode_3byte_groups", 65536);
    free(d);
}

static void
b01_tails(uint64_t idx) {
    /* exhaustive 1- and 2-byte tails after a prefix of 0 or 3 bytes */
    uint8_t d[8];
    mon_fill(d, sizeof(d), FILL_RANDOM);
    size_t pre = (idx % 2U) * 3U;
    uint8_t a = (uint8_t)(idx / 2U);
    d[pre] = a;
    enc_check(d, pre + 1U, ref_b64_len(pre + 1U) + 1U, PL_RIGHT);
    for (unsigned b = 0; b < 256; ++b) {
        d[pre + 1U] = (uint8_t)b;
        enc_check(d, pre + 2U, ref_b64_len(pre + 2U) + 1U, PL_RIGHT);
        mon_reset();
    }
    mon_sig(idx);
}

static void
b01_random(uint64_t idx) {
    size_t n = mon_len(mon_chance(1, 20) ? 300000U : 70000U);
    (void)idx;
    uint8_t* d = malloc(n + 1U);
    mon_fill_any(d, n);
    size_t need = ref_b64_len(n);
    size_t cap;
    switch (mon_below(5)) {
        case 0:
            cap = need;
            break;
        case 1:
            cap = need + 1U;
            break;
        case 2:
            cap = (size_t)mon_below(need + 2U);
            break;
        case 3:
            cap = need + (size_t)mon_below(300);
            break;
        default:
            cap = mon_len(n + n / 2U + 10U);
            break;
    }
    enc_check(d, n, cap, PL_RIGHT);
    mon_sig(mon_hash(d, n, cap));
    mon_sample("length %zu capacity %zu", n, cap);
    free(d);
}

/* ------------------------------------------------------------------ decode */
static void
dec_check(const uint8_t* data, size_t n, bool padded, size_t cap, int place) {
    size_t tl = ref_b64_len(n);
    char* text = malloc(tl + 1U);
    ref_b64_encode(data, n, text);
    if (!padded) {
        while ((tl > 0) && (text[tl - 1U] == '=')) {
            --tl;
        }
    }
    char* in = mon_copy(text, tl, place, 1);
    mon_seal(in);
    uint8_t* out = mon_alloc(cap, (place == PL_LEFT) ? PL_ANY : place, 1);
    mon_fill(out, cap, (mon_rnd() & 1U) ? FILL_ONES : FILL_ZERO);
    int32_t r = Base64_decode(in, tl, out, cap);
    mon_seal_check(in);
    if (cap >= n) {
        MON_REQUIRE(r == 0, "decode-refused", "decode of %zu characters (%zu bytes, %s) into capacity %zu reported %d", tl, n, padded ? "padded" : "unpadded", cap, r);
        if (!mon_eq(out, data, n)) {
            size_t d = mon_diff(out, data, n);
            mon_fail("decode-bytes", "decode of %zu characters (%zu bytes, %s, cap %zu): byte %zu is 0x%02x, want 0x%02x", tl, n, padded ? "padded" : "unpadded",
                     cap, d, out[d], data[d]);
        }
        mon_event(padded ? "decode_ok_padded" : "decode_ok_unpadded", 1);
    } else {
        MON_REQUIRE(r != 0, "decode-accepted", "decode of %zu characters (%zu bytes, %s) into capacity %zu reported success", tl, n, padded ? "padded" : "unpadded", cap);
        mon_event("decode_refused_small", 1);
    }
    mon_check_guards();
    free(text);
}

static void
b02_lengths(uint64_t idx) {
    size_t n = 1U + (size_t)(idx / 2U);
    int place = (idx % 2U) ? PL_RIGHT : PL_LEFT;
    uint8_t* d = malloc(n);
    mon_fill_any(d, n);
    const size_t caps[] = {0, 1, n / 2U, n > 3 ? n - 3U : 0U, n > 2 ? n - 2U : 0U, n - 1U, n, n + 1U, n + 2U, n + 3U, n + 64U};
    for (size_t k = 0; k < sizeof(caps) / sizeof(caps[0]); ++k) {
        dec_check(d, n, true, caps[k], place);
        dec_check(d, n, false, caps[k], place);
        mon_reset();
    }
    mon_sig(mon_hash(d, n, idx));
    mon_sample("length %zu data %s", n, mon_hex(d, n));
    free(d);
}

static void
b02_triples(uint64_t idx) {
    uint8_t fixed = (uint8_t)(idx % 256U);
    unsigned pos = (unsigned)(idx / 256U);
    size_t n = 65536U * 3U;
    uint8_t* d = malloc(n);
    for (uint32_t v = 0; v < 65536U; ++v) {
        uint8_t* t = &d[3U * v];
        uint8_t o[2] = {(uint8_t)(v >> 8), (uint8_t)v};
        unsigned k = 0;
        for (unsigned i = 0; i < 3; ++i) {
            t[i] = (i == pos) ? fixed : o[k++];
        }
    }
    dec_check(d, n, true, n, PL_RIGHT);
    mon_sig(idx);
    mon_event("decode_4char_groups", 65536);
    free(d);
}

static void
b02_tails(uint64_t idx) {
    uint8_t d[8];
    mon_fill(d, sizeof(d), FILL_RANDOM);
    size_t pre = (idx % 2U) * 3U;
    d[pre] = (uint8_t)(idx / 2U);
    dec_check(d, pre + 1U, true, pre + 1U, PL_RIGHT);
    dec_check(d, pre + 1U, false, pre + 1U, PL_RIGHT);
    for (unsigned b = 0; b < 256; ++b) {
        d[pre + 1U] = (uint8_t)b;
        dec_check(d, pre + 2U, true, pre + 2U + (b % 2U), PL_RIGHT);
        dec_check(d, pre + 2U, false, pre + 2U + (b % 2U), PL_RIGHT);
        mon_reset();
    }
    mon_sig(idx);
}

static void
b02_random(uint64_t idx) {
    (void)idx;
    size_t n = 1U + mon_len(mon_chance(1, 20) ? 300000U : 70000U);
    uint8_t* d = malloc(n);
    mon_fill_any(d, n);
    size_t cap;
    switch (mon_below(4)) {
        case 0:
            cap = n;
            break;
        case 1:
            cap = n - 1U;
            break;
        case 2:
            cap = (size_t)mon_below(n + 1U);
            break;
        default:
            cap = n + (size_t)mon_below(300);
            break;
    }
    bool padded = (mon_rnd() & 1U) != 0U;
    dec_check(d, n, padded, cap, PL_RIGHT);
    mon_sig(mon_hash(d, n, cap));
    mon_sample("length %zu capacity %zu %s", n, cap, padded ? "padded" : "unpadded");
    free(d);
}

static void
b02_empty(uint64_t idx) {
    /* an empty input is rejected whatever the capacity */
    size_t cap = (size_t)(idx / 2U);
    uint8_t* out = mon_alloc(cap, PL_RIGHT, 1);
    char* in = mon_alloc(0, (idx % 2U) ? PL_RIGHT : PL_LEFT, 1);
    int32_t r = Base64_decode(in, 0, out, cap);
    MON_REQUIRE(r != 0, "decode-empty-accepted", "decode of an empty text into capacity %zu reported success", cap);
    mon_event("decode_refused_empty", 1);
    mon_sig(idx);
}

/* encode then decode with the library itself: the two halves agree */
static void
b02_roundtrip(uint64_t idx) {
    (void)idx;
    size_t n = 1U + mon_len(20000U);
    size_t tl = ref_b64_len(n);
    uint8_t* d = mon_alloc(n, PL_RIGHT, 1);
    mon_fill_any(d, n);
    char* t = mon_alloc(tl + 1U, PL_RIGHT, 1);
    uint8_t* o = mon_alloc(n, PL_RIGHT, 1);
    int32_t r = Base64_encode((const char*)d, n, t, tl + 1U);
    MON_REQUIRE(r == 0, "roundtrip-encode", "encode of %zu bytes reported %d", n, r);
    size_t use = strlen(t);
    r = Base64_decode(t, use, o, n);
    MON_REQUIRE(r == 0, "roundtrip-decode", "decode of the encoding of %zu bytes reported %d", n, r);
    MON_REQUIRE(mon_eq(o, d, n), "roundtrip-bytes", "round trip of %zu bytes differs at %zu", n, mon_diff(o, d, n));
    mon_event("roundtrip", 1);
    mon_sig(mon_hash(d, n, 5));
}

const mon_group mon_groups_text[] = {
    {"B01", "b01_lengths", 2200, 9000, b01_lengths, MON_EXH},
    {"B01", "b01_tails", 512, 512, b01_tails, MON_EXH},
    {"B01", "b01_triples", 256, 768, b01_triples, 0},
    {"B01", "b01_random", 4000, 120000, b01_random, 0},
    {"B02", "b02_empty", 80, 200, b02_empty, MON_EXH},
    {"B02", "b02_lengths", 2200, 9000, b02_lengths, MON_EXH},
    {"B02", "b02_tails", 512, 512, b02_tails, MON_EXH},
    {"B02", "b02_triples", 256, 768, b02_triples, 0},
    {"B02", "b02_random", 4000, 120000, b02_random, 0},
    {"B02", "b02_roundtrip", 2000, 60000, b02_roundtrip, 0},
    MON_END
};
