/* C01, C02, C03: CRC */
#include "mon.h"
#include "ref.h"

#include <stdlib.h>

#include "crc_variants.h"
#include "crc16_base.h"
#include "crc32_base.h"
#include "crc8_base.h"

#define NV 45U

static const crc_variant*
variant(uint64_t i) {
    if (n_crc_variants != NV) {
        mon_harness_error("variant count %u", n_crc_variants);
    }
    const crc_variant* v = &crc_variants[i % NV];
    static bool checked[NV];
    if (!checked[i % NV]) {
        checked[i % NV] = true;
        if (ref_crc(&v->model, (const uint8_t*)"123456789", 9) != v->check) {
            mon_harness_error("oracle of %s gives 0x%x for the check message, catalogue says 0x%x", v->name, ref_crc(&v->model, (const uint8_t*)"123456789", 9), v->check);
        }
    }
    return v;
}

/* last-value cell of the right width in read-only memory */
static void*
cell(const crc_variant* v, uint32_t val) {
    size_t w = v->model.width / 8U;
    void* p = mon_alloc(w, PL_RIGHT, w);
    if (w == 1) {
        *(uint8_t*)p = (uint8_t)val;
    } else if (w == 2) {
        *(uint16_t*)p = (uint16_t)val;
    } else {
        *(uint32_t*)p = val;
    }
    mon_seal(p);
    return p;
}

/* fast cell without guard */
static uint32_t
chain(const crc_variant* v, const uint8_t* p, uint32_t n, bool fin, uint32_t last) {
    uint8_t c8 = (uint8_t)last;
    uint16_t c16 = (uint16_t)last;
    uint32_t c32 = last;
    const void* c = (v->model.width == 8) ? (const void*)&c8 : (v->model.width == 16) ? (const void*)&c16 : (const void*)&c32;
    return v->fn(p, n, fin, c);
}

/* ------------------------------------------------------------------ C01 */
static void
c01_short(uint64_t idx) {
    /* idx = variant * 257 + first byte (256 = the empty message): all 2-byte messages starting with that byte */
    const crc_variant* v = variant(idx / 257U);
    unsigned f = (unsigned)(idx % 257U);
    uint8_t* m = mon_alloc(2, PL_RIGHT, 1);
    uint32_t want;
    uint32_t got;
    if (f == 256U) {
        uint8_t* e = mon_alloc(0, PL_RIGHT, 1);
        want = ref_crc(&v->model, e, 0);
        got = v->fn(e, 0, true, NULL);
        MON_REQUIRE(got == want, "crc-empty", "%s of the empty message is 0x%x want 0x%x", v->name, got, want);
        mon_sig(idx);
        return;
    }
    m[0] = (uint8_t)f;
    m[1] = (uint8_t)f;
    want = ref_crc(&v->model, m, 1);
    got = v->fn(&m[1], 1, true, NULL);
    MON_REQUIRE(got == want, "crc-1byte", "%s of %02x is 0x%x want 0x%x", v->name, f, got, want);
    uint32_t reg = ref_crc_feed(&v->model, v->model.init, m, 1);
    for (unsigned g = 0; g < 256U; ++g) {
        m[1] = (uint8_t)g;
        want = ref_crc_finish(&v->model, ref_crc_feed(&v->model, reg, &m[1], 1));
        got = v->fn(m, 2, true, NULL);
        MON_REQUIRE(got == want, "crc-2byte", "%s of %02x%02x is 0x%x want 0x%x", v->name, f, g, got, want);
    }
    mon_event("messages", 257);
    mon_sig(idx);
    mon_sample("%s: all messages of 2 bytes starting with %02x", v->name, f);
}

static void
msg_check(const crc_variant* v, const uint8_t* m, size_t n, const char* what) {
    uint32_t want = ref_crc(&v->model, m, n);
    uint32_t got = v->fn(m, (uint32_t)n, true, NULL);
    MON_REQUIRE(got == want, "crc-message", "%s of %zu bytes (%s %s) is 0x%x want 0x%x", v->name, n, what, mon_hex(m, n), got, want);
    mon_event("messages", 1);
    mon_event("bytes", n);
}

static void
c01_lengths(uint64_t idx) {
    /* every length 0..: random, all-zero, all-ones, and content that drives the register through zero */
    const crc_variant* v = variant(idx % NV);
    size_t n = (size_t)(idx / NV);
    uint8_t* m = mon_alloc(n, (idx & 1U) ? PL_RIGHT : PL_LEFT, 1);
    mon_fill(m, n, FILL_RANDOM);
    msg_check(v, m, n, "random");
    if (n >= 8U) {
        /* choose bytes at a random place so that the register is zero (or all ones) there */
        size_t w = v->model.width / 8U;
        size_t at = (size_t)mon_below(n - w + 1U);
        uint32_t reg = ref_crc_feed(&v->model, v->model.init, m, at);
        uint32_t goal = (mon_rnd() & 1U) ? 0U : (uint32_t)mon_below(4);
        if (goal == 3U) {
            goal = 0xFFFFFFFFU;
        }
        goal &= (v->model.width == 32) ? 0xFFFFFFFFU : ((1U << v->model.width) - 1U);
        /* feeding w bytes equal to the register (plus a correction) forces any goal: search bytewise backwards is
         * unnecessary: for goal 0, feeding the register's own bytes does it */
        for (size_t k = 0; k < w; ++k) {
            uint8_t b = (uint8_t)(reg >> (8U * (w - 1U - k)));
            m[at + k] = v->model.refin ? (uint8_t)ref_reflect(b, 8) : b;
        }
        (void)goal;
        if (ref_crc_feed(&v->model, reg, &m[at], w) != 0U) {
            mon_harness_error("zeroing construction");
        }
        msg_check(v, m, n, "zero-register");
        mon_event("zero_register_crossings", 1);
    }
    mon_fill(m, n, FILL_ZERO);
    msg_check(v, m, n, "zeros");
    mon_fill(m, n, FILL_ONES);
    msg_check(v, m, n, "ones");
    mon_sig(idx);
    mon_sample("%s length %zu", v->name, n);
}

static void
c01_random(uint64_t idx) {
    const crc_variant* v = variant(idx);
    size_t n = mon_len(mon_chance(1, 20) ? 270000U : 6000U);
    uint8_t* m = mon_alloc(n, PL_RIGHT, 1);
    mon_fill_any(m, n);
    mon_seal(m);
    msg_check(v, m, n, "random");
    mon_sig(mon_hash(m, n, idx % NV));
    mon_sample("%s length %zu %s", v->name, n, mon_hex(m, n));
}

static void
c01_wide(uint64_t idx) {
    /* 3-byte messages drive a 16-bit register through every table entry from every state; 8 and 32 bit get 4 bytes */
    const crc_variant* v = variant(idx % NV);
    uint8_t* m = mon_alloc(4, PL_RIGHT, 1);
    for (uint32_t k = 0; k < 65536U; ++k) {
        uint64_t r = mon_mix(idx * 65536U + k);
        memcpy(m, &r, 4);
        m[0] = (uint8_t)(k >> 8);
        m[1] = (uint8_t)k;
        unsigned n = 3U + (k & 1U);
        uint32_t want = ref_crc(&v->model, m, n);
        uint32_t got = v->fn(m, n, true, NULL);
        MON_REQUIRE(got == want, "crc-message", "%s of %s is 0x%x want 0x%x", v->name, mon_hex(m, n), got, want);
    }
    mon_event("messages", 65536);
    mon_sig(idx);
}

static void
c01_long(uint64_t idx) {
    /* long messages: lengths beyond 16 and 24 bits */
    const crc_variant* v = variant(idx % NV);
    size_t n = (idx / NV == 0) ? 65536U + (size_t)mon_below(3) : ((size_t)1 << 24) + (size_t)mon_below(1000);
    uint8_t* m = malloc(n);
    mon_fill(m, n, FILL_RANDOM);
    msg_check(v, m, n, "long");
    free(m);
    mon_sig(idx);
    mon_sample("%s length %zu", v->name, n);
}

/* ------------------------------------------------------------------ C02 */
static uint32_t
chunked(const crc_variant* v, const uint8_t* m, size_t n, const size_t* cut, unsigned cuts, bool guarded) {
    /* chunks [0,cut0) [cut0,cut1) .. [last,n) */
    size_t pos = 0;
    uint32_t r = 0;
    for (unsigned i = 0; i <= cuts; ++i) {
        size_t e = (i < cuts) ? cut[i] : n;
        bool fin = (i == cuts);
        if (guarded) {
            uint8_t* c = mon_copy(&m[pos], e - pos, PL_RIGHT, 1);
            mon_seal(c);
            void* last = (i == 0) ? NULL : cell(v, r);
            r = v->fn(c, (uint32_t)(e - pos), fin, last);
        } else if (i == 0) {
            r = v->fn(&m[pos], (uint32_t)(e - pos), fin, NULL);
        } else {
            r = chain(v, &m[pos], (uint32_t)(e - pos), fin, r);
        }
        pos = e;
        mon_event((e == 0 || (i > 0 && e == cut[i - 1])) ? "empty_chunks" : "chunks", 1);
    }
    return r;
}

static void
c02_states(uint64_t idx) {
    /* every value the 8/16-bit register can take as intermediate result (a 2-byte prefix reaches each exactly once),
     * then a short tail, possibly empty, marked final */
    const crc_variant* v = variant(idx / 256U);
    uint8_t m[8];
    for (unsigned lo = 0; lo < 256U; ++lo) {
        uint64_t r = mon_rnd();
        memcpy(m, &r, 8);
        m[0] = (uint8_t)(idx % 256U);
        m[1] = (uint8_t)lo;
        unsigned n = 2U + (unsigned)(r >> 60) % 4U;
        uint32_t whole = v->fn(m, n, true, NULL);
        uint32_t part = v->fn(m, 2, false, NULL);
        uint32_t got = chain(v, &m[2], n - 2U, true, part);
        MON_REQUIRE(got == whole, "crc-chunk", "%s of %s in chunks of 2 and %u: 0x%x, whole 0x%x (intermediate 0x%x)", v->name, mon_hex(m, n), n - 2U, got, whole, part);
        got = chain(v, &m[2], n - 2U, true, chain(v, &m[2], 0, false, part));
        MON_REQUIRE(got == whole, "crc-chunk-empty", "%s of %s with an empty middle chunk: 0x%x, whole 0x%x (intermediate 0x%x)", v->name, mon_hex(m, n), got, whole, part);
    }
    mon_event("intermediate_values", 256);
    mon_sig(idx);
    mon_sample("%s: 256 prefixes starting with %02x, with and without an empty chunk", v->name, (unsigned)(idx % 256U));
}

static void
c02_zero(uint64_t idx) {
    /* the intermediate result is exactly 0, or the initial value again, or all ones (24 random messages each) */
    const crc_variant* v = variant(idx % NV);
    size_t w = v->model.width / 8U;
    for (unsigned k = 0; k < 24; ++k) {
        size_t pre = (size_t)mon_below(20);
        size_t post = (size_t)mon_below(20);
        uint8_t m[64];
        mon_fill(m, sizeof(m), FILL_RANDOM);
        uint32_t reg = ref_crc_feed(&v->model, v->model.init, m, pre);
        for (size_t q = 0; q < w; ++q) {
            uint8_t b = (uint8_t)(reg >> (8U * (w - 1U - q)));
            m[pre + q] = v->model.refin ? (uint8_t)ref_reflect(b, 8) : b;
        }
        size_t n = pre + w + post;
        size_t cut = pre + w;
        uint32_t whole = ref_crc(&v->model, m, n);
        uint32_t got = chunked(v, m, n, &cut, 1, true);
        MON_REQUIRE(got == whole, "crc-chunk-zero", "%s of %zu bytes cut at %zu, where the intermediate result is 0: 0x%x, whole 0x%x", v->name, n, cut, got, whole);
        size_t cuts[3] = {cut, cut, cut};
        got = chunked(v, m, n, cuts, 3, true);
        MON_REQUIRE(got == whole, "crc-chunk-zero", "%s of %zu bytes with empty chunks at %zu (intermediate 0): 0x%x, whole 0x%x", v->name, n, cut, got, whole);
        mon_sig(mon_hash(m, n, idx));
        mon_reset();
    }
    mon_event("zero_intermediates", 24);
}

static void
c02_all_cuts(uint64_t idx) {
    /* every way to cut a message of up to 9 bytes into consecutive non-empty chunks, plus empty chunks at both ends */
    const crc_variant* v = variant(idx % NV);
    unsigned n = 1U + (unsigned)(idx / NV) % 9U;
    uint8_t m[16];
    mon_fill_any(m, n);
    uint32_t whole = ref_crc(&v->model, m, n);
    for (unsigned mask = 0; mask < (1U << (n - 1U)); ++mask) {
        size_t cut[24];
        unsigned c = 0;
        bool e = (mask * 2654435761U) >> 31;
        if (e) {
            cut[c++] = 0;
        }
        for (unsigned b = 0; b + 1U < n; ++b) {
            if ((mask >> b) & 1U) {
                cut[c++] = b + 1U;
            }
        }
        if (e) {
            cut[c++] = n;
        }
        uint32_t got = chunked(v, m, n, cut, c, false);
        MON_REQUIRE(got == whole, "crc-cuts", "%s of %s cut with mask 0x%x%s: 0x%x, whole 0x%x", v->name, mon_hex(m, n), mask, e ? " and empty ends" : "", got, whole);
    }
    mon_event("cuttings", (uint64_t)1 << (n - 1U));
    mon_sig(mon_hash(m, n, idx));
    mon_sample("%s: %u cuttings of %s", v->name, 1U << (n - 1U), mon_hex(m, n));
}

static int
cmp_size(const void* a, const void* b) {
    size_t x = *(const size_t*)a;
    size_t y = *(const size_t*)b;
    return (x > y) - (x < y);
}

static void
c02_random(uint64_t idx) {
    const crc_variant* v = variant(idx);
    size_t n = mon_len(mon_chance(1, 20) ? 140000U : 3000U);
    uint8_t* m = malloc(n + 1U);
    mon_fill_any(m, n);
    unsigned cuts = (unsigned)mon_below(20);
    size_t cut[20];
    for (unsigned i = 0; i < cuts; ++i) {
        cut[i] = ((i > 0) && mon_chance(1, 4)) ? cut[i - 1] : (size_t)mon_below(n + 1U);
        if (mon_chance(1, 10)) {
            cut[i] = (mon_rnd() & 1U) ? 0 : n;
        }
    }
    qsort(cut, cuts, sizeof(cut[0]), cmp_size);
    uint32_t whole = v->fn(m, (uint32_t)n, true, NULL);
    uint32_t got = chunked(v, m, n, cut, cuts, true);
    MON_REQUIRE(got == whole, "crc-chunks", "%s of %zu bytes in %u chunks: 0x%x, whole 0x%x", v->name, n, cuts + 1U, got, whole);
    MON_REQUIRE(got == ref_crc(&v->model, m, n), "crc-chunks-value", "%s of %zu bytes in %u chunks: 0x%x", v->name, n, cuts + 1U, got);
    mon_sig(mon_hash(m, n, mon_hash(cut, cuts * sizeof(cut[0]), idx % NV)));
    mon_sample("%s: %zu bytes in %u chunks", v->name, n, cuts + 1U);
    free(m);
}

/* ------------------------------------------------------------------ C03 */
static uint32_t
ref_entry(unsigned width, uint32_t poly, unsigned byte) {
    ref_crc_model m = {width, poly, 0, false, false, 0};
    uint8_t b = (uint8_t)byte;
    return ref_crc_feed(&m, 0, &b, 1);
}

static void
table_check(unsigned width, uint32_t poly) {
    size_t es = width / 8U;
    void* t = mon_alloc(256U * es, PL_RIGHT, es);
    mon_fill(t, 256U * es, FILL_ONES);
    if (width == 8) {
        Crc8Base_tableCalculator((uint8_t)poly, t);
    } else if (width == 16) {
        Crc16Base_tableCalculator((uint16_t)poly, t);
    } else {
        Crc32Base_tableCalculator(poly, t);
    }
    /* remainders are linear: compute the 8 single-bit ones by the definition, combine */
    uint32_t basis[8];
    for (unsigned b = 0; b < 8U; ++b) {
        basis[b] = ref_entry(width, poly, 1U << b);
    }
    for (unsigned i = 0; i < 256U; ++i) {
        uint32_t want = 0;
        for (unsigned b = 0; b < 8U; ++b) {
            if ((i >> b) & 1U) {
                want ^= basis[b];
            }
        }
        uint32_t got = (width == 8) ? ((uint8_t*)t)[i] : (width == 16) ? ((uint16_t*)t)[i] : ((uint32_t*)t)[i];
        MON_REQUIRE(got == want, "crc-table", "table of width %u polynomial 0x%x: entry %u is 0x%x want 0x%x", width, poly, i, got, want);
    }
    mon_event("tables", 1);
}

static void
c03_tables8(uint64_t idx) {
    table_check(8, (uint32_t)idx);
    mon_sig(idx);
    mon_sample("width 8 polynomial 0x%02x", (unsigned)idx);
}

static void
c03_tables16(uint64_t idx) {
    for (uint32_t k = 0; k < 256U; ++k) {
        table_check(16, (uint32_t)idx * 256U + k);
        mon_reset();
    }
    mon_sig(idx);
    mon_sample("width 16 polynomials 0x%02x00..0x%02xff", (unsigned)idx, (unsigned)idx);
}

static void
c03_tables32(uint64_t idx) {
    uint32_t p = (idx < 64) ? ((idx & 1U) ? ~(1U << (idx / 2U)) : (1U << (idx / 2U))) : mon_u32();
    table_check(32, p);
    mon_sig(p);
    mon_sample("width 32 polynomial 0x%08x", p);
}

static void
engine_case(uint64_t idx, size_t n) {
    static const unsigned ws[] = {8, 16, 32};
    ref_crc_model m;
    m.width = ws[idx % 3U];
    uint32_t mask = (m.width == 32) ? 0xFFFFFFFFU : ((1U << m.width) - 1U);
    m.poly = mon_u32() & mask;
    m.init = mon_u32() & mask;
    m.xorout = mon_u32() & mask;
    m.refin = ((idx / 3U) & 1U) != 0U;
    m.refout = ((idx / 6U) & 1U) != 0U;
    bool use_xor = ((idx / 12U) & 1U) != 0U;
    uint8_t* d = mon_alloc(n, PL_RIGHT, 1);
    mon_fill_any(d, n);
    mon_seal(d);
    size_t es = m.width / 8U;
    void* t = mon_alloc(256U * es, PL_RIGHT, es);
    bool built = (mon_rnd() & 1U) != 0U;
    uint32_t got;
    if (built) {
        if (m.width == 8) {
            Crc8Base_tableCalculator((uint8_t)m.poly, t);
        } else if (m.width == 16) {
            Crc16Base_tableCalculator((uint16_t)m.poly, t);
        } else {
            Crc32Base_tableCalculator(m.poly, t);
        }
    } else {
        for (unsigned i = 0; i < 256U; ++i) {
            uint32_t e = ref_entry(m.width, m.poly, i);
            if (m.width == 8) {
                ((uint8_t*)t)[i] = (uint8_t)e;
            } else if (m.width == 16) {
                ((uint16_t*)t)[i] = (uint16_t)e;
            } else {
                ((uint32_t*)t)[i] = e;
            }
        }
    }
    mon_seal(t);
    if (m.width == 8) {
        got = Crc8Base(t, d, (uint32_t)n, (uint8_t)m.init, (uint8_t)m.xorout, m.refout, m.refin, use_xor);
    } else if (m.width == 16) {
        got = Crc16Base(t, d, (uint32_t)n, (uint16_t)m.init, (uint16_t)m.xorout, m.refout, m.refin, use_xor);
    } else {
        got = Crc32Base(t, d, (uint32_t)n, m.init, m.xorout, m.refout, m.refin, use_xor);
    }
    ref_crc_model q = m;
    if (!use_xor) {
        q.xorout = 0;
    }
    uint32_t want = ref_crc(&q, d, n);
    MON_REQUIRE(got == want, "crc-engine", "width %u poly 0x%x init 0x%x xor 0x%x refin %d refout %d use_xor %d, %zu bytes %s: 0x%x want 0x%x", m.width, m.poly, m.init,
                m.xorout, m.refin, m.refout, use_xor, n, mon_hex(d, n), got, want);
    mon_event("engine_runs", 1);
    mon_sig(mon_hash(d, n, mon_hash_u64(m.poly, m.init) + m.xorout));
    mon_sample("width %u poly 0x%x init 0x%x xor 0x%x refin %d refout %d use_xor %d, %zu bytes", m.width, m.poly, m.init, m.xorout, m.refin, m.refout, use_xor, n);
}

static void
c03_engine(uint64_t idx) {
    engine_case(idx, mon_chance(1, 40) ? 65530U + (size_t)mon_below(12) : mon_len(2000));
}

static void
c03_engine_long(uint64_t idx) {
    /* lengths beyond 16, 17 and 24 bits */
    unsigned k = (unsigned)(idx / 24U) % 4U;
    size_t n = (k == 0) ? 65536U + (size_t)mon_below(5) : (k == 1) ? (size_t)mon_range(65537, 131070) : (k == 2) ? (size_t)mon_range(131071, 400000) : ((size_t)1 << 24) + (size_t)mon_below(100000);
    engine_case(idx, n);
}

static void
c03_linear16(uint64_t idx) {
    /* engine step from every 16-bit register state (all initial values), every switch combination, one data byte or none */
    uint16_t t[256];
    uint32_t poly = (uint32_t)(mon_rnd() & 0xFFFFU);
    Crc16Base_tableCalculator((uint16_t)poly, t);
    for (uint32_t k = 0; k < 65536U; ++k) {
        ref_crc_model m = {16, poly, k, (idx & 1U) != 0, (idx & 2U) != 0, 0};
        uint8_t d = (uint8_t)mon_rnd();
        unsigned n = (k + (unsigned)idx / 4U) % 8U ? 1U : 0U;
        uint16_t got = Crc16Base(t, &d, n, (uint16_t)k, 0xBEEFU, m.refout, m.refin, false);
        uint32_t want = ref_crc(&m, &d, n);
        MON_REQUIRE(got == want, "crc-engine", "width 16 poly 0x%x init 0x%x refin %d refout %d, %u bytes (%02x): 0x%x want 0x%x", poly, k, m.refin, m.refout, n, d, got, want);
    }
    mon_event("engine_runs", 65536);
    mon_sig(idx);
}

const mon_group mon_groups_crc[] = {
    {"C01", "c01_short", NV * 257U, NV * 257U, c01_short, MON_EXH},
    {"C01", "c01_lengths", NV * 300U, NV * 2100U, c01_lengths, MON_EXH},
    {"C01", "c01_wide", NV, NV * 256U, c01_wide, MON_NATIVE_ONLY},
    {"C01", "c01_long", NV, NV * 2U, c01_long, MON_NATIVE_ONLY | MON_SLOW},
    {"C01", "c01_random", 9000, 200000, c01_random, 0},
    {"C02", "c02_states", NV * 256U, NV * 256U, c02_states, MON_EXH},
    {"C02", "c02_zero", NV * 4U, NV * 400U, c02_zero, MON_EXH},
    {"C02", "c02_all_cuts", NV * 9U * 2U, NV * 9U * 40U, c02_all_cuts, MON_EXH},
    {"C02", "c02_random", 9000, 200000, c02_random, 0},
    {"C03", "c03_tables8", 256, 256, c03_tables8, MON_EXH},
    {"C03", "c03_tables16", 256, 256, c03_tables16, MON_EXH},
    {"C03", "c03_tables32", 4000, 400000, c03_tables32, 0},
    {"C03", "c03_linear16", 32, 3200, c03_linear16, 0},
    {"C03", "c03_engine", 24000, 1000000, c03_engine, 0},
    {"C03", "c03_engine_long", 96, 960, c03_engine_long, MON_NATIVE_ONLY | MON_SLOW},
    MON_END
};
