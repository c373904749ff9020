/* E01..E04: ChaCha20, Caesar, Vernam */
#include "mon.h"
#include "ref.h"

#include <stdlib.h>

#include "caesar_cipher.h"
#include "chacha20.h"
#include "vernam_cipher.h"

/* ------------------------------------------------------------------ ChaCha20 */
typedef struct {
    uint8_t* key;
    uint8_t* nonce;
    uint32_t ctr;
} cc;

static void
oracle_selfcheck(void) {
    static bool done;
    if (done) {
        return;
    }
    done = true;
    /* RFC 8439 2.3.2 */
    uint8_t key[32], out[64];
    for (unsigned i = 0; i < 32; ++i) {
        key[i] = (uint8_t)i;
    }
    static const uint8_t nonce[12] = {0, 0, 0, 9, 0, 0, 0, 0x4a, 0, 0, 0, 0};
    static const uint8_t want[16] = {0x10, 0xf1, 0xe7, 0xe4, 0xd1, 0x3b, 0x59, 0x15, 0x50, 0x0f, 0xdd, 0x1f, 0xa3, 0x20, 0x71, 0xc4};
    ref_chacha_block(key, 1, nonce, out);
    if (memcmp(out, want, 16) != 0) {
        mon_harness_error("ChaCha20 oracle does not reproduce RFC 8439 2.3.2");
    }
}

static cc
gen_cc(uint64_t blocks) {
    oracle_selfcheck();
    cc c;
    int place = mon_chance(1, 2) ? PL_RIGHT : PL_LEFT;
    c.key = mon_alloc(32, place, 1);
    c.nonce = mon_alloc(12, place, 1);
    if (mon_chance(1, 6)) {
        /* single bit set or clear */
        memset(c.key, 0, 32);
        memset(c.nonce, 0, 12);
        unsigned b = (unsigned)mon_below(44U * 8U);
        if (b < 256U) {
            c.key[b / 8U] = (uint8_t)(1U << (b % 8U));
        } else {
            c.nonce[(b - 256U) / 8U] = (uint8_t)(1U << (b % 8U));
        }
    } else {
        mon_fill_any(c.key, 32);
        mon_fill_any(c.nonce, 12);
    }
    switch (mon_below(6)) {
        case 0:
            c.ctr = 0;
            break;
        case 1:
            c.ctr = 1;
            break;
        case 2:
            /* the counter wraps inside the message */
            c.ctr = 0U - (uint32_t)mon_below(blocks + 2U);
            break;
        case 3:
            c.ctr = (uint32_t)0x80000000U - (uint32_t)mon_below(blocks + 2U);
            break;
        default:
            c.ctr = mon_u32();
            break;
    }
    mon_seal(c.key);
    mon_seal(c.nonce);
    return c;
}

static void
cc_check(size_t n, int place) {
    cc c = gen_cc(n / 64U + 1U);
    uint8_t* in = mon_alloc(n, place, 1);
    mon_fill_any(in, n);
    mon_seal(in);
    uint8_t* out = mon_alloc(n, place, 1);
    mon_fill(out, n, FILL_ONES);
    uint8_t* want = malloc(n + 1U);
    ref_chacha(c.key, c.ctr, c.nonce, in, n, want);
    Chacha20_crypt(in, (uint32_t)n, c.key, c.nonce, c.ctr, out);
    if (!mon_eq(out, want, n)) {
        size_t d = mon_diff(out, want, n);
        mon_fail("chacha-output", "length %zu counter 0x%08x: byte %zu (block %zu) is 0x%02x want 0x%02x; key %s nonce %s", n, c.ctr, d, d / 64U, out[d], want[d],
                 mon_hex(c.key, 32), mon_hex(c.nonce, 12));
    }
    mon_check_guards();
    mon_event("messages", 1);
    mon_event("blocks", (n + 63U) / 64U);
    if ((uint32_t)(c.ctr + (uint32_t)((n + 63U) / 64U)) < c.ctr) {
        mon_event("counter_wraps", 1);
    }
    if (n > 0) {
        mon_sig(mon_hash(c.key, 32, mon_hash_u64(n, c.ctr)));
    }
    mon_sample("length %zu counter 0x%08x key %s nonce %s", n, c.ctr, mon_hex(c.key, 32), mon_hex(c.nonce, 12));
    free(want);
}

static void
e01_lengths(uint64_t idx) {
    cc_check((size_t)(idx / 2U), (idx & 1U) ? PL_RIGHT : PL_LEFT);
}

static void
e01_random(uint64_t idx) {
    (void)idx;
    cc_check(mon_len(mon_chance(1, 30) ? 40000U : 1500U), mon_chance(1, 2) ? PL_RIGHT : PL_MIDDLE);
}

static void
e01_long(uint64_t idx) {
    /* more than 256 blocks, more than 65536 blocks */
    static const size_t sz[] = {64U * 255U, 64U * 256U, 64U * 256U + 1U, 64U * 257U + 63U, 65535U, 65536U, 65537U, 64U * 65536U + 65U, 64U * 65535U + 63U, (1U << 24) + 77U};
    cc_check(sz[idx % 10U] + (size_t)mon_below(3), PL_RIGHT);
}

/* ------------------------------------------------------------------ E02 */
static void
e02_props(size_t n) {
    cc c = gen_cc(n / 64U + 1U);
    uint8_t* in = mon_alloc(n, PL_RIGHT, 1);
    mon_fill_any(in, n);
    mon_seal(in);
    uint8_t* once = mon_alloc(n, PL_RIGHT, 1);
    uint8_t* twice = mon_alloc(n, PL_RIGHT, 1);
    Chacha20_crypt(in, (uint32_t)n, c.key, c.nonce, c.ctr, once);
    Chacha20_crypt(once, (uint32_t)n, c.key, c.nonce, c.ctr, twice);
    MON_REQUIRE(mon_eq(twice, in, n), "chacha-involution", "length %zu counter 0x%08x: decryption differs at %zu", n, c.ctr, mon_diff(twice, in, n));
    if (n >= 24U) {
        MON_REQUIRE(!mon_eq(once, in, n), "chacha-identity", "length %zu: cipher text equals plain text", n);
    }
    mon_event("involutions", 1);
    /* in place */
    uint8_t* ip = mon_copy(in, n, PL_RIGHT, 1);
    Chacha20_crypt(ip, (uint32_t)n, c.key, c.nonce, c.ctr, ip);
    MON_REQUIRE(mon_eq(ip, once, n), "chacha-inplace", "length %zu counter 0x%08x: in-place result differs at %zu", n, c.ctr, mon_diff(ip, once, n));
    Chacha20_crypt(ip, (uint32_t)n, c.key, c.nonce, c.ctr, ip);
    MON_REQUIRE(mon_eq(ip, in, n), "chacha-inplace-involution", "length %zu counter 0x%08x: in-place decryption differs at %zu", n, c.ctr, mon_diff(ip, in, n));
    mon_event("in_place", 1);
    /* pieces cut at multiples of 64, some empty, alternately in place and not */
    uint8_t* pc = mon_copy(in, n, PL_RIGHT, 1);
    uint64_t done = 0;
    unsigned pieces = 0;
    while ((done < n) || mon_chance(1, 4)) {
        uint64_t left = (n - done + 63U) / 64U;
        uint64_t take = mon_chance(1, 8) ? 0 : mon_below(left + 1U);
        if (mon_chance(1, 3) && (take > 4U)) {
            take = mon_below(4);
        }
        if (++pieces > 40U) {
            take = left;
        }
        uint64_t bytes = take * 64U;
        if (done + bytes > n) {
            bytes = n - done;
        }
        bool inpl = (mon_rnd() & 1U) != 0U;
        Chacha20_crypt(inpl ? &pc[done] : &in[done], (uint32_t)bytes, c.key, c.nonce, c.ctr + (uint32_t)(done / 64U), &pc[done]);
        done += bytes;
        if (pieces > 45U) {
            break;
        }
    }
    MON_REQUIRE(mon_eq(pc, once, n), "chacha-pieces", "length %zu counter 0x%08x in %u pieces: differs at %zu", n, c.ctr, pieces, mon_diff(pc, once, n));
    mon_event("pieces", pieces);
    mon_check_guards();
    if (n > 0) {
        mon_sig(mon_hash(once, n, c.ctr));
    }
    mon_sample("length %zu counter 0x%08x, %u pieces", n, c.ctr, pieces);
}

static void
e02_lengths(uint64_t idx) {
    e02_props((size_t)idx);
}

static void
e02_random(uint64_t idx) {
    (void)idx;
    e02_props(mon_len(mon_chance(1, 30) ? 70000U : 2500U));
}

static void
e02_long(uint64_t idx) {
    static const size_t sz[] = {64U * 256U, 64U * 257U + 1U, 65536U + 5U, 64U * 65536U + 100U};
    e02_props(sz[idx % 4U] + (size_t)mon_below(70));
}

/* ------------------------------------------------------------------ Caesar */
static void
caesar_check(const char* msg, size_t n, unsigned shift) {
    char* m = mon_copy(msg, n + 1U, PL_RIGHT, 1);
    CaesarCipher_encrypt(m, (uint8_t)shift);
    for (size_t i = 0; i < n; ++i) {
        char want = ref_caesar(msg[i], shift);
        if (m[i] != want) {
            mon_fail("caesar-encrypt", "shift %u: character 0x%02x at %zu of %zu became 0x%02x, want 0x%02x", shift, (uint8_t)msg[i], i, n, (uint8_t)m[i], (uint8_t)want);
        }
    }
    MON_REQUIRE(m[n] == '\0', "caesar-terminator", "shift %u: terminator of %zu characters overwritten", shift, n);
    CaesarCipher_decrypt(m, (uint8_t)shift);
    if (memcmp(m, msg, n + 1U) != 0) {
        size_t d = mon_diff(m, msg, n + 1U);
        mon_fail("caesar-roundtrip", "shift %u: encrypt then decrypt turned 0x%02x at %zu of %zu into 0x%02x", shift, (uint8_t)msg[d], d, n, (uint8_t)m[d]);
    }
    CaesarCipher_decrypt(m, (uint8_t)shift);
    CaesarCipher_encrypt(m, (uint8_t)shift);
    if (memcmp(m, msg, n + 1U) != 0) {
        size_t d = mon_diff(m, msg, n + 1U);
        mon_fail("caesar-inverse", "shift %u: decrypt then encrypt turned 0x%02x at %zu of %zu into 0x%02x", shift, (uint8_t)msg[d], d, n, (uint8_t)m[d]);
    }
    mon_check_guards();
    mon_event("messages", 1);
    mon_event("characters", n);
}

static void
e03_all(uint64_t idx) {
    /* every shift on every character, in three surroundings */
    char m[256];
    for (unsigned i = 0; i < 255U; ++i) {
        m[i] = (char)(i + 1U);
    }
    m[255] = '\0';
    caesar_check(m, 255, (unsigned)idx);
    for (unsigned i = 1; i < 256U; ++i) {
        char one[2] = {(char)i, '\0'};
        caesar_check(one, 1, (unsigned)idx);
        mon_reset();
    }
    caesar_check("", 0, (unsigned)idx);
    mon_sig(idx);
    mon_sample("shift %u, all 255 characters", (unsigned)idx);
}

static void
e03_random(uint64_t idx) {
    (void)idx;
    size_t n = mon_len(mon_chance(1, 20) ? 70000U : 2000U);
    char* m = malloc(n + 1U);
    mon_fill_any(m, n);
    for (size_t i = 0; i < n; ++i) {
        if (m[i] == '\0') {
            m[i] = (char)mon_range(1, 255);
        } else if (mon_chance(1, 3)) {
            m[i] = (char)(((mon_rnd() & 1U) ? 'a' : 'A') + mon_below(26));
        }
    }
    m[n] = '\0';
    unsigned s = (unsigned)mon_below(256);
    caesar_check(m, n, s);
    if (n > 0) {
        mon_sig(mon_hash(m, n, s));
    }
    mon_sample("shift %u length %zu", s, n);
    free(m);
}

/* ------------------------------------------------------------------ Vernam */
static int
alpha_pos(char c) {
    for (int i = 0; i < 26; ++i) {
        if ((c == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[i]) || (c == "abcdefghijklmnopqrstuvwxyz"[i])) {
            return i;
        }
    }
    return -1;
}

static bool
is_up(char c) {
    return (alpha_pos(c) >= 0) && (((unsigned char)c & 0x20U) == 0U);
}

static void
vernam_check(const char* msg, const char* key, size_t n) {
    char* m = mon_copy(msg, n + 1U, PL_RIGHT, 1);
    char* k = mon_copy(key, n, PL_RIGHT, 1);
    mon_seal(k);
    bool r = VernamCipher_encrypt(m, k, (int32_t)n);
    MON_REQUIRE(r, "vernam-encrypt-refused", "encrypt of %zu characters with a key of equal length refused", n);
    for (size_t i = 0; i < n; ++i) {
        int a = alpha_pos(msg[i]);
        int b = alpha_pos(key[i]);
        if (a < 0) {
            MON_REQUIRE(m[i] == msg[i], "vernam-nonletter", "message character 0x%02x (key 0x%02x) became 0x%02x", (uint8_t)msg[i], (uint8_t)key[i], (uint8_t)m[i]);
        } else {
            MON_REQUIRE((alpha_pos(m[i]) >= 0) && (is_up(m[i]) == is_up(msg[i])), "vernam-case", "message letter '%c' with key 0x%02x became 0x%02x", msg[i], (uint8_t)key[i],
                        (uint8_t)m[i]);
            if (b >= 0) {
                MON_REQUIRE(alpha_pos(m[i]) == (a + b) % 26, "vernam-sum", "message letter '%c' with key letter '%c' became '%c'", msg[i], key[i], m[i]);
            }
        }
    }
    MON_REQUIRE(m[n] == '\0', "vernam-terminator", "terminator of %zu characters overwritten", n);
    r = VernamCipher_decrypt(m, k, (int32_t)n);
    MON_REQUIRE(r, "vernam-decrypt-refused", "decrypt of %zu characters with a key of equal length refused", n);
    if (memcmp(m, msg, n + 1U) != 0) {
        size_t d = mon_diff(m, msg, n + 1U);
        mon_fail("vernam-roundtrip", "message character 0x%02x with key 0x%02x at %zu of %zu came back as 0x%02x", (uint8_t)msg[d], (uint8_t)key[d], d, n, (uint8_t)m[d]);
    }
    mon_check_guards();
    mon_event("messages", 1);
    mon_event("characters", n);
}

static void
e04_pairs(uint64_t idx) {
    /* message character idx+1 against every key byte */
    char mc = (char)(idx + 1U);
    char msg[257], key[256];
    for (unsigned k = 0; k < 256U; ++k) {
        msg[k] = mc;
        key[k] = (char)k;
    }
    msg[256] = '\0';
    vernam_check(msg, key, 256);
    for (unsigned k = 0; k < 256U; ++k) {
        msg[1] = '\0';
        vernam_check(msg, &key[k], 1);
        mon_reset();
    }
    mon_sig(idx);
    mon_sample("message character 0x%02x with all 256 key bytes", (uint8_t)mc);
}

static void
e04_random(uint64_t idx) {
    (void)idx;
    size_t n = mon_len(mon_chance(1, 20) ? 70000U : 2000U);
    char* m = malloc(n + 1U);
    char* k = malloc(n + 1U);
    mon_fill_any(m, n);
    mon_fill_any(k, n);
    unsigned mode = (unsigned)mon_below(3);
    for (size_t i = 0; i < n; ++i) {
        if ((m[i] == '\0') || mon_chance(1, 2)) {
            m[i] = (char)(((mon_rnd() & 1U) ? 'a' : 'A') + mon_below(26));
        }
        if (mode > 0) {
            k[i] = (char)(((mode == 1) ? 'a' : 'A') + mon_below(26));
        }
    }
    m[n] = '\0';
    vernam_check(m, k, n);
    if (n > 0) {
        mon_sig(mon_hash(m, n, mon_hash(k, n, 1)));
    }
    mon_sample("length %zu, key %s", n, mode ? "letters" : "arbitrary bytes");
    free(m);
    free(k);
}

static void
e04_mismatch(uint64_t idx) {
    size_t n = (idx < 64) ? (size_t)idx / 4U : mon_len(2000);
    char* m = mon_alloc(n + 1U, PL_RIGHT, 1);
    mon_fill(m, n, FILL_ASCII);
    m[n] = '\0';
    char* keep = malloc(n + 1U);
    memcpy(keep, m, n + 1U);
    int32_t kl;
    switch (mon_below(8)) {
        case 0:
            kl = -1;
            break;
        case 1:
            kl = INT32_MIN;
            break;
        case 2:
            kl = -(int32_t)n - 1;
            break;
        case 3:
            kl = (int32_t)n + 1;
            break;
        case 4:
            kl = (n > 0) ? (int32_t)n - 1 : 1;
            break;
        case 5:
            kl = 0;
            break;
        default:
            kl = (int32_t)mon_below(3000);
            break;
    }
    if (kl == (int32_t)n) {
        kl = (int32_t)n + 7;
    }
    size_t ksz = (kl > 0) ? (size_t)kl : 0;
    char* k = mon_alloc(ksz, PL_RIGHT, 1);
    mon_fill(k, ksz, FILL_ASCII);
    mon_seal(k);
    bool r = VernamCipher_encrypt(m, k, kl);
    MON_REQUIRE(!r, "vernam-mismatch-encrypt", "encrypt of %zu characters with key length %d accepted", n, kl);
    MON_REQUIRE(memcmp(m, keep, n + 1U) == 0, "vernam-mismatch-changed", "refused encrypt of %zu characters (key length %d) changed the message", n, kl);
    r = VernamCipher_decrypt(m, k, kl);
    MON_REQUIRE(!r, "vernam-mismatch-decrypt", "decrypt of %zu characters with key length %d accepted", n, kl);
    MON_REQUIRE(memcmp(m, keep, n + 1U) == 0, "vernam-mismatch-changed", "refused decrypt of %zu characters (key length %d) changed the message", n, kl);
    mon_event("mismatches", 1);
    mon_sig(mon_hash_u64(n, (uint64_t)(int64_t)kl));
    mon_sample("message length %zu, key length %d", n, kl);
    free(keep);
}

const mon_group mon_groups_cipher[] = {
    {"E01", "e01_lengths", 2600, 9000, e01_lengths, MON_EXH},
    {"E01", "e01_long", 10, 80, e01_long, MON_NATIVE_ONLY},
    {"E01", "e01_random", 20000, 600000, e01_random, 0},
    {"E02", "e02_lengths", 1300, 4500, e02_lengths, MON_EXH},
    {"E02", "e02_long", 8, 80, e02_long, MON_NATIVE_ONLY},
    {"E02", "e02_random", 12000, 300000, e02_random, 0},
    {"E03", "e03_all", 256, 256, e03_all, MON_EXH},
    {"E03", "e03_random", 12000, 300000, e03_random, 0},
    {"E04", "e04_pairs", 255, 255, e04_pairs, MON_EXH},
    {"E04", "e04_mismatch", 4000, 40000, e04_mismatch, 0},
    {"E04", "e04_random", 8000, 200000, e04_random, 0},
    MON_END
};
