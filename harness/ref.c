#include "ref.h"

#include <string.h>

size_t
ref_b64_len(size_t n) {
    return (n / 3U + ((n % 3U) ? 1U : 0U)) * 4U;
}

void
ref_b64_encode(const uint8_t* in, size_t n, char* out) {
    static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    size_t bits = n * 8U;
    size_t o = 0;
    for (size_t bit = 0; bit < bits; bit += 6U) {
        unsigned v = 0;
        for (unsigned k = 0; k < 6U; ++k) {
            size_t pos = bit + k;
            unsigned x = (pos < bits) ? ((unsigned)(in[pos / 8U] >> (7U - (pos % 8U))) & 1U) : 0U;
            v = (v << 1) | x;
        }
        out[o++] = al[v];
    }
    while ((o % 4U) != 0U) {
        out[o++] = '=';
    }
    out[o] = '\0';
}

uint32_t
ref_reflect(uint32_t v, unsigned bits) {
    uint32_t r = 0;
    for (unsigned i = 0; i < bits; ++i) {
        if (((v >> i) & 1U) != 0U) {
            r |= 1U << (bits - 1U - i);
        }
    }
    return r;
}

uint32_t
ref_crc_feed(const ref_crc_model* m, uint32_t reg, const uint8_t* p, size_t n) {
    const uint32_t top = 1U << (m->width - 1U);
    const uint32_t mask = (top - 1U) | top;
    for (size_t i = 0; i < n; ++i) {
        for (unsigned k = 0; k < 8U; ++k) {
            unsigned bit = m->refin ? ((p[i] >> k) & 1U) : ((p[i] >> (7U - k)) & 1U);
            unsigned fb = (((reg & top) != 0U) ? 1U : 0U) ^ bit;
            reg = (reg << 1) & mask;
            if (fb != 0U) {
                reg ^= m->poly;
            }
        }
    }
    return reg & mask;
}

uint32_t
ref_crc_finish(const ref_crc_model* m, uint32_t reg) {
    return (m->refout ? ref_reflect(reg, m->width) : reg) ^ m->xorout;
}

uint32_t
ref_crc(const ref_crc_model* m, const uint8_t* p, size_t n) {
    return ref_crc_finish(m, ref_crc_feed(m, m->init, p, n));
}

static uint32_t
rl(uint32_t v, unsigned n) {
    return (v << n) | (v >> (32U - n));
}

static uint32_t
le(const uint8_t* p) {
    return (uint32_t)p[0] | ((uint32_t)p[1] << 8) | ((uint32_t)p[2] << 16) | ((uint32_t)p[3] << 24);
}

static void
qr(uint32_t* s, int a, int b, int c, int d) {
    s[a] += s[b];
    s[d] = rl(s[d] ^ s[a], 16);
    s[c] += s[d];
    s[b] = rl(s[b] ^ s[c], 12);
    s[a] += s[b];
    s[d] = rl(s[d] ^ s[a], 8);
    s[c] += s[d];
    s[b] = rl(s[b] ^ s[c], 7);
}

void
ref_chacha_block(const uint8_t key[32], uint32_t counter, const uint8_t nonce[12], uint8_t out[64]) {
    uint32_t s[16], w[16];
    static const char sigma[] = "expand 32-byte k";
    for (int i = 0; i < 4; ++i) {
        s[i] = le((const uint8_t*)&sigma[4 * i]);
    }
    for (int i = 0; i < 8; ++i) {
        s[4 + i] = le(&key[4 * i]);
    }
    s[12] = counter;
    for (int i = 0; i < 3; ++i) {
        s[13 + i] = le(&nonce[4 * i]);
    }
    memcpy(w, s, sizeof(w));
    for (int r = 0; r < 20; r += 2) {
        for (int i = 0; i < 4; ++i) {
            qr(w, i, 4 + i, 8 + i, 12 + i);
        }
        for (int i = 0; i < 4; ++i) {
            qr(w, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
        }
    }
    for (int i = 0; i < 16; ++i) {
        uint32_t v = w[i] + s[i];
        for (int k = 0; k < 4; ++k) {
            out[4 * i + k] = (uint8_t)(v >> (8 * k));
        }
    }
}

void
ref_chacha_xor_at(const uint8_t key[32], uint32_t counter, const uint8_t nonce[12], uint64_t off, const uint8_t* in, size_t n, uint8_t* out) {
    uint8_t ks[64];
    uint64_t cur = UINT64_MAX;
    for (size_t i = 0; i < n; ++i) {
        uint64_t blk = (off + i) / 64U;
        if (blk != cur) {
            ref_chacha_block(key, counter + (uint32_t)blk, nonce, ks);
            cur = blk;
        }
        out[i] = in[i] ^ ks[(off + i) % 64U];
    }
}

void
ref_chacha(const uint8_t key[32], uint32_t counter, const uint8_t nonce[12], const uint8_t* in, size_t n, uint8_t* out) {
    ref_chacha_xor_at(key, counter, nonce, 0, in, n, out);
}

char
ref_caesar(char c, unsigned shift) {
    static const char up[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ";
    static const char lo[] = "abcdefghijklmnopqrstuvwxyz";
    for (unsigned i = 0; i < 26; ++i) {
        if (c == up[i]) {
            return up[(i + shift) % 26U];
        }
        if (c == lo[i]) {
            return lo[(i + shift) % 26U];
        }
    }
    return c;
}
