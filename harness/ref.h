/* Reference oracles, written from the published definitions (RFC 4648, RFC 8439, the Rocksoft CRC model). */
#ifndef REF_H_
#define REF_H_

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

size_t ref_b64_len(size_t n);                                  /* padded text length without NUL */
void ref_b64_encode(const uint8_t* in, size_t n, char* out);   /* writes ref_b64_len(n) + 1 bytes */

typedef struct {
    unsigned width;
    uint32_t poly;
    uint32_t init;
    bool refin;
    bool refout;
    uint32_t xorout;
} ref_crc_model;
/* register (unreflected) after feeding n bytes, starting from reg */
uint32_t ref_crc_feed(const ref_crc_model* m, uint32_t reg, const uint8_t* p, size_t n);
uint32_t ref_crc_finish(const ref_crc_model* m, uint32_t reg);
uint32_t ref_crc(const ref_crc_model* m, const uint8_t* p, size_t n);
uint32_t ref_reflect(uint32_t v, unsigned bits);

void ref_chacha_block(const uint8_t key[32], uint32_t counter, const uint8_t nonce[12], uint8_t out[64]);
void ref_chacha(const uint8_t key[32], uint32_t counter, const uint8_t nonce[12], const uint8_t* in, size_t n, uint8_t* out);
/* n bytes of key stream at byte offset off */
void ref_chacha_xor_at(const uint8_t key[32], uint32_t counter, const uint8_t nonce[12], uint64_t off, const uint8_t* in, size_t n, uint8_t* out);

char ref_caesar(char c, unsigned shift);

#endif
