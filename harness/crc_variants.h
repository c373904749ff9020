#ifndef CRC_VARIANTS_H_
#define CRC_VARIANTS_H_
#include <stdbool.h>
#include <stdint.h>

#include "ref.h"

typedef struct {
    const char* name;
    bool has_final;
    uint32_t (*fn)(const uint8_t* p, uint32_t n, bool fin, const void* last);
    ref_crc_model model;
    uint32_t check;     /* published CRC of "123456789" */
} crc_variant;
extern const crc_variant crc_variants[];
extern const unsigned n_crc_variants;
#endif
