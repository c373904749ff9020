#ifndef GUEST_ENDIAN_H_
#define GUEST_ENDIAN_H_
#include <stdint.h>
#define LITTLE_ENDIAN __ORDER_LITTLE_ENDIAN__
#define BIG_ENDIAN __ORDER_BIG_ENDIAN__
#define BYTE_ORDER __BYTE_ORDER__
#define __LITTLE_ENDIAN __ORDER_LITTLE_ENDIAN__
#define __BIG_ENDIAN __ORDER_BIG_ENDIAN__
#define __BYTE_ORDER __BYTE_ORDER__
#if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
#define htobe16(x) ((uint16_t)(x))
#define htobe32(x) ((uint32_t)(x))
#define htole16(x) __builtin_bswap16(x)
#define htole32(x) __builtin_bswap32(x)
#else
#define htobe16(x) __builtin_bswap16(x)
#define htobe32(x) __builtin_bswap32(x)
#define htole16(x) ((uint16_t)(x))
#define htole32(x) ((uint32_t)(x))
#endif
#define be16toh(x) htobe16(x)
#define be32toh(x) htobe32(x)
#define le16toh(x) htole16(x)
#define le32toh(x) htole32(x)
#endif
