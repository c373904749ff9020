#include <endian.h>
#define htons(x) htobe16(x)
#define htonl(x) htobe32(x)
#define ntohs(x) htobe16(x)
#define ntohl(x) htobe32(x)
