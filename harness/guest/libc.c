/* The few library functions the programs for other machines need; plain C, compiled without builtins. */
#include <ctype.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

int errno;

void*
memcpy(void* restrict d, const void* restrict s, size_t n) {
    uint8_t* a = d;
    const uint8_t* b = s;
    while (n-- > 0) {
        *a++ = *b++;
    }
    return d;
}

void*
mempcpy(void* restrict d, const void* restrict s, size_t n) {
    return (uint8_t*)memcpy(d, s, n) + n;
}

void*
memmove(void* d, const void* s, size_t n) {
    uint8_t* a = d;
    const uint8_t* b = s;
    if ((uintptr_t)a <= (uintptr_t)b) {
        for (size_t i = 0; i < n; ++i) {
            a[i] = b[i];
        }
    } else {
        while (n-- > 0) {
            a[n] = b[n];
        }
    }
    return d;
}

void*
memset(void* d, int c, size_t n) {
    uint8_t* a = d;
    while (n-- > 0) {
        *a++ = (uint8_t)c;
    }
    return d;
}

int
memcmp(const void* a, const void* b, size_t n) {
    const uint8_t* x = a;
    const uint8_t* y = b;
    for (size_t i = 0; i < n; ++i) {
        if (x[i] != y[i]) {
            return (x[i] < y[i]) ? -1 : 1;
        }
    }
    return 0;
}

int
bcmp(const void* a, const void* b, size_t n) {
    return memcmp(a, b, n);
}

void*
memchr(const void* p, int c, size_t n) {
    const uint8_t* b = p;
    for (size_t i = 0; i < n; ++i) {
        if (b[i] == (uint8_t)c) {
            return (void*)&b[i];
        }
    }
    return NULL;
}

void*
memrchr(const void* p, int c, size_t n) {
    const uint8_t* b = p;
    while (n-- > 0) {
        if (b[n] == (uint8_t)c) {
            return (void*)&b[n];
        }
    }
    return NULL;
}

size_t
strlen(const char* s) {
    size_t n = 0;
    while (s[n] != '\0') {
        ++n;
    }
    return n;
}

size_t
strnlen(const char* s, size_t m) {
    size_t n = 0;
    while ((n < m) && (s[n] != '\0')) {
        ++n;
    }
    return n;
}

char*
stpcpy(char* restrict d, const char* restrict s) {
    while ((*d = *s) != '\0') {
        ++d;
        ++s;
    }
    return d;
}

char*
strcpy(char* restrict d, const char* restrict s) {
    (void)stpcpy(d, s);
    return d;
}

char*
strncpy(char* restrict d, const char* restrict s, size_t n) {
    size_t i = 0;
    for (; (i < n) && (s[i] != '\0'); ++i) {
        d[i] = s[i];
    }
    for (; i < n; ++i) {
        d[i] = '\0';
    }
    return d;
}

char*
strcat(char* restrict d, const char* restrict s) {
    (void)stpcpy(d + strlen(d), s);
    return d;
}

char*
strncat(char* restrict d, const char* restrict s, size_t n) {
    char* e = d + strlen(d);
    size_t m = strnlen(s, n);
    memcpy(e, s, m);
    e[m] = '\0';
    return d;
}

int
strncmp(const char* a, const char* b, size_t n) {
    for (size_t i = 0; i < n; ++i) {
        if ((a[i] != b[i]) || (a[i] == '\0')) {
            return (int)(uint8_t)a[i] - (int)(uint8_t)b[i];
        }
    }
    return 0;
}

int
strcmp(const char* a, const char* b) {
    return strncmp(a, b, SIZE_MAX);
}

char*
strchr(const char* s, int c) {
    for (;; ++s) {
        if (*s == (char)c) {
            return (char*)s;
        }
        if (*s == '\0') {
            return NULL;
        }
    }
}

char*
strrchr(const char* s, int c) {
    return memrchr(s, c, strlen(s) + 1U);
}

char*
strstr(const char* s, const char* t) {
    size_t n = strlen(t);
    for (;; ++s) {
        if (strncmp(s, t, n) == 0) {
            return (char*)s;
        }
        if (*s == '\0') {
            return NULL;
        }
    }
}

size_t
strspn(const char* s, const char* t) {
    size_t n = 0;
    while ((s[n] != '\0') && (strchr(t, s[n]) != NULL)) {
        ++n;
    }
    return n;
}

size_t
strcspn(const char* s, const char* t) {
    size_t n = 0;
    while ((s[n] != '\0') && (strchr(t, s[n]) == NULL)) {
        ++n;
    }
    return n;
}

char*
strpbrk(const char* s, const char* t) {
    s += strcspn(s, t);
    return (*s != '\0') ? (char*)s : NULL;
}

int isdigit(int c) { return (c >= '0') && (c <= '9'); }
int isupper(int c) { return (c >= 'A') && (c <= 'Z'); }
int islower(int c) { return (c >= 'a') && (c <= 'z'); }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return (c == ' ') || ((c >= '\t') && (c <= '\r')); }
int isxdigit(int c) { return isdigit(c) || ((c >= 'a') && (c <= 'f')) || ((c >= 'A') && (c <= 'F')); }
int isprint(int c) { return (c >= 32) && (c <= 126); }
int toupper(int c) { return islower(c) ? (c - 32) : c; }
int tolower(int c) { return isupper(c) ? (c + 32) : c; }

/* memory is given back as a whole at the end of a case (guest.c) */
uint8_t guest_heap[4U << 20] __attribute__((aligned(16)));
size_t guest_heap_used;

void*
malloc(size_t n) {
    size_t at = (guest_heap_used + 15U) & ~(size_t)15U;
    if (n > sizeof(guest_heap) - at) {
        return NULL;
    }
    guest_heap_used = at + n;
    return &guest_heap[at];
}

void*
calloc(size_t n, size_t m) {
    void* p = malloc(n * m);
    return (p != NULL) ? memset(p, 0, n * m) : NULL;
}

void
free(void* p) {
    (void)p;
}

void
abort(void) {
    __builtin_trap();
}

int abs(int v) { return (v < 0) ? -v : v; }
long labs(long v) { return (v < 0) ? -v : v; }

unsigned long
strtoul(const char* s, char** end, int base) {
    const char* p = s;
    unsigned long v = 0;
    int neg = 0;
    while (isspace((unsigned char)*p)) {
        ++p;
    }
    if ((*p == '-') || (*p == '+')) {
        neg = (*p == '-');
        ++p;
    }
    const char* first = p;
    for (;; ++p) {
        int d = isdigit((unsigned char)*p) ? (*p - '0') : isalpha((unsigned char)*p) ? (tolower((unsigned char)*p) - 'a' + 10) : 99;
        if (d >= ((base == 0) ? 10 : base)) {
            break;
        }
        unsigned long w = v * (unsigned long)((base == 0) ? 10 : base) + (unsigned long)d;
        v = (w < v) ? (unsigned long)-1 : w;
    }
    if (end != NULL) {
        *end = (char*)((p == first) ? s : p);
    }
    return neg ? -v : v;
}

long
strtol(const char* s, char** end, int base) {
    return (long)strtoul(s, end, base);
}

int
atoi(const char* s) {
    return (int)strtol(s, NULL, 10);
}

static uint32_t
div10(uint32_t* v) {
    uint32_t r = *v % 10U;
    *v /= 10U;
    return r;
}

/* %s %c %d %i %u %x %% with l and z ignored on the way: numbers up to 32 bits */
int
vsnprintf(char* p, size_t n, const char* fmt, va_list ap) {
    size_t at = 0;
#define PUT(c) do { if (at + 1U < n) { p[at] = (c); } ++at; } while (0)
    for (; *fmt != '\0'; ++fmt) {
        if (*fmt != '%') {
            PUT(*fmt);
            continue;
        }
        ++fmt;
        while ((*fmt == 'l') || (*fmt == 'z') || (*fmt == 'h')) {
            ++fmt;
        }
        char t[12];
        int k = 0;
        if (*fmt == 's') {
            for (const char* s = va_arg(ap, const char*); *s != '\0'; ++s) {
                PUT(*s);
            }
        } else if (*fmt == 'c') {
            PUT((char)va_arg(ap, int));
        } else if ((*fmt == 'd') || (*fmt == 'i') || (*fmt == 'u') || (*fmt == 'x')) {
            unsigned v = va_arg(ap, unsigned);
            if ((*fmt != 'u') && (*fmt != 'x') && ((int)v < 0)) {
                PUT('-');
                v = 0U - v;
            }
            do {
                if (*fmt == 'x') {
                    t[k++] = "0123456789abcdef"[v & 15U];
                    v >>= 4;
                } else {
                    t[k++] = (char)('0' + div10(&v));
                }
            } while (v != 0U);
            while (k-- > 0) {
                PUT(t[k]);
            }
        } else {
            PUT(*fmt);
        }
    }
    if (n > 0) {
        p[(at < n) ? at : (n - 1U)] = '\0';
    }
#undef PUT
    return (int)at;
}

int
snprintf(char* p, size_t n, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int r = vsnprintf(p, n, fmt, ap);
    va_end(ap);
    return r;
}

int
sprintf(char* p, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int r = vsnprintf(p, (size_t)1 << 20, fmt, ap);
    va_end(ap);
    return r;
}

/* what compilers call for 64-bit arithmetic on 32-bit machines */
#if __SIZEOF_POINTER__ == 4
static uint64_t
div_mod(uint64_t a, uint64_t b, uint64_t* rem) {
    uint64_t q = 0;
    uint64_t r = 0;
    for (int i = 63; i >= 0; --i) {
        uint32_t top = (uint32_t)(r >> 32) >> 31;
        r = (r << 1) | ((a >> i) & 1U);
        if ((top != 0U) || (r >= b)) {
            r -= b;
            q |= (uint64_t)1 << i;
        }
    }
    *rem = r;
    return q;
}

typedef union {
    uint64_t v;
#if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
    struct { uint32_t h, l; } w;
#else
    struct { uint32_t l, h; } w;
#endif
} two;

uint64_t
__ashldi3(uint64_t a, int n) {
    two x, r;
    x.v = a;
    if (n >= 32) {
        r.w.h = x.w.l << (n - 32);
        r.w.l = 0;
    } else if (n == 0) {
        return a;
    } else {
        r.w.h = (x.w.h << n) | (x.w.l >> (32 - n));
        r.w.l = x.w.l << n;
    }
    return r.v;
}

uint64_t
__lshrdi3(uint64_t a, int n) {
    two x, r;
    x.v = a;
    if (n >= 32) {
        r.w.l = x.w.h >> (n - 32);
        r.w.h = 0;
    } else if (n == 0) {
        return a;
    } else {
        r.w.l = (x.w.l >> n) | (x.w.h << (32 - n));
        r.w.h = x.w.h >> n;
    }
    return r.v;
}

int64_t
__ashrdi3(int64_t a, int n) {
    two x, r;
    x.v = (uint64_t)a;
    if (n >= 32) {
        r.w.l = (uint32_t)((int32_t)x.w.h >> (n - 32));
        r.w.h = (uint32_t)((int32_t)x.w.h >> 31);
    } else if (n == 0) {
        return a;
    } else {
        r.w.l = (x.w.l >> n) | (x.w.h << (32 - n));
        r.w.h = (uint32_t)((int32_t)x.w.h >> n);
    }
    return (int64_t)r.v;
}

uint64_t
__udivdi3(uint64_t a, uint64_t b) {
    uint64_t r;
    return div_mod(a, b, &r);
}

uint64_t
__umoddi3(uint64_t a, uint64_t b) {
    uint64_t r;
    (void)div_mod(a, b, &r);
    return r;
}

uint64_t
__udivmoddi4(uint64_t a, uint64_t b, uint64_t* rem) {
    uint64_t r;
    uint64_t q = div_mod(a, b, &r);
    if (rem != NULL) {
        *rem = r;
    }
    return q;
}

int64_t
__divdi3(int64_t a, int64_t b) {
    uint64_t r;
    uint64_t q = div_mod((a < 0) ? 0U - (uint64_t)a : (uint64_t)a, (b < 0) ? 0U - (uint64_t)b : (uint64_t)b, &r);
    return (int64_t)(((a < 0) != (b < 0)) ? 0U - q : q);
}

int64_t
__moddi3(int64_t a, int64_t b) {
    uint64_t r;
    (void)div_mod((a < 0) ? 0U - (uint64_t)a : (uint64_t)a, (b < 0) ? 0U - (uint64_t)b : (uint64_t)b, &r);
    return (int64_t)((a < 0) ? 0U - r : r);
}
#endif
