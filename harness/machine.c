/* Other machines: 32-bit x86 programs run as child processes; big-endian MIPS programs (32 and 64 bits) run in an
 * interpreter that traps what such machines trap: misaligned and wild accesses, stores to constants, invalid instructions. */
#define _GNU_SOURCE
#include "machine.h"

#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "mon.h"
#include "rng.h"

#define MAX_MACHINES 8U
#define GUEST_MEM (16UL << 20)
#define PAGE 4096UL
#define RETURN_TO 0xFFFFF0UL        /* where guest_serve returns to: the end of the memory, never mapped */
#define INSN_LIMIT 400000000UL
#define CPU_LIMIT 20.0

typedef struct {
    const char* name;
    const char* path;
    bool started;
    bool absent;        /* does not run here at all */
    bool mips;
    bool wide;
    /* child */
    pid_t pid;
    int to;
    int from;
    /* interpreter */
    uint8_t* mem;
    uint8_t* perm;      /* per page: 1 readable, 2 writable */
    uint64_t serve;
    uint64_t in;
    uint64_t out;
    uint64_t gp;
    uint8_t answer[MACHINE_OUT];
} machine;

static machine machines[MAX_MACHINES];
static unsigned n_machines;
static char why[256];
static uint64_t executed;

void
machine_add(const char* arg) {
    const char* c = strchr(arg, ':');
    if ((c == NULL) || (n_machines == MAX_MACHINES)) {
        mon_harness_error("machine %s", arg);
    }
    machines[n_machines].name = strndup(arg, (size_t)(c - arg));
    machines[n_machines].path = c + 1;
    ++n_machines;
}

unsigned
machine_count(void) {
    return n_machines;
}

const char*
machine_name(unsigned m) {
    return machines[m].name;
}

uint64_t
machine_instructions(void) {
    return executed;
}

static void
put32(uint8_t* p, uint32_t v) {
    memcpy(p, &v, 4);
}

static void
put64(uint8_t* p, uint64_t v) {
    memcpy(p, &v, 8);
}

/* ------------------------------------------------------------------ interpreter */
static const char*
trap(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(why, sizeof(why), fmt, ap);
    va_end(ap);
    return why;
}

#define SX(v) ((uint64_t)(int64_t)(int32_t)(uint32_t)(v))

static uint64_t
load(const uint8_t* p, unsigned n) {
    uint64_t v = 0;
    switch (n) {
        case 1:
            return *p;
        case 2: {
            uint16_t x;
            memcpy(&x, p, 2);
            return __builtin_bswap16(x);
        }
        case 4: {
            uint32_t x;
            memcpy(&x, p, 4);
            return __builtin_bswap32(x);
        }
        default:
            memcpy(&v, p, 8);
            return __builtin_bswap64(v);
    }
}

static void
store(uint8_t* p, unsigned n, uint64_t v) {
    for (unsigned i = 0; i < n; ++i) {
        p[i] = (uint8_t)(v >> (8U * (n - 1U - i)));
    }
}

static const char*
mips_run(machine* g) {
    uint64_t r[33];             /* r[32] takes what is written to r[0] */
    uint64_t hi = 0;
    uint64_t lo = 0;
    uint64_t pc = g->serve;
    uint64_t next = pc + 4U;
    uint64_t left = INSN_LIMIT;
    uint8_t* const mem = g->mem;
    const uint64_t mask = g->wide ? UINT64_MAX : 0xFFFFFFFFU;
    memset(r, 0, sizeof(r));
    r[29] = (RETURN_TO & ~0xFFFFUL) - 256U;
    r[25] = pc;
    r[28] = g->gp;
    r[31] = RETURN_TO;
#define BAD(a, n, w) (((a) >= GUEST_MEM) || (((a) & ((n) - 1U)) != 0U) || (g->perm[(a) / PAGE] < (w)))
#define ACCESS(a, n, w) do { if (BAD(a, n, w)) { executed += INSN_LIMIT - left; \
        return trap("%s of %u bytes at 0x%llx (%s), instruction 0x%08x at 0x%llx", ((w) == 2) ? "store" : "load", (unsigned)(n), (unsigned long long)(a), \
            (((a) & ((n) - 1U)) != 0U) ? "misaligned" : (((a) >= GUEST_MEM) || (g->perm[(a) / PAGE] == 0U)) ? "no such address" : "read-only", op, (unsigned long long)at); } } while (0)
#define STOP(...) do { executed += INSN_LIMIT - left; return trap(__VA_ARGS__); } while (0)
#define W(i, v) do { r[((i) == 0U) ? 32U : (i)] = (v); } while (0)
#define NEED_WIDE() do { if (!g->wide) { goto invalid; } } while (0)
#define BRANCH(c, likely) do { if (c) { next = at + 4U + ((uint64_t)(int64_t)(int16_t)op << 2); } else if (likely) { pc = next; next = pc + 4U; } } while (0)
    for (;;) {
        uint64_t at = pc;
        if (at == RETURN_TO) {
            break;
        }
        if ((at >= GUEST_MEM) || ((at & 3U) != 0U) || (g->perm[at / PAGE] == 0U)) {
            STOP("jump to 0x%llx", (unsigned long long)at);
        }
        if (--left == 0U) {
            STOP("no end after %lu instructions", INSN_LIMIT);
        }
        uint32_t op = (uint32_t)load(&mem[at], 4);
        pc = next;
        next = pc + 4U;
        unsigned rs = (op >> 21) & 31U;
        unsigned rt = (op >> 16) & 31U;
        unsigned rd = (op >> 11) & 31U;
        unsigned sa = (op >> 6) & 31U;
        uint64_t imm = (uint64_t)(int64_t)(int16_t)op;
        uint64_t s = r[rs];
        uint64_t t = r[rt];
        uint64_t a = (s + imm) & mask;
        switch (op >> 26) {
            case 0:
                switch (op & 63U) {
                    case 0: W(rd, SX((uint32_t)t << sa)); break;
                    case 2: W(rd, SX((uint32_t)t >> sa)); break;
                    case 3: W(rd, SX((int32_t)(uint32_t)t >> sa)); break;
                    case 4: W(rd, SX((uint32_t)t << (s & 31U))); break;
                    case 6: W(rd, SX((uint32_t)t >> (s & 31U))); break;
                    case 7: W(rd, SX((int32_t)(uint32_t)t >> (s & 31U))); break;
                    case 8: next = s & mask; break;
                    case 9: W(rd, at + 8U); next = s & mask; break;
                    case 10: if (t == 0U) { W(rd, s); } break;
                    case 11: if (t != 0U) { W(rd, s); } break;
                    case 13: STOP("break at 0x%llx", (unsigned long long)at);
                    case 15: break;
                    case 16: W(rd, hi); break;
                    case 17: hi = s; break;
                    case 18: W(rd, lo); break;
                    case 19: lo = s; break;
                    case 20: NEED_WIDE(); W(rd, t << (s & 63U)); break;
                    case 22: NEED_WIDE(); W(rd, t >> (s & 63U)); break;
                    case 23: NEED_WIDE(); W(rd, (uint64_t)((int64_t)t >> (s & 63U))); break;
                    case 24: { int64_t p = (int64_t)(int32_t)(uint32_t)s * (int32_t)(uint32_t)t; lo = SX(p); hi = SX((uint64_t)p >> 32); break; }
                    case 25: { uint64_t p = (uint64_t)(uint32_t)s * (uint32_t)t; lo = SX(p); hi = SX(p >> 32); break; }
                    case 26:
                        if ((uint32_t)t != 0U) {
                            int64_t x = (int32_t)(uint32_t)s;
                            int64_t y = (int32_t)(uint32_t)t;
                            lo = SX(x / y);
                            hi = SX(x % y);
                        }
                        break;
                    case 27:
                        if ((uint32_t)t != 0U) {
                            lo = SX((uint32_t)s / (uint32_t)t);
                            hi = SX((uint32_t)s % (uint32_t)t);
                        }
                        break;
                    case 28: { NEED_WIDE(); __int128 p = (__int128)(int64_t)s * (int64_t)t; lo = (uint64_t)p; hi = (uint64_t)(p >> 64); break; }
                    case 29: { NEED_WIDE(); unsigned __int128 p = (unsigned __int128)s * t; lo = (uint64_t)p; hi = (uint64_t)(p >> 64); break; }
                    case 30:
                        NEED_WIDE();
                        if (t == UINT64_MAX) {
                            lo = 0U - s;
                            hi = 0;
                        } else if (t != 0U) {
                            lo = (uint64_t)((int64_t)s / (int64_t)t);
                            hi = (uint64_t)((int64_t)s % (int64_t)t);
                        }
                        break;
                    case 31:
                        NEED_WIDE();
                        if (t != 0U) {
                            lo = s / t;
                            hi = s % t;
                        }
                        break;
                    case 32: case 33: {
                        int32_t v;
                        bool o = __builtin_add_overflow((int32_t)(uint32_t)s, (int32_t)(uint32_t)t, &v);
                        if (o && ((op & 63U) == 32U)) { STOP("integer overflow at 0x%llx", (unsigned long long)at); }
                        W(rd, SX(v));
                        break;
                    }
                    case 34: case 35: {
                        int32_t v;
                        bool o = __builtin_sub_overflow((int32_t)(uint32_t)s, (int32_t)(uint32_t)t, &v);
                        if (o && ((op & 63U) == 34U)) { STOP("integer overflow at 0x%llx", (unsigned long long)at); }
                        W(rd, SX(v));
                        break;
                    }
                    case 36: W(rd, s & t); break;
                    case 37: W(rd, s | t); break;
                    case 38: W(rd, s ^ t); break;
                    case 39: W(rd, ~(s | t)); break;
                    case 42: W(rd, ((int64_t)s < (int64_t)t) ? 1U : 0U); break;
                    case 43: W(rd, (s < t) ? 1U : 0U); break;
                    case 44: case 45: NEED_WIDE(); W(rd, s + t); break;
                    case 46: case 47: NEED_WIDE(); W(rd, s - t); break;
                    case 48: if ((int64_t)s >= (int64_t)t) { STOP("trap at 0x%llx", (unsigned long long)at); } break;
                    case 49: if (s >= t) { STOP("trap at 0x%llx", (unsigned long long)at); } break;
                    case 50: if ((int64_t)s < (int64_t)t) { STOP("trap at 0x%llx", (unsigned long long)at); } break;
                    case 51: if (s < t) { STOP("trap at 0x%llx", (unsigned long long)at); } break;
                    case 52: if (s == t) { STOP("trap at 0x%llx", (unsigned long long)at); } break;
                    case 54: if (s != t) { STOP("trap at 0x%llx", (unsigned long long)at); } break;
                    case 56: NEED_WIDE(); W(rd, t << sa); break;
                    case 58: NEED_WIDE(); W(rd, t >> sa); break;
                    case 59: NEED_WIDE(); W(rd, (uint64_t)((int64_t)t >> sa)); break;
                    case 60: NEED_WIDE(); W(rd, t << (sa + 32U)); break;
                    case 62: NEED_WIDE(); W(rd, t >> (sa + 32U)); break;
                    case 63: NEED_WIDE(); W(rd, (uint64_t)((int64_t)t >> (sa + 32U))); break;
                    default: goto invalid;
                }
                break;
            case 1:
                switch (rt) {
                    case 0: BRANCH((int64_t)s < 0, false); break;
                    case 1: BRANCH((int64_t)s >= 0, false); break;
                    case 2: BRANCH((int64_t)s < 0, true); break;
                    case 3: BRANCH((int64_t)s >= 0, true); break;
                    case 16: r[31] = at + 8U; BRANCH((int64_t)s < 0, false); break;
                    case 17: r[31] = at + 8U; BRANCH((int64_t)s >= 0, false); break;
                    default: goto invalid;
                }
                break;
            case 3:
                r[31] = at + 8U;
                /* fall through */
            case 2:
                next = ((at + 4U) & ~0xFFFFFFFUL) | ((uint64_t)(op & 0x3FFFFFFU) << 2);
                break;
            case 4: BRANCH(s == t, false); break;
            case 5: BRANCH(s != t, false); break;
            case 6: BRANCH((int64_t)s <= 0, false); break;
            case 7: BRANCH((int64_t)s > 0, false); break;
            case 8: case 9: {
                int32_t v;
                bool o = __builtin_add_overflow((int32_t)(uint32_t)s, (int32_t)imm, &v);
                if (o && ((op >> 26) == 8U)) { STOP("integer overflow at 0x%llx", (unsigned long long)at); }
                W(rt, SX(v));
                break;
            }
            case 10: W(rt, ((int64_t)s < (int64_t)imm) ? 1U : 0U); break;
            case 11: W(rt, (s < imm) ? 1U : 0U); break;
            case 12: W(rt, s & (op & 0xFFFFU)); break;
            case 13: W(rt, s | (op & 0xFFFFU)); break;
            case 14: W(rt, s ^ (op & 0xFFFFU)); break;
            case 15: W(rt, SX(op << 16)); break;
            case 20: BRANCH(s == t, true); break;
            case 21: BRANCH(s != t, true); break;
            case 22: BRANCH((int64_t)s <= 0, true); break;
            case 23: BRANCH((int64_t)s > 0, true); break;
            case 24: case 25: NEED_WIDE(); W(rt, s + imm); break;
            case 26: case 27: { /* ldl, ldr */
                NEED_WIDE();
                uint64_t base = a & ~(uint64_t)7U;
                ACCESS(base, 8U, 1);
                uint64_t v = load(&mem[base], 8);
                unsigned b = (unsigned)(a & 7U) * 8U;
                if ((op >> 26) == 26U) {
                    W(rt, (v << b) | (t & ((b == 0U) ? 0U : (((uint64_t)1 << b) - 1U))));
                } else {
                    W(rt, (v >> (56U - b)) | ((b == 56U) ? 0U : (t & ~(UINT64_MAX >> (56U - b)))));
                }
                break;
            }
            case 28:
                switch (op & 63U) {
                    case 0: { int64_t p = (int64_t)((hi << 32) | (uint32_t)lo) + (int64_t)(int32_t)(uint32_t)s * (int32_t)(uint32_t)t; lo = SX(p); hi = SX((uint64_t)p >> 32); break; }
                    case 1: { uint64_t p = ((hi << 32) | (uint32_t)lo) + (uint64_t)(uint32_t)s * (uint32_t)t; lo = SX(p); hi = SX(p >> 32); break; }
                    case 2: W(rd, SX((uint32_t)s * (uint32_t)t)); break;
                    case 4: { int64_t p = (int64_t)((hi << 32) | (uint32_t)lo) - (int64_t)(int32_t)(uint32_t)s * (int32_t)(uint32_t)t; lo = SX(p); hi = SX((uint64_t)p >> 32); break; }
                    case 5: { uint64_t p = ((hi << 32) | (uint32_t)lo) - (uint64_t)(uint32_t)s * (uint32_t)t; lo = SX(p); hi = SX(p >> 32); break; }
                    case 32: W(rd, ((uint32_t)s == 0U) ? 32U : (uint64_t)__builtin_clz((uint32_t)s)); break;
                    case 33: W(rd, (~(uint32_t)s == 0U) ? 32U : (uint64_t)__builtin_clz(~(uint32_t)s)); break;
                    case 36: NEED_WIDE(); W(rd, (s == 0U) ? 64U : (uint64_t)__builtin_clzll(s)); break;
                    case 37: NEED_WIDE(); W(rd, (~s == 0U) ? 64U : (uint64_t)__builtin_clzll(~s)); break;
                    default: goto invalid;
                }
                break;
            case 32: ACCESS(a, 1U, 1); W(rt, (uint64_t)(int64_t)(int8_t)mem[a]); break;
            case 33: ACCESS(a, 2U, 1); W(rt, (uint64_t)(int64_t)(int16_t)load(&mem[a], 2)); break;
            case 34: case 38: { /* lwl, lwr */
                uint64_t base = a & ~(uint64_t)3U;
                ACCESS(base, 4U, 1);
                uint32_t v = (uint32_t)load(&mem[base], 4);
                unsigned b = (unsigned)(a & 3U) * 8U;
                if ((op >> 26) == 34U) {
                    W(rt, SX((v << b) | ((uint32_t)t & ((b == 0U) ? 0U : (((uint32_t)1 << b) - 1U)))));
                } else {
                    W(rt, SX((v >> (24U - b)) | ((b == 24U) ? 0U : ((uint32_t)t & ~(UINT32_MAX >> (24U - b))))));
                }
                break;
            }
            case 35: case 48: ACCESS(a, 4U, 1); W(rt, SX(load(&mem[a], 4))); break;
            case 36: ACCESS(a, 1U, 1); W(rt, mem[a]); break;
            case 37: ACCESS(a, 2U, 1); W(rt, load(&mem[a], 2)); break;
            case 39: NEED_WIDE(); ACCESS(a, 4U, 1); W(rt, load(&mem[a], 4)); break;
            case 40: ACCESS(a, 1U, 2); mem[a] = (uint8_t)t; break;
            case 41: ACCESS(a, 2U, 2); store(&mem[a], 2, t); break;
            case 43: ACCESS(a, 4U, 2); store(&mem[a], 4, t); break;
            case 42: { /* swl */
                uint64_t base = a & ~(uint64_t)3U;
                ACCESS(base, 4U, 2);
                unsigned b = (unsigned)(a & 3U);
                for (unsigned i = b; i < 4U; ++i) {
                    mem[base + i] = (uint8_t)((uint32_t)t >> (24U - 8U * (i - b)));
                }
                break;
            }
            case 46: { /* swr */
                uint64_t base = a & ~(uint64_t)3U;
                ACCESS(base, 4U, 2);
                unsigned b = (unsigned)(a & 3U);
                for (unsigned i = 0; i <= b; ++i) {
                    mem[base + i] = (uint8_t)((uint32_t)t >> (8U * (b - i)));
                }
                break;
            }
            case 44: { /* sdl */
                NEED_WIDE();
                uint64_t base = a & ~(uint64_t)7U;
                ACCESS(base, 8U, 2);
                unsigned b = (unsigned)(a & 7U);
                for (unsigned i = b; i < 8U; ++i) {
                    mem[base + i] = (uint8_t)(t >> (56U - 8U * (i - b)));
                }
                break;
            }
            case 45: { /* sdr */
                NEED_WIDE();
                uint64_t base = a & ~(uint64_t)7U;
                ACCESS(base, 8U, 2);
                unsigned b = (unsigned)(a & 7U);
                for (unsigned i = 0; i <= b; ++i) {
                    mem[base + i] = (uint8_t)(t >> (8U * (b - i)));
                }
                break;
            }
            case 47: case 51: break;
            case 56: ACCESS(a, 4U, 2); store(&mem[a], 4, t); W(rt, 1U); break;
            case 52: case 55: NEED_WIDE(); ACCESS(a, 8U, 1); W(rt, load(&mem[a], 8)); break;
            case 60: NEED_WIDE(); ACCESS(a, 8U, 2); store(&mem[a], 8, t); W(rt, 1U); break;
            case 63: NEED_WIDE(); ACCESS(a, 8U, 2); store(&mem[a], 8, t); break;
            default:
            invalid:
                STOP("invalid instruction 0x%08x at 0x%llx", op, (unsigned long long)at);
        }
    }
    executed += INSN_LIMIT - left;
    return NULL;
}

/* ------------------------------------------------------------------ loading */
static uint8_t*
read_file(const char* path, size_t* n) {
    FILE* f = fopen(path, "rb");
    if (f == NULL) {
        mon_harness_error("machine program %s", path);
    }
    fseek(f, 0, SEEK_END);
    *n = (size_t)ftell(f);
    rewind(f);
    uint8_t* b = malloc(*n);
    if ((b == NULL) || (fread(b, 1, *n, f) != *n)) {
        mon_harness_error("machine program %s", path);
    }
    fclose(f);
    return b;
}

static void
mips_load(machine* g, const uint8_t* b, size_t n) {
    (void)n;
#define H16(p) ((unsigned)load((p), 2))
#define AT(field) (&b[g->wide ? offsetof(Elf64_Ehdr, field) : offsetof(Elf32_Ehdr, field)])
#define ADDR(p) load((p), g->wide ? 8U : 4U)
    g->wide = (b[EI_CLASS] == ELFCLASS64);
    g->mem = calloc(1, GUEST_MEM);
    g->perm = calloc(1, GUEST_MEM / PAGE);
    uint64_t ph = ADDR(AT(e_phoff));
    for (unsigned i = 0; i < H16(AT(e_phnum)); ++i, ph += g->wide ? sizeof(Elf64_Phdr) : sizeof(Elf32_Phdr)) {
        const uint8_t* p = &b[ph];
        uint32_t type = (uint32_t)load(p, 4);
        uint32_t flags = (uint32_t)load(p + (g->wide ? offsetof(Elf64_Phdr, p_flags) : offsetof(Elf32_Phdr, p_flags)), 4);
        uint64_t off = ADDR(p + (g->wide ? offsetof(Elf64_Phdr, p_offset) : offsetof(Elf32_Phdr, p_offset)));
        uint64_t va = ADDR(p + (g->wide ? offsetof(Elf64_Phdr, p_vaddr) : offsetof(Elf32_Phdr, p_vaddr)));
        uint64_t fs = ADDR(p + (g->wide ? offsetof(Elf64_Phdr, p_filesz) : offsetof(Elf32_Phdr, p_filesz)));
        uint64_t ms = ADDR(p + (g->wide ? offsetof(Elf64_Phdr, p_memsz) : offsetof(Elf32_Phdr, p_memsz)));
        if ((type != PT_LOAD) || (ms == 0U)) {
            continue;
        }
        if ((va < PAGE) || (va + ms > (8UL << 20))) {
            mon_harness_error("machine program %s: segment at 0x%llx", g->path, (unsigned long long)va);
        }
        memcpy(&g->mem[va], &b[off], fs);
        for (uint64_t q = va / PAGE; q <= (va + ms - 1U) / PAGE; ++q) {
            uint8_t w = ((flags & PF_W) != 0U) ? 2U : 1U;
            g->perm[q] = (w > g->perm[q]) ? w : g->perm[q];
        }
    }
    for (uint64_t q = ((RETURN_TO & ~0xFFFFUL) - (1UL << 20)) / PAGE; q < (RETURN_TO & ~0xFFFFUL) / PAGE; ++q) {
        g->perm[q] = 2;     /* stack, with nothing around it */
    }
    uint64_t sh = ADDR(AT(e_shoff));
    uint64_t shs = g->wide ? sizeof(Elf64_Shdr) : sizeof(Elf32_Shdr);
#define SH(q, field) (&b[sh + (q) * shs + (g->wide ? offsetof(Elf64_Shdr, field) : offsetof(Elf32_Shdr, field))])
    for (unsigned i = 0; i < H16(AT(e_shnum)); ++i) {
        if (load(SH(i, sh_type), 4) != SHT_SYMTAB) {
            continue;
        }
        const char* names = (const char*)&b[ADDR(SH(load(SH(i, sh_link), 4), sh_offset))];
        uint64_t off = ADDR(SH(i, sh_offset));
        uint64_t end = off + ADDR(SH(i, sh_size));
        for (; off < end; off += g->wide ? sizeof(Elf64_Sym) : sizeof(Elf32_Sym)) {
            const char* nm = names + load(&b[off], 4);
            uint64_t v = ADDR(&b[off + (g->wide ? offsetof(Elf64_Sym, st_value) : offsetof(Elf32_Sym, st_value))]);
            if (strcmp(nm, "guest_serve") == 0) {
                g->serve = v;
            } else if (strcmp(nm, "guest_in") == 0) {
                g->in = v;
            } else if (strcmp(nm, "guest_out") == 0) {
                g->out = v;
            } else if (strcmp(nm, "_gp") == 0) {
                g->gp = v;
            }
        }
    }
    if ((g->serve == 0U) || (g->in == 0U) || (g->out == 0U)) {
        mon_harness_error("machine program %s: symbols missing", g->path);
    }
}

static void
child_start(machine* g) {
    int a[2];
    int b[2];
    if ((pipe2(a, O_CLOEXEC) != 0) || (pipe2(b, O_CLOEXEC) != 0)) {
        mon_harness_error("pipe: %s", strerror(errno));
    }
    signal(SIGPIPE, SIG_IGN);
    g->pid = fork();
    if (g->pid < 0) {
        mon_harness_error("fork: %s", strerror(errno));
    }
    if (g->pid == 0) {
        char* av[2] = {(char*)g->name, NULL};
        char* ev[1] = {NULL};
        dup2(a[0], 0);
        dup2(b[1], 1);
        execve(g->path, av, ev);
        _exit(127);
    }
    close(a[0]);
    close(b[1]);
    g->to = a[1];
    g->from = b[0];
}

static double
child_cpu(const machine* g) {
    clockid_t c;
    struct timespec ts;
    if ((clock_getcpuclockid(g->pid, &c) != 0) || (clock_gettime(c, &ts) != 0)) {
        return 0;
    }
    return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}

static const char*
child_gone(machine* g) {
    int st = 0;
    if (waitpid(g->pid, &st, 0) != g->pid) {
        mon_harness_error("waitpid: %s", strerror(errno));
    }
    g->started = false;
    if (WIFSIGNALED(st)) {
        if ((WTERMSIG(st) == SIGKILL) || (WTERMSIG(st) == SIGTERM)) {
            mon_harness_error("program of machine %s was killed", g->name);
        }
        return trap("stopped by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    }
    if (g->absent) {
        return trap("ended with status %d", WEXITSTATUS(st));
    }
    mon_harness_error("program of machine %s ended with status %d", g->name, WEXITSTATUS(st));
}

static const char*
child_ask(machine* g, const uint8_t* q, size_t n) {
    while (n > 0) {
        ssize_t k = write(g->to, q, n);
        if (k > 0) {
            q += k;
            n -= (size_t)k;
        } else if (errno == EPIPE) {
            return child_gone(g);
        } else if (errno != EINTR) {
            mon_harness_error("write to machine %s: %s", g->name, strerror(errno));
        }
    }
    double cpu = -1;
    for (size_t at = 0; at < MACHINE_OUT;) {
        struct pollfd p = {g->from, POLLIN, 0};
        int e = poll(&p, 1, 5000);
        if ((e < 0) && (errno != EINTR)) {
            mon_harness_error("poll: %s", strerror(errno));
        }
        if (e == 0) {
            double now = child_cpu(g);
            if (cpu < 0) {
                cpu = now;
            } else if (now - cpu > CPU_LIMIT) {
                return trap("no end after %.0f s", CPU_LIMIT);
            }
        }
        if (e <= 0) {
            continue;
        }
        ssize_t k = read(g->from, &g->answer[at], MACHINE_OUT - at);
        if (k > 0) {
            at += (size_t)k;
        } else if (k == 0) {
            return child_gone(g);
        } else if (errno != EINTR) {
            mon_harness_error("read from machine %s: %s", g->name, strerror(errno));
        }
    }
    return NULL;
}

static const char*
ask(machine* g, const uint8_t* q, size_t n) {
    if (!g->mips) {
        return child_ask(g, q, n);
    }
    memcpy(&g->mem[g->in], q, n);
    const char* e = mips_run(g);
    memcpy(g->answer, &g->mem[g->out], MACHINE_OUT);
    /* a program that has reported what it found stops with a trap */
    return ((e != NULL) && (load(g->answer, 4) != 0U)) ? NULL : e;
}

static void
start(machine* g) {
    static uint8_t q[MACHINE_IN];
    if (g->mem == NULL) {
        size_t n;
        uint8_t* b = read_file(g->path, &n);
        g->mips = (n > sizeof(Elf64_Ehdr)) && (b[EI_DATA] == ELFDATA2MSB);
        if (g->mips) {
            mips_load(g, b, n);
        }
        free(b);
    }
    if (!g->mips) {
        child_start(g);
    }
    g->started = true;
    put32(q, MACHINE_DICT);
    put32(q + 4, n_rng_dict);
    put32(q + 8, n_rng_fresh);
    put32(q + 12, n_rng_words);
    size_t n = 32;
    for (unsigned i = 0; i < n_rng_dict + n_rng_fresh; ++i, n += 8U) {
        put64(q + n, (i < n_rng_dict) ? rng_dict[i] : rng_fresh[i - n_rng_dict]);
    }
    memcpy(q + n, rng_words, sizeof(rng_words));
    n += sizeof(rng_words);
    /* some kernels run no 32-bit programs */
    g->absent = true;
    const char* e = ask(g, q, n);
    g->absent = (e != NULL);
    if (g->absent) {
        mon_event("machines that do not start here", 1);
    }
}

const char*
machine_run(unsigned m, unsigned op, const uint8_t** answer) {
    static uint8_t q[MACHINE_IN];
    machine* g = &machines[m];
    if (!g->started && !g->absent) {
        start(g);
    }
    if (g->absent) {
        *answer = NULL;
        return NULL;
    }
    size_t n = (gin != NULL) ? gin_n : 0U;
    if (n > MACHINE_IN - 32U) {
        mon_harness_error("input of %zu bytes", n);
    }
    put32(q, MACHINE_RUN);
    put32(q + 4, op | (rng_focus ? 0x80000000U : 0U));
    put64(q + 8, mon_cur_idx());
    put64(q + 16, rng_s);
    put32(q + 24, (uint32_t)n);
    put32(q + 28, (uint32_t)gin_pos);
    if (n > 0U) {
        memcpy(q + 32, gin, n);
    }
    *answer = g->answer;
    return ask(g, q, 32U + n);
}
