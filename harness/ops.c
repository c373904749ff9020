#include "ops.h"
#include "cost.h"

#include <stdlib.h>
#include <sys/mman.h>

#include "base64.h"
#include "bit_manipulation.h"
#include "bubble_sort.h"
#include "caesar_cipher.h"
#include "chacha20.h"
#include "crc16_base.h"
#include "crc32_base.h"
#include "crc8_base.h"
#include "crc_variants.h"
#include "heap_sort.h"
#include "insertion_sort.h"
#include "json.h"
#include "map.h"
#include "priority_queue.h"
#include "queue.h"
#include "ref.h"
#include "scheduler.h"
#include "selection_sort.h"
#include "utils.h"
#include "vernam_cipher.h"

int x_mode;
unsigned x_pass;

/* ------------------------------------------------------------------ observer */
#define MAX_REG 64
typedef struct {
    uint8_t* p;
    size_t n;
    bool writable;
    uint8_t* snap;
    size_t snap_n;
    bool sealed_query;
} reg;
static reg regs[MAX_REG];
static unsigned n_regs;
static struct { const uint8_t* p; size_t n; } wrote[16];
static unsigned n_wrote;
static bool checking;       /* between x_begin and the declaration of what was written */
static uint64_t digest;
static uint64_t garbage;
static const char* cur_name = "?";
static uint64_t n_calls;

static int
x_place(void) {
    if (x_mode == XM_WRITES) {
        return mon_chance(3, 4) ? PL_MIDDLE : PL_RIGHT;
    }
    return mon_chance(2, 3) ? PL_RIGHT : PL_LEFT;
}

/* ------------------------------------------------------------------ placement (XM_PLACE) */
#define ARENA (16UL << 20)
static const struct {
    const char* name;
    uintptr_t line;         /* the blocks are laid around this address, 0: anywhere */
    int dir;                /* 1: each block right after the one before, -1: right before it, 0: apart, 2: at either end of what is there */
} places[X_PLACES] = {
    {"well aligned and apart", 0, 0}, {"packed, ascending", 0, 1}, {"packed, descending", 0, -1}, {"packed, across the 4 GiB line", 0x100000000UL, 1},
    {"packed downwards, across the 2 GiB line", 0x80000000UL, -1}, {"packed, across the 8 GiB line", 0x200000000UL, 1}, {"apart, across a line of 2 GiB further up", 0x2380000000UL, 0},
    {"packed in a random order", 0, 2}, {"packed in a random order, across the 6 GiB line", 0x180000000UL, 2}
};
static uint8_t* arena[X_PLACES];
static uint8_t* lo;         /* used part of the arena */
static uint8_t* hi;
static uint64_t ends;       /* dir 2: at which end the next blocks go, a bit each */

const char*
x_place_name(unsigned pass) {
    return places[pass].name;
}

static void
place_start(unsigned pass) {
    if (arena[pass] == NULL) {
        void* want = (places[pass].line != 0) ? (void*)(places[pass].line - ARENA / 2U) : NULL;
        void* m = mmap(want, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | ((want != NULL) ? MAP_FIXED_NOREPLACE : 0), -1, 0);
        if (m == MAP_FAILED) {
            m = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (m == MAP_FAILED) {
                mon_harness_error("placement arena");
            }
        } else if (want != NULL) {
            mon_event("arenas across a line of 2 GiB", 1);
        }
        arena[pass] = m;
    }
    /* where exactly does not come from the generator, which has to give every pass the same choices */
    uint64_t h = mon_hash_u64(mon_cur_idx(), pass);
    lo = arena[pass] + ARENA / 2U - ((pass == 0U) ? 0U : ((h >> 8) % 97U));
    hi = lo;
    ends = mon_hash_u64(h, 7U);
}

static uint8_t*
place_alloc(size_t n, size_t align) {
    size_t a = (align == 0U) ? 1U : align;
    uint8_t* p;
    if ((n > ARENA / 4U) || ((size_t)(lo - arena[x_pass]) < n + 256U) || ((size_t)(arena[x_pass] + ARENA - hi) < n + 256U)) {
        return mon_alloc(n, PL_ANY, a);
    }
    bool below = (places[x_pass].dir < 0);
    if (places[x_pass].dir == 2) {
        below = ((ends & 1U) != 0U);
        ends = (ends >> 1) | (ends << 63);
    }
    if (below) {
        p = (uint8_t*)(((uintptr_t)(lo - n)) / a * a);
        lo = p;
    } else {
        uintptr_t at = (uintptr_t)hi;
        if (places[x_pass].dir == 0) {
            at = (at + 63U) / 64U * 64U + 64U + ((x_pass == 0U) ? 0U : (a * (n % 13U)));
        }
        p = (uint8_t*)((at + a - 1U) / a * a);
        hi = p + n;
    }
    return p;
}

static void
hold(void* p) {
    if (x_mode != XM_PLACE) {
        mon_seal(p);
    }
}

static void
release(void* p) {
    if (x_mode != XM_PLACE) {
        mon_unseal(p);
    }
}

static uint8_t*
x_alloc(size_t n, size_t align) {
    return (x_mode == XM_PLACE) ? place_alloc(n, align) : mon_alloc(n, x_place(), align);
}

static uint8_t*
x_copy(const void* data, size_t n, size_t align) {
    uint8_t* p = x_alloc(n, align);
    if (n > 0) {
        memcpy(p, data, n);
    }
    return p;
}

static void
x_garbage(void* p, size_t n) {
    uint8_t* b = p;
    if (x_mode == XM_STALE) {
        if (MON_MSAN) {
            mon_uninit(p, n);
            return;
        }
        if (x_pass == 0) {
            memset(p, 0, n);
            return;
        }
        if (x_pass == 1) {
            memset(p, 0xFF, n);
            return;
        }
        if (x_pass == 2) {
            memset(p, '"', n);
            return;
        }
    }
    for (size_t i = 0; i < n; ++i) {
        garbage = garbage * 6364136223846793005ULL + 1442695040888963407ULL;
        b[i] = (uint8_t)(garbage >> 56);
    }
}

static void flush_writes(void);

static reg*
add_reg(uint8_t* p, size_t n, bool writable) {
    flush_writes();
    if (n_regs >= MAX_REG) {
        mon_harness_error("too many regions");
    }
    reg* r = &regs[n_regs++];
    r->p = p;
    r->n = n;
    r->writable = writable;
    r->sealed_query = false;
    return r;
}

const void*
x_in(const void* data, size_t n, size_t align) {
    uint8_t* p = x_copy(data, n, align);
    hold(p);
    add_reg(p, n, false);
    return p;
}

void*
x_out(size_t n, size_t align) {
    uint8_t* p = x_alloc(n, align);
    if (n > 0) {
        x_garbage(p, n);
    }
    add_reg(p, n, true);
    return p;
}

void*
x_io(const void* data, size_t n, size_t align) {
    uint8_t* p = x_copy(data, n, align);
    add_reg(p, n, true);
    return p;
}

static void
flush_writes(void) {
    if (!checking) {
        return;
    }
    checking = false;
    if (x_mode != XM_WRITES) {
        n_wrote = 0;
        return;
    }
    for (unsigned i = 0; i < n_regs; ++i) {
        reg* r = &regs[i];
        if (!r->writable || r->n == 0) {
            continue;
        }
        /* put back what may have been written, then everything has to be as before */
        for (size_t k = 0; k < r->n; ++k) {
            if (r->p[k] != r->snap[k]) {
                bool allowed = false;
                for (unsigned w = 0; w < n_wrote; ++w) {
                    if ((r->p + k >= wrote[w].p) && (r->p + k < wrote[w].p + wrote[w].n)) {
                        allowed = true;
                        break;
                    }
                }
                if (!allowed) {
                    mon_fail("extra-write", "%s changed byte %zu of a %zu-byte buffer, which is not part of its documented output", cur_name, k, r->n);
                }
            }
        }
    }
    n_wrote = 0;
}

/* the workload itself is going to change the block */
static void
x_edit(void* p) {
    flush_writes();
    release(p);
}

static void __attribute__((noinline))
scribble_stack(void) {
    volatile uint8_t junk[12288];
    uint8_t v = (x_pass == 0) ? 0 : (x_pass == 1) ? 0xFF : (uint8_t)(x_pass * 0x35U);
    for (size_t i = 0; i < sizeof(junk); ++i) {
        junk[i] = v;
    }
}

void
x_begin(void) {
    flush_writes();
    ++n_calls;
    if (x_mode == XM_WRITES) {
        for (unsigned i = 0; i < n_regs; ++i) {
            reg* r = &regs[i];
            if (r->writable && (r->n > 0)) {
                if (r->snap_n < r->n) {
                    free(r->snap);
                    r->snap = malloc(r->n);
                    r->snap_n = r->n;
                }
                memcpy(r->snap, r->p, r->n);
            }
        }
    }
    n_wrote = 0;
    if (x_mode == XM_STALE) {
        scribble_stack();
    }
    if (x_mode == XM_SERVICE) {
        cost_begin();
    }
}

void
x_end(void) {
    if (x_mode == XM_SERVICE) {
        (void)cost_end(cur_name);
    }
    checking = true;
    if ((x_mode == XM_WRITES) || (x_mode == XM_RO)) {
        mon_check_guards();
    }
}

void
x_wrote(const void* p, size_t n) {
    if (n_wrote < 16) {
        wrote[n_wrote].p = p;
        wrote[n_wrote].n = n;
        ++n_wrote;
    }
}

void
x_query(const void* p) {
    if (x_mode != XM_RO) {
        return;
    }
    for (unsigned i = 0; i < n_regs; ++i) {
        if ((regs[i].p == (const uint8_t*)p) && regs[i].writable) {
            hold(regs[i].p);
            regs[i].sealed_query = true;
        }
    }
}

void
x_query_end(void) {
    if (x_mode != XM_RO) {
        return;
    }
    for (unsigned i = 0; i < n_regs; ++i) {
        if (regs[i].sealed_query) {
            mon_seal_check(regs[i].p);
            release(regs[i].p);
            regs[i].sealed_query = false;
            mon_event("queries on read-only containers", 1);
        }
    }
}

/* the steps of the digest, to find the first result that differs */
x_step x_steps[X_STEPS];
unsigned n_x_steps;

static void
x_trace(const char* what) {
    if (x_mode == XM_MACHINE) {
        if (n_x_steps < X_STEPS) {
            x_steps[n_x_steps].digest = digest;
            x_steps[n_x_steps].what = what;
        }
        ++n_x_steps;
    }
}

void
x_res(const void* p, size_t n, const char* what) {
    if (x_mode == XM_STALE) {
        mon_defined(p, n, what);
    }
    digest = mon_hash(p, n, digest);
    x_trace(what);
}

/* numbers in the machine's own format: their values count, not their bytes */
static void
x_words(const void* p, size_t n, unsigned width, const char* what) {
    const uint16_t* p16 = p;
    const uint32_t* p32 = p;
    if (x_mode == XM_STALE) {
        mon_defined(p, n * width, what);
    }
    for (size_t i = 0; i < n; ++i) {
        digest = mon_hash_u64(digest, (width == 2U) ? p16[i] : p32[i]);
    }
    x_trace(what);
}

/* bytes no specification fixes (leftovers of a refused call): the same for every compiler, nothing more */
static void
x_leftover(const void* p, size_t n) {
    if (x_mode == XM_DIGEST) {
        digest = mon_hash(p, n, digest);
    }
}

void
x_ret(uint64_t v) {
    if (x_mode == XM_STALE) {
        mon_defined(&v, sizeof(v), "the return value");
    }
    digest = mon_hash_u64(digest, v);
    x_trace("returned value");
}

void
x_start(int mode, unsigned pass) {
    x_mode = mode;
    x_pass = pass;
    garbage = 0x1234567ULL + ((mode == XM_PLACE) ? 0U : pass) * 0x9E3779B97F4A7C15ULL;
}

uint64_t
x_run(unsigned op) {
    n_regs = 0;
    n_wrote = 0;
    checking = false;
    digest = 5381;
    n_calls = 0;
    n_x_steps = 0;
    cur_name = x_ops[op].name;
    mon_note("operation %s", cur_name);
    if (x_mode == XM_PLACE) {
        place_start(x_pass);
    }
    x_ops[op].fn();
    flush_writes();
    mon_check_guards();
    mon_event("library calls observed", n_calls);
    return digest;
}

/* ------------------------------------------------------------------ operations */
static void
op_bits(void) {
    uint32_t v = mon_u32();
    uint8_t n = (uint8_t)(mon_chance(2, 3) ? mon_below(34) : mon_below(256));
    bool r;
    bool* b = x_out(sizeof(bool), 1);
    X_CALL(r = BitManipulation_bitSet(v, n, b));
    x_wrote(b, r ? 1 : 0);
    x_ret(r);
    if (r) {
        x_res(b, 1, "bit");
    }
    static bool (*const fs[3])(uint32_t, uint8_t, uint32_t*) = {BitManipulation_setBit, BitManipulation_clearBit, BitManipulation_toggleBit};
    for (unsigned k = 0; k < 3; ++k) {
        uint32_t* o = x_out(4, 4);
        X_CALL(r = fs[k](v, n, o));
        x_wrote(o, r ? 4 : 0);
        x_ret(r);
        if (r) {
            x_words(o, 1, 4, "word");
        }
    }
    uint32_t w;
    uint8_t m = (uint8_t)(mon_chance(3, 4) ? mon_below(33) : mon_below(256));
    X_CALL(w = BitManipulation_reflect(v, m));
    x_ret(w);
    X_CALL(w = BitManipulation_rotl32(v, (uint32_t)mon_below(33)));
    x_ret(w);
}

static void
op_string_to_int(void) {
    char t[256];
    size_t n = mon_chance(3, 4) ? (size_t)mon_below(13) : (size_t)mon_below(256);
    for (size_t i = 0; i < n; ++i) {
        t[i] = (char)mon_range('0', '9');
    }
    if (n > 0) {
        if (mon_chance(1, 3)) {
            t[mon_below(n)] = (char)mon_byte();
        }
        if (mon_chance(1, 3) && (n >= 10)) {
            memcpy(t, "4294967295", 10);
            t[mon_below(10)] = (char)mon_range('0', '9');
        }
        if (mon_chance(1, 6)) {
            mon_fill(t, n, FILL_BIASED);
        }
    }
    const char* s = x_in(t, n, 1);
    uint32_t* o = x_out(4, 4);
    bool r;
    X_CALL(r = Utils_stringToUint32(s, (uint8_t)n, o));
    x_wrote(o, 4);
    if (n > 0) {
        x_ret(r);
        if (r) {
            x_words(o, 1, 4, "number");
        }
    }
}

static void
op_pow10(void) {
    uint32_t* o = x_out(4, 4);
    uint8_t e = (uint8_t)(mon_chance(3, 4) ? mon_below(12) : mon_below(256));
    bool r;
    X_CALL(r = Utils_quickUint32Pow10(e, o));
    x_wrote(o, r ? 4 : 0);
    x_ret(r);
    if (r) {
        x_words(o, 1, 4, "power");
    }
}

static void
op_letters(void) {
    char c = (char)mon_rnd();
    bool a, b, d;
    X_CALL(a = Utils_isUpperChar(c));
    X_CALL(b = Utils_isLowerChar(c));
    X_CALL(d = Utils_isAlpha(c));
    x_ret(a);
    x_ret(b);
    x_ret(d);
}

static void
op_serial(void) {
    uint32_t v = mon_u32();
    /* the writers get a buffer larger than they need: only the stated width may change */
    size_t room = 4U + (size_t)mon_below(5);
    byte_t* o = x_out(room, 1);
#define W(fn, type, width) \
    X_CALL(fn(o, (type)v)); \
    x_wrote(o, width); \
    x_res(o, width, "serialised bytes");
    W(Utils_serialize8, uint8_t, 1)
    W(Utils_serialize16BE, uint16_t, 2)
    W(Utils_serialize24BE, uint32_t, 3)
    W(Utils_serialize32BE, uint32_t, 4)
    W(Utils_serialize16LE, uint16_t, 2)
    W(Utils_serialize24LE, uint32_t, 3)
    W(Utils_serialize32LE, uint32_t, 4)
#undef W
    /* and exactly what they need */
#define W(fn, type, width) \
    o = x_out(width, 1); \
    X_CALL(fn(o, (type)v)); \
    x_wrote(o, width); \
    x_res(o, width, "serialised bytes");
    W(Utils_serialize8, uint8_t, 1)
    W(Utils_serialize16BE, uint16_t, 2)
    W(Utils_serialize24BE, uint32_t, 3)
    W(Utils_serialize32BE, uint32_t, 4)
    W(Utils_serialize16LE, uint16_t, 2)
    W(Utils_serialize24LE, uint32_t, 3)
    W(Utils_serialize32LE, uint32_t, 4)
#undef W
    byte_t raw[4];
    mon_fill_any(raw, 4);
    uint32_t r;
#define R(fn, width) \
    { \
        const byte_t* i = x_in(raw, width, 1); \
        X_CALL(r = fn(i)); \
        x_ret(r); \
    }
    R(Utils_deserialize8, 1)
    R(Utils_deserialize16BE, 2)
    R(Utils_deserialize24BE, 3)
    R(Utils_deserialize32BE, 4)
    R(Utils_deserialize16LE, 2)
    R(Utils_deserialize24LE, 3)
    R(Utils_deserialize32LE, 4)
#undef R
}

static uint8_t* scratch;

void
x_set_scratch(uint8_t* p) {
    scratch = p;
}

static uint8_t*
data(size_t n) {
    if (scratch == NULL) {
        scratch = malloc(X_SCRATCH);
    }
    mon_fill_any(scratch, n);
    return scratch;
}

static void
op_blobs(void) {
    size_t n = mon_len(20000);
    size_t extra = (size_t)mon_below(20);
    const byte_t* s = x_in(data(n), n, 1);
    byte_t* o;
    static void (*const ser[2])(byte_t*, const byte_t*, uint32_t) = {Utils_serializeBlobBE, Utils_serializeBlobLE};
    static void (*const des[2])(const byte_t*, byte_t*, uint32_t) = {Utils_deserializeBlobBE, Utils_deserializeBlobLE};
    unsigned k = (unsigned)mon_below(2);
    o = x_out(n + extra, 1);
    X_CALL(ser[k](o, s, (uint32_t)n));
    x_wrote(o, n);
    x_res(o, n, "blob");
    o = x_out(n, 1);
    X_CALL(des[k](s, o, (uint32_t)n));
    x_wrote(o, n);
    x_res(o, n, "blob");
}

static void
op_swap(void) {
    size_t n = mon_len(5000);
    size_t extra = (size_t)mon_below(9);
    byte_t* a = x_io(data(n + extra), n + extra, 1);
    byte_t* b = x_io(data(n + extra), n + extra, 1);
    X_CALL(Utils_swapElements(a, b, (uint32_t)n));
    x_wrote(a, n);
    x_wrote(b, n);
    x_res(a, n, "element");
    x_res(b, n, "element");
}

static void
op_crc(void) {
    unsigned v = (unsigned)mon_below(n_crc_variants);
    size_t n = mon_len(3000);
    const uint8_t* p = x_in(data(n), n, 1);
    uint32_t last = mon_u32();
    bool use_last = mon_chance(1, 2);
    const void* lp = NULL;
    if (use_last) {
        uint8_t l8 = (uint8_t)last;
        uint16_t l16 = (uint16_t)last;
        unsigned w = crc_variants[v].model.width;
        lp = (w == 8) ? x_in(&l8, 1, 1) : (w == 16) ? x_in(&l16, 2, 2) : x_in(&last, 4, 4);
    }
    bool fin = mon_chance(1, 2);
    uint32_t r;
    cur_name = crc_variants[v].name;
    X_CALL(r = crc_variants[v].fn(p, (uint32_t)n, fin, lp));
    x_ret(r);
    mon_event("named CRC calls", 1);
}

static void
op_crc_engine(void) {
    uint32_t poly = mon_u32();
    uint32_t init = mon_u32();
    uint32_t xo = mon_u32();
    bool ro = mon_chance(1, 2);
    bool ri = mon_chance(1, 2);
    bool fx = mon_chance(1, 2);
    size_t n = mon_len(1500);
    const uint8_t* p = x_in(data(n), n, 1);
    uint32_t r;
    switch (mon_below(3)) {
        case 0: {
            uint8_t* t = x_out(256, 1);
            X_CALL(Crc8Base_tableCalculator((uint8_t)poly, t));
            x_wrote(t, 256);
            x_res(t, 256, "CRC table");
            const uint8_t* ct = x_in(t, 256, 1);
            X_CALL(r = Crc8Base(ct, p, (uint32_t)n, (uint8_t)init, (uint8_t)xo, ro, ri, fx));
            break;
        }
        case 1: {
            uint16_t* t = x_out(512, 2);
            X_CALL(Crc16Base_tableCalculator((uint16_t)poly, t));
            x_wrote(t, 512);
            x_words(t, 256, 2, "CRC table");
            const uint16_t* ct = x_in(t, 512, 2);
            X_CALL(r = Crc16Base(ct, p, (uint32_t)n, (uint16_t)init, (uint16_t)xo, ro, ri, fx));
            break;
        }
        default: {
            uint32_t* t = x_out(1024, 4);
            X_CALL(Crc32Base_tableCalculator(poly, t));
            x_wrote(t, 1024);
            x_words(t, 256, 4, "CRC table");
            const uint32_t* ct = x_in(t, 1024, 4);
            X_CALL(r = Crc32Base(ct, p, (uint32_t)n, init, xo, ro, ri, fx));
            break;
        }
    }
    x_ret(r);
}

static void
op_b64_encode(void) {
    size_t n = mon_len(3000);
    const char* p = x_in(data(n), n, 1);
    size_t need = ref_b64_len(n) + 1U;
    size_t cap = mon_chance(1, 2) ? (need + (size_t)mon_below(6)) : mon_chance(1, 2) ? (size_t)mon_below(need + 1U) : ((need > 8) ? (need - (size_t)mon_below(8)) : (size_t)mon_below(need + 1U));
    size_t room = cap + (mon_chance(1, 2) ? 0U : (size_t)mon_below(40));
    char* o = x_out(room, 1);
    int32_t r;
    X_CALL(r = Base64_encode(p, n, o, cap));
    x_wrote(o, cap);
    x_ret((uint64_t)(int64_t)r);
    x_leftover(o, cap);
    if (r == 0) {
        if (need <= cap) {
            x_res(o, need, "Base64 text");
        }
        mon_event("successful calls with variable output", 1);
    } else {
        mon_event("refused calls with variable output", 1);
    }
}

static void
op_b64_decode(void) {
    size_t n = mon_len(2000);
    uint8_t* d = data(n + 64U);
    char* t = malloc(ref_b64_len(n) + 1U + 64U);
    ref_b64_encode(d, n, t);
    size_t tl = ref_b64_len(n);
    bool valid = true;
    switch (mon_below(6)) {
        case 0: /* without padding */
            while ((tl > 0) && (t[tl - 1] == '=')) {
                --tl;
            }
            break;
        case 1: /* cut anywhere */
            tl = (size_t)mon_below(tl + 1U);
            valid = false;
            break;
        case 2: /* damaged */
            if (tl > 0) {
                size_t k = 1U + (size_t)mon_below(3);
                while (k-- > 0) {
                    t[mon_below(tl)] = (char)mon_byte();
                }
            }
            valid = false;
            break;
        case 3: /* arbitrary bytes */
            tl = mon_len(200);
            if (tl > ref_b64_len(n)) {
                tl = ref_b64_len(n);
            }
            mon_fill(t, tl, mon_chance(1, 2) ? FILL_BIASED : FILL_RANDOM);
            valid = false;
            break;
        default:
            break;
    }
    const char* in = x_in(t, tl, 1);
    free(t);
    size_t cap = mon_chance(1, 2) ? (n + (size_t)mon_below(4)) : (size_t)mon_below(n + 2U);
    size_t room = cap + (mon_chance(1, 2) ? 0U : (size_t)mon_below(30));
    uint8_t* o = x_out(room, 1);
    int32_t r;
    X_CALL(r = Base64_decode(in, tl, o, cap));
    x_wrote(o, ((r == 0) && valid && (n < cap)) ? n : cap);
    x_ret((uint64_t)(int64_t)r);
    x_leftover(o, cap);
    if ((r == 0) && valid && (n <= cap)) {
        x_res(o, n, "decoded bytes");
    }
    mon_event((r == 0) ? "successful calls with variable output" : "refused calls with variable output", 1);
}

/* characters a JSON text may consist of, dense in syntax */
static void
json_soup(char* p, size_t n) {
    static const char al[] = "\"\"\"\":,{} \tab01\\";
    for (size_t i = 0; i < n; ++i) {
        p[i] = mon_chance(1, 40) ? (char)mon_rnd() : al[mon_below(sizeof(al) - 1U)];
    }
}

static size_t
plain_text(char* p, size_t n) {
    for (size_t i = 0; i < n; ++i) {
        do {
            p[i] = mon_chance(1, 10) ? (char)mon_range(128, 255) : (char)mon_range(32, 126);
        } while ((p[i] == '"') || (p[i] == '\\'));
    }
    p[n] = '\0';
    mon_overlay(p, n);
    return n;
}

static void
op_json_build(void) {
    size_t size = mon_chance(1, 2) ? (size_t)mon_below(60) : mon_len(2000);
    size_t room = size + (mon_chance(1, 2) ? 0U : (size_t)mon_below(60));
    char* b = x_out(room, 1);
    bool r;
    char k[300], v[300];
    X_CALL(r = Json_startString(b, size));
    x_wrote(b, size);
    x_ret(r);
    if (!r) {
        return;
    }
    x_res(b, strlen(b) + 1U, "JSON text");
    unsigned n = (unsigned)mon_below(8);
    for (unsigned i = 0; i < n; ++i) {
        size_t kl = plain_text(k, (size_t)mon_either(8, 290, 9));
        size_t vl = plain_text(v, (size_t)mon_either(8, 290, 9));
        const char* xk = x_in(k, kl + 1U, 1);
        const char* xv = x_in(v, vl + 1U, 1);
        X_CALL(r = Json_addData(b, size, xk, xv));
        x_wrote(b, size);
        x_ret(r);
        mon_event(r ? "successful calls with variable output" : "refused calls with variable output", 1);
        x_res(b, strlen(b) + 1U, "JSON text");
    }
    X_CALL(r = Json_endString(b, size));
    x_wrote(b, size);
    x_ret(r);
    mon_event(r ? "successful calls with variable output" : "refused calls with variable output", 1);
    x_res(b, strlen(b) + 1U, "JSON text");
}

/* adding to and ending an arbitrary text, also with a stated size smaller than the text */
static void
op_json_append(void) {
    char t[128];
    size_t len = (size_t)mon_below(60);
    json_soup(t, len);
    t[len] = '\0';
    len = strlen(t);
    size_t room = len + 1U + (size_t)mon_below(60);
    size_t size = mon_chance(2, 3) ? (size_t)mon_range(len + 1U, room) : (size_t)mon_below(len + 2U);
    char* b = x_out(room, 1);
    memcpy(b, t, len + 1U);
    char k[64], v[64];
    size_t kl = plain_text(k, (size_t)mon_below(20));
    size_t vl = plain_text(v, (size_t)mon_below(20));
    const char* xk = x_in(k, kl + 1U, 1);
    const char* xv = x_in(v, vl + 1U, 1);
    bool r;
    X_CALL(r = Json_addData(b, size, xk, xv));
    x_wrote(b, size);
    x_ret(r);
    x_res(b, strlen(b) + 1U, "JSON text");
    mon_event(r ? "successful calls with variable output" : "refused calls with variable output", 1);
    X_CALL(r = Json_endString(b, size));
    x_wrote(b, size);
    x_ret(r);
    mon_event(r ? "successful calls with variable output" : "refused calls with variable output", 1);
}

static void
op_json_find(void) {
    char* t = (char*)data(64);
    size_t n = 0;
    char key[80];
    bool flat = mon_chance(1, 2);
    size_t kl = plain_text(key, (size_t)mon_either(4, 20, 4));
    if (flat) {
        unsigned m = (unsigned)mon_below(6);
        t[n++] = '{';
        for (unsigned i = 0; i < m; ++i) {
            char a[24], b[24];
            size_t al = plain_text(a, (size_t)mon_below(4));
            size_t bl = plain_text(b, (size_t)mon_below(12));
            if (mon_chance(1, 3)) {
                memcpy(a, key, (kl < 20) ? kl : 0);
                al = (kl < 20) ? kl : 0;
            }
            if (i > 0) {
                t[n++] = ',';
            }
            const char* sp = mon_chance(1, 3) ? " " : "";
            n += (size_t)sprintf(&t[n], "%s\"", sp);
            memcpy(&t[n], a, al);
            n += al;
            n += (size_t)sprintf(&t[n], "\"%s:%s\"", sp, sp);
            memcpy(&t[n], b, bl);
            n += bl;
            t[n++] = '"';
        }
        t[n++] = '}';
    } else {
        n = (size_t)mon_below(120);
        json_soup(t, n);
        if ((n > kl + 2U) && mon_chance(3, 4)) {
            size_t at = (size_t)mon_below(n - kl - 1U);
            t[at] = '"';
            memcpy(&t[at + 1U], key, kl);
            t[at + 1U + kl] = '"';
        }
        if (mon_chance(1, 4)) {
            json_soup(key, kl);
            key[kl] = '\0';
            kl = strlen(key);
        }
    }
    size_t size = mon_chance(1, 3) ? (size_t)mon_below(n + 1U) : n;
    /* nothing behind the stated size may be looked at: exact buffer; sometimes with the terminator included */
    bool nul = (size == n) && mon_chance(1, 3);
    t[n] = '\0';
    const char* xt = x_in(t, nul ? (n + 1U) : size, 1);
    const char* xk = x_in(key, kl + 1U, 1);
    size_t cap = (size_t)mon_below(24);
    size_t room = cap + (mon_chance(1, 2) ? 0U : (size_t)mon_below(20));
    char* v = x_out(room, 1);
    bool r;
    X_CALL(r = Json_findByKey(xt, nul ? (n + 1U) : size, xk, v, cap));
    x_wrote(v, cap);
    x_ret(r);
    x_leftover(v, cap);
    if (r) {
        size_t l = strnlen(v, cap);
        x_res(v, (l < cap) ? (l + 1U) : l, "JSON value");
    }
    mon_event(r ? "successful calls with variable output" : "refused calls with variable output", 1);
}

static void
op_chacha(void) {
    size_t n = mon_len(3000);
    const byte_t* p = x_in(data(n), n, 1);
    const byte_t* k = x_in(data(32), 32, 1);
    const byte_t* no = x_in(data(12), 12, 1);
    byte_t* o = x_out(n + (size_t)mon_below(70), 1);
    uint32_t ctr = mon_u32();
    X_CALL(Chacha20_crypt(p, (uint32_t)n, k, no, ctr, o));
    x_wrote(o, n);
    x_res(o, n, "cipher text");
    byte_t* io = x_io(p, n, 1);
    X_CALL(Chacha20_crypt(io, (uint32_t)n, k, no, ctr, io));
    x_wrote(io, n);
    x_res(io, n, "cipher text");
}

static void
op_caesar(void) {
    size_t n = mon_len(600);
    uint8_t* t = data(n + 1U);
    for (size_t i = 0; i < n; ++i) {
        if (t[i] == 0) {
            t[i] = 'Z';
        }
    }
    t[n] = 0;
    size_t extra = (size_t)mon_below(30);
    mon_fill_any(&t[n + 1U], extra);
    char* m = x_io(t, n + 1U + extra, 1);
    uint8_t s = (uint8_t)mon_rnd();
    if (mon_chance(1, 2)) {
        X_CALL(CaesarCipher_encrypt(m, s));
    } else {
        X_CALL(CaesarCipher_decrypt(m, s));
    }
    x_wrote(m, n);
    x_res(m, n + 1U, "message");
}

static void
op_vernam(void) {
    size_t n = mon_len(600);
    uint8_t* t = data(n + 1U);
    for (size_t i = 0; i < n; ++i) {
        if (t[i] == 0) {
            t[i] = 'q';
        }
    }
    t[n] = 0;
    size_t extra = (size_t)mon_below(30);
    mon_fill_any(&t[n + 1U], extra);
    char* m = x_io(t, n + 1U + extra, 1);
    size_t kl = mon_chance(4, 5) ? n : mon_len(600);
    if (mon_chance(1, 2)) {
        (void)plain_text((char*)t, 0);
        for (size_t i = 0; i < kl; ++i) {
            t[i] = (uint8_t)(mon_chance(1, 2) ? mon_range('a', 'z') : mon_range('A', 'Z'));
        }
    } else {
        mon_fill_any(t, kl);
    }
    const char* k = x_in(t, kl, 1);
    int32_t kn = mon_chance(1, 20) ? -(int32_t)kl : (int32_t)kl;
    bool r;
    if (mon_chance(1, 2)) {
        X_CALL(r = VernamCipher_encrypt(m, k, kn));
    } else {
        X_CALL(r = VernamCipher_decrypt(m, k, kn));
    }
    x_wrote(m, r ? n : 0);
    x_ret(r);
    x_res(m, n + 1U, "message");
}

static void
op_queue(void) {
    uint32_t cap = 1U + (uint32_t)mon_either(6, 300, 6);
    uint32_t es = 1U + (uint32_t)mon_either(6, 300, 9);
    Queue_t* q = x_out(sizeof(*q), 16);
    size_t extra = (size_t)mon_below(20);
    uint8_t* st = x_out((size_t)cap * es + extra, 1);
    bool r;
    X_CALL(r = Queue_init(q, cap, es, st));
    x_wrote(q, sizeof(*q));
    x_ret(r);
    uint8_t* out = x_out(es + extra, 1);
    uint8_t* in = x_io(data(es), es, 1);
    unsigned n = (unsigned)mon_below(40);
    unsigned bias = 1U + (unsigned)mon_below(3);
    for (unsigned i = 0; i < n; ++i) {
        unsigned k = (unsigned)mon_below(8);
        if (k < 4) {
            if (mon_below(4) < bias) {
                x_edit(in);
                mon_fill_any(in, es);
                hold(in);
                X_CALL(r = Queue_enqueue(q, in));
                if (r) {
                    x_wrote(q, sizeof(*q));
                    x_wrote(st, (size_t)cap * es);
                }
                x_ret(r);
            } else {
                X_CALL(r = Queue_dequeue(q, out));
                if (r) {
                    x_wrote(q, sizeof(*q));
                    x_wrote(out, es);
                }
                x_ret(r);
                if (r) {
                    x_res(out, es, "queue element");
                }
            }
        } else {
            x_query(q);
            x_query(st);
            if (k == 4 || k == 5) {
                if (k == 4) {
                    X_CALL(r = Queue_front(q, out));
                } else {
                    X_CALL(r = Queue_rear(q, out));
                }
                x_wrote(out, r ? es : 0);
                x_ret(r);
                if (r) {
                    x_res(out, es, "queue element");
                }
            } else {
                if (k == 6) {
                    X_CALL(r = Queue_full(q));
                } else {
                    X_CALL(r = Queue_empty(q));
                }
                x_ret(r);
            }
            x_query_end();
        }
    }
}

static void
op_pq(void) {
    uint32_t cap = 1U + (uint32_t)mon_either(6, 100, 6);
    uint32_t es = 1U + (uint32_t)mon_either(6, 200, 9);
    PriorityQueue_t* q = x_out(sizeof(*q), 16);
    size_t extra = (size_t)mon_below(20);
    uint8_t* st = x_out((size_t)cap * es + extra, 1);
    uint32_t* ps = x_out(((size_t)cap + (extra & 3U)) * 4U, 4);
    PriorityQueueItem_t items = {ps, st};
    const PriorityQueueItem_t* xi = x_in(&items, sizeof(items), 8);
    bool r;
    X_CALL(r = PriorityQueue_init(q, cap, es, xi));
    x_wrote(q, sizeof(*q));
    x_ret(r);
    uint8_t* out = x_out(es + extra, 1);
    uint8_t* in = x_io(data(es), es, 1);
    uint32_t zero = 0;
    uint32_t* pr = x_io(&zero, 4, 4);
    PriorityQueueItem_t it = {pr, in};
    const PriorityQueueItem_t* xit = x_in(&it, sizeof(it), 8);
    unsigned n = (unsigned)mon_below(40);
    unsigned bias = 1U + (unsigned)mon_below(3);
    for (unsigned i = 0; i < n; ++i) {
        unsigned k = (unsigned)mon_below(5);
        if (k == 4) {
            x_query(q);
            x_query(st);
            x_query(ps);
            X_CALL(r = PriorityQueue_empty(q));
            x_ret(r);
            x_query_end();
        } else if (mon_below(4) < bias) {
            x_edit(in);
            x_edit(pr);
            mon_fill_any(in, es);
            *pr = mon_chance(1, 2) ? (uint32_t)mon_below(4) : mon_u32();
            hold(in);
            hold(pr);
            X_CALL(r = PriorityQueue_enqueue(q, xit));
            if (r) {
                x_wrote(q, sizeof(*q));
                x_wrote(st, (size_t)cap * es);
                x_wrote(ps, (size_t)cap * 4U);
            }
            x_ret(r);
        } else {
            X_CALL(r = PriorityQueue_dequeue(q, out));
            if (r) {
                x_wrote(q, sizeof(*q));
                x_wrote(st, (size_t)cap * es);
                x_wrote(ps, (size_t)cap * 4U);
                x_wrote(out, es);
            }
            x_ret(r);
            if (r) {
                x_res(out, es, "priority queue element");
            }
        }
    }
}

static void
op_map(void) {
    int32_t cap = 1 + (int32_t)mon_either(6, 60, 6);
    int32_t ks = 1 + (int32_t)mon_either(6, 60, 6);
    int32_t vs = 1 + (int32_t)mon_either(6, 60, 9);
    Map_t* m = x_out(sizeof(*m), 16);
    size_t extra = (size_t)mon_below(20);
    byte_t* kst = x_out((size_t)cap * (size_t)ks + extra, 1);
    byte_t* vst = x_out((size_t)cap * (size_t)vs + extra, 1);
    bool r;
    X_CALL(r = Map_init(m, kst, vst, ks, vs, cap));
    x_wrote(m, sizeof(*m));
    x_ret(r);
    byte_t* out = x_out((size_t)vs + extra, 1);
    uint8_t z[64] = {0};
    byte_t* k = x_io(z, (size_t)ks, 1);
    byte_t* v = x_io(z, (size_t)vs, 1);
    unsigned n = (unsigned)mon_below(40);
    uint8_t spread = (uint8_t)(1U + mon_below(8));
    for (unsigned i = 0; i < n; ++i) {
        x_edit(k);
        x_edit(v);
        memset(k, (x_mode == XM_STALE) ? 0xFF : 0, (size_t)ks);
        k[mon_below((uint64_t)ks)] = (byte_t)mon_below(spread);
        mon_fill_any(v, (size_t)vs);
        hold(k);
        hold(v);
        if (mon_chance(1, 2)) {
            X_CALL(r = Map_insert(m, k, v));
            if (r) {
                x_wrote(m, sizeof(*m));
                x_wrote(kst, (size_t)cap * (size_t)ks);
                x_wrote(vst, (size_t)cap * (size_t)vs);
            }
            x_ret(r);
        } else {
            x_query(m);
            x_query(kst);
            x_query(vst);
            X_CALL(r = Map_getValue(m, k, out));
            x_wrote(out, r ? (size_t)vs : 0);
            x_ret(r);
            if (r) {
                x_res(out, (size_t)vs, "map value");
            }
            x_query_end();
        }
    }
}

static uint64_t sched_log;
static void
xt0(void) {
    sched_log = sched_log * 7U + 1U;
}
static void
xt1(void) {
    sched_log = sched_log * 7U + 2U;
}
static void
xt2(void) {
    sched_log = sched_log * 7U + 3U;
}
static void (*const xts[3])(void) = {xt0, xt1, xt2};

static void
op_sched(void) {
    uint32_t n = (uint32_t)mon_either(6, 100, 6);
    SchedulerTask_t* t = x_out(sizeof(*t) * (n + 2U), 16);
    X_CALL(Scheduler_init(t, n));
    x_wrote(t, sizeof(*t) * n);
    unsigned steps = (unsigned)mon_below(16);
    for (unsigned i = 0; i < steps; ++i) {
        if (mon_chance(2, 3)) {
            SchedulerTask_t nt;
            memset(&nt, 0, sizeof(nt));
            nt.function = xts[mon_below(3)];
            nt.active = mon_chance(1, 2);
            const SchedulerTask_t* xn = x_in(&nt, sizeof(nt), 8);
            bool r;
            X_CALL(r = Scheduler_addTask(t, n, xn));
            if (r) {
                x_wrote(t, sizeof(*t) * n);
            }
            x_ret(r);
        } else {
            if ((n > 0) && mon_chance(1, 2)) {
                uint32_t j = (uint32_t)mon_below(n);
                if (t[j].function != NULL) {
                    x_edit(t);
                    t[j].active = !t[j].active;
                }
            }
            sched_log = 1;
            x_query(t);
            X_CALL(Scheduler_run(t, n));
            x_query_end();
            x_ret(sched_log);
        }
    }
}

static size_t sort_es;
static bool
sort_gt(void* a, void* b) {
    return memcmp(a, b, sort_es) > 0;
}
static bool
sort_gt_first(void* a, void* b) {
    return ((uint8_t*)a)[0] > ((uint8_t*)b)[0];
}

static void
op_sort(void) {
    static void (*const ss[4])(byte_t*, int32_t, int32_t, bool (*)(void*, void*)) = {BubbleSort_sort, InsertionSort_sort, HeapSort_sort, SelectionSort_sort};
    unsigned k = (unsigned)mon_below(4);
    size_t es = 1U + (size_t)mon_below((k == 1) ? 64 : mon_chance(1, 4) ? 200 : 20);
    uint64_t d;
    size_t n = mon_fresh(0, 200, &d) ? (size_t)d : mon_chance(1, 3) ? (size_t)mon_below(4) : (size_t)mon_below(40);
    size_t extra = (size_t)mon_below(100);
    byte_t* a = x_io(data(n * es + extra), n * es + extra, 1);
    sort_es = es;
    /* on equal first bytes the result of the unstable sorts is still deterministic, but only order and content are promised:
     * compare whole elements unless the sort is a stable one */
    X_CALL(ss[k](a, (int32_t)n, (int32_t)es, ((k < 2) && mon_chance(1, 2)) ? sort_gt_first : sort_gt));
    x_wrote(a, n * es);
    x_res(a, n * es, "sorted elements");
}

const x_op x_ops[] = {
    {"BitManipulation", op_bits, 1}, {"Utils_stringToUint32", op_string_to_int, 2}, {"Utils_quickUint32Pow10", op_pow10, 1}, {"Utils_isAlpha", op_letters, 1},
    {"Utils fixed-width serialisation", op_serial, 1}, {"Utils blobs", op_blobs, 1}, {"Utils_swapElements", op_swap, 1}, {"named CRC", op_crc, 4}, {"generic CRC", op_crc_engine, 2},
    {"Base64_encode", op_b64_encode, 3}, {"Base64_decode", op_b64_decode, 4}, {"JSON building", op_json_build, 3}, {"Json_addData/Json_endString", op_json_append, 3}, {"Json_findByKey", op_json_find, 5},
    {"Chacha20_crypt", op_chacha, 2}, {"CaesarCipher", op_caesar, 2}, {"VernamCipher", op_vernam, 2}, {"Queue", op_queue, 2}, {"PriorityQueue", op_pq, 2}, {"Map", op_map, 2},
    {"Scheduler", op_sched, 1}, {"sorting", op_sort, 4}
};
const unsigned n_x_ops = sizeof(x_ops) / sizeof(x_ops[0]);
