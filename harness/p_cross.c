/* M01, M02, M03, M05, M06, M08: properties of every public function, observed over the call catalogue in ops.c */
#include "mon.h"
#include "machine.h"
#include "ops.h"
#include "ref.h"

#include <stdlib.h>

#include "base64.h"
#include "bit_manipulation.h"
#include "json.h"
#include "map.h"
#include "priority_queue.h"
#include "queue.h"
#include "scheduler.h"
#include "utils.h"
#include "vernam_cipher.h"

static unsigned
pick_op(uint64_t idx) {
    unsigned total = 0;
    for (unsigned i = 0; i < n_x_ops; ++i) {
        total += x_ops[i].weight;
    }
    unsigned w = (unsigned)(mon_mix(idx) % total);
    for (unsigned i = 0; i < n_x_ops; ++i) {
        if (w < x_ops[i].weight) {
            return i;
        }
        w -= x_ops[i].weight;
    }
    return 0;
}

static void
run_plain(uint64_t idx, int mode) {
    unsigned op = pick_op(idx);
    x_start(mode, 0);
    uint64_t d = x_run(op);
    mon_event(x_ops[op].name, 1);
    mon_sig(d);
    mon_digest(d);
    mon_sample("%s: one round of calls, result digest %016llx", x_ops[op].name, (unsigned long long)d);
}

static void
ops_safe(uint64_t idx) {
    run_plain(idx, XM_SAFE);
}

static void
ops_writes(uint64_t idx) {
    run_plain(idx, XM_WRITES);
}

static void
ops_readonly(uint64_t idx) {
    run_plain(idx, XM_RO);
}

static void
ops_digest(uint64_t idx) {
    run_plain(idx, XM_DIGEST);
}

static void
ops_stale(uint64_t idx) {
    unsigned op = pick_op(idx);
    uint64_t seed = mon_rng_get();
    unsigned passes = MON_MSAN ? 1U : 4U;
    uint64_t first = 0;
    for (unsigned p = 0; p < passes; ++p) {
        mon_rng_set(seed);
        mon_reset();
        x_start(XM_STALE, p);
        uint64_t d = x_run(op);
        if (p == 0) {
            first = d;
        } else if (d != first) {
            mon_fail("stale-memory", "%s gives different results (digest %016llx / %016llx) when output buffers, storage, objects and stack held 0x00 before and when they held %s", x_ops[op].name, (unsigned long long)first,
                     (unsigned long long)d, (p == 1) ? "0xFF" : (p == 2) ? "quotes" : "random bytes");
        }
    }
    mon_event(x_ops[op].name, 1);
    mon_sig(first);
    mon_sample("%s: same results for %u different former contents of all output memory, objects and stack", x_ops[op].name, passes);
}

/* the same call with its data at other addresses */
static void
ops_place(uint64_t idx) {
    unsigned op = pick_op(idx);
    uint64_t seed = mon_rng_get();
    uint64_t first = 0;
    for (unsigned p = 0; p < X_PLACES; ++p) {
        mon_rng_set(seed);
        mon_reset();
        x_start(XM_PLACE, p);
        uint64_t d = x_run(op);
        if (p == 0) {
            first = d;
        } else if (d != first) {
            mon_fail("placement", "%s gives different results (digest %016llx / %016llx) with its data %s and with its data %s", x_ops[op].name, (unsigned long long)first,
                     (unsigned long long)d, x_place_name(0), x_place_name(p));
        }
    }
    mon_event(x_ops[op].name, 1);
    mon_sig(first);
    mon_sample("%s: same results in %u placements", x_ops[op].name, X_PLACES);
}

static uint64_t
answer64(const uint8_t* p) {
    uint64_t v;
    memcpy(&v, p, 8);
    return v;
}

/* the same call on machines with other words and another order of bytes */
static void
ops_machine(uint64_t idx) {
    unsigned op = pick_op(idx);
    uint64_t seed = mon_rng_get();
    unsigned compared = 0;
    x_start(XM_MACHINE, 0);
    uint64_t d = x_run(op);
    for (unsigned m = 0; m < machine_count(); ++m) {
        const uint8_t* a;
        mon_rng_set(seed);
        uint64_t before = machine_instructions();
        const char* e = machine_run(m, op, &a);
        mon_event("instructions interpreted", machine_instructions() - before);
        if (e != NULL) {
            mon_fail("machine-crash", "%s on %s: %s", x_ops[op].name, machine_name(m), e);
        }
        if (a == NULL) {
            continue;
        }
        uint32_t status;
        uint32_t steps;
        memcpy(&status, a, 4);
        memcpy(&steps, a + 4, 4);
        if (status == 3U) {
            mon_harness_error("%s on %s: %s", x_ops[op].name, machine_name(m), (const char*)a + MACHINE_MSG);
        }
        if (status != 1U) {
            mon_fail("machine", "%s on %s: %s", x_ops[op].name, machine_name(m), (const char*)a + MACHINE_MSG);
        }
        if ((answer64(a + 8) != d) || (steps != n_x_steps)) {
            unsigned i = 0;
            while ((i < n_x_steps) && (i < steps) && (i < X_STEPS) && (answer64(a + 16 + 8U * i) == x_steps[i].digest)) {
                ++i;
            }
            mon_fail("machine", "%s gives other results on %s than here: result %u of %u (%s)", x_ops[op].name, machine_name(m), i + 1U, n_x_steps,
                     ((i < n_x_steps) && (i < X_STEPS)) ? x_steps[i].what : "?");
        }
        mon_event(machine_name(m), 1);
        ++compared;
    }
    if (compared == 0) {
        mon_harness_error("none of %u machines runs here", machine_count());
    }
    mon_event(x_ops[op].name, 1);
    mon_event("results compared with other machines", n_x_steps * compared);
    mon_sig(d);
    mon_sample("%s: the same %u results on %u other machines", x_ops[op].name, n_x_steps, compared);
}

/* every word of length up to 8 over a syntax alphabet, looked up with several keys, exact buffer without terminator */
static void
json_words(uint64_t idx) {
    static const char al[] = "\":a,";
    static const char* const keys[] = {"", "a", "\"", ":", "aa", "a\""};
    unsigned len = 0;
    uint64_t x = idx;
    uint64_t span = 1;
    while (x >= span) {
        x -= span;
        span *= 4U;
        ++len;
    }
    char t[16];
    for (unsigned i = 0; i < len; ++i) {
        t[i] = al[x & 3U];
        x >>= 2;
    }
    char* text = mon_copy(t, len, PL_RIGHT, 1);
    mon_seal(text);
    for (unsigned k = 0; k < 6; ++k) {
        const char* key = mon_str(keys[k], PL_RIGHT);
        for (size_t cap = 0; cap < 4; ++cap) {
            char* v = mon_alloc(cap, PL_RIGHT, 1);
            (void)Json_findByKey(text, len, key, v, cap);
        }
    }
    mon_check_guards();
    mon_event("hostile lookups", 24);
    mon_sig(idx);
}

/* Base64: every text length 0..20 against every capacity 0..16, valid and damaged */
static void
b64_grid(uint64_t idx) {
    size_t tl = (size_t)(idx % 21U);
    size_t cap = (size_t)((idx / 21U) % 17U);
    for (unsigned k = 0; k < 12; ++k) {
        char t[24];
        static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        for (size_t i = 0; i < tl; ++i) {
            t[i] = b64[mon_below(64)];
        }
        if ((k >= 4) && (tl > 0)) {
            t[tl - 1U] = '=';
            if ((k >= 6) && (tl > 1)) {
                t[tl - 2U] = '=';
            }
            if (k >= 8) {
                t[mon_below(tl)] = (char)mon_byte();
            }
        }
        const char* in = mon_copy(t, tl, PL_RIGHT, 1);
        uint8_t* out = mon_alloc(cap, PL_RIGHT, 1);
        (void)Base64_decode(in, tl, out, cap);
        char* o2 = mon_alloc(cap, PL_RIGHT, 1);
        (void)Base64_encode(in, tl, o2, cap);
    }
    mon_check_guards();
    mon_event("hostile Base64 calls", 24);
    mon_sig(idx);
}

/* ------------------------------------------------------------------ M05 */
#define SNAP_MAX 8
static struct { const void* p; size_t n; uint8_t* copy; size_t cap; const char* what; } snaps[SNAP_MAX];
static unsigned n_snaps;

static void
snap(const void* p, size_t n, const char* what) {
    if (n_snaps >= SNAP_MAX) {
        mon_harness_error("too many snapshots");
    }
    if (snaps[n_snaps].cap < n) {
        free(snaps[n_snaps].copy);
        snaps[n_snaps].copy = malloc(n + 1U);
        snaps[n_snaps].cap = n;
    }
    if (n > 0) {
        memcpy(snaps[n_snaps].copy, p, n);
    }
    snaps[n_snaps].p = p;
    snaps[n_snaps].n = n;
    snaps[n_snaps].what = what;
    ++n_snaps;
}

static void
unchanged(const char* call) {
    for (unsigned i = 0; i < n_snaps; ++i) {
        if (!mon_eq(snaps[i].p, snaps[i].copy, snaps[i].n)) {
            size_t d = mon_diff(snaps[i].p, snaps[i].copy, snaps[i].n);
            mon_fail("rejected-effect", "%s reported failure but changed %s (byte %zu of %zu: 0x%02x, was 0x%02x)", call, snaps[i].what, d, snaps[i].n, ((const uint8_t*)snaps[i].p)[d], snaps[i].copy[d]);
        }
    }
    n_snaps = 0;
    mon_event("rejected operations without effect", 1);
}

/* named fields only: padding may change */
static void
q_fields(const Queue_t* q, uint64_t f[6]) {
    f[0] = q->front;
    f[1] = q->rear;
    f[2] = q->size;
    f[3] = q->capacity;
    f[4] = q->element_size;
    f[5] = (uintptr_t)q->buffer;
}

/* a rejected call on queue a: the twin b never sees it */
static void
rej_queue(uint64_t idx) {
    (void)idx;
    uint32_t cap = 1U + (uint32_t)mon_either(5, 60, 5);
    uint32_t es = 1U + (uint32_t)mon_either(5, 60, 5);
    Queue_t a, b;
    memset(&a, 0, sizeof(a));
    memset(&b, 0, sizeof(b));
    uint8_t* sa = mon_alloc((size_t)cap * es, PL_RIGHT, 1);
    uint8_t* sb = mon_alloc((size_t)cap * es, PL_RIGHT, 1);
    mon_fill(sa, (size_t)cap * es, FILL_RANDOM);
    memcpy(sb, sa, (size_t)cap * es);
    uint8_t* in = mon_alloc(es, PL_RIGHT, 1);
    uint8_t* oa = mon_alloc(es, PL_RIGHT, 1);
    uint8_t* ob = mon_alloc(es, PL_RIGHT, 1);
    bool i1 = Queue_init(&a, cap, es, sa);
    bool i2 = Queue_init(&b, cap, es, sb);
    MON_REQUIRE(i1 && i2, "queue-init", "Queue_init failed");
    uint32_t held = 0;
    uint64_t sig = mon_hash_u64(cap, es);
    unsigned n = (unsigned)mon_range(4, 60);
    unsigned bias = 1;
    for (unsigned i = 0; i < n; ++i) {
        if ((i % 8U) == 0) {
            bias = (unsigned)mon_below(5);
        }
        /* a rejected call whenever the state allows one */
        unsigned kind = (unsigned)mon_below(6);
        bool r = false;
        const char* nm = NULL;
        uint64_t f0[6], f1[6];
        mon_fill(oa, es, FILL_RANDOM);
        mon_fill(in, es, FILL_RANDOM);
        q_fields(&a, f0);
        n_snaps = 0;
        snap(sa, (size_t)cap * es, "the stored elements");
        snap(oa, es, "the caller's output element");
        snap(in, es, "the caller's input element");
        if (kind == 0 && held == cap) {
            nm = "Queue_enqueue on a full queue";
            r = Queue_enqueue(&a, in);
        } else if (kind == 1 && held == 0) {
            nm = "Queue_dequeue on an empty queue";
            r = Queue_dequeue(&a, oa);
        } else if (kind == 2 && held == 0) {
            nm = "Queue_front on an empty queue";
            r = Queue_front(&a, oa);
        } else if (kind == 3 && held == 0) {
            nm = "Queue_rear on an empty queue";
            r = Queue_rear(&a, oa);
        } else if (kind == 4) {
            static const uint32_t bad[4][2] = {{0, 3}, {3, 0}, {0, 0}, {2, 2}};
            unsigned k = (unsigned)mon_below(4);
            nm = "Queue_init with an unusable configuration";
            r = Queue_init(&a, bad[k][0], bad[k][1], (k == 3) ? NULL : sa);
        } else if (kind == 5) {
            unsigned k = (unsigned)mon_below(4);
            nm = "a queue operation without element";
            r = (k == 0) ? Queue_enqueue(&a, NULL) : (k == 1) ? Queue_dequeue(&a, NULL) : (k == 2) ? Queue_front(&a, NULL) : Queue_rear(&a, NULL);
        }
        if (nm != NULL) {
            MON_REQUIRE(!r, "not-rejected", "%s succeeded (%u of %u elements held)", nm, held, cap);
            unchanged(nm);
            q_fields(&a, f1);
            MON_REQUIRE(memcmp(f0, f1, sizeof(f0)) == 0, "rejected-effect", "%s reported failure but changed the queue object (front %llu->%llu rear %llu->%llu size %llu->%llu)", nm, (unsigned long long)f0[0],
                        (unsigned long long)f1[0], (unsigned long long)f0[1], (unsigned long long)f1[1], (unsigned long long)f0[2], (unsigned long long)f1[2]);
            sig = mon_hash_u64(sig, kind * 100U + held);
        }
        n_snaps = 0;
        /* the same accepted or rejected call on both */
        memset(oa, 0, es);
        memset(ob, 0, es);
        bool ra, rb;
        if (mon_below(4) < bias) {
            ra = Queue_enqueue(&a, in);
            rb = Queue_enqueue(&b, in);
            held += ra ? 1U : 0U;
        } else {
            ra = Queue_dequeue(&a, oa);
            rb = Queue_dequeue(&b, ob);
            held -= ra ? 1U : 0U;
        }
        MON_REQUIRE((ra == rb) && mon_eq(oa, ob, es), "rejected-effect", "after rejected calls the queue behaves differently from one that never saw them");
        bool fa = Queue_full(&a);
        bool fb = Queue_full(&b);
        bool ea = Queue_empty(&a);
        bool eb = Queue_empty(&b);
        MON_REQUIRE((fa == fb) && (ea == eb), "rejected-effect", "after rejected calls full/empty differ from a queue that never saw them");
        bool xa = Queue_front(&a, oa);
        bool xb = Queue_front(&b, ob);
        MON_REQUIRE((xa == xb) && (!xa || mon_eq(oa, ob, es)), "rejected-effect", "after rejected calls the front element differs from a queue that never saw them");
        xa = Queue_rear(&a, oa);
        xb = Queue_rear(&b, ob);
        MON_REQUIRE((xa == xb) && (!xa || mon_eq(oa, ob, es)), "rejected-effect", "after rejected calls the rear element differs from a queue that never saw them");
    }
    mon_sig(sig);
    mon_sample("queue capacity %u: rejected calls mixed into a history, compared with a twin", cap);
}

static void
pq_fields(const PriorityQueue_t* q, uint64_t f[5]) {
    f[0] = q->size;
    f[1] = q->capacity;
    f[2] = q->element_size;
    f[3] = (uintptr_t)q->priority_array;
    f[4] = (uintptr_t)q->buffer;
}

static void
rej_pq(uint64_t idx) {
    (void)idx;
    uint32_t cap = 1U + (uint32_t)mon_either(5, 40, 5);
    uint32_t es = 1U + (uint32_t)mon_either(5, 60, 5);
    PriorityQueue_t a, b;
    memset(&a, 0, sizeof(a));
    memset(&b, 0, sizeof(b));
    uint8_t* sa = mon_alloc((size_t)cap * es, PL_RIGHT, 1);
    uint8_t* sb = mon_alloc((size_t)cap * es, PL_RIGHT, 1);
    uint32_t* pa = mon_alloc((size_t)cap * 4U, PL_RIGHT, 4);
    uint32_t* pb = mon_alloc((size_t)cap * 4U, PL_RIGHT, 4);
    mon_fill(sa, (size_t)cap * es, FILL_RANDOM);
    memcpy(sb, sa, (size_t)cap * es);
    mon_fill(pa, (size_t)cap * 4U, FILL_RANDOM);
    memcpy(pb, pa, (size_t)cap * 4U);
    uint8_t* in = mon_alloc(es, PL_RIGHT, 1);
    uint8_t* oa = mon_alloc(es, PL_RIGHT, 1);
    uint8_t* ob = mon_alloc(es, PL_RIGHT, 1);
    PriorityQueueItem_t ia = {pa, sa};
    PriorityQueueItem_t ib = {pb, sb};
    bool i1 = PriorityQueue_init(&a, cap, es, &ia);
    bool i2 = PriorityQueue_init(&b, cap, es, &ib);
    MON_REQUIRE(i1 && i2, "pq-init", "PriorityQueue_init failed");
    uint32_t held = 0;
    uint32_t* prios = malloc(sizeof(uint32_t) * cap);
    uint64_t sig = mon_hash_u64(cap, es);
    unsigned n = (unsigned)mon_range(4, 60);
    unsigned bias = 3;
    bool wide = mon_chance(1, 2);
    for (unsigned i = 0; i < n; ++i) {
        if ((i % 8U) == 0) {
            bias = (unsigned)mon_below(5);
        }
        unsigned kind = (unsigned)mon_below(3);
        bool r = false;
        const char* nm = NULL;
        uint64_t f0[5], f1[5];
        mon_fill(oa, es, FILL_RANDOM);
        mon_fill(in, es, FILL_RANDOM);
        uint32_t low = UINT32_MAX;
        for (uint32_t k = 0; k < held; ++k) {
            low = (pa[k] < low) ? pa[k] : low;
        }
        uint32_t pr = mon_chance(1, 2) ? low : (uint32_t)mon_below((uint64_t)low + 1U);
        PriorityQueueItem_t it = {&pr, in};
        pq_fields(&a, f0);
        n_snaps = 0;
        snap(sa, (size_t)cap * es, "the stored elements");
        snap(pa, (size_t)cap * 4U, "the stored priorities");
        snap(oa, es, "the caller's output element");
        snap(in, es, "the caller's input element");
        if (kind == 0 && held == cap) {
            nm = "PriorityQueue_enqueue of a priority not above the lowest held on a full queue";
            r = PriorityQueue_enqueue(&a, &it);
        } else if (kind == 1 && held == 0) {
            nm = "PriorityQueue_dequeue on an empty queue";
            r = PriorityQueue_dequeue(&a, oa);
        } else if (kind == 2) {
            static const uint32_t bad[4][2] = {{0, 3}, {3, 0}, {0, 0}, {2, 2}};
            unsigned k = (unsigned)mon_below(4);
            nm = "PriorityQueue_init with an unusable configuration";
            r = PriorityQueue_init(&a, bad[k][0], bad[k][1], (k == 3) ? NULL : &ia);
        }
        if (nm != NULL) {
            MON_REQUIRE(!r, "not-rejected", "%s succeeded (%u of %u elements held)", nm, held, cap);
            unchanged(nm);
            pq_fields(&a, f1);
            MON_REQUIRE(memcmp(f0, f1, sizeof(f0)) == 0, "rejected-effect", "%s reported failure but changed the priority queue object (size %llu->%llu)", nm, (unsigned long long)f0[0], (unsigned long long)f1[0]);
            sig = mon_hash_u64(sig, kind * 100U + held);
        }
        n_snaps = 0;
        memset(oa, 0, es);
        memset(ob, 0, es);
        bool ra, rb;
        if (mon_below(4) < bias) {
            pr = wide ? mon_u32() : ((uint32_t)mon_below(4) * 3U);
            ra = PriorityQueue_enqueue(&a, &it);
            rb = PriorityQueue_enqueue(&b, &it);
            held += (ra && (held < cap)) ? 1U : 0U;
        } else {
            ra = PriorityQueue_dequeue(&a, oa);
            rb = PriorityQueue_dequeue(&b, ob);
            held -= ra ? 1U : 0U;
        }
        bool ea = PriorityQueue_empty(&a);
        bool eb = PriorityQueue_empty(&b);
        MON_REQUIRE((ra == rb) && (ea == eb) && mon_eq(oa, ob, es), "rejected-effect", "after rejected calls the priority queue behaves differently from one that never saw them");
    }
    for (uint32_t k = 0; k <= cap; ++k) {
        memset(oa, 0, es);
        memset(ob, 0, es);
        bool ra = PriorityQueue_dequeue(&a, oa);
        bool rb = PriorityQueue_dequeue(&b, ob);
        MON_REQUIRE((ra == rb) && mon_eq(oa, ob, es), "rejected-effect", "after rejected calls the priority queue drains differently from one that never saw them");
    }
    free(prios);
    mon_sig(sig);
    mon_sample("priority queue capacity %u: rejected calls mixed into a history, compared with a twin", cap);
}

static void
map_fields(const Map_t* m, uint64_t f[6]) {
    f[0] = (uintptr_t)m->keys;
    f[1] = (uintptr_t)m->values;
    f[2] = (uint64_t)m->key_size;
    f[3] = (uint64_t)m->value_size;
    f[4] = (uint64_t)m->max_map_size;
    f[5] = (uint64_t)m->current_size;
}

static void
rej_map(uint64_t idx) {
    (void)idx;
    int32_t cap = 1 + (int32_t)mon_either(5, 30, 4);
    int32_t ks = 1 + (int32_t)mon_either(5, 30, 4);
    int32_t vs = 1 + (int32_t)mon_either(5, 30, 4);
    size_t kn = (size_t)cap * (size_t)ks;
    size_t vn = (size_t)cap * (size_t)vs;
    Map_t a, b;
    memset(&a, 0, sizeof(a));
    memset(&b, 0, sizeof(b));
    byte_t* ka = mon_alloc(kn, PL_RIGHT, 1);
    byte_t* kb = mon_alloc(kn, PL_RIGHT, 1);
    byte_t* va = mon_alloc(vn, PL_RIGHT, 1);
    byte_t* vb = mon_alloc(vn, PL_RIGHT, 1);
    mon_fill(ka, kn, FILL_RANDOM);
    mon_fill(va, vn, FILL_RANDOM);
    memcpy(kb, ka, kn);
    memcpy(vb, va, vn);
    byte_t* key = mon_alloc((size_t)ks, PL_RIGHT, 1);
    byte_t* val = mon_alloc((size_t)vs, PL_RIGHT, 1);
    byte_t* oa = mon_alloc((size_t)vs, PL_RIGHT, 1);
    byte_t* ob = mon_alloc((size_t)vs, PL_RIGHT, 1);
    bool i1 = Map_init(&a, ka, va, ks, vs, cap);
    bool i2 = Map_init(&b, kb, vb, ks, vs, cap);
    MON_REQUIRE(i1 && i2, "map-init", "Map_init failed");
    int32_t pool = (cap < 100) ? cap + 3 : 103;
    byte_t stem[32];
    mon_fill_any(stem, (size_t)ks);
    int32_t at = mon_chance(1, 2) ? (ks - 1) : (int32_t)mon_below((uint64_t)ks);
    bool present[128] = {false};
    int32_t held = 0;
    unsigned n = (unsigned)mon_range(4, 50) + (unsigned)cap;
    uint64_t sig = mon_hash_u64((uint64_t)cap, (uint64_t)ks * 100U + (uint64_t)vs);
    for (unsigned i = 0; i < n; ++i) {
        unsigned kind = (unsigned)mon_below(4);
        bool r = false;
        const char* nm = NULL;
        uint64_t f0[6], f1[6];
        int32_t k = (int32_t)mon_below((uint64_t)pool);
        memcpy(key, stem, (size_t)ks);
        key[at] = (byte_t)k;
        if ((kind == 1) && (ks > 1)) {
            /* absent as well: differs from every key outside the byte that tells them apart */
            key[((size_t)at + 1U + mon_below((uint64_t)ks - 1U)) % (size_t)ks] ^= (byte_t)mon_below(256);
        }
        mon_fill(val, (size_t)vs, FILL_RANDOM);
        mon_fill(oa, (size_t)vs, FILL_RANDOM);
        map_fields(&a, f0);
        n_snaps = 0;
        snap(ka, kn, "the stored keys");
        snap(va, vn, "the stored values");
        snap(oa, (size_t)vs, "the caller's output value");
        snap(key, (size_t)ks, "the caller's key");
        snap(val, (size_t)vs, "the caller's value");
        if (kind == 0 && held == cap && !present[k]) {
            nm = "Map_insert of a new key into a full map";
            r = Map_insert(&a, key, val);
        } else if (kind == 1 && !present[k]) {
            nm = "Map_getValue of an absent key";
            r = Map_getValue(&a, key, oa);
        } else if (kind == 2) {
            static const int32_t bad[8][3] = {{0, 1, 1}, {1, 0, 1}, {1, 1, 0}, {-1, 1, 1}, {1, -4, 2}, {2, 2, -1}, {1, 1, 1}, {1, 1, 1}};
            unsigned c = (unsigned)mon_below(8);
            nm = "Map_init with an unusable configuration";
            r = Map_init(&a, (c == 6) ? NULL : ka, (c == 7) ? NULL : va, bad[c][0], bad[c][1], bad[c][2]);
        } else if (kind == 3) {
            nm = "a map operation without map";
            r = mon_chance(1, 2) ? Map_insert(NULL, key, val) : Map_getValue(NULL, key, oa);
        }
        if (nm != NULL) {
            MON_REQUIRE(!r, "not-rejected", "%s succeeded (%d of %d keys held)", nm, held, cap);
            unchanged(nm);
            map_fields(&a, f1);
            MON_REQUIRE(memcmp(f0, f1, sizeof(f0)) == 0, "rejected-effect", "%s reported failure but changed the map object (keys held %llu->%llu)", nm, (unsigned long long)f0[5], (unsigned long long)f1[5]);
            sig = mon_hash_u64(sig, kind * 100U + (unsigned)held);
        }
        n_snaps = 0;
        k = (int32_t)mon_below((uint64_t)pool);
        memcpy(key, stem, (size_t)ks);
        key[at] = (byte_t)k;
        bool ra, rb;
        if (mon_chance(1, 2)) {
            ra = Map_insert(&a, key, val);
            rb = Map_insert(&b, key, val);
            if (ra && !present[k]) {
                present[k] = true;
                ++held;
            }
        } else {
            memset(oa, 0, (size_t)vs);
            memset(ob, 0, (size_t)vs);
            ra = Map_getValue(&a, key, oa);
            rb = Map_getValue(&b, key, ob);
            MON_REQUIRE(mon_eq(oa, ob, (size_t)vs), "rejected-effect", "after rejected calls a lookup gives a different value from a map that never saw them");
        }
        MON_REQUIRE(ra == rb, "rejected-effect", "after rejected calls the map behaves differently from one that never saw them");
    }
    for (int32_t k = 0; k < pool; ++k) {
        memcpy(key, stem, (size_t)ks);
        key[at] = (byte_t)k;
        memset(oa, 0, (size_t)vs);
        memset(ob, 0, (size_t)vs);
        bool ra = Map_getValue(&a, key, oa);
        bool rb = Map_getValue(&b, key, ob);
        MON_REQUIRE((ra == rb) && mon_eq(oa, ob, (size_t)vs), "rejected-effect", "after rejected calls the map's contents differ from one that never saw them");
    }
    mon_sig(sig);
    mon_sample("map capacity %d: rejected calls mixed into a history, compared with a twin", cap);
}

/* every out-of-range bit position and exponent */
static void
rej_scalar(uint64_t idx) {
    uint8_t n = (uint8_t)idx;
    uint32_t v = mon_u32();
    uint32_t* o = mon_alloc(4, PL_RIGHT, 4);
    bool* bo = mon_alloc(sizeof(bool), PL_RIGHT, 1);
    if (n >= 32) {
        for (unsigned k = 0; k < 4; ++k) {
            uint32_t keep = mon_u32();
            *o = keep;
            uint8_t bkeep = (uint8_t)mon_below(2);
            memcpy(bo, &bkeep, 1);
            bool r = (k == 0) ? BitManipulation_setBit(v, n, o) : (k == 1) ? BitManipulation_clearBit(v, n, o) : (k == 2) ? BitManipulation_toggleBit(v, n, o) : BitManipulation_bitSet(v, n, bo);
            static const char* const nm[] = {"BitManipulation_setBit", "BitManipulation_clearBit", "BitManipulation_toggleBit", "BitManipulation_bitSet"};
            MON_REQUIRE(!r, "not-rejected", "%s accepted bit position %u", nm[k], n);
            MON_REQUIRE(*o == keep, "rejected-effect", "%s(0x%08x, %u) reported failure but changed its output from 0x%08x to 0x%08x", nm[k], v, n, keep, *o);
            uint8_t now;
            memcpy(&now, bo, 1);
            MON_REQUIRE(now == bkeep, "rejected-effect", "%s(0x%08x, %u) reported failure but changed its output flag", nm[k], v, n);
            mon_event("rejected operations without effect", 1);
        }
    }
    if (n >= 10) {
        uint32_t keep = mon_u32();
        *o = keep;
        bool r = Utils_quickUint32Pow10(n, o);
        MON_REQUIRE(!r, "not-rejected", "Utils_quickUint32Pow10 accepted exponent %u", n);
        MON_REQUIRE(*o == keep, "rejected-effect", "Utils_quickUint32Pow10(%u) reported failure but changed its output from %u to %u", n, keep, *o);
        mon_event("rejected operations without effect", 1);
    }
    mon_sig(idx);
}

static void
rej_vernam(uint64_t idx) {
    (void)idx;
    size_t n = mon_len(400);
    size_t kl = mon_len(400);
    if (mon_chance(1, 2)) {
        kl = (n + (size_t)mon_below(5) > 2) ? (n + (size_t)mon_below(5) - 2U) : 0;
    }
    int32_t stated = (int32_t)kl;
    if (mon_chance(1, 6)) {
        stated = -(int32_t)n;
    } else if (mon_chance(1, 12)) {
        stated = (int32_t)(n | 0x10000U);
    } else if (mon_chance(1, 12)) {
        stated = (int32_t)(n + 256U);
    }
    if (stated == (int32_t)n) {
        ++stated;
    }
    char* m = mon_alloc(n + 1U, PL_RIGHT, 1);
    for (size_t i = 0; i < n; ++i) {
        m[i] = (char)(mon_chance(4, 5) ? (mon_chance(1, 2) ? mon_range('a', 'z') : mon_range('A', 'Z')) : mon_range(1, 255));
    }
    m[n] = '\0';
    size_t ka = ((stated > 0) ? (size_t)stated : 0U) + n + 1U;
    char* k = mon_alloc(ka, PL_RIGHT, 1);
    for (size_t i = 0; i < ka; ++i) {
        k[i] = (char)mon_range('a', 'z');
    }
    mon_seal(k);
    for (unsigned d = 0; d < 2; ++d) {
        n_snaps = 0;
        snap(m, n + 1U, "the message");
        bool r = d ? VernamCipher_decrypt(m, k, stated) : VernamCipher_encrypt(m, k, stated);
        MON_REQUIRE(!r, "not-rejected", "Vernam %s accepted a message of %zu and a key of %d characters", d ? "decryption" : "encryption", n, stated);
        unchanged(d ? "VernamCipher_decrypt with a key of another length" : "VernamCipher_encrypt with a key of another length");
    }
    mon_sig(mon_hash_u64(n, (uint64_t)(int64_t)stated));
    mon_sample("Vernam message of %zu, key of %d characters: refused, message unchanged", n, stated);
}

static void
dummy_task_a(void) {
}
static void
dummy_task_b(void) {
}

static void
rej_sched(uint64_t idx) {
    (void)idx;
    uint32_t n = (uint32_t)mon_either(4, 300, 12);
    SchedulerTask_t* t = mon_alloc(sizeof(*t) * n, PL_RIGHT, 8);
    if (n > 0) {
        memset(t, 0, sizeof(*t) * n);
    }
    for (uint32_t i = 0; i < n; ++i) {
        t[i].function = mon_chance(1, 2) ? dummy_task_a : dummy_task_b;
        t[i].active = mon_chance(1, 2);
    }
    SchedulerTask_t copy[300];
    memcpy(copy, t, sizeof(*t) * n);
    SchedulerTask_t nt;
    memset(&nt, 0, sizeof(nt));
    nt.function = mon_chance(1, 2) ? dummy_task_a : dummy_task_b;
    nt.active = mon_chance(1, 2);
    for (unsigned k = 0; k < 3; ++k) {
        bool r = Scheduler_addTask(t, n, &nt);
        MON_REQUIRE(!r, "not-rejected", "Scheduler_addTask succeeded on a table of %u tasks without free slot", n);
        for (uint32_t i = 0; i < n; ++i) {
            MON_REQUIRE((t[i].function == copy[i].function) && (t[i].active == copy[i].active), "rejected-effect", "Scheduler_addTask reported failure but changed slot %u of %u", i, n);
        }
        mon_event("rejected operations without effect", 1);
    }
    mon_sig(mon_hash_u64(n, nt.active));
}

/* JSON text under construction: every rejected step leaves text and NUL, and the document can be completed as if never tried */
static void
rej_json(uint64_t idx) {
    size_t size = (idx < 400) ? (size_t)(idx % 40U) : (size_t)mon_below(300);
    char* a = mon_alloc(size, mon_chance(1, 2) ? PL_RIGHT : PL_MIDDLE, 1);
    char* b = mon_alloc(size, PL_RIGHT, 1);
    mon_fill(a, size, FILL_RANDOM);
    if (size > 0) {
        memcpy(b, a, size);
    }
    n_snaps = 0;
    if (size < 2) {
        snap(a, size, "the buffer");
        bool r = Json_startString(a, size);
        MON_REQUIRE(!r, "not-rejected", "Json_startString succeeded with a buffer of %zu", size);
        unchanged("Json_startString with a buffer that is too small");
        return;
    }
    bool sa = Json_startString(a, size);
    bool sb = Json_startString(b, size);
    MON_REQUIRE(sa && sb, "json-start", "Json_startString failed with a buffer of %zu", size);
    uint64_t sig = size;
    unsigned n = (unsigned)mon_range(1, 10);
    for (unsigned i = 0; i < n; ++i) {
        char k[400], v[400];
        size_t len = strlen(a);
        /* one that cannot fit: between one and many characters too long */
        size_t over = mon_chance(1, 2) ? 0U : (size_t)mon_below(30);
        size_t need_fixed = len + 5U + 1U + ((len > 1U) ? 1U : 0U);
        size_t room = (size > need_fixed) ? (size - need_fixed) : 0U;
        size_t tot = room + 1U + over;
        size_t kl = (size_t)mon_below(tot + 1U);
        if (kl > 390) {
            kl = 390;
        }
        size_t vl = tot - kl;
        if (vl < 390) {
            memset(k, 'k', kl);
            k[kl] = '\0';
            memset(v, 'v', vl);
            v[vl] = '\0';
            n_snaps = 0;
            snap(a, len + 1U, "the text");
            bool r = Json_addData(a, size, k, v);
            MON_REQUIRE(!r, "not-rejected", "Json_addData succeeded with %zu characters in a buffer of %zu holding %zu", kl + vl, size, len);
            unchanged("Json_addData of a pair that does not fit");
            sig = mon_hash_u64(sig, tot * 1000U + len);
        }
        len = strlen(a);
        if (len + 2U > size) {
            n_snaps = 0;
            snap(a, len + 1U, "the text");
            bool r = Json_endString(a, size);
            MON_REQUIRE(!r, "not-rejected", "Json_endString succeeded with %zu characters in a buffer of %zu", len, size);
            unchanged("Json_endString without room");
        }
        /* a step both take */
        size_t l2 = (size_t)mon_below(6);
        for (size_t q = 0; q < l2; ++q) {
            k[q] = (char)mon_range('a', 'f');
        }
        k[l2] = '\0';
        bool ra = Json_addData(a, size, k, "x");
        bool rb = Json_addData(b, size, k, "x");
        MON_REQUIRE((ra == rb) && (strcmp(a, b) == 0), "rejected-effect", "after rejected additions the document continues differently ('%.60s') from one that never saw them ('%.60s')", a, b);
    }
    bool ea = Json_endString(a, size);
    bool eb = Json_endString(b, size);
    MON_REQUIRE((ea == eb) && (strcmp(a, b) == 0), "rejected-effect", "after rejected additions the document ends differently ('%.60s') from one that never saw them ('%.60s')", a, b);
    mon_sig(sig);
    mon_sample("JSON buffer of %zu: rejected additions mixed in, final text %.60s", size, a);
}

/* the same on buffers that hold any text */
static void
rej_json_any(uint64_t idx) {
    (void)idx;
    size_t size = 1U + (size_t)mon_either(4, 300, 24);
    size_t len = mon_chance(1, 2) ? (size - 1U) : (size_t)mon_below(size);
    static const char chars[] = "{}[]\",: \t\\a0";
    char* a = mon_alloc(size, PL_RIGHT, 1);
    mon_fill(a, size, FILL_RANDOM);
    for (size_t i = 0; i < len; ++i) {
        a[i] = mon_chance(1, 12) ? (char)mon_range(1, 255) : chars[mon_below(sizeof(chars) - 1U)];
    }
    a[len] = '\0';
    char t[700];
    size_t tl = (size - len) + (size_t)mon_either(2, 4, 300);
    for (size_t i = 0; i < tl; ++i) {
        t[i] = mon_chance(1, 12) ? (char)mon_range(1, 255) : chars[mon_below(sizeof(chars) - 1U)];
    }
    t[tl] = '\0';
    n_snaps = 0;
    snap(a, len + 1U, "the text");
    bool key = mon_chance(1, 2);
    /* one of the two texts alone fills what is left, so the pair and its punctuation cannot fit */
    bool r = Json_addData(a, size, key ? t : "", key ? "" : t);
    MON_REQUIRE(!r, "not-rejected", "Json_addData succeeded with %zu characters in a buffer of %zu holding %zu", tl, size, len);
    unchanged("Json_addData of a pair that does not fit");
    snap(a, len + 1U, "the text");
    if (len + 1U == size) {
        r = Json_endString(a, size);
        MON_REQUIRE(!r, "not-rejected", "Json_endString succeeded with %zu characters in a buffer of %zu", len, size);
        unchanged("Json_endString without room");
    }
    n_snaps = 0;
    snap(a, len + 1U, "the text");
    size_t cut = (size_t)mon_below(2);
    if (cut <= size) {
        r = Json_startString(a, cut);
        MON_REQUIRE(!r, "not-rejected", "Json_startString succeeded with a stated size of %zu", cut);
        unchanged("Json_startString with a buffer that is too small");
    }
    mon_sig(mon_hash(a, size, tl));
    mon_sample("buffer of %zu holding '%.40s': additions and end refused, nothing changed", size, a);
}

const mon_group mon_groups_cross[] = {
    {"M01", "ops_safe", 40000, 3000000, ops_safe, MON_ASAN_ALSO},
    {"M01", "json_words", 21845, 349525, json_words, MON_EXH},
    {"M01", "b64_grid", 21 * 17, 21 * 17 * 40, b64_grid, MON_EXH},
    {"M02", "ops_writes", 40000, 3000000, ops_writes, 0},
    {"M03", "ops_readonly", 40000, 3000000, ops_readonly, 0},
    {"M05", "rej_queue", 8000, 400000, rej_queue, 0},
    {"M05", "rej_pq", 8000, 400000, rej_pq, 0},
    {"M05", "rej_map", 8000, 400000, rej_map, 0},
    {"M05", "rej_scalar", 256, 2560, rej_scalar, MON_EXH},
    {"M05", "rej_vernam", 6000, 200000, rej_vernam, 0},
    {"M05", "rej_sched", 2000, 50000, rej_sched, 0},
    {"M05", "rej_json", 8000, 400000, rej_json, 0},
    {"M05", "rej_json_any", 20000, 1000000, rej_json_any, 0},
    {"M06", "ops_stale", 30000, 2000000, ops_stale, 0},
    {"M11", "ops_place", 30000, 2000000, ops_place, 0},
    {"M12", "ops_machine", 30000, 2000000, ops_machine, 0},
    {"M08", "ops_digest", 30000, 1500000, ops_digest, MON_ASAN_ALSO},
    MON_END
};
