/* Q01..Q05: queue, priority queue, map, scheduler - model-based online monitors over call histories */
#include "mon.h"

#include <stdlib.h>

#include "map.h"
#include "priority_queue.h"
#include "queue.h"
#include "scheduler.h"

/* element sizes and capacities around every width boundary */
static uint32_t
pick_dim(uint32_t max) {
    static const uint32_t sp[] = {1, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537};
    uint32_t v;
    uint64_t d;
    if (mon_fresh(1, max, &d)) {
        return (uint32_t)d;
    }
    if (mon_chance(1, 2)) {
        v = 1U + (uint32_t)mon_below(12);
    } else if (mon_chance(1, 2)) {
        v = sp[mon_below(sizeof(sp) / sizeof(sp[0]))];
    } else {
        v = 1U + (uint32_t)mon_below(200);
    }
    return (v > max) ? (1U + v % max) : v;
}

static void
pick_dims(uint32_t* cap, uint32_t* es, uint64_t max_total) {
    if (mon_chance(1, 2)) {
        *cap = pick_dim(70000);
        *es = pick_dim((uint32_t)((max_total / *cap) > 0 ? (max_total / *cap) : 1));
    } else {
        *es = pick_dim(70000);
        *cap = pick_dim((uint32_t)((max_total / *es) > 0 ? (max_total / *es) : 1));
    }
}

/* content of element number `tag`: a function of the tag only (recomputable, no copy kept) */
static void
elem_make(uint8_t* p, size_t n, uint64_t tag, uint64_t salt) {
    if (((salt >> 3) & 7U) == 3U) {
        uint64_t x = mon_mix(tag + salt);
        for (size_t i = 0; i < n; ++i) {
            x = x * 0x5851F42D4C957F2DULL + 0x14057B7EF767814FULL;
            p[i] = mon_bias(x >> 8);
        }
        return;
    }
    if (n <= 8) {
        uint64_t v = mon_mix(tag ^ salt);
        if ((salt & 3U) == 0) {
            v = tag; /* counting contents: neighbours differ in few bits */
        }
        memcpy(p, &v, n);
        return;
    }
    uint64_t s = mon_mix(tag * 3U + salt);
    size_t i;
    if ((salt & 7U) == 1U) {
        /* all equal but one byte, at a position depending on the tag */
        memset(p, (int)(salt >> 8), n);
        p[s % n] = (uint8_t)tag;
        p[n - 1] ^= (uint8_t)(tag >> 8);
        return;
    }
    for (i = 0; i + 8 <= n; i += 8) {
        s = s * 0x5851F42D4C957F2DULL + 0x14057B7EF767814FULL;
        memcpy(&p[i], &s, 8);
    }
    for (; i < n; ++i) {
        s = s * 0x5851F42D4C957F2DULL + 0x14057B7EF767814FULL;
        p[i] = (uint8_t)(s >> 40);
    }
}

static void
elem_check(const uint8_t* p, size_t n, uint64_t tag, uint64_t salt, uint8_t* tmp, const char* key, const char* what) {
    elem_make(tmp, n, tag, salt);
    if (!mon_eq(p, tmp, n)) {
        size_t d = mon_diff(p, tmp, n);
        mon_fail(key, "%s returned the wrong element (expected element number %llu of %zu bytes; first wrong byte %zu: 0x%02x instead of 0x%02x)",
                 what, (unsigned long long)tag, n, d, p[d], tmp[d]);
    }
}

/* ================================================================== Q01 queue */
typedef struct {
    Queue_t* q;
    uint32_t cap, es;
    uint8_t* store;
    uint8_t* in;
    uint8_t* out;
    uint8_t* tmp;
    uint64_t salt;
    uint64_t head, tail; /* model: elements head..tail-1 are held */
    uint64_t ops;
    uint64_t hist;
} qctx;

static void
q_setup(qctx* c, uint32_t cap, uint32_t es) {
    memset(c, 0, sizeof(*c));
    c->cap = cap;
    c->es = es;
    int place = mon_chance(1, 2) ? PL_RIGHT : PL_LEFT;
    c->store = mon_alloc((size_t)cap * es, place, 1);
    c->q = mon_alloc(sizeof(Queue_t), PL_MIDDLE, 16);
    c->in = mon_alloc(es, mon_chance(1, 2) ? PL_RIGHT : PL_LEFT, 1);
    c->out = mon_alloc(es, mon_chance(1, 2) ? PL_RIGHT : PL_LEFT, 1);
    c->tmp = mon_alloc(es, PL_LEFT, 1);
    c->salt = mon_rnd();
    if ((uint64_t)cap * es <= 100000U) {
        mon_fill(c->store, (size_t)cap * es, FILL_RANDOM);
    }
    mon_fill(c->q, sizeof(Queue_t), mon_chance(1, 2) ? FILL_RANDOM : FILL_ONES);
    MON_REQUIRE(Queue_init(c->q, cap, es, c->store), "queue-init", "Queue_init(capacity %u, element size %u) failed", cap, es);
}

static void
q_status(qctx* c) {
    uint64_t n = c->tail - c->head;
    bool f = Queue_full(c->q);
    bool e = Queue_empty(c->q);
    MON_REQUIRE(f == (n == c->cap), "queue-full", "Queue_full()=%d with %llu of %u elements held, after %llu operations", f, (unsigned long long)n, c->cap, (unsigned long long)c->ops);
    MON_REQUIRE(e == (n == 0), "queue-empty", "Queue_empty()=%d with %llu of %u elements held, after %llu operations", e, (unsigned long long)n, c->cap, (unsigned long long)c->ops);
}

static bool
q_enqueue(qctx* c) {
    uint64_t n = c->tail - c->head;
    elem_make(c->in, c->es, c->tail, c->salt);
    bool r = Queue_enqueue(c->q, c->in);
    ++c->ops;
    MON_REQUIRE(r == (n < c->cap), "queue-enqueue", "Queue_enqueue()=%d with %llu of %u elements held, after %llu operations", r, (unsigned long long)n, c->cap, (unsigned long long)c->ops);
    if (r) {
        ++c->tail;
    }
    c->hist = c->hist * 5U + 1U;
    /* the queue keeps a copy: what the caller does with its element afterwards is of no consequence */
    c->in[0] ^= 0x5A;
    c->in[c->es - 1] ^= 0x33;
    return r;
}

static bool
q_take(qctx* c, int kind) {
    uint64_t n = c->tail - c->head;
    if (c->es <= 64 || mon_chance(1, 8)) {
        mon_fill(c->out, c->es, FILL_BIASED);
    }
    bool r;
    const char* nm;
    uint64_t want = c->head;
    if (kind == 0) {
        r = Queue_dequeue(c->q, c->out);
        nm = "Queue_dequeue";
    } else if (kind == 1) {
        r = Queue_front(c->q, c->out);
        nm = "Queue_front";
    } else {
        r = Queue_rear(c->q, c->out);
        nm = "Queue_rear";
        want = c->tail - 1U;
    }
    ++c->ops;
    MON_REQUIRE(r == (n > 0), "queue-take", "%s()=%d with %llu of %u elements held, after %llu operations", nm, r, (unsigned long long)n, c->cap, (unsigned long long)c->ops);
    if (r) {
        elem_check(c->out, c->es, want, c->salt, c->tmp, "queue-element", nm);
        if (kind == 0) {
            ++c->head;
        }
        mon_defined(c->out, c->es, "queue output");
    }
    c->hist = c->hist * 5U + 2U + (uint64_t)kind;
    return r;
}

static void
q_drain(qctx* c) {
    while (c->tail > c->head) {
        (void)q_take(c, 0);
    }
    q_status(c);
    (void)q_take(c, 0);
    (void)q_take(c, 1);
    (void)q_take(c, 2);
}

static void
case_queue_history(uint64_t idx) {
    (void)idx;
    uint32_t cap, es;
    pick_dims(&cap, &es, 200000);
    qctx c;
    q_setup(&c, cap, es);
    mon_note("queue capacity %u element size %u", cap, es);
    uint64_t budget = 20000U + 400000U / es; /* element operations bounded by bytes moved */
    uint64_t nops = mon_range(5, mon_chance(1, 6) ? 3000 : 300);
    if (cap > 200) {
        nops += (uint64_t)cap * 2U;
    }
    if (nops * es > 3000000U) {
        nops = 3000000U / es + 10U;
    }
    (void)budget;
    unsigned bias = 2; /* of 4: share of enqueues */
    uint64_t phase = 0;
    uint64_t shape = 0;
    for (uint64_t i = 0; i < nops; ++i) {
        if (phase == 0) {
            static const unsigned bs[] = {1, 2, 3, 0, 4, 2};
            bias = bs[mon_below(6)];
            phase = mon_range(1, (uint64_t)cap * 2U + 4U);
            shape = mon_hash_u64(shape, bias * 1000U + (phase > 100 ? 100 : phase));
        }
        --phase;
        uint64_t k = mon_below(10);
        if (k < 7) {
            if (mon_below(4) < bias) {
                (void)q_enqueue(&c);
            } else {
                (void)q_take(&c, 0);
            }
        } else if (k == 7) {
            (void)q_take(&c, 1);
        } else if (k == 8) {
            (void)q_take(&c, 2);
        } else {
            q_status(&c);
        }
        if ((cap <= 64) || ((i & 63U) == 0)) {
            q_status(&c);
            if ((es <= 16) && ((i & 3U) == 0)) {
                (void)q_take(&c, 1);
                (void)q_take(&c, 2);
            }
        }
    }
    q_drain(&c);
    mon_event("queue operations", c.ops);
    mon_event("queue elements through", c.head);
    mon_sig(mon_hash_u64(mon_hash_u64(mon_hash_u64(7, cap), es), shape));
    mon_sample("queue capacity=%u element_size=%u: %llu operations, %llu elements passed through in order", cap, es, (unsigned long long)c.ops, (unsigned long long)c.head);
    mon_digest(c.hist);
}

/* every enqueue/dequeue word of length 12 for capacities 1..4 */
static void
case_queue_words(uint64_t idx) {
    uint32_t cap = 1U + (uint32_t)(idx / 256U) % 4U;
    uint32_t base = (uint32_t)(idx % 256U) * 16U;
    for (uint32_t w = base; w < base + 16U; ++w) {
        qctx c;
        q_setup(&c, cap, 1U + (uint32_t)(mon_mix(w) % 5U));
        q_status(&c);
        for (unsigned b = 0; b < 12; ++b) {
            if (((w >> b) & 1U) != 0) {
                (void)q_enqueue(&c);
            } else {
                (void)q_take(&c, 0);
            }
            q_status(&c);
            (void)q_take(&c, 1);
            (void)q_take(&c, 2);
        }
        q_drain(&c);
        mon_event("queue operations", c.ops);
        mon_check_guards();
        mon_reset();
    }
    mon_sig(idx);
}

/* large dimensions, more than two full wraps */
static void
case_queue_wide(uint64_t idx) {
    static const uint32_t dims[][2] = {
        {255, 3}, {256, 3}, {257, 3}, {65535, 2}, {65536, 1}, {65537, 3}, {70001, 5}, {131073, 1}, {1000003, 2},
        {3, 255}, {3, 256}, {2, 257}, {5, 65535}, {3, 65536}, {4, 65537}, {1, 1048577}, {1, 1}, {7, 300007},
        {16777217, 1}, {300, 70000}
    };
    uint32_t cap = dims[idx][0];
    uint32_t es = dims[idx][1];
    qctx c;
    q_setup(&c, cap, es);
    mon_note("queue capacity %u element size %u", cap, es);
    for (unsigned round = 0; round < 2; ++round) {
        while (c.tail - c.head < cap) {
            (void)q_enqueue(&c);
        }
        (void)q_enqueue(&c);
        q_status(&c);
        (void)q_take(&c, 1);
        (void)q_take(&c, 2);
        uint64_t leave = (round == 0) ? (cap / 3U) : 0;
        while (c.tail - c.head > leave) {
            (void)q_take(&c, 0);
        }
        q_status(&c);
    }
    q_drain(&c);
    mon_event("queue operations", c.ops);
    mon_sig(mon_hash_u64(cap, es));
    mon_sample("queue capacity=%u element_size=%u filled and drained twice", cap, es);
}

/* one history of more than 2^32 enqueues: no counter inside may wrap visibly */
static void
case_queue_marathon(uint64_t idx) {
    uint32_t cap = (idx == 0) ? 3U : 7U;
    Queue_t q;
    uint8_t store[8];
    if (!Queue_init(&q, cap, 1U, store)) {
        mon_fail("queue-init", "Queue_init(%u,1) failed", cap);
    }
    uint64_t total = ((uint64_t)1 << 32) + 1000U;
    uint64_t deq = 0;
    uint8_t in = 0;
    uint8_t out = 0;
    if (!Queue_enqueue(&q, &in)) {
        mon_fail("queue-enqueue", "enqueue on empty queue failed");
    }
    for (uint64_t i = 1; i < total; ++i) {
        in = (uint8_t)(i * 37U);
        bool a = Queue_enqueue(&q, &in);
        bool b = Queue_dequeue(&q, &out);
        if (!a || !b || (out != (uint8_t)(deq * 37U))) {
            mon_fail("queue-marathon", "capacity %u: after %llu enqueues, enqueue()=%d dequeue()=%d returned element 0x%02x instead of 0x%02x", cap,
                     (unsigned long long)i, a, b, out, (uint8_t)(deq * 37U));
        }
        ++deq;
    }
    mon_event("queue operations", 2U * total);
    mon_sig(cap);
    mon_sample("queue capacity=%u: one history of 2^32+1000 enqueues and dequeues in order", cap);
}

/* ================================================================== Q02 priority queue */
typedef struct {
    uint32_t prio;
    uint64_t tag;
} pqm;

typedef struct {
    PriorityQueue_t* q;
    uint32_t cap, es;
    uint32_t* pstore;
    uint8_t* estore;
    uint32_t* inp;
    uint8_t* in;
    PriorityQueueItem_t* item;
    uint8_t* out;
    uint8_t* tmp;
    uint64_t salt, seq, ops;
    pqm* m;
    uint32_t n;
    uint64_t evictions, rejected, ties;
} pctx;

static pqm* pq_model;
static size_t pq_model_cap;

static void
pq_setup(pctx* c, uint32_t cap, uint32_t es) {
    memset(c, 0, sizeof(*c));
    c->cap = cap;
    c->es = es;
    if (pq_model_cap < cap) {
        free(pq_model);
        pq_model = malloc(sizeof(pqm) * cap);
        pq_model_cap = cap;
    }
    c->m = pq_model;
    int place = mon_chance(1, 2) ? PL_RIGHT : PL_LEFT;
    c->pstore = mon_alloc((size_t)cap * 4U, place, 4);
    c->estore = mon_alloc((size_t)cap * es, place, 1);
    c->q = mon_alloc(sizeof(PriorityQueue_t), PL_MIDDLE, 16);
    c->inp = mon_alloc(4, mon_chance(1, 2) ? PL_RIGHT : PL_LEFT, 4);
    c->in = mon_alloc(es, mon_chance(1, 2) ? PL_RIGHT : PL_LEFT, 1);
    c->item = mon_alloc(sizeof(PriorityQueueItem_t), PL_LEFT, 8);
    c->out = mon_alloc(es, mon_chance(1, 2) ? PL_RIGHT : PL_LEFT, 1);
    c->tmp = mon_alloc(es, PL_LEFT, 1);
    c->salt = mon_rnd();
    mon_fill_any(c->pstore, (size_t)cap * 4U);
    mon_fill_any(c->estore, (size_t)cap * es);
    mon_fill(c->q, sizeof(PriorityQueue_t), FILL_RANDOM);
    PriorityQueueItem_t items = {c->pstore, c->estore};
    MON_REQUIRE(PriorityQueue_init(c->q, cap, es, &items), "pq-init", "PriorityQueue_init(%u,%u) failed", cap, es);
    memset(&items, 0xEE, sizeof(items)); /* the descriptor need not live on */
    c->item->priority = c->inp;
    c->item->element = c->in;
}

static void
pq_status(pctx* c) {
    bool e = PriorityQueue_empty(c->q);
    MON_REQUIRE(e == (c->n == 0), "pq-empty", "PriorityQueue_empty()=%d with %u of %u elements held after %llu operations", e, c->n, c->cap, (unsigned long long)c->ops);
}

static void
pq_enqueue(pctx* c, uint32_t prio) {
    *c->inp = prio;
    elem_make(c->in, c->es, c->seq, c->salt);
    bool want = true;
    uint32_t low = 0;
    if (c->n == c->cap) {
        for (uint32_t i = 1; i < c->n; ++i) {
            if (c->m[i].prio < c->m[low].prio) {
                low = i;
            }
        }
        want = prio > c->m[low].prio;
    }
    bool r = PriorityQueue_enqueue(c->q, c->item);
    ++c->ops;
    if (r != want) {
        mon_fail("pq-enqueue", "PriorityQueue_enqueue(priority %u)=%d with %u of %u held%s%u after %llu operations", prio, r, c->n, c->cap,
                 (c->n == c->cap) ? ", lowest held priority " : ", lowest irrelevant ", (c->n == c->cap) ? c->m[low].prio : 0, (unsigned long long)c->ops);
    }
    if (r) {
        if (c->n == c->cap) {
            memmove(&c->m[low], &c->m[low + 1U], (size_t)(c->n - low - 1U) * sizeof(pqm));
            --c->n;
            ++c->evictions;
        }
        c->m[c->n].prio = prio;
        c->m[c->n].tag = c->seq;
        ++c->n;
        ++c->seq;
    } else {
        ++c->rejected;
    }
    c->in[0] ^= 0x5A;
    *c->inp ^= 0xFFFF0001U;
}

static void
pq_dequeue(pctx* c) {
    if (c->es <= 64) {
        mon_fill(c->out, c->es, FILL_BIASED);
    }
    bool r = PriorityQueue_dequeue(c->q, c->out);
    ++c->ops;
    MON_REQUIRE(r == (c->n > 0), "pq-dequeue", "PriorityQueue_dequeue()=%d with %u of %u held after %llu operations", r, c->n, c->cap, (unsigned long long)c->ops);
    if (r) {
        uint32_t hi = 0;
        for (uint32_t i = 1; i < c->n; ++i) {
            if (c->m[i].prio > c->m[hi].prio) {
                hi = i;
            } else if ((c->m[i].prio == c->m[hi].prio) && (i != hi)) {
                ++c->ties;
            }
        }
        elem_check(c->out, c->es, c->m[hi].tag, c->salt, c->tmp, "pq-order", "PriorityQueue_dequeue");
        memmove(&c->m[hi], &c->m[hi + 1U], (size_t)(c->n - hi - 1U) * sizeof(pqm));
        --c->n;
        mon_defined(c->out, c->es, "priority queue output");
    }
}

static uint32_t
pq_prio(unsigned style, uint64_t i) {
    static const uint32_t edge[] = {0, 1, 2, 0x7FFFFFFFU, 0x80000000U, 0x80000001U, 0xFFFFFFFEU, 0xFFFFFFFFU, 255, 256, 257, 65535, 65536, 65537, 0x00010000U, 0x01000000U};
    switch (style) {
        case 0:
            return (uint32_t)mon_below(3);
        case 1:
            return edge[mon_below(sizeof(edge) / sizeof(edge[0]))];
        case 2:
            return (uint32_t)i;
        case 3:
            return 0xFFFFFFFFU - (uint32_t)i;
        case 4:
            return 5;
        case 5:
            return (uint32_t)mon_below(8) << 29;
        case 6:
            return (uint32_t)mon_below(4) * 256U;
        default:
            return mon_u32();
    }
}

static void
case_pq_history(uint64_t idx) {
    (void)idx;
    uint32_t cap, es;
    pick_dims(&cap, &es, 60000);
    if (cap > 2000) {
        cap = 1U + cap % 2000U;
    }
    pctx c;
    pq_setup(&c, cap, es);
    mon_note("priority queue capacity %u element size %u", cap, es);
    uint64_t nops = mon_range(5, 250);
    if (cap > 60) {
        nops += 3U * (uint64_t)cap;
    }
    unsigned style = (unsigned)mon_below(8);
    uint64_t phase = 0;
    unsigned bias = 2;
    uint64_t shape = style;
    /* every dequeue may shift the whole storage */
    uint64_t cost = nops * cap * es;
    if (cost > 20000000U) {
        nops = 20000000U / ((uint64_t)cap * es) + 6U;
    }
    for (uint64_t i = 0; i < nops; ++i) {
        if (phase == 0) {
            static const unsigned bs[] = {1, 2, 3, 0, 4, 4};
            bias = bs[mon_below(6)];
            phase = mon_range(1, (uint64_t)cap * 2U + 4U);
            if (mon_chance(1, 4)) {
                style = (unsigned)mon_below(8);
            }
            shape = mon_hash_u64(shape, bias * 1000U + style * 100000U + (phase > 100 ? 100 : phase));
        }
        --phase;
        if (mon_below(4) < bias) {
            pq_enqueue(&c, pq_prio(style, i));
        } else {
            pq_dequeue(&c);
        }
        pq_status(&c);
    }
    while (c.n > 0) {
        pq_dequeue(&c);
    }
    pq_dequeue(&c);
    pq_status(&c);
    mon_event("priority queue operations", c.ops);
    mon_event("priority queue evictions", c.evictions);
    mon_event("priority queue refusals when full", c.rejected);
    mon_event("priority ties decided", c.ties);
    mon_sig(mon_hash_u64(mon_hash_u64(mon_hash_u64(7, cap), es), shape));
    mon_sample("priority queue capacity=%u element_size=%u: %llu operations, %llu evictions, %llu refusals", cap, es, (unsigned long long)c.ops, (unsigned long long)c.evictions, (unsigned long long)c.rejected);
}

/* every word over {enqueue p0, p1, p2, dequeue} of length 8, capacities 1..4 */
static void
case_pq_words(uint64_t idx) {
    static const uint32_t pr[4][3] = {{0, 1, 2}, {0, 0x80000000U, 0xFFFFFFFFU}, {5, 6, 7}, {255, 256, 65536}};
    uint32_t cap = 1U + (uint32_t)(idx / 1024U) % 4U;
    uint32_t base = (uint32_t)(idx % 1024U) * 64U;
    const uint32_t* p = pr[mon_below(4)];
    uint32_t es = 1U + (uint32_t)mon_below(4);
    for (uint32_t w = base; w < base + 64U; ++w) {
        pctx c;
        pq_setup(&c, cap, es);
        uint32_t v = w;
        for (unsigned b = 0; b < 8; ++b) {
            uint32_t k = v & 3U;
            v >>= 2;
            if (k < 3) {
                pq_enqueue(&c, p[k]);
            } else {
                pq_dequeue(&c);
            }
            pq_status(&c);
        }
        while (c.n > 0) {
            pq_dequeue(&c);
        }
        pq_dequeue(&c);
        mon_event("priority queue operations", c.ops);
        mon_event("priority queue evictions", c.evictions);
        mon_check_guards();
        mon_reset();
    }
    mon_sig(idx);
}

static void
case_pq_wide(uint64_t idx) {
    static const uint32_t dims[][2] = {{255, 2}, {256, 2}, {257, 2}, {300, 3}, {1025, 1}, {5000, 1}, {3, 65535}, {3, 65536}, {2, 65537}, {1, 1000001}, {17, 4097}, {66000, 1}};
    uint32_t cap = dims[idx][0];
    uint32_t es = dims[idx][1];
    pctx c;
    pq_setup(&c, cap, es);
    mon_note("priority queue capacity %u element size %u", cap, es);
    unsigned style = (unsigned)mon_below(8);
    for (uint32_t i = 0; i < cap; ++i) {
        pq_enqueue(&c, pq_prio(style, i));
    }
    uint32_t extra = (cap > 2000) ? 20 : (cap / 2U + 4U);
    for (uint32_t i = 0; i < extra; ++i) {
        pq_enqueue(&c, pq_prio((unsigned)mon_below(8), cap + i));
        if ((i % 3U) == 0) {
            pq_dequeue(&c);
        }
    }
    uint32_t left = (cap > 2000) ? (c.n - 300U) : 0;
    while (c.n > left) {
        pq_dequeue(&c);
    }
    mon_event("priority queue operations", c.ops);
    mon_sig(mon_hash_u64(cap, es));
}

/* ================================================================== Q03 map */
typedef struct {
    Map_t* m;
    uint32_t ks, vs, cap;
    byte_t* kstore;
    byte_t* vstore;
    byte_t* kin;
    byte_t* vin;
    byte_t* vout;
    uint8_t* tmp;
    uint64_t salt;
    uint32_t npool;
    byte_t* pool;     /* npool keys */
    int64_t* tagv;    /* value tag per pool key, -1 absent */
    uint32_t held;
    uint64_t seq, ops;
} mctx;

static byte_t* map_pool;
static size_t map_pool_n;
static int64_t* map_tags;
static size_t map_tags_n;

static void
map_make_key(mctx* c, uint32_t i) {
    byte_t* k = &c->pool[(size_t)i * c->ks];
    switch (c->salt % 7U) {
        case 6: /* any bytes */
            for (uint32_t b = 0; b < c->ks; ++b) {
                k[b] = ((c->ks <= 64U) && (i < 40U)) ? mon_byte() : mon_bias(mon_rnd());
            }
            break;
        case 0: /* differ in the last bytes only */
            memset(k, 0x41, c->ks);
            for (uint32_t b = 0; (b < 4) && (b < c->ks); ++b) {
                k[c->ks - 1U - b] = (byte_t)(i >> (8U * b));
            }
            break;
        case 1: /* differ in the first bytes only */
            memset(k, 0xFF, c->ks);
            for (uint32_t b = 0; (b < 4) && (b < c->ks); ++b) {
                k[b] = (byte_t)(i >> (8U * b));
            }
            break;
        case 2: /* zero everywhere but one place: differences behind NUL bytes */
            memset(k, 0, c->ks);
            for (uint32_t b = 0; (b < 4) && (b < c->ks); ++b) {
                k[(c->ks / 2U + b) % c->ks] = (byte_t)(i >> (8U * b));
            }
            break;
        case 3: /* text */
            memset(k, 0, c->ks);
            {
                char t[16];
                int n = snprintf(t, sizeof(t), "%u", i);
                /* one style for the whole pool, so that the keys differ */
                if ((uint32_t)snprintf(NULL, 0, "%u", c->npool) <= c->ks) {
                    memcpy(k, t, (size_t)n);
                } else {
                    for (uint32_t b = 0; (b < 4) && (b < c->ks); ++b) {
                        k[b] = (byte_t)(i >> (8U * b));
                    }
                }
            }
            break;
        case 4: /* bit 7 and neighbours */
            for (uint32_t b = 0; b < c->ks; ++b) {
                k[b] = (byte_t)(((i >> (b % 17U)) & 1U) ? 0x80U : 0x00U);
            }
            break;
        default:
            elem_make(k, c->ks, i, c->salt | 7U);
            if (c->ks <= 8) {
                for (uint32_t b = 0; (b < 4) && (b < c->ks); ++b) {
                    k[b] = (byte_t)(i >> (8U * b));
                }
            }
            break;
    }
}

static int
cmp_u64(const void* a, const void* b) {
    uint64_t x = *(const uint64_t*)a;
    uint64_t y = *(const uint64_t*)b;
    return (x > y) - (x < y);
}

/* the keys of the pool differ from each other */
static void
map_make_pool(mctx* c) {
    uint64_t* h = malloc(sizeof(uint64_t) * c->npool);
    for (unsigned attempt = 0; attempt < 2; ++attempt) {
        bool dup = false;
        for (uint32_t i = 0; i < c->npool; ++i) {
            map_make_key(c, i);
            h[i] = mon_hash(&c->pool[(size_t)i * c->ks], c->ks, 5);
        }
        qsort(h, c->npool, sizeof(uint64_t), cmp_u64);
        for (uint32_t i = 1; i < c->npool; ++i) {
            dup = dup || (h[i] == h[i - 1]);
        }
        if (!dup) {
            break;
        }
        if (attempt == 1) {
            mon_harness_error("keys of size %u for a pool of %u are not distinct", c->ks, c->npool);
        }
        c->salt -= c->salt % 7U; /* style 0: always distinct */
    }
    free(h);
}

static void
map_setup(mctx* c, uint32_t ks, uint32_t vs, uint32_t cap, uint32_t npool) {
    memset(c, 0, sizeof(*c));
    c->ks = ks;
    c->vs = vs;
    c->cap = cap;
    if ((ks == 1) && (npool > 256)) {
        npool = 256;
    }
    c->npool = npool;
    c->salt = mon_rnd();
    if (map_pool_n < (size_t)npool * ks) {
        free(map_pool);
        map_pool_n = (size_t)npool * ks;
        map_pool = malloc(map_pool_n);
    }
    if (map_tags_n < npool) {
        free(map_tags);
        map_tags_n = npool;
        map_tags = malloc(sizeof(int64_t) * npool);
    }
    c->pool = map_pool;
    c->tagv = map_tags;
    map_make_pool(c);
    for (uint32_t i = 0; i < npool; ++i) {
        c->tagv[i] = -1;
    }
    int place = mon_chance(1, 2) ? PL_RIGHT : PL_LEFT;
    c->kstore = mon_alloc((size_t)cap * ks, place, 1);
    c->vstore = mon_alloc((size_t)cap * vs, place, 1);
    c->m = mon_alloc(sizeof(Map_t), PL_MIDDLE, 16);
    c->kin = mon_alloc(ks, mon_chance(1, 2) ? PL_RIGHT : PL_LEFT, 1);
    c->vin = mon_alloc(vs, mon_chance(1, 2) ? PL_RIGHT : PL_LEFT, 1);
    c->vout = mon_alloc(vs, mon_chance(1, 2) ? PL_RIGHT : PL_LEFT, 1);
    c->tmp = mon_alloc(vs, PL_LEFT, 1);
    /* left-over keys in the storage must not be found: pre-fill with keys of the pool */
    for (uint32_t i = 0; i < cap; ++i) {
        memcpy(&c->kstore[(size_t)i * ks], &c->pool[(size_t)(i % npool) * ks], ks);
    }
    mon_fill(c->vstore, (size_t)cap * vs, FILL_RUNS);
    mon_fill(c->m, sizeof(Map_t), FILL_RANDOM);
    MON_REQUIRE(Map_init(c->m, c->kstore, c->vstore, (int32_t)ks, (int32_t)vs, (int32_t)cap), "map-init", "Map_init(key %u, value %u, capacity %u) failed", ks, vs, cap);
}

static void
map_get(mctx* c, uint32_t i) {
    memcpy(c->kin, &c->pool[(size_t)i * c->ks], c->ks);
    if (c->vs <= 64) {
        mon_fill(c->vout, c->vs, FILL_BIASED);
    }
    bool r = Map_getValue(c->m, c->kin, c->vout);
    ++c->ops;
    MON_REQUIRE(r == (c->tagv[i] >= 0), "map-lookup", "Map_getValue()=%d for a key that is %s (key number %u, %u of %u keys held, key size %u) after %llu operations", r,
                (c->tagv[i] >= 0) ? "present" : "absent", i, c->held, c->cap, c->ks, (unsigned long long)c->ops);
    if (r) {
        elem_check(c->vout, c->vs, (uint64_t)c->tagv[i], c->salt, c->tmp, "map-value", "Map_getValue");
        mon_defined(c->vout, c->vs, "map output");
    }
}

static void
map_insert(mctx* c, uint32_t i) {
    memcpy(c->kin, &c->pool[(size_t)i * c->ks], c->ks);
    elem_make(c->vin, c->vs, c->seq, c->salt);
    bool want = (c->tagv[i] >= 0) || (c->held < c->cap);
    bool r = Map_insert(c->m, c->kin, c->vin);
    ++c->ops;
    MON_REQUIRE(r == want, "map-insert", "Map_insert()=%d for a key that is %s with %u of %u keys held (key size %u) after %llu operations", r,
                (c->tagv[i] >= 0) ? "present" : "new", c->held, c->cap, c->ks, (unsigned long long)c->ops);
    if (r) {
        if (c->tagv[i] < 0) {
            ++c->held;
        } else {
            mon_event("map overwrites", 1);
        }
        c->tagv[i] = (int64_t)c->seq++;
    } else {
        mon_event("map refusals when full", 1);
    }
    c->kin[0] ^= 0x5A;
    c->vin[0] ^= 0x5A;
}

static void
map_all(mctx* c) {
    for (uint32_t i = 0; i < c->npool; ++i) {
        map_get(c, i);
    }
}

static void
case_map_history(uint64_t idx) {
    (void)idx;
    uint32_t ks = pick_dim(600);
    uint32_t vs = pick_dim(600);
    if (mon_chance(1, 40)) {
        ks = pick_dim(70000);
    }
    if (mon_chance(1, 40)) {
        vs = pick_dim(70000);
    }
    uint32_t cap = pick_dim(150);
    if ((uint64_t)cap * (ks + vs) > 300000U) {
        cap = 300000U / (ks + vs) + 1U;
    }
    uint32_t npool = cap + 1U + (uint32_t)mon_below(cap + 4U);
    mctx c;
    map_setup(&c, ks, vs, cap, npool);
    mon_note("map key size %u value size %u capacity %u", ks, vs, cap);
    uint64_t nops = mon_range(5, 200) + cap;
    if (nops * (ks + vs) > 2000000U) {
        nops = 2000000U / (ks + vs) + cap;
    }
    map_get(&c, 0);
    map_get(&c, c.npool - 1U);
    unsigned mode = (unsigned)mon_below(3);
    for (uint64_t i = 0; i < nops; ++i) {
        uint32_t k = (mode == 0) ? (uint32_t)mon_below(c.npool) : (mode == 1) ? (uint32_t)(i % c.npool) : (uint32_t)mon_below(c.npool < 6 ? c.npool : 6 + i / 4U < c.npool ? 6 + i / 4U : c.npool);
        if (mon_chance(2, 3)) {
            map_insert(&c, k);
            map_get(&c, k);
        } else {
            map_get(&c, k);
        }
        if (((i % 37U) == 36U) && (c.npool * vs < 30000U)) {
            map_all(&c);
        }
    }
    map_all(&c);
    mon_event("map operations", c.ops);
    mon_sig(mon_hash_u64(mon_hash_u64(mon_hash_u64(ks, vs), cap), (c.salt % 7U) * 4U + mode));
    mon_sample("map key_size=%u value_size=%u capacity=%u: %llu operations, %u keys held at the end", ks, vs, cap, (unsigned long long)c.ops, c.held);
}

/* all words of 6 inserts over 4 keys, capacities 1..4, full readback after every step */
static void
case_map_words(uint64_t idx) {
    uint32_t cap = 1U + (uint32_t)(idx / 64U) % 4U;
    uint32_t base = (uint32_t)(idx % 64U) * 64U;
    uint32_t ks = 1U + (uint32_t)mon_below(9);
    uint32_t vs = 1U + (uint32_t)mon_below(9);
    for (uint32_t w = base; w < base + 64U; ++w) {
        mctx c;
        map_setup(&c, ks, vs, cap, 4);
        uint32_t v = w;
        for (unsigned b = 0; b < 6; ++b) {
            map_insert(&c, v & 3U);
            v >>= 2;
            map_all(&c);
        }
        mon_event("map operations", c.ops);
        mon_check_guards();
        mon_reset();
    }
    mon_sig(idx);
}

/* all 256 one-byte keys; all pairs of neighbouring keys differing in exactly one bit of a longer key */
static void
case_map_bits(uint64_t idx) {
    uint32_t ks = (idx == 0) ? 1U : (uint32_t)(idx * 3U - 1U);
    uint32_t nbits = ks * 8U;
    uint32_t n = (ks == 1) ? 256U : (nbits + 1U);
    mctx c;
    map_setup(&c, ks, 4, n, n);
    for (uint32_t i = 0; i < n; ++i) {
        byte_t* k = &c.pool[(size_t)i * ks];
        if (ks == 1) {
            k[0] = (byte_t)i;
        } else {
            memset(k, (int)(idx * 0x55U), ks);
            if (i > 0) {
                k[(i - 1U) / 8U] ^= (byte_t)(1U << ((i - 1U) % 8U));
            }
        }
    }
    for (uint32_t i = 0; i < n; ++i) {
        map_get(&c, i);
        map_insert(&c, i);
    }
    map_all(&c);
    for (uint32_t i = 0; i < n; ++i) {
        map_insert(&c, n - 1U - i);
    }
    map_all(&c);
    mon_event("map operations", c.ops);
    mon_event("map keys differing in one bit told apart", n);
    mon_sig(ks);
}

static void
case_map_wide(uint64_t idx) {
    static const uint32_t dims[][3] = {{2, 1, 257}, {2, 2, 300}, {3, 1, 1000}, {4, 4, 3000}, {256, 4, 40}, {257, 4, 40}, {65536, 2, 4}, {65537, 3, 3}, {4, 65536, 5}, {4, 65537, 5}, {1, 1, 255}, {1, 1, 256}, {8, 8, 6000}, {1000003, 2, 2}, {2, 1000003, 2}};
    mctx c;
    map_setup(&c, dims[idx][0], dims[idx][1], dims[idx][2], dims[idx][2] + ((dims[idx][0] == 1) ? 0U : 3U));
    mon_note("map key size %u value size %u capacity %u", c.ks, c.vs, c.cap);
    for (uint32_t i = 0; i < c.npool; ++i) {
        map_insert(&c, i);
    }
    map_all(&c);
    for (uint32_t i = 0; i < c.npool; i += 7) {
        map_insert(&c, i);
    }
    map_all(&c);
    mon_event("map operations", c.ops);
    mon_sig(idx);
}

/* ================================================================== Q04 scheduler */
#define S_FUNCS 64
#define S_LOG 200000
static uint16_t* s_log;
static uint32_t s_log_n;
static SchedulerTask_t* s_table;
static SchedulerTask_t* s_model;
static uint32_t s_n;
/* script: what function number f does each time it runs */
enum { ACT_NONE, ACT_ACTIVATE, ACT_DEACTIVATE, ACT_CLEAR, ACT_ADD, ACT_SET, ACT_SWAPOUT, ACT_N };
static struct { uint8_t act; uint32_t slot; uint8_t fn; bool active; } s_script[S_FUNCS];
static bool s_dynamic;

static void task_body(unsigned f);
#define T1(n) static void task_##n(void) { task_body(n); }
#define T8(a) T1(a##0) T1(a##1) T1(a##2) T1(a##3) T1(a##4) T1(a##5) T1(a##6) T1(a##7)
T1(0) T1(1) T1(2) T1(3) T1(4) T1(5) T1(6) T1(7) T1(8) T1(9)
T1(10) T1(11) T1(12) T1(13) T1(14) T1(15) T1(16) T1(17) T1(18) T1(19)
T1(20) T1(21) T1(22) T1(23) T1(24) T1(25) T1(26) T1(27) T1(28) T1(29)
T1(30) T1(31) T1(32) T1(33) T1(34) T1(35) T1(36) T1(37) T1(38) T1(39)
T1(40) T1(41) T1(42) T1(43) T1(44) T1(45) T1(46) T1(47) T1(48) T1(49)
T1(50) T1(51) T1(52) T1(53) T1(54) T1(55) T1(56) T1(57) T1(58) T1(59)
T1(60) T1(61) T1(62) T1(63)
#define R10(d) task_##d##0, task_##d##1, task_##d##2, task_##d##3, task_##d##4, task_##d##5, task_##d##6, task_##d##7, task_##d##8, task_##d##9
static void (*const s_funcs[S_FUNCS])(void) = {
    task_0, task_1, task_2, task_3, task_4, task_5, task_6, task_7, task_8, task_9,
    R10(1), R10(2), R10(3), R10(4), R10(5), task_60, task_61, task_62, task_63
};

static int
s_fn_of(void (*f)(void)) {
    for (int i = 0; i < S_FUNCS; ++i) {
        if (s_funcs[i] == f) {
            return i;
        }
    }
    return -1;
}

/* apply a scripted action to a table (used on the real one and on the model alike) */
static void
s_apply(SchedulerTask_t* t, unsigned f, bool real) {
    uint32_t j = s_script[f].slot;
    switch (s_script[f].act) {
        case ACT_ACTIVATE:
            t[j].active = true;
            break;
        case ACT_DEACTIVATE:
            t[j].active = false;
            break;
        case ACT_CLEAR:
            t[j].function = NULL;
            break;
        case ACT_SET:
            t[j].function = s_funcs[s_script[f].fn];
            t[j].active = s_script[f].active;
            break;
        case ACT_ADD:
            if (real) {
                SchedulerTask_t n = {s_funcs[s_script[f].fn], s_script[f].active};
                (void)Scheduler_addTask(t, s_n, &n);
            } else {
                for (uint32_t i = 0; i < s_n; ++i) {
                    if (t[i].function == NULL) {
                        t[i].function = s_funcs[s_script[f].fn];
                        t[i].active = s_script[f].active;
                        break;
                    }
                }
            }
            break;
        default:
            break;
    }
}

static void
task_body(unsigned f) {
    if (s_log_n >= S_LOG) {
        mon_fail("scheduler-extra", "a pass over %u slots made more than %u calls", s_n, S_LOG);
    }
    s_log[s_log_n++] = (uint16_t)f;
    if (s_dynamic) {
        s_apply(s_table, f, true);
    }
}

static void
s_check_table(const char* when) {
    for (uint32_t i = 0; i < s_n; ++i) {
        if ((s_table[i].function != s_model[i].function) || ((s_model[i].function != NULL) && (s_table[i].active != s_model[i].active))) {
            mon_fail("scheduler-table", "%s: slot %u of %u holds function %d active %d, expected function %d active %d", when, i, s_n, s_fn_of(s_table[i].function),
                     s_table[i].active, s_fn_of(s_model[i].function), s_model[i].active);
        }
    }
}

static void
s_pass(void) {
    static uint16_t* want;
    if (want == NULL) {
        want = malloc(S_LOG * sizeof(uint16_t));
    }
    uint32_t nw = 0;
    for (uint32_t i = 0; i < s_n; ++i) {
        if ((s_model[i].function != NULL) && s_model[i].active) {
            unsigned f = (unsigned)s_fn_of(s_model[i].function);
            want[nw++] = (uint16_t)f;
            if (s_dynamic) {
                s_apply(s_model, f, false);
            }
        }
    }
    s_log_n = 0;
    if (!s_dynamic) {
        mon_seal(s_table);
    }
    Scheduler_run(s_table, s_n);
    if (!s_dynamic) {
        mon_seal_check(s_table);
        mon_unseal(s_table);
    }
    for (uint32_t i = 0; (i < nw) || (i < s_log_n); ++i) {
        if ((i >= nw) || (i >= s_log_n) || (want[i] != s_log[i])) {
            mon_fail("scheduler-calls", "a pass over %u slots made %u calls instead of %u; call %u was task %d instead of %d", s_n, s_log_n, nw, i, (i < s_log_n) ? (int)s_log[i] : -1,
                     (i < nw) ? (int)want[i] : -1);
        }
    }
    s_check_table("after a pass");
    mon_event("scheduler passes", 1);
    mon_event("task calls in expected order", nw);
}

static void
s_add(SchedulerTask_t* nt, unsigned f, bool active) {
    mon_unseal(nt);
    nt->function = s_funcs[f];
    nt->active = active;
    mon_seal(nt);
    uint32_t i;
    for (i = 0; (i < s_n) && (s_model[i].function != NULL); ++i) {
    }
    bool r = Scheduler_addTask(s_table, s_n, nt);
    MON_REQUIRE(r == (i < s_n), "scheduler-add", "Scheduler_addTask()=%d with first free slot %u of %u", r, i, s_n);
    if (i < s_n) {
        s_model[i].function = s_funcs[f];
        s_model[i].active = active;
        mon_event("tasks added", 1);
    } else {
        mon_event("additions refused when full", 1);
    }
    s_check_table("after adding a task");
}

static void
s_setup(uint32_t n) {
    if (s_log == NULL) {
        s_log = malloc(S_LOG * sizeof(uint16_t));
    }
    s_n = n;
    s_table = mon_alloc(sizeof(SchedulerTask_t) * n, mon_chance(1, 2) ? PL_RIGHT : PL_LEFT, 16);
    s_model = mon_alloc(sizeof(SchedulerTask_t) * n, PL_LEFT, 16);
    /* the table is in use before initialisation: every slot, or all but some, would call something */
    unsigned holes = mon_chance(1, 2) ? 0 : (unsigned)mon_range(1, 4);
    unsigned idle = mon_chance(1, 2) ? 0 : (unsigned)mon_range(1, 4);
    for (uint32_t i = 0; i < n; ++i) {
        s_table[i].function = mon_chance(holes, 5) ? NULL : s_funcs[i % S_FUNCS];
        s_table[i].active = !mon_chance(idle, 5);
        s_model[i].function = NULL;
        s_model[i].active = false;
    }
    Scheduler_init(s_table, n);
    s_check_table("after initialisation");
    s_dynamic = false;
}

static void
case_sched_history(uint64_t idx) {
    (void)idx;
    uint64_t d;
    uint32_t n = mon_fresh(0, 1200, &d) ? (uint32_t)d : mon_chance(1, 12) ? (uint32_t)mon_below(1200) : (uint32_t)mon_below(20);
    s_setup(n);
    SchedulerTask_t* nt = mon_alloc(sizeof(SchedulerTask_t), PL_ANY, 8);
    memset(nt, 0, sizeof(*nt));
    mon_seal(nt);
    s_pass();
    uint64_t nops = mon_range(3, 60);
    uint64_t shape = n;
    for (uint64_t i = 0; i < nops; ++i) {
        uint64_t k = mon_below(10);
        if ((k < 4) || (n == 0)) {
            uint32_t rep = (n > 30) ? (uint32_t)mon_below(60) : 1U;
            do {
                s_add(nt, (unsigned)mon_below(S_FUNCS), mon_chance(3, 4));
            } while (rep-- > 1);
        } else if (k == 4) {
            uint32_t j = (uint32_t)mon_below(n);
            s_table[j].active = s_model[j].active = true;
        } else if (k == 5) {
            uint32_t j = (uint32_t)mon_below(n);
            s_table[j].active = s_model[j].active = false;
        } else if (k == 6) {
            uint32_t j = (uint32_t)mon_below(n);
            s_table[j].function = s_model[j].function = NULL;
            if (mon_chance(1, 2)) {
                s_table[j].active = s_model[j].active = mon_chance(1, 2);
            }
        } else if (k == 7) {
            uint32_t j = (uint32_t)mon_below(n);
            s_table[j].function = s_model[j].function = s_funcs[mon_below(S_FUNCS)];
        } else {
            s_pass();
        }
        shape = mon_hash_u64(shape, k);
    }
    s_pass();
    s_pass();
    mon_sig(shape);
    mon_sample("task table of %u slots: %llu steps of adding, (de)activating, clearing and passes", n, (unsigned long long)nops);
}

/* tasks that change the table while a pass is running */
static void
case_sched_dynamic(uint64_t idx) {
    (void)idx;
    uint32_t n = 1U + (uint32_t)mon_either(10, 64, 10);
    s_setup(n);
    SchedulerTask_t* nt = mon_alloc(sizeof(SchedulerTask_t), PL_ANY, 8);
    memset(nt, 0, sizeof(*nt));
    mon_seal(nt);
    uint64_t shape = n;
    for (unsigned f = 0; f < S_FUNCS; ++f) {
        s_script[f].act = (uint8_t)(mon_chance(1, 2) ? ACT_NONE : mon_below(ACT_N));
        s_script[f].slot = (uint32_t)mon_below(n);
        s_script[f].fn = (uint8_t)mon_below(S_FUNCS);
        s_script[f].active = mon_chance(3, 4);
    }
    uint32_t fill = (uint32_t)mon_below(n + 1U);
    for (uint32_t i = 0; i < fill; ++i) {
        unsigned f = (unsigned)mon_below(S_FUNCS);
        s_add(nt, f, mon_chance(3, 4));
        shape = mon_hash_u64(shape, s_script[f].act * 64U + s_script[f].slot);
    }
    s_dynamic = true;
    for (unsigned p = 0; p < 4; ++p) {
        s_pass();
    }
    s_dynamic = false;
    mon_event("passes with tasks changing the table", 4);
    mon_sig(shape);
    mon_sample("task table of %u slots whose tasks add, clear and (de)activate tasks during the pass", n);
}

static void
case_sched_wide(uint64_t idx) {
    static const uint32_t dims[] = {255, 256, 257, 1000, 65535, 65536, 65537, 100000};
    uint32_t n = dims[idx];
    s_setup(n);
    for (uint32_t i = 0; i < n; ++i) {
        SchedulerTask_t t = {s_funcs[i % S_FUNCS], (i % 3U) != 0};
        if (n <= 1000) {
            bool r = Scheduler_addTask(s_table, n, &t);
            MON_REQUIRE(r, "scheduler-add", "task %u of %u was refused", i, n);
        } else {
            s_table[i] = t;
        }
        s_model[i] = t;
    }
    s_check_table("after filling the table");
    s_pass();
    for (unsigned k = 0; k < 40; ++k) {
        uint32_t j = (k == 0) ? (n - 1U) : (uint32_t)mon_below(n);
        s_table[j].function = s_model[j].function = NULL;
    }
    s_pass();
    SchedulerTask_t* nt = mon_alloc(sizeof(SchedulerTask_t), PL_ANY, 8);
    memset(nt, 0, sizeof(*nt));
    for (unsigned k = 0; k < 42; ++k) {
        s_add(nt, k, true);
    }
    s_pass();
    mon_sig(n);
}

/* ================================================================== Q05 initialisation */
static const uint32_t cfg_vals[] = {0, 1, 2, 3, 4, 100, 255, 256, 65535, 65536, 65537, 0x00FFFFFFU, 0x01000000U, 0x7FFFFFFFU, 0x80000000U, 0x80000001U, 0xFFFF0000U, 0xFFFFFFFFU};
#define N_CFG (sizeof(cfg_vals) / sizeof(cfg_vals[0]))

static void
case_init_queue(uint64_t idx) {
    uint32_t cap = cfg_vals[idx % N_CFG];
    uint32_t es = cfg_vals[(idx / N_CFG) % N_CFG];
    bool null_buf = (idx / (N_CFG * N_CFG)) % 2U;
    bool ok = (cap != 0) && (es != 0) && !null_buf;
    /* a working queue with some history */
    uint32_t c0 = 1U + (uint32_t)mon_below(6);
    uint32_t e0 = 1U + (uint32_t)mon_below(6);
    qctx c;
    q_setup(&c, c0, e0);
    uint64_t pre = mon_below(12);
    for (uint64_t i = 0; i < pre; ++i) {
        if (mon_chance(2, 3)) {
            (void)q_enqueue(&c);
        } else {
            (void)q_take(&c, 0);
        }
    }
    uint64_t total = (uint64_t)cap * es;
    uint8_t* buf = null_buf ? NULL : mon_alloc(((total > 0) && (total <= 200000U)) ? (size_t)total : 1U, PL_RIGHT, 1);
    bool r = Queue_init(c.q, cap, es, buf);
    MON_REQUIRE(r == ok, "queue-init", "Queue_init(capacity %u, element size %u, buffer %s)=%d", cap, es, null_buf ? "missing" : "present", r);
    if (r) {
        MON_REQUIRE(Queue_empty(c.q) && !Queue_full(c.q), "queue-init-empty", "a queue just initialised (capacity %u, element size %u) reports empty=%d full=%d", cap, es, Queue_empty(c.q), Queue_full(c.q));
        c.cap = cap;
        c.es = es;
        c.head = c.tail = 0;
        if (total <= 200000U) {
            c.in = mon_alloc(es, PL_RIGHT, 1);
            c.out = mon_alloc(es, PL_RIGHT, 1);
            c.tmp = mon_alloc(es, PL_RIGHT, 1);
            (void)q_take(&c, 0);
            (void)q_take(&c, 1);
            (void)q_take(&c, 2);
            for (uint32_t i = 0; i < ((cap < 300) ? (cap + 2U) : 300U); ++i) {
                (void)q_enqueue(&c);
                (void)q_take(&c, 2);
            }
            q_drain(&c);
        }
        mon_event("configurations accepted", 1);
    } else {
        /* the old queue goes on working */
        for (unsigned i = 0; i < 10; ++i) {
            if (mon_chance(1, 2)) {
                (void)q_enqueue(&c);
            } else {
                (void)q_take(&c, 0);
            }
            q_status(&c);
        }
        q_drain(&c);
        mon_event("configurations refused", 1);
    }
    mon_sig(idx);
    mon_sample("Queue_init(capacity %u, element size %u, buffer %s) on a queue in use -> %d", cap, es, null_buf ? "missing" : "present", r);
}

static void
case_init_pq(uint64_t idx) {
    uint32_t cap = cfg_vals[idx % N_CFG];
    uint32_t es = cfg_vals[(idx / N_CFG) % N_CFG];
    bool null_buf = (idx / (N_CFG * N_CFG)) % 2U;
    bool ok = (cap != 0) && (es != 0) && !null_buf;
    pctx c;
    pq_setup(&c, 1U + (uint32_t)mon_below(6), 1U + (uint32_t)mon_below(6));
    uint64_t pre = mon_below(12);
    for (uint64_t i = 0; i < pre; ++i) {
        if (mon_chance(2, 3)) {
            pq_enqueue(&c, pq_prio(0, i));
        } else {
            pq_dequeue(&c);
        }
    }
    uint64_t total = (uint64_t)cap * ((uint64_t)es + 4U);
    bool small = (cap <= 70000U) && (total <= 300000U) && ok;
    PriorityQueueItem_t* items = mon_alloc(sizeof(*items), PL_RIGHT, 8);
    items->priority = mon_alloc(small ? (size_t)cap * 4U : 4U, PL_RIGHT, 4);
    items->element = mon_alloc(small ? (size_t)cap * es : 1U, PL_RIGHT, 1);
    mon_seal(items);
    bool r = PriorityQueue_init(c.q, cap, es, null_buf ? NULL : items);
    MON_REQUIRE(r == ok, "pq-init", "PriorityQueue_init(capacity %u, element size %u, items %s)=%d", cap, es, null_buf ? "missing" : "present", r);
    if (r) {
        MON_REQUIRE(PriorityQueue_empty(c.q), "pq-init-empty", "a priority queue just initialised (capacity %u, element size %u) is not empty", cap, es);
        if (small) {
            c.cap = cap;
            c.es = es;
            c.n = 0;
            if (pq_model_cap < cap) {
                free(pq_model);
                pq_model = malloc(sizeof(pqm) * cap);
                pq_model_cap = cap;
            }
            c.m = pq_model;
            c.in = mon_alloc(es, PL_RIGHT, 1);
            c.out = mon_alloc(es, PL_RIGHT, 1);
            c.tmp = mon_alloc(es, PL_RIGHT, 1);
            c.item->element = c.in;
            pq_dequeue(&c);
            for (uint32_t i = 0; i < ((cap < 300) ? (cap + 3U) : 300U); ++i) {
                pq_enqueue(&c, pq_prio((unsigned)(i % 3U), i));
            }
            while (c.n > 0) {
                pq_dequeue(&c);
            }
            pq_dequeue(&c);
            pq_status(&c);
        }
        mon_event("configurations accepted", 1);
    } else {
        for (unsigned i = 0; i < 10; ++i) {
            if (mon_chance(1, 2)) {
                pq_enqueue(&c, pq_prio(0, i));
            } else {
                pq_dequeue(&c);
            }
            pq_status(&c);
        }
        while (c.n > 0) {
            pq_dequeue(&c);
        }
        mon_event("configurations refused", 1);
    }
    MON_REQUIRE(!PriorityQueue_init(NULL, cap, es, items), "pq-init", "PriorityQueue_init(NULL, %u, %u) succeeded", cap, es);
    mon_sig(idx);
}

static void
case_init_map(uint64_t idx) {
    static const int32_t v[] = {0, 1, 2, 3, 255, 256, 65536, 0x7FFFFFFF, -1, -2, -256, -65536, -0x7FFFFFFF, (-0x7FFFFFFF - 1)};
    const uint64_t nv = sizeof(v) / sizeof(v[0]);
    int32_t ks = v[idx % nv];
    int32_t vs = v[(idx / nv) % nv];
    int32_t cap = v[(idx / (nv * nv)) % nv];
    unsigned missing = (unsigned)mon_below(6);
    mctx c;
    map_setup(&c, 1U + (uint32_t)mon_below(5), 1U + (uint32_t)mon_below(5), 1U + (uint32_t)mon_below(4), 6);
    uint64_t pre = mon_below(8);
    for (uint64_t i = 0; i < pre; ++i) {
        map_insert(&c, (uint32_t)mon_below(6));
    }
    bool pos = (ks > 0) && (vs > 0) && (cap > 0);
    bool ok = pos && (missing != 0) && (missing != 1);
    bool small = pos && ((uint64_t)cap * ((uint64_t)ks + (uint64_t)vs) <= 300000U);
    byte_t* kb = (missing == 0) ? NULL : mon_alloc(small ? (size_t)cap * (size_t)ks : 1U, PL_RIGHT, 1);
    byte_t* vb = (missing == 1) ? NULL : mon_alloc(small ? (size_t)cap * (size_t)vs : 1U, PL_RIGHT, 1);
    bool r = Map_init(c.m, kb, vb, ks, vs, cap);
    MON_REQUIRE(r == ok, "map-init", "Map_init(keys %s, values %s, key size %d, value size %d, capacity %d)=%d", kb ? "present" : "missing", vb ? "present" : "missing", ks, vs, cap, r);
    if (r) {
        mon_event("configurations accepted", 1);
        byte_t* k1 = mon_alloc((ks > 70000) ? 1U : (size_t)ks, PL_RIGHT, 1);
        byte_t* v1 = mon_alloc((vs > 70000) ? 1U : (size_t)vs, PL_RIGHT, 1);
        MON_REQUIRE(!Map_getValue(c.m, k1, v1), "map-init-empty", "a map just initialised returned a value");
        if (small) {
            uint32_t npool = (cap < 40) ? ((uint32_t)cap + 2U) : 40U;
            uint64_t keep_salt = c.salt;
            Map_t* m = c.m;
            mctx d;
            memset(&d, 0, sizeof(d));
            d = c;
            d.ks = (uint32_t)ks;
            d.vs = (uint32_t)vs;
            d.cap = (uint32_t)cap;
            d.npool = npool;
            d.salt = keep_salt;
            d.m = m;
            d.pool = malloc((size_t)npool * (size_t)ks);
            d.tagv = malloc(sizeof(int64_t) * npool);
            d.held = 0;
            map_make_pool(&d);
            for (uint32_t i = 0; i < npool; ++i) {
                d.tagv[i] = -1;
            }
            d.kin = mon_alloc((size_t)ks, PL_RIGHT, 1);
            d.vin = mon_alloc((size_t)vs, PL_RIGHT, 1);
            d.vout = mon_alloc((size_t)vs, PL_RIGHT, 1);
            d.tmp = mon_alloc((size_t)vs, PL_RIGHT, 1);
            map_all(&d);
            for (uint32_t i = 0; i < d.npool; ++i) {
                map_insert(&d, i);
            }
            map_all(&d);
            free(d.pool);
            free(d.tagv);
        }
    } else {
        map_all(&c);
        for (uint32_t i = 0; i < 6; ++i) {
            map_insert(&c, i);
        }
        map_all(&c);
        mon_event("configurations refused", 1);
    }
    mon_sig(idx * 6U + missing);
    mon_sample("Map_init(key size %d, value size %d, capacity %d) on a map in use -> %d", ks, vs, cap, r);
}

static void
case_init_sched(uint64_t idx) {
    uint32_t n = (uint32_t)((idx < 300) ? idx : (idx == 300) ? 65537U : (uint32_t)mon_below(5000));
    s_setup(n);
    s_pass(); /* nothing is called */
    uint32_t k = 0;
    SchedulerTask_t t = {s_funcs[3], true};
    while ((k <= n) && Scheduler_addTask(s_table, n, &t)) {
        ++k;
        if (n > 2000) {
            break;
        }
    }
    MON_REQUIRE((n > 2000) || (k == n), "scheduler-init", "a task table of %u slots just initialised took %u tasks", n, k);
    mon_event("task tables initialised", 1);
    mon_sig(n);
}

/* repeated re-initialisation of objects in use with different dimensions over the same storage */
static void
case_init_reuse(uint64_t idx) {
    (void)idx;
    uint8_t* mem = mon_alloc(4096, PL_RIGHT, 4);
    Queue_t* q = mon_alloc(sizeof(*q), PL_MIDDLE, 16);
    mon_fill(q, sizeof(*q), FILL_RANDOM);
    uint64_t shape = 0;
    qctx c;
    memset(&c, 0, sizeof(c));
    c.q = q;
    c.store = mem;
    c.in = mon_alloc(4096, PL_LEFT, 1);
    c.out = mon_alloc(4096, PL_LEFT, 1);
    c.tmp = mon_alloc(4096, PL_LEFT, 1);
    for (unsigned round = 0; round < 8; ++round) {
        uint32_t cap = 1U + (uint32_t)mon_below(9);
        uint32_t es = 1U + (uint32_t)mon_below(17);
        c.cap = cap;
        c.es = es;
        c.salt = mon_rnd();
        c.head = c.tail = 0;
        MON_REQUIRE(Queue_init(q, cap, es, mem + (4096U - cap * es)), "queue-init", "re-initialisation failed");
        uint64_t n = mon_below(30);
        q_status(&c);
        (void)q_take(&c, (int)mon_below(3));
        for (uint64_t i = 0; i < n; ++i) {
            if (mon_chance(2, 3)) {
                (void)q_enqueue(&c);
            } else {
                (void)q_take(&c, (int)mon_below(3));
            }
            q_status(&c);
        }
        shape = mon_hash_u64(shape, cap * 100U + es);
    }
    mon_event("re-initialisations of a queue in use", 8);
    mon_sig(shape);
}

const mon_group mon_groups_cont[] = {
    {"Q01", "queue_words", 1024, 1024, case_queue_words, MON_EXH},
    {"Q01", "queue_history", 6000, 400000, case_queue_history, 0},
    {"Q01", "queue_wide", 20, 20, case_queue_wide, MON_EXH},
    {"Q01", "queue_marathon", 2, 2, case_queue_marathon, MON_NATIVE_ONLY | MON_SLOW},
    {"Q02", "pq_words", 4096, 4096, case_pq_words, MON_EXH},
    {"Q02", "pq_history", 6000, 400000, case_pq_history, 0},
    {"Q02", "pq_wide", 12, 12, case_pq_wide, MON_EXH | MON_SLOW},
    {"Q03", "map_words", 256, 256, case_map_words, MON_EXH},
    {"Q03", "map_bits", 24, 60, case_map_bits, MON_EXH},
    {"Q03", "map_history", 5000, 300000, case_map_history, 0},
    {"Q03", "map_wide", 15, 15, case_map_wide, MON_EXH | MON_SLOW},
    {"Q04", "sched_history", 8000, 500000, case_sched_history, 0},
    {"Q04", "sched_dynamic", 8000, 500000, case_sched_dynamic, 0},
    {"Q04", "sched_wide", 8, 8, case_sched_wide, MON_EXH | MON_SLOW},
    {"Q05", "init_queue", N_CFG * N_CFG * 2, N_CFG * N_CFG * 2, case_init_queue, MON_EXH},
    {"Q05", "init_pq", N_CFG * N_CFG * 2, N_CFG * N_CFG * 2, case_init_pq, MON_EXH},
    {"Q05", "init_map", 14 * 14 * 14, 14 * 14 * 14 * 10, case_init_map, MON_EXH},
    {"Q05", "init_sched", 320, 2000, case_init_sched, MON_EXH},
    {"Q05", "init_reuse", 2000, 100000, case_init_reuse, 0},
    MON_END
};
