/* M04: independence of calls on separate data - threads (with the race detector), preemption at every instruction by
 * single-stepping, nested calls from compare functions and tasks, concurrent readers of shared data */
#define _GNU_SOURCE
#include "mon.h"

#include <pthread.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

#include "base64.h"
#include "bit_manipulation.h"
#include "bubble_sort.h"
#include "caesar_cipher.h"
#include "chacha20.h"
#include "crc16_base.h"
#include "crc32_base.h"
#include "crc8_base.h"
#include "crc_variants.h"
#include "heap_sort.h"
#include "insertion_sort.h"
#include "json.h"
#include "map.h"
#include "priority_queue.h"
#include "queue.h"
#include "scheduler.h"
#include "selection_sort.h"
#include "utils.h"
#include "vernam_cipher.h"

/* ------------------------------------------------------------------ jobs: all state in one object */
typedef struct {
    uint64_t seed;
    uint64_t rng;
    unsigned sub;
    size_t n;
    size_t m;
    uint64_t ret;
    uint8_t a[512];
    uint8_t b[512];
    uint8_t c[1100];
    uint32_t w[300];
    Queue_t q;
    PriorityQueue_t pq;
    Map_t map;
    SchedulerTask_t tasks[8];
} jst;

typedef struct {
    const char* name;
    unsigned subs;
    void (*prep)(jst*);
    void (*call)(jst*);
} job;

static uint64_t
jr(jst* s) {
    s->rng += 0x9E3779B97F4A7C15ULL;
    return mon_mix(s->rng);
}

static void
jfill(jst* s, uint8_t* p, size_t n) {
    for (size_t i = 0; i < n; ++i) {
        p[i] = (uint8_t)jr(s);
    }
}

static bool
gt1(void* a, void* b) {
    return *(uint8_t*)a > *(uint8_t*)b;
}
static bool
gt4(void* a, void* b) {
    return memcmp(a, b, 4) > 0;
}
static bool
gt16(void* a, void* b) {
    return memcmp(a, b, 16) > 0;
}
static bool
gt64(void* a, void* b) {
    return memcmp(a, b, 64) > 0;
}
static bool (*const gts[4])(void*, void*) = {gt1, gt4, gt16, gt64};
static const int32_t gt_es[4] = {1, 4, 16, 64};
static void (*const sorts[4])(byte_t*, int32_t, int32_t, bool (*)(void*, void*)) = {BubbleSort_sort, HeapSort_sort, InsertionSort_sort, SelectionSort_sort};

static void
p_sort(jst* s) {
    jfill(s, s->a, sizeof(s->a));
    s->n = 2U + (size_t)(jr(s) % 6U);
}
static void
c_sort(jst* s) {
    unsigned k = s->sub % 4U;
    unsigned e = (s->sub / 4U) % 4U;
    sorts[k](s->a, (int32_t)s->n, gt_es[e], gts[e]);
}

static void
p_bytes(jst* s) {
    jfill(s, s->a, 256);
    s->n = (size_t)(jr(s) % 90U);
}
static void
c_b64(jst* s) {
    s->ret = (uint64_t)(int64_t)Base64_encode((const char*)s->a, s->n, (char*)s->c, 400);
    s->ret = s->ret * 31U + (uint64_t)(int64_t)Base64_decode((const char*)s->c, strlen((const char*)s->c), s->b, 300);
}

static void
p_json(jst* s) {
    s->n = 120U + (size_t)(jr(s) % 300U);
    for (unsigned i = 0; i < 40; ++i) {
        s->a[i] = (uint8_t)('a' + jr(s) % 26U);
    }
}
static void
c_json(jst* s) {
    char k[3][12];
    char* d = (char*)s->c;
    s->ret = Json_startString(d, s->n);
    for (unsigned i = 0; i < 3; ++i) {
        memcpy(k[i], &s->a[i * 5U], 5);
        k[i][5] = '\0';
        s->ret = s->ret * 2U + Json_addData(d, s->n, k[i], (const char*)&k[(i * 2U) % 3U][1U + i]);
        if (i == 0) {
            k[1][1] = '\0';
            k[2][2] = '\0';
        }
    }
    s->ret = s->ret * 2U + Json_endString(d, s->n);
    for (unsigned i = 0; i < 3; ++i) {
        s->ret = s->ret * 2U + Json_findByKey(d, strlen(d), k[i], (char*)&s->b[i * 40U], 40);
    }
}

static void
c_chacha(jst* s) {
    Chacha20_crypt(s->a, (uint32_t)s->n, &s->a[100], &s->a[140], (uint32_t)s->seed, s->b);
}
static void
p_text(jst* s) {
    s->n = (size_t)(jr(s) % 60U);
    for (unsigned i = 0; i < 256; ++i) {
        s->a[i] = (uint8_t)((jr(s) % 4U) ? ('A' + jr(s) % 60U) : (1U + jr(s) % 255U));
    }
    s->a[s->n] = 0;
}
static void
c_caesar(jst* s) {
    if (s->sub == 0) {
        CaesarCipher_encrypt((char*)s->a, (uint8_t)s->seed);
    } else {
        CaesarCipher_decrypt((char*)s->a, (uint8_t)s->seed);
    }
}
static void
c_vernam(jst* s) {
    if (s->sub == 0) {
        s->ret = VernamCipher_encrypt((char*)s->a, (const char*)&s->a[100], (int32_t)s->n);
    } else {
        s->ret = VernamCipher_decrypt((char*)s->a, (const char*)&s->a[100], (int32_t)s->n);
    }
}

static void
p_crc(jst* s) {
    jfill(s, s->a, 256);
    s->n = 1U + (size_t)(jr(s) % 40U);
    s->m = (size_t)jr(s);
    s->w[0] = (uint32_t)jr(s);
}
static void
c_crc(jst* s) {
    s->ret = crc_variants[s->sub % n_crc_variants].fn(s->a, (uint32_t)s->n, (s->m & 1U) != 0, (s->m & 2U) ? (const void*)s->w : NULL);
}
static void
c_engine(jst* s) {
    bool ro = (s->m & 1U) != 0;
    bool ri = (s->m & 2U) != 0;
    bool fx = (s->m & 4U) != 0;
    uint32_t poly = s->w[0];
    if (s->sub == 0) {
        Crc8Base_tableCalculator((uint8_t)poly, s->c);
        s->ret = Crc8Base(s->c, s->a, (uint32_t)s->n, (uint8_t)s->seed, 0x5A, ro, ri, fx);
    } else if (s->sub == 1) {
        Crc16Base_tableCalculator((uint16_t)poly, (uint16_t*)(void*)s->w);
        s->ret = Crc16Base((uint16_t*)(void*)s->w, s->a, (uint32_t)s->n, (uint16_t)s->seed, 0x5AA5, ro, ri, fx);
    } else {
        Crc32Base_tableCalculator(poly, s->w);
        s->ret = Crc32Base(s->w, s->a, (uint32_t)s->n, (uint32_t)s->seed, 0x5AA51234U, ro, ri, fx);
    }
}

static void
p_queue(jst* s) {
    jfill(s, s->a, 256);
    memset(&s->q, 0, sizeof(s->q));
    memset(&s->pq, 0, sizeof(s->pq));
    memset(&s->map, 0, sizeof(s->map));
}
static void
c_queue(jst* s) {
    bool r = Queue_init(&s->q, 3, 5, s->c);
    uint64_t h = r;
    for (unsigned i = 0; i < 12; ++i) {
        if ((s->a[i] & 3U) != 0) {
            h = h * 2U + Queue_enqueue(&s->q, &s->a[i * 5U]);
        } else {
            h = h * 2U + Queue_dequeue(&s->q, &s->b[i * 5U]);
        }
        h = h * 2U + Queue_front(&s->q, &s->b[100]);
        h = h * 2U + Queue_rear(&s->q, &s->b[110]);
        h = h * 2U + Queue_full(&s->q);
        h = mon_mix(h * 2U + Queue_empty(&s->q));
    }
    memset(&s->q, 0, sizeof(s->q)); /* neither addresses nor padding belong to the result */
    s->ret = h;
}
static void
c_pq(jst* s) {
    PriorityQueueItem_t st = {s->w, s->c};
    uint64_t h = PriorityQueue_init(&s->pq, 4, 6, &st);
    for (unsigned i = 0; i < 12; ++i) {
        if ((s->a[i] & 3U) != 0) {
            uint32_t pr = s->a[i] & 7U;
            PriorityQueueItem_t it = {&pr, &s->a[i * 5U]};
            h = h * 2U + PriorityQueue_enqueue(&s->pq, &it);
        } else {
            h = h * 2U + PriorityQueue_dequeue(&s->pq, &s->b[i * 6U]);
        }
        h = mon_mix(h * 2U + PriorityQueue_empty(&s->pq));
    }
    memset(&s->pq, 0, sizeof(s->pq));
    s->ret = h;
}
static void
c_map(jst* s) {
    uint64_t h = Map_init(&s->map, s->c, s->b, 2, 7, 4);
    for (unsigned i = 0; i < 14; ++i) {
        uint8_t k[2] = {(uint8_t)(s->a[i] & 3U), (uint8_t)((s->a[i] >> 2) & 1U)};
        h = h * 2U + Map_insert(&s->map, k, &s->a[i * 7U]);
        k[1] ^= 1U;
        h = mon_mix(h * 2U + Map_getValue(&s->map, k, (byte_t*)&s->w[i * 2U]));
    }
    memset(&s->map, 0, sizeof(s->map));
    s->ret = h;
}

static __thread uint64_t task_log;
static void
t0(void) {
    task_log = task_log * 5U + 1U;
}
static void
t1(void) {
    task_log = task_log * 5U + 2U;
}
static void
t2(void) {
    task_log = task_log * 5U + 3U;
}
static void
c_sched(jst* s) {
    static void (*const ts[3])(void) = {t0, t1, t2};
    uint64_t keep = task_log;
    Scheduler_init(s->tasks, 8);
    for (unsigned i = 0; i < 9; ++i) {
        SchedulerTask_t n = {ts[s->a[i] % 3U], (s->a[i] & 8U) != 0};
        s->ret = s->ret * 2U + Scheduler_addTask(s->tasks, 8, &n);
    }
    task_log = 1;
    Scheduler_run(s->tasks, 8);
    s->ret = mon_mix(s->ret ^ task_log);
    task_log = keep;
    memset(s->tasks, 0, sizeof(s->tasks));
}

static void
c_utils(jst* s) {
    uint64_t h = 0;
    uint32_t o = 0;
    char d[11];
    for (unsigned i = 0; i < 10; ++i) {
        d[i] = (char)('0' + s->a[i] % 10U);
    }
    if (s->sub == 0) {
        h = Utils_stringToUint32(d, (uint8_t)(1U + s->a[20] % 10U), &o);
        h = mon_mix(h ^ o);
        h = h * 2U + Utils_quickUint32Pow10(s->a[21] % 11U, &o);
        h = mon_mix(h ^ o);
    } else if (s->sub == 1) {
        Utils_serializeBlobBE(s->b, s->a, 33);
        Utils_deserializeBlobLE(s->b, s->c, 33);
        Utils_serializeBlobLE(&s->b[100], s->a, 31);
        Utils_deserializeBlobBE(&s->b[100], &s->c[100], 31);
        Utils_swapElements(s->b, s->c, 40);
    } else if (s->sub == 2) {
        Utils_serialize8(&s->b[0], s->a[0]);
        Utils_serialize16BE(&s->b[1], (uint16_t)s->w[0]);
        Utils_serialize24BE(&s->b[5], s->w[0]);
        Utils_serialize32BE(&s->b[10], s->w[0]);
        Utils_serialize16LE(&s->b[21], (uint16_t)s->w[0]);
        Utils_serialize24LE(&s->b[25], s->w[0]);
        Utils_serialize32LE(&s->b[30], s->w[0]);
        h = Utils_deserialize8(s->a) + Utils_deserialize16BE(&s->a[1]) + Utils_deserialize24BE(&s->a[4]);
        h = mon_mix(h + Utils_deserialize32BE(&s->a[9]) + Utils_deserialize16LE(&s->a[31]));
        h = mon_mix(h + Utils_deserialize24LE(&s->a[14]) + Utils_deserialize32LE(&s->a[19]));
    } else {
        bool bs = false;
        h = BitManipulation_reflect(s->w[0], (uint8_t)(s->a[0] % 33U));
        h = h * 2U + BitManipulation_bitSet(s->w[0], s->a[1] % 34U, &bs);
        h = mon_mix(h * 2U + bs);
        h = mon_mix(h + BitManipulation_setBit(s->w[0], s->a[1] % 34U, &o) + o);
        h = mon_mix(h + BitManipulation_clearBit(s->w[0], s->a[2] % 34U, &o) + o);
        h = mon_mix(h + BitManipulation_toggleBit(s->w[0], s->a[3] % 34U, &o) + o);
        h = mon_mix(h + BitManipulation_rotl32(s->w[0], s->a[4] % 32U));
        h = h * 8U + (uint64_t)Utils_isAlpha((char)s->a[5]) * 4U + (uint64_t)Utils_isUpperChar((char)s->a[6]) * 2U + Utils_isLowerChar((char)s->a[7]);
    }
    s->ret = h;
}

static const job jobs[] = {
    {"sorting", 16, p_sort, c_sort}, {"Base64", 1, p_bytes, c_b64}, {"JSON", 1, p_json, c_json}, {"ChaCha20", 1, p_bytes, c_chacha}, {"Caesar", 2, p_text, c_caesar},
    {"Vernam", 2, p_text, c_vernam}, {"named CRC", 45, p_crc, c_crc}, {"generic CRC", 3, p_crc, c_engine}, {"queue", 1, p_queue, c_queue}, {"priority queue", 1, p_queue, c_pq},
    {"map", 1, p_queue, c_map}, {"scheduler", 1, p_queue, c_sched}, {"utils", 4, p_crc, c_utils}
};
#define N_JOBS (sizeof(jobs) / sizeof(jobs[0]))
#define MAX_KINDS 96
static struct { unsigned j, sub; } kinds[MAX_KINDS];
static unsigned n_kinds;

static void
kinds_init(void) {
    if (n_kinds > 0) {
        return;
    }
    for (unsigned j = 0; j < N_JOBS; ++j) {
        for (unsigned s = 0; s < jobs[j].subs; ++s) {
            kinds[n_kinds].j = j;
            kinds[n_kinds].sub = s;
            ++n_kinds;
        }
    }
}

static void
job_prep(jst* s, unsigned kind, uint64_t seed) {
    memset(s, 0, sizeof(*s));
    s->seed = seed;
    s->rng = mon_mix(seed);
    s->sub = kinds[kind].sub;
    jobs[kinds[kind].j].prep(s);
}

static uint64_t
job_digest(const jst* s) {
    return mon_hash(s->a, sizeof(s->a) + sizeof(s->b) + sizeof(s->c) + sizeof(s->w), s->ret);
}
_Static_assert(offsetof(jst, w) + sizeof(((jst*)0)->w) - offsetof(jst, a) == 512 + 512 + 1100 + 1200, "contiguous result arrays");

static uint64_t
job_run(jst* s, unsigned kind, uint64_t seed) {
    job_prep(s, kind, seed);
    jobs[kinds[kind].j].call(s);
    return job_digest(s);
}

static const char*
kind_name(unsigned kind, char buf[64]) {
    if (strcmp(jobs[kinds[kind].j].name, "named CRC") == 0) {
        snprintf(buf, 64, "%s", crc_variants[kinds[kind].sub].name);
    } else {
        snprintf(buf, 64, "%s (%u)", jobs[kinds[kind].j].name, kinds[kind].sub);
    }
    return buf;
}

/* ------------------------------------------------------------------ threads, each on its own data */
#define NT 4
static pthread_barrier_t bar;
static unsigned st_rounds;
static uint64_t st_seed;
static bool st_aligned;
static uint64_t st_res[NT][MAX_KINDS];

static unsigned
storm_kind(unsigned t, unsigned r) {
    /* aligned rounds: all threads in the same function at once; otherwise all pairs meet */
    return st_aligned ? (r % n_kinds) : ((r * (2U * t + 1U) + t * 7U) % n_kinds);
}

static void*
storm_thread(void* arg) {
    unsigned t = (unsigned)(uintptr_t)arg;
    jst s;
    for (unsigned r = 0; r < st_rounds; ++r) {
        if (st_aligned) {
            (void)pthread_barrier_wait(&bar);
        } else if (r == 0) {
            (void)pthread_barrier_wait(&bar);
        }
        st_res[t][r] = job_run(&s, storm_kind(t, r), mon_mix(st_seed + t * 1000U + r));
        if (st_aligned) {
            for (unsigned k = 0; k < 3; ++k) {
                uint64_t again = job_run(&s, storm_kind(t, r), mon_mix(st_seed + t * 1000U + r));
                if (again != st_res[t][r]) {
                    st_res[t][r] = ~again;
                }
            }
        }
    }
    return NULL;
}

static void
case_storm(uint64_t idx) {
    kinds_init();
    st_seed = mon_rnd();
    st_aligned = (idx % 3U) != 2U;
    st_rounds = n_kinds;
    pthread_t th[NT];
    if (pthread_barrier_init(&bar, NULL, NT) != 0) {
        mon_harness_error("barrier");
    }
    for (unsigned t = 0; t < NT; ++t) {
        if (pthread_create(&th[t], NULL, storm_thread, (void*)(uintptr_t)t) != 0) {
            mon_harness_error("pthread_create");
        }
    }
    for (unsigned t = 0; t < NT; ++t) {
        pthread_join(th[t], NULL);
    }
    pthread_barrier_destroy(&bar);
    /* alone, afterwards: the first calls of the process were the concurrent ones */
    jst s;
    uint64_t h = 0;
    for (unsigned t = 0; t < NT; ++t) {
        for (unsigned r = 0; r < st_rounds; ++r) {
            uint64_t want = job_run(&s, storm_kind(t, r), mon_mix(st_seed + t * 1000U + r));
            char nb[64];
            MON_REQUIRE(st_res[t][r] == want, "concurrent-result", "%s gave another result while %u threads worked on their own data than alone", kind_name(storm_kind(t, r), nb), NT);
            h = mon_hash_u64(h, want);
        }
    }
    mon_event("concurrent jobs compared with alone", (uint64_t)NT * st_rounds);
    mon_sig(h);
    mon_sample("%u threads, %u jobs each on their own data, %s: results as alone", NT, st_rounds, st_aligned ? "same function at once" : "all functions mixed");
}

/* ------------------------------------------------------------------ concurrent readers of shared data */
typedef struct {
    Queue_t q;
    PriorityQueue_t pq;
    Map_t map;
    SchedulerTask_t tasks[6];
    uint8_t qs[64], ps[64], mk[64], mv[64];
    uint32_t pp[8];
    char doc[300];
    char b64[200];
    uint8_t raw[128];
    uint8_t t8[256];
    uint16_t t16[256];
    uint32_t t32[256];
    uint32_t last;
} shared;
static shared sh;
static uint64_t rd_res[NT];
static unsigned rd_rounds;

static uint64_t
read_all(unsigned salt) {
    uint64_t h = 0;
    uint8_t o[400];
    memset(o, 0, sizeof(o));
    task_log = 1;
    h = h * 2U + Queue_front(&sh.q, o);
    h = h * 2U + Queue_rear(&sh.q, &o[8]);
    h = h * 2U + Queue_full(&sh.q);
    h = h * 2U + Queue_empty(&sh.q);
    h = h * 2U + PriorityQueue_empty(&sh.pq);
    h = mon_hash(o, 20, h);
    for (unsigned k = 0; k < 6; ++k) {
        uint8_t key[2] = {(uint8_t)k, 1};
        h = h * 2U + Map_getValue(&sh.map, key, o);
    }
    h = mon_hash(o, 20, h);
    Scheduler_run(sh.tasks, 6);
    h = mon_mix(h ^ task_log);
    char v[64];
    memset(v, 0, sizeof(v));
    h = h * 2U + Json_findByKey(sh.doc, strlen(sh.doc), "key1", v, sizeof(v));
    h = h * 2U + Json_findByKey(sh.doc, strlen(sh.doc), "nokey", v, sizeof(v));
    h = mon_hash(v, strlen(v), h);
    h = mon_mix(h + (uint64_t)(int64_t)Base64_decode(sh.b64, strlen(sh.b64), o, sizeof(o)));
    h = mon_mix(h + (uint64_t)(int64_t)Base64_encode((const char*)sh.raw, 77, (char*)o, sizeof(o)));
    h = mon_hash(o, 80, h);
    h = mon_mix(h + Crc8Base(sh.t8, sh.raw, 50, 1, 2, true, true, true));
    h = mon_mix(h + Crc16Base(sh.t16, sh.raw, 50, 1, 2, true, true, true));
    h = mon_mix(h + Crc32Base(sh.t32, sh.raw, 50, 1, 2, true, true, true));
    for (unsigned i = 0; i < n_crc_variants; ++i) {
        h = mon_mix(h + crc_variants[i].fn(sh.raw, 30, true, (i & 1U) ? &sh.last : NULL));
    }
    Chacha20_crypt(sh.raw, 100, sh.raw, &sh.raw[40], 7, o);
    h = mon_hash(o, 100, h);
    char m[32];
    memcpy(m, "Message for Vernam", 19);
    h = h * 2U + VernamCipher_encrypt(m, sh.doc, 18);
    h = mon_hash(m, 18, h);
    h = mon_mix(h + Utils_deserialize32BE(sh.raw) + Utils_deserialize32LE(&sh.raw[3]));
    Utils_serializeBlobBE(o, sh.raw, 60);
    Utils_serializeBlobLE(&o[60], sh.raw, 60);
    h = mon_hash(o, 120, h);
    uint32_t num = 0;
    h = h * 2U + Utils_stringToUint32("1234567", 7, &num);
    (void)salt;
    return mon_mix(h + num);
}

static void*
read_thread(void* arg) {
    unsigned t = (unsigned)(uintptr_t)arg;
    (void)pthread_barrier_wait(&bar);
    uint64_t h = read_all(t);
    for (unsigned i = 0; i < rd_rounds; ++i) {
        uint64_t g = read_all(t);
        if (g != h) {
            h = ~h;
            break;
        }
    }
    rd_res[t] = h;
    return NULL;
}

static void
case_readers(uint64_t idx) {
    (void)idx;
    memset(&sh, 0, sizeof(sh));
    mon_fill(sh.raw, sizeof(sh.raw), FILL_RANDOM);
    bool ok = Queue_init(&sh.q, 4, 5, sh.qs);
    PriorityQueueItem_t st = {sh.pp, sh.ps};
    ok = PriorityQueue_init(&sh.pq, 4, 5, &st) && ok;
    ok = Map_init(&sh.map, sh.mk, sh.mv, 2, 9, 5) && ok;
    Scheduler_init(sh.tasks, 6);
    static void (*const ts[3])(void) = {t0, t1, t2};
    for (unsigned i = 0; i < 4; ++i) {
        uint32_t pr = i;
        PriorityQueueItem_t it = {&pr, &sh.raw[i]};
        uint8_t key[2] = {(uint8_t)i, 1};
        SchedulerTask_t n = {ts[i % 3U], i != 2};
        if (i < 3 || mon_chance(1, 2)) {
            ok = Queue_enqueue(&sh.q, &sh.raw[i * 3U]) && ok;
        }
        ok = PriorityQueue_enqueue(&sh.pq, &it) && ok;
        ok = Map_insert(&sh.map, key, &sh.raw[i * 4U]) && ok;
        ok = Scheduler_addTask(sh.tasks, 6, &n) && ok;
    }
    ok = Json_startString(sh.doc, sizeof(sh.doc)) && ok;
    ok = Json_addData(sh.doc, sizeof(sh.doc), "key0", "value0") && ok;
    ok = Json_addData(sh.doc, sizeof(sh.doc), "key1", "value1") && ok;
    ok = Json_endString(sh.doc, sizeof(sh.doc)) && ok;
    ok = (Base64_encode((const char*)sh.raw, 60, sh.b64, sizeof(sh.b64)) == 0) && ok;
    MON_REQUIRE(ok, "reader-setup", "preparing the shared data failed");
    Crc8Base_tableCalculator(0x07, sh.t8);
    Crc16Base_tableCalculator(0x1021, sh.t16);
    Crc32Base_tableCalculator(0x04C11DB7U, sh.t32);
    sh.last = 0x12345678U;
    rd_rounds = MON_TSAN ? 6 : 20;
    pthread_t th[NT];
    (void)pthread_barrier_init(&bar, NULL, NT);
    for (unsigned t = 0; t < NT; ++t) {
        if (pthread_create(&th[t], NULL, read_thread, (void*)(uintptr_t)t) != 0) {
            mon_harness_error("pthread_create");
        }
    }
    for (unsigned t = 0; t < NT; ++t) {
        pthread_join(th[t], NULL);
    }
    pthread_barrier_destroy(&bar);
    uint64_t want = read_all(0);
    for (unsigned t = 0; t < NT; ++t) {
        MON_REQUIRE(rd_res[t] == want, "concurrent-reader", "thread %u of %u reading the same containers, tables and texts got another result than alone", t, NT);
    }
    mon_event("rounds of concurrent read-only calls", (uint64_t)NT * (rd_rounds + 1U));
    mon_sig(want);
    mon_sample("%u threads reading the same queue, map, table, text and CRC tables: results as alone", NT);
}

/* ------------------------------------------------------------------ nested calls */
static unsigned nest_outer, nest_inner;
static uint64_t nest_seed;
static uint64_t nest_want;
static unsigned nest_depth;
static uint64_t nest_calls;
static jst nest_state[6];
static bool nest_on;

static void
nested_work(void) {
    if (!nest_on || (nest_depth >= 3)) {
        return;
    }
    jst* s = &nest_state[nest_depth];
    ++nest_depth;
    uint64_t got = job_run(s, nest_inner, nest_seed);
    --nest_depth;
    ++nest_calls;
    if (got != nest_want) {
        char nb[64];
        mon_fail("nested-result", "%s called from within a compare function or task gave another result than alone", kind_name(nest_inner, nb));
    }
}

static int32_t ng_es;
static bool
nest_gt(void* a, void* b) {
    nested_work();
    return memcmp(a, b, (size_t)ng_es) > 0;
}
static uint64_t nt_log;
static void
nest_task(void) {
    nt_log = nt_log * 3U + 1U;
    nested_work();
}
static SchedulerTask_t inner_tasks[3];
static void
nest_task2(void) {
    nt_log = nt_log * 3U + 2U;
    if (nest_depth < 3) {
        ++nest_depth;
        Scheduler_run(inner_tasks, 3);
        --nest_depth;
    }
}

static uint64_t
nest_run(void) {
    uint64_t h = 0;
    if (nest_outer < 4) {
        uint8_t buf[12 * 16];
        uint64_t r = nest_seed ^ 0x55U;
        ng_es = (int32_t)(1U + (nest_seed >> 3) % 16U);
        for (unsigned i = 0; i < sizeof(buf); ++i) {
            r = mon_mix(r);
            buf[i] = (uint8_t)r;
        }
        sorts[nest_outer](buf, 12, ng_es, nest_gt);
        h = mon_hash(buf, sizeof(buf), 3);
    } else {
        SchedulerTask_t t[5];
        Scheduler_init(inner_tasks, 3);
        Scheduler_init(t, 5);
        SchedulerTask_t a = {nest_task, true};
        SchedulerTask_t b = {nest_task2, true};
        h = h * 2U + Scheduler_addTask(inner_tasks, 3, &a);
        h = h * 2U + Scheduler_addTask(inner_tasks, 3, &a);
        h = h * 2U + Scheduler_addTask(t, 5, &a);
        h = h * 2U + Scheduler_addTask(t, 5, &b);
        h = h * 2U + Scheduler_addTask(t, 5, &a);
        h = h * 2U + Scheduler_addTask(t, 5, &b);
        nt_log = 1;
        Scheduler_run(t, 5);
        h = mon_mix(h + nt_log);
    }
    return h;
}

static void
case_nested(uint64_t idx) {
    kinds_init();
    nest_outer = (unsigned)(idx % 5U);
    nest_inner = (unsigned)((idx / 5U) % n_kinds);
    nest_seed = mon_rnd();
    jst s;
    nest_want = job_run(&s, nest_inner, nest_seed);
    nest_on = false;
    uint64_t want = nest_run();
    nest_on = true;
    nest_calls = 0;
    nest_depth = 0;
    uint64_t got = nest_run();
    nest_on = false;
    char nb[64];
    static const char* const on[] = {"bubble sort", "heap sort", "insertion sort", "selection sort", "a scheduler pass"};
    MON_REQUIRE(got == want, "nested-result", "%s gave another result because %s was called from its callback", on[nest_outer], kind_name(nest_inner, nb));
    mon_event("calls nested inside a callback", nest_calls);
    mon_sig(idx % (5U * n_kinds));
    mon_sample("%s with %s called from its callback %llu times", on[nest_outer], kind_name(nest_inner, nb), (unsigned long long)nest_calls);
}

/* ------------------------------------------------------------------ preemption at any instruction (single-stepping) */
#if defined(__x86_64__) && MON_NATIVE
static volatile uint64_t ss_steps;
static volatile uint64_t ss_at;        /* UINT64_MAX: at every step */
static volatile uint64_t ss_stride;
static volatile uint64_t ss_fired;
static volatile bool ss_bad;
static unsigned ss_kind;
static uint64_t ss_seed;
static uint64_t ss_first;
static volatile bool ss_have;
static jst ss_state;
static uint64_t ss_rip_mix;

static void
on_trap(int sig, siginfo_t* si, void* ucv) {
    (void)sig;
    (void)si;
    ucontext_t* uc = ucv;
    ++ss_steps;
    if ((ss_at == UINT64_MAX) ? ((ss_steps % ss_stride) == 0) : (ss_steps == ss_at)) {
        ++ss_fired;
        ss_rip_mix = mon_mix(ss_rip_mix ^ (uint64_t)(uc->uc_mcontext.gregs[REG_RIP] & 0xFFFFFF));
        uint64_t d = job_run(&ss_state, ss_kind, ss_seed);
        if (!ss_have) {
            ss_have = true;
            ss_first = d;
        } else if (d != ss_first) {
            ss_bad = true;
        }
    }
}

static void __attribute__((noinline))
stepped_call(jst* s, void (*call)(jst*)) {
    __asm__ volatile("pushfq\n\torq $0x100, (%%rsp)\n\tpopfq" ::: "memory", "cc");
    call(s);
    __asm__ volatile("pushfq\n\tandq $~0x100, (%%rsp)\n\tpopfq" ::: "memory", "cc");
}

static void
preempt(unsigned kind, unsigned inner, uint64_t at, uint64_t stride) {
    struct sigaction sa, old;
    memset(&sa, 0, sizeof(sa));
    sa.sa_sigaction = on_trap;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &sa, &old);
    static jst s;
    uint64_t seed = mon_rnd();
    ss_kind = inner;
    ss_seed = mon_rnd();
    ss_steps = 0;
    ss_fired = 0;
    ss_bad = false;
    ss_have = false;
    ss_at = at;
    ss_stride = stride;
    job_prep(&s, kind, seed);
    stepped_call(&s, jobs[kinds[kind].j].call);
    uint64_t got = job_digest(&s);
    sigaction(SIGTRAP, &old, NULL);
    char n1[64], n2[64];
    kind_name(kind, n1);
    kind_name(inner, n2);
    uint64_t want = job_run(&s, kind, seed);
    MON_REQUIRE(got == want, "preempted-result", "%s gave another result because it was preempted by %s (%llu preemptions, at instruction %lld)", n1, n2, (unsigned long long)ss_fired, (long long)at);
    if (ss_have) {
        uint64_t w2 = job_run(&s, inner, ss_seed);
        MON_REQUIRE(!ss_bad && (w2 == ss_first), "preempting-result", "%s gave another result because it ran in the middle of %s than alone", n2, n1);
    }
    mon_event("instructions stepped", ss_steps);
    mon_event("preemptions injected", ss_fired);
    mon_sig(mon_hash_u64(ss_rip_mix, kind * 1000U + inner));
    mon_sample("%s preempted %llu times by %s within %llu instructions", n1, (unsigned long long)ss_fired, n2, (unsigned long long)ss_steps);
}
#define HAVE_STEP 1
#else
#define HAVE_STEP 0
#endif

static void
case_preempt(uint64_t idx) {
    kinds_init();
#if HAVE_STEP
    unsigned kind = (unsigned)(idx % n_kinds);
    uint64_t round = idx / n_kinds;
    /* another kind of the same module, the same kind, or anything */
    unsigned inner = kind;
    if ((round % 3U) == 1U) {
        inner = (unsigned)mon_below(n_kinds);
    } else if ((round % 3U) == 2U) {
        unsigned base = kind - kinds[kind].sub;
        inner = base + (unsigned)mon_below(jobs[kinds[kind].j].subs);
    }
    /* every instruction of the first 1500, or a sample of all */
    preempt(kind, inner, UINT64_MAX, (round == 0) ? 1U : (1U + mon_below(7)));
#else
    mon_event("single-stepping not available in this build", 1);
#endif
}

static void
case_preempt_once(uint64_t idx) {
    kinds_init();
#if HAVE_STEP
    unsigned kind = (unsigned)(idx % n_kinds);
    unsigned inner = mon_chance(2, 3) ? kind : (unsigned)mon_below(n_kinds);
    preempt(kind, inner, 1U + mon_below(mon_chance(1, 2) ? 150 : 1500), 1);
#endif
}

/* the very first call in a process, preempted by the second: lazily built tables and the like */
static void
case_preempt_first(uint64_t idx) {
    kinds_init();
#if HAVE_STEP
    unsigned kind = (unsigned)(idx % n_kinds);
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) {
        mon_harness_error("fork");
    }
    if (p == 0) {
        preempt(kind, kind, UINT64_MAX, 1);
        _exit(0);
    }
    int st = 0;
    if (waitpid(p, &st, 0) != p) {
        mon_harness_error("waitpid");
    }
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 70 || WEXITSTATUS(st) == 78)) {
        _exit(WEXITSTATUS(st));
    }
    char nb[64];
    MON_REQUIRE(WIFEXITED(st) && (WEXITSTATUS(st) == 0), "preempted-crash", "the first call of %s, preempted by the same function, ended with status 0x%x", kind_name(kind, nb), (unsigned)st);
    mon_event("first calls in a fresh process preempted", 1);
    mon_sig(idx);
#else
    (void)idx;
#endif
}

const mon_group mon_groups_thread[] = {
    {"M04", "preempt_first", 79, 79, case_preempt_first, MON_NATIVE_ONLY | MON_EXH | MON_SLOW},
    {"M04", "storm", 240, 6000, case_storm, MON_ASAN_ALSO | MON_SLOW},
    {"M04", "readers", 240, 6000, case_readers, MON_ASAN_ALSO | MON_SLOW},
    {"M04", "nested", 5 * 79 * 6, 5 * 79 * 100, case_nested, MON_EXH},
    {"M04", "preempt", 79 * 9, 79 * 200, case_preempt, MON_NATIVE_ONLY | MON_SLOW},
    {"M04", "preempt_once", 79 * 80, 79 * 1500, case_preempt_once, MON_NATIVE_ONLY | MON_SLOW},
    MON_END
};
