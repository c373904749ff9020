#define _GNU_SOURCE
#include "mon.h"
#include "machine.h"
#include "rng.h"

#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

bool mon_thorough;
uint64_t mon_seed = 1;

extern const mon_group mon_groups_text[], mon_groups_utils[], mon_groups_crc[], mon_groups_cipher[], mon_groups_cont[],
       mon_groups_sort[], mon_groups_json[], mon_groups_cross[], mon_groups_big[], mon_groups_thread[], mon_groups_cost[];
static const mon_group* const all_groups[] = {
    mon_groups_text, mon_groups_utils, mon_groups_crc, mon_groups_cipher, mon_groups_cont,
    mon_groups_sort, mon_groups_json, mon_groups_cross, mon_groups_big, mon_groups_thread, mon_groups_cost
};

/* ================================================================== state shared with the driver */
typedef struct {
    volatile uint64_t idx;
    char group[64];
    volatile uint64_t cases;
} mon_state;
static mon_state local_state;
static mon_state* state = &local_state;

static const char* prop_id = "?";
static const char* known_keys[64];
static unsigned n_known;
static uint64_t known_hits[64];
static sigjmp_buf case_jmp;
static volatile sig_atomic_t in_case;
static const mon_group* cur_group;
static uint64_t cur_idx;
static uint64_t case_digest;
static char note_buf[8][256];
static unsigned n_notes;

uint64_t
mon_cur_idx(void) {
    return cur_idx;
}

static char gin_dump[4096];

static void
gin_save(void) {
    if ((gin != NULL) && (gin_dump[0] != '\0')) {
        int fd = open(gin_dump, O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if ((fd < 0) || (write(fd, gin, gin_n) != (ssize_t)gin_n)) {
            _exit(70);
        }
        close(fd);
    }
}

bool
mon_eq(const void* a, const void* b, size_t n) {
    return (n == 0) || (memcmp(a, b, n) == 0);
}

size_t
mon_diff(const void* a, const void* b, size_t n) {
    const uint8_t* x = a;
    const uint8_t* y = b;
    size_t i;
    for (i = 0; i < n; ++i) {
        if (x[i] != y[i]) {
            break;
        }
    }
    return i;
}

const char*
mon_hex(const void* p, size_t n) {
    static char bufs[4][128];
    static unsigned k;
    char* o = bufs[k++ % 4];
    const uint8_t* b = p;
    size_t m = (n > 48) ? 48 : n;
    size_t i;
    for (i = 0; i < m; ++i) {
        sprintf(&o[2 * i], "%02x", b[i]);
    }
    strcpy(&o[2 * m], (n > m) ? ".." : "");
    return o;
}

/* ================================================================== guarded memory */
#define PAGE 4096UL
#define CANARY_PAGES 2UL /* canary area on both sides for PL_MIDDLE */
#define SMALL_USABLE (64UL * 1024UL)
#define MAX_BLOCKS 512

typedef struct {
    uint8_t* p;
    size_t n;
    uint8_t* usable;    /* start of accessible area (guard pages around) */
    size_t usable_n;
    uint8_t* map;       /* mmap base, own mapping when big */
    size_t map_n;
    bool big;
    bool heap;
    bool sealed;
    uint64_t hash;
    uint8_t canary;
    size_t lo_chk;      /* canary bytes verified below p */
    size_t hi_chk;      /* canary bytes verified above p+n */
} block;
static block blocks[MAX_BLOCKS];
static unsigned n_blocks;

/* small slots are kept mapped and reused */
#define N_SLOTS 96
#define SLOT_GUARD (64UL * 1024UL)
static uint8_t* slot_base;
static unsigned n_slots_used;
#define SLOT_STRIDE (SMALL_USABLE + 2UL * SLOT_GUARD)

static void
slots_init(void) {
    slot_base = mmap(NULL, SLOT_STRIDE * N_SLOTS, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (slot_base == MAP_FAILED) {
        mon_harness_error("mmap of guard slots failed: %s", strerror(errno));
    }
    for (unsigned i = 0; i < N_SLOTS; ++i) {
        if (mprotect(slot_base + i * SLOT_STRIDE + SLOT_GUARD, SMALL_USABLE, PROT_READ | PROT_WRITE) != 0) {
            mon_harness_error("mprotect: %s", strerror(errno));
        }
    }
}

static uint64_t alloc_count;

void*
mon_alloc(size_t n, int place, size_t align) {
    if (n_blocks >= MAX_BLOCKS) {
        mon_harness_error("too many blocks in one case");
    }
    block* b = &blocks[n_blocks++];
    memset(b, 0, sizeof(*b));
    ++alloc_count;
    if (align == 0) {
        align = 1;
    }
    if (place == PL_ANY) {
        place = (mon_rnd() & 1U) ? PL_RIGHT : PL_LEFT;
    }
    b->n = n;
    b->canary = (uint8_t)(0xA5U ^ (uint8_t)(alloc_count * 29U));
#if MON_ASAN
    if (place != PL_MIDDLE) {
        /* exact heap block: redzones on both sides */
        b->heap = true;
        /* every other block without alignment starts at an odd place, with canaries before it */
        uint64_t h = mon_hash_u64(mon_hash_u64(cur_idx, n_blocks), n);
        size_t off = ((align == 1U) && ((h & 16U) != 0U)) ? (size_t)(h & 15U) : 0U;
        b->map = malloc(n + off);
        if (b->map == NULL) {
            mon_harness_error("malloc(%zu)", n);
        }
        b->p = b->map + off;
        b->lo_chk = off;
        memset(b->map, b->canary, off);
        return b->p;
    }
#endif
    size_t slack = 2UL * CANARY_PAGES * PAGE;
    if ((n + slack <= SMALL_USABLE) && (n_slots_used < N_SLOTS)) {
        uint8_t* base = slot_base + (size_t)(n_slots_used++) * SLOT_STRIDE;
        b->usable = base + SLOT_GUARD;
        b->usable_n = SMALL_USABLE;
    } else {
        size_t u = (n + slack + PAGE - 1) / PAGE * PAGE;
        b->map_n = u + 2UL * SLOT_GUARD;
        b->map = mmap(NULL, b->map_n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if ((b->map == MAP_FAILED) || (mprotect(b->map + SLOT_GUARD, u, PROT_READ | PROT_WRITE) != 0)) {
            mon_harness_error("mmap(%zu): %s", b->map_n, strerror(errno));
        }
        b->usable = b->map + SLOT_GUARD;
        b->usable_n = u;
        b->big = true;
    }
    size_t off;
    if (place == PL_RIGHT) {
        off = b->usable_n - n;
        off -= off % align;
    } else if (place == PL_LEFT) {
        off = 0;
    } else {
        off = CANARY_PAGES * PAGE;
        if (align == 1) {
            off += (size_t)mon_below(16);
        }
    }
    b->p = b->usable + off;
    /* canaries: up to two pages on each side within the accessible area */
    b->lo_chk = (off < CANARY_PAGES * PAGE) ? off : (CANARY_PAGES * PAGE);
    size_t above = b->usable_n - off - n;
    b->hi_chk = (above < CANARY_PAGES * PAGE) ? above : (CANARY_PAGES * PAGE);
    if (place != PL_MIDDLE) {
        if (b->lo_chk > 256) {
            b->lo_chk = 256;
        }
        if (b->hi_chk > 256) {
            b->hi_chk = 256;
        }
    }
    memset(b->p - b->lo_chk, b->canary, b->lo_chk);
    memset(b->p + n, b->canary, b->hi_chk);
    return b->p;
}

void*
mon_copy(const void* src, size_t n, int place, size_t align) {
    void* p = mon_alloc(n, place, align);
    if (n > 0) {
        memcpy(p, src, n);
    }
    return p;
}

char*
mon_str(const char* s, int place) {
    return mon_copy(s, strlen(s) + 1U, place, 1);
}

static block*
find_block(const void* p) {
    for (unsigned i = n_blocks; i > 0; --i) {
        if (blocks[i - 1].p == (const uint8_t*)p) {
            return &blocks[i - 1];
        }
    }
    mon_harness_error("unknown block");
}

void
mon_seal(void* p) {
    block* b = find_block(p);
    b->hash = mon_hash(b->p, b->n, 7);
    b->sealed = true;
    if (!b->heap) {
        (void)mprotect(b->usable, b->usable_n, PROT_READ);
    }
}

void
mon_unseal(void* p) {
    block* b = find_block(p);
    if (b->sealed && !b->heap) {
        (void)mprotect(b->usable, b->usable_n, PROT_READ | PROT_WRITE);
    }
    b->sealed = false;
}

void
mon_seal_check(void* p) {
    block* b = find_block(p);
    if (b->sealed && (mon_hash(b->p, b->n, 7) != b->hash)) {
        mon_fail("input-modified", "read-only argument of %zu bytes was modified by the call", b->n);
    }
}

static void
check_canary(const uint8_t* p, size_t n, uint8_t c, const char* side, size_t dist_base, bool up, size_t blk) {
    size_t i;
    for (i = 0; (i < n) && (p[i] == c); ++i) {
    }
    if (i < n) {
        size_t d = up ? (i + 1U) : (dist_base - i);
        mon_fail("stray-write", "byte changed %zu %s a %zu-byte buffer (offset %s%zu): 0x%02x", d, side, blk,
                 up ? "end+" : "start-", up ? i : d, p[i]);
    }
}

void
mon_check_guards(void) {
    for (unsigned i = 0; i < n_blocks; ++i) {
        block* b = &blocks[i];
        if (b->sealed) {
            mon_seal_check(b->p);
        }
        check_canary(b->p - b->lo_chk, b->lo_chk, b->canary, "before", b->lo_chk, false, b->n);
        if (!b->heap) {
            check_canary(b->p + b->n, b->hi_chk, b->canary, "after", 0, true, b->n);
        }
    }
}

void
mon_reset(void) {
    for (unsigned i = 0; i < n_blocks; ++i) {
        block* b = &blocks[i];
        if (b->heap) {
            free(b->map);
        } else if (b->big) {
            (void)munmap(b->map, b->map_n);
        } else if (b->sealed) {
            (void)mprotect(b->usable, b->usable_n, PROT_READ | PROT_WRITE);
        }
    }
    n_blocks = 0;
    n_slots_used = 0;
}

void
mon_uninit(void* p, size_t n) {
#if MON_MSAN
    __msan_allocated_memory(p, n);
#else
    (void)p;
    (void)n;
#endif
}

void
mon_defined(const void* p, size_t n, const char* what) {
#if MON_MSAN
    intptr_t r = __msan_test_shadow(p, n);
    if (r >= 0) {
        __msan_unpoison(p, n);
        mon_fail("uninitialised-output", "byte %ld of %s (%zu bytes) reported as output is uninitialised", (long)r, what, n);
    }
#else
    (void)p;
    (void)n;
    (void)what;
#endif
}

/* ================================================================== reporting */
static void
print_notes(void) {
    for (unsigned i = 0; i < n_notes; ++i) {
        printf("MON-NOTE %s\n", note_buf[i]);
    }
}

void
mon_fail(const char* key, const char* fmt, ...) {
    char msg[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(msg, sizeof(msg), fmt, ap);
    va_end(ap);
    for (unsigned i = 0; i < n_known; ++i) {
        if (strcmp(known_keys[i], key) == 0) {
            ++known_hits[i];
            if (in_case) {
                siglongjmp(case_jmp, 1);
            }
        }
    }
    print_notes();
    gin_save();
    printf("MON-VIOLATION prop=%s group=%s idx=%llu key=%s msg=%s\n", prop_id, cur_group ? cur_group->name : "?",
           (unsigned long long)cur_idx, key, msg);
    fflush(stdout);
    _exit(77);
}

void
mon_harness_error(const char* fmt, ...) {
    va_list ap;
    printf("MON-HARNESS-ERROR group=%s idx=%llu: ", cur_group ? cur_group->name : "?", (unsigned long long)cur_idx);
    va_start(ap, fmt);
    vprintf(fmt, ap);
    va_end(ap);
    printf("\n");
    fflush(stdout);
    _exit(70);
}

void
mon_note(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(note_buf[n_notes < 8 ? n_notes : 7], sizeof(note_buf[0]), fmt, ap);
    va_end(ap);
    if (n_notes < 8) {
        ++n_notes;
    }
}

/* events */
#define MAX_EV 128
static struct { const char* name; uint64_t n; } evs[MAX_EV];
static unsigned n_evs;

void
mon_event(const char* name, uint64_t n) {
    for (unsigned i = 0; i < n_evs; ++i) {
        if ((evs[i].name == name) || (strcmp(evs[i].name, name) == 0)) {
            evs[i].n += n;
            return;
        }
    }
    if (n_evs < MAX_EV) {
        evs[n_evs].name = name;
        evs[n_evs].n = n;
        ++n_evs;
    }
}

/* distinct signatures */
#define SIG_CAP (1UL << 18)
static uint64_t* sigs;
static uint64_t n_sigs;
static uint64_t nontrivial_cases;
static bool case_nontrivial;
static uint64_t n_judged; /* evaluations an oracle judged; a case may make many */

void
mon_sig(uint64_t h) {
    ++n_judged;
    if (!case_nontrivial) {
        case_nontrivial = true;
        ++nontrivial_cases;
    }
    h = mon_hash_u64(h, (uint64_t)(uintptr_t)0 + mon_hash(cur_group->name, strlen(cur_group->name), 3));
    if (h == 0) {
        h = 1;
    }
    if (n_sigs >= SIG_CAP / 2) {
        return;
    }
    uint64_t i = h & (SIG_CAP - 1);
    while ((sigs[i] != 0) && (sigs[i] != h)) {
        i = (i + 1) & (SIG_CAP - 1);
    }
    if (sigs[i] == 0) {
        sigs[i] = h;
        ++n_sigs;
    }
}

static unsigned group_samples;
static unsigned total_samples;
void
mon_sample(const char* fmt, ...) {
    if ((group_samples >= 2) || (total_samples >= 40)) {
        return;
    }
    ++group_samples;
    ++total_samples;
    va_list ap;
    char msg[400];
    va_start(ap, fmt);
    vsnprintf(msg, sizeof(msg), fmt, ap);
    va_end(ap);
    printf("MON-SAMPLE %s#%llu: %s\n", cur_group->name, (unsigned long long)cur_idx, msg);
}

void
mon_digest(uint64_t h) {
    case_digest = mon_hash_u64(case_digest, h);
}

uint64_t
mon_digest_get(void) {
    return case_digest;
}

void
mon_digest_set(uint64_t d) {
    case_digest = d;
}

/* ================================================================== signals */
static volatile uint64_t tick_case;
static volatile unsigned ticks;
static unsigned tick_limit = 30;

static void
put(const char* s) {
    if (write(STDOUT_FILENO, s, strlen(s)) < 0) {
        _exit(70);
    }
}

volatile char mon_watch_syscalls;   /* 1 while a call of the library is running (p_cost.c) */
volatile unsigned mon_ticked;       /* counts the timer's interruptions */

static void
on_tick(int sig) {
    mon_watch_syscalls = 0;
    ++mon_ticked;
    (void)sig;
    unsigned lim = tick_limit;
    if ((cur_group != NULL) && ((cur_group->flags & (MON_SLOW | MON_BIG)) != 0U)) {
        lim *= 4U;
    }
    if (tick_case == state->cases) {
        if (++ticks >= lim) {
            gin_save();
            char buf[256];
            snprintf(buf, sizeof(buf), "\nMON-HANG prop=%s group=%s idx=%llu after %u s of CPU time\n", prop_id, cur_group ? cur_group->name : "?",
                     (unsigned long long)cur_idx, ticks);
            put(buf);
            _exit(78);
        }
    } else {
        tick_case = state->cases;
        ticks = 0;
    }
}

static void
on_crash(int sig, siginfo_t* si, void* uc) {
    mon_watch_syscalls = 0;
    (void)uc;
    char buf[512];
    uint8_t* a = si->si_addr;
    const char* where = "outside every buffer";
    char wbuf[160];
    for (unsigned i = 0; i < n_blocks; ++i) {
        block* b = &blocks[i];
        if (!b->heap && (a >= b->usable - SLOT_GUARD) && (a < b->usable + b->usable_n + SLOT_GUARD)) {
            snprintf(wbuf, sizeof(wbuf), "at offset %ld of a %zu-byte %sbuffer", (long)(a - b->p), b->n, b->sealed ? "read-only " : "");
            where = wbuf;
        }
    }
    for (unsigned i = 0; i < n_notes; ++i) {
        put("\nMON-NOTE ");
        put(note_buf[i]);
    }
    if (in_case == 0) {
        snprintf(buf, sizeof(buf), "\nMON-HARNESS-ERROR signal %d outside a case\n", sig);
        put(buf);
        _exit(70);
    }
    gin_save();
    snprintf(buf, sizeof(buf), "\nMON-VIOLATION prop=%s group=%s idx=%llu key=crash msg=signal %d (%s) %s\n", prop_id, cur_group ? cur_group->name : "?",
             (unsigned long long)cur_idx, sig, strsignal(sig), where);
    put(buf);
    _exit(77);
}

#if MON_ASAN || MON_MSAN || MON_TSAN
extern void __sanitizer_set_death_callback(void (*)(void));
#endif

static void
install_signals(void) {
#if MON_ASAN || MON_MSAN || MON_TSAN
    __sanitizer_set_death_callback(gin_save);
#endif
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sigemptyset(&sa.sa_mask);
    stack_t ss;
    memset(&ss, 0, sizeof(ss));
    ss.ss_size = 1U << 18;
    ss.ss_sp = malloc(ss.ss_size);
    (void)sigaltstack(&ss, NULL);
#if !MON_ASAN
    sa.sa_sigaction = on_crash;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGSEGV, &sa, NULL);
    sigaction(SIGBUS, &sa, NULL);
    sigaction(SIGFPE, &sa, NULL);
    sigaction(SIGILL, &sa, NULL);
    sigaction(SIGABRT, &sa, NULL);
#else
    (void)on_crash;
#endif
    memset(&sa, 0, sizeof(sa));
    sa.sa_handler = on_tick;
    sa.sa_flags = SA_RESTART | SA_ONSTACK;
    sigaction(SIGPROF, &sa, NULL);
    struct itimerval it = {{1, 0}, {1, 0}};
    setitimer(ITIMER_PROF, &it, NULL);
}

/* ================================================================== main */
static void
run_case(const mon_group* g, uint64_t idx) {
    cur_group = g;
    cur_idx = idx;
    state->idx = idx;
    rng_s = mon_mix(mon_seed * 0x100000001B3ULL + mon_mix(idx + mon_hash(g->name, strlen(g->name), 11)));
    case_nontrivial = false;
    n_notes = 0;
    rng_case();
    case_digest = 0;
    if (sigsetjmp(case_jmp, 0) == 0) {
        in_case = 1;
        g->fn(idx);
        mon_check_guards();
    }
    in_case = 0;
    mon_reset();
    ++state->cases;
}

static void
group_count(const mon_group* g, unsigned divisor, unsigned multiplier, uint64_t* n) {
    uint64_t c = mon_thorough ? g->n_thorough : g->n_quick;
    if (!mon_thorough && ((g->flags & (MON_EXH | MON_NATIVE_ONLY | MON_SLOW | MON_SERIAL | MON_BIG)) == 0U)) {
        /* cheap sampled groups: as many more cases as the driver asks for, never beyond the thorough number */
        c = (c * multiplier < g->n_thorough) ? (c * multiplier) : ((c < g->n_thorough) ? g->n_thorough : c);
    }
    if (((g->flags & MON_NATIVE_ONLY) != 0U) && !MON_NATIVE) {
        c = 0;
    }
    if (((g->flags & MON_BIG) != 0U) && !MON_NATIVE) {
        c = 0;
    }
    if (((g->flags & MON_MSAN_ONLY) != 0U) && !MON_MSAN) {
        c = 0;
    }
    if (((g->flags & MON_TSAN_ONLY) != 0U) && !MON_TSAN) {
        c = 0;
    }
    if (((g->flags & (MON_EXH | MON_ASAN_ALSO)) == 0U) && (divisor > 1U)) {
        c = (c + divisor - 1U) / divisor;
    }
    *n = c;
}

/* ------------------------------------------------------------------ guided mode */
#define GIN_HEAD 7U
static const mon_group* guided[64];
static uint64_t guided_done[64];
static unsigned n_guided;
static FILE* digest_out;

static void
guided_find(void) {
    for (size_t s = 0; s < sizeof(all_groups) / sizeof(all_groups[0]); ++s) {
        for (const mon_group* g = all_groups[s]; g->name != NULL; ++g) {
            if ((strcmp(g->prop, prop_id) == 0) && ((g->flags & ~(unsigned)MON_ASAN_ALSO) == 0U) && (n_guided < 64U)) {
                guided[n_guided++] = g;
            }
        }
    }
}

static int
guided_case(const uint8_t* p, size_t n) {
    if ((n < GIN_HEAD) || (n_guided == 0U)) {
        return 0;
    }
    unsigned k = p[0] % n_guided;
    uint32_t idx;
    memcpy(&idx, &p[1], 4);
    const mon_group* g = guided[k];
    uint64_t save = mon_seed;
    mon_seed = 0x100U + p[5] + 256U * p[6];
    gin = p;
    gin_n = n;
    gin_pos = GIN_HEAD;
    run_case(g, idx % g->n_quick);
    mon_seed = save;
    gin = NULL;
    ++guided_done[k];
    if (digest_out != NULL) {
        fwrite(&case_digest, 8, 1, digest_out);
    }
    return 0;
}

static const char* sig_file;
static uint64_t total;

static void
finish(void) {
    for (unsigned i = 0; i < n_guided; ++i) {
        printf("MON-GROUP guided:%s %llu\n", guided[i]->name, (unsigned long long)guided_done[i]);
        total += guided_done[i];
    }
    if (digest_out != NULL) {
        fclose(digest_out);
    }
    if (sig_file != NULL) {
        FILE* f = fopen(sig_file, "wb");
        if (f == NULL) {
            mon_harness_error("signature file");
        }
        for (uint64_t i = 0; i < SIG_CAP; ++i) {
            if (sigs[i] != 0) {
                fwrite(&sigs[i], 8, 1, f);
            }
        }
        fclose(f);
    }
    for (unsigned i = 0; i < n_evs; ++i) {
        printf("MON-EVENT %s %llu\n", evs[i].name, (unsigned long long)evs[i].n);
    }
    for (unsigned i = 0; i < n_known; ++i) {
        if (known_hits[i] > 0) {
            printf("MON-KNOWN %s %llu\n", known_keys[i], (unsigned long long)known_hits[i]);
        }
    }
    printf("MON-DONE cases=%llu nontrivial=%llu judged=%llu\n", (unsigned long long)total, (unsigned long long)nontrivial_cases, (unsigned long long)n_judged);
    fflush(stdout);
}

#ifdef MON_FUZZ
extern int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*cb)(const uint8_t*, size_t));

static void
guided_seeds(const char* dir, uint64_t seed) {
    for (unsigned k = 0; k < n_guided; ++k) {
        for (unsigned i = 0; i < 12U; ++i) {
            char path[4096];
            uint8_t b[256];
            rng_s = mon_mix(seed * 1000U + k * 100U + i);
            size_t n = GIN_HEAD + (size_t)mon_below(i * 20U + 1U);
            for (size_t j = 0; j < n; ++j) {
                b[j] = (uint8_t)mon_rnd();
            }
            b[0] = (uint8_t)k;
            snprintf(path, sizeof(path), "%s/seed-%u-%u", dir, k, i);
            FILE* f = fopen(path, "wb");
            if ((f == NULL) || (fwrite(b, 1, n, f) != n) || (fclose(f) != 0)) {
                mon_harness_error("cannot write %s", path);
            }
        }
    }
}
#endif

/* every file named in the list is one input */
static void
guided_files(const char* list, unsigned shard, unsigned shards) {
    FILE* l = fopen(list, "r");
    if (l == NULL) {
        mon_harness_error("cannot open %s", list);
    }
    char path[4096];
    static uint8_t b[1U << 20];
    for (unsigned i = 0; fgets(path, sizeof(path), l) != NULL; ++i) {
        path[strcspn(path, "\n")] = '\0';
        if (i % shards != shard) {
            continue;
        }
        FILE* f = fopen(path, "rb");
        if (f == NULL) {
            mon_harness_error("cannot open %s", path);
        }
        size_t n = fread(b, 1, sizeof(b), f);
        fclose(f);
        (void)guided_case(b, n);
    }
    fclose(l);
}

int
main(int argc, char** argv) {
    const char* only_group = NULL;
    const char* digest_file = NULL;
    const char* fuzz_dir = NULL;
    const char* input_list = NULL;
    const char* fuzz_args[16];
    unsigned n_fuzz_args = 0;
    const char* state_file = NULL;
    bool have_idx = false;
    bool list = false;
    uint64_t only_idx = 0;
    unsigned shard = 0;
    unsigned shards = 1;
    unsigned divisor = 1;
    unsigned multiplier = 1;
    for (int i = 1; i < argc; ++i) {
        const char* a = argv[i];
        const char* v = (i + 1 < argc) ? argv[i + 1] : "";
        if (strcmp(a, "--prop") == 0) {
            prop_id = v;
            ++i;
        } else if (strcmp(a, "--seed") == 0) {
            mon_seed = strtoull(v, NULL, 10);
            ++i;
        } else if (strcmp(a, "--thorough") == 0) {
            mon_thorough = true;
        } else if (strcmp(a, "--shard") == 0) {
            sscanf(v, "%u/%u", &shard, &shards);
            ++i;
        } else if (strcmp(a, "--div") == 0) {
            divisor = (unsigned)strtoul(v, NULL, 10);
            ++i;
        } else if (strcmp(a, "--mul") == 0) {
            multiplier = (unsigned)strtoul(v, NULL, 10);
            ++i;
        } else if (strcmp(a, "--group") == 0) {
            only_group = v;
            ++i;
        } else if (strcmp(a, "--idx") == 0) {
            have_idx = true;
            only_idx = strtoull(v, NULL, 10);
            ++i;
        } else if (strcmp(a, "--known") == 0) {
            if (n_known < 64) {
                known_keys[n_known++] = v;
            }
            ++i;
        } else if (strcmp(a, "--digests") == 0) {
            digest_file = v;
            ++i;
        } else if (strcmp(a, "--sigs") == 0) {
            sig_file = v;
            ++i;
        } else if (strcmp(a, "--state") == 0) {
            state_file = v;
            ++i;
        } else if (strcmp(a, "--ticks") == 0) {
            tick_limit = (unsigned)strtoul(v, NULL, 10);
            ++i;
        } else if (strcmp(a, "--dump") == 0) {
            snprintf(gin_dump, sizeof(gin_dump), "%s", v);
            ++i;
        } else if (strcmp(a, "--guided") == 0) {
            fuzz_dir = v;
            ++i;
        } else if (strcmp(a, "--inputs") == 0) {
            input_list = v;
            ++i;
        } else if ((strcmp(a, "--fuzz-arg") == 0) && (n_fuzz_args < 12U)) {
            fuzz_args[n_fuzz_args++] = v;
            ++i;
        } else if (strcmp(a, "--dict") == 0) {
            /* "12": a constant (sorted), "+12": a new one, "=74657874": a new string */
            FILE* f = fopen(v, "r");
            char line[128];
            while ((f != NULL) && (fgets(line, sizeof(line), f) != NULL)) {
                if (line[0] == '+') {
                    if (n_rng_fresh < RNG_FRESH) {
                        rng_fresh[n_rng_fresh++] = strtoull(&line[1], NULL, 10);
                    }
                } else if (line[0] == '=') {
                    size_t l = 0;
                    unsigned b;
                    if (n_rng_words < RNG_WORDS) {
                        while ((l < RNG_WORD - 1U) && (sscanf(&line[1U + 2U * l], "%2x", &b) == 1)) {
                            rng_words[n_rng_words][l++] = (char)b;
                        }
                        ++n_rng_words;
                    }
                } else if (n_rng_dict < RNG_DICT) {
                    rng_dict[n_rng_dict++] = strtoull(line, NULL, 10);
                }
            }
            if (f == NULL) {
                mon_harness_error("dictionary %s", v);
            }
            fclose(f);
            ++i;
        } else if (strcmp(a, "--machine") == 0) {
            machine_add(v);
            ++i;
        } else if (strcmp(a, "--list") == 0) {
            list = true;
        } else {
            fprintf(stderr, "bad argument %s\n", a);
            return 70;
        }
    }
    setvbuf(stdout, NULL, _IOLBF, 0);
    if (list) {
        for (size_t s = 0; s < sizeof(all_groups) / sizeof(all_groups[0]); ++s) {
            for (const mon_group* g = all_groups[s]; g->name != NULL; ++g) {
                printf("%s %s %llu %llu %u\n", g->prop, g->name, (unsigned long long)g->n_quick, (unsigned long long)g->n_thorough, g->flags);
            }
        }
        return 0;
    }
    if (state_file != NULL) {
        int fd = open(state_file, O_RDWR | O_CREAT, 0600);
        if ((fd < 0) || (ftruncate(fd, 4096) != 0)) {
            mon_harness_error("state file");
        }
        state = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (state == MAP_FAILED) {
            mon_harness_error("state mmap");
        }
        close(fd);
    }
    sigs = calloc(SIG_CAP, sizeof(uint64_t));
    slots_init();
    install_signals();
    digest_out = (digest_file != NULL) ? fopen(digest_file, "wb") : NULL;
    if (input_list != NULL) {
        guided_find();
        guided_files(input_list, shard, shards);
        finish();
        return 0;
    }
#ifdef MON_FUZZ
    if (fuzz_dir != NULL) {
        guided_find();
        guided_seeds(fuzz_dir, mon_seed * 64U + shard);
        char* fa[20];
        int n = 0;
        fa[n++] = argv[0];
        for (unsigned i = 0; i < n_fuzz_args; ++i) {
            fa[n++] = (char*)fuzz_args[i];
        }
        fa[n++] = (char*)fuzz_dir;
        fa[n] = NULL;
        char** fav = fa;
        if (atexit(finish) != 0) {
            mon_harness_error("atexit");
        }
        return LLVMFuzzerRunDriver(&n, &fav, guided_case);
    }
#else
    (void)fuzz_args;
    (void)fuzz_dir;
#endif
    unsigned turn = 0;  /* cases that take long start with another process in each group */
    for (size_t s = 0; s < sizeof(all_groups) / sizeof(all_groups[0]); ++s) {
        for (const mon_group* g = all_groups[s]; g->name != NULL; ++g) {
            if ((strcmp(g->prop, prop_id) != 0) || ((only_group != NULL) && (strcmp(g->name, only_group) != 0))) {
                continue;
            }
            uint64_t n;
            group_count(g, divisor, multiplier, &n);
            group_samples = 0;
            snprintf(state->group, sizeof(state->group), "%s", g->name);
            uint64_t done = 0;
            if (have_idx) {
                run_case(g, only_idx);
                done = 1;
                if (digest_out != NULL) {
                    fwrite(&case_digest, 8, 1, digest_out);
                }
            } else if (((g->flags & MON_SERIAL) == 0U) || (shard == 0)) {
                uint64_t step = ((g->flags & MON_SERIAL) != 0U) ? 1 : shards;
                uint64_t from = ((g->flags & MON_SERIAL) != 0U) ? 0 : shard;
                if (((g->flags & (MON_BIG | MON_SLOW)) != 0U) && ((g->flags & MON_SERIAL) == 0U)) {
                    from = (shard + shards - turn % shards) % shards;
                    turn += (unsigned)((n < shards) ? n : shards);
                }
                for (uint64_t i = from; i < n; i += step) {
                    run_case(g, i);
                    ++done;
                    if (digest_out != NULL) {
                        fwrite(&case_digest, 8, 1, digest_out);
                    }
                }
            }
            total += done;
            printf("MON-GROUP %s %llu\n", g->name, (unsigned long long)done);
        }
    }
    finish();
    return 0;
}
