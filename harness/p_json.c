/* J01, J02, J03: JSON builder, lookup, and the Base64 + JSON pipeline */
#include "mon.h"
#include "ref.h"

#include <stdlib.h>

#include "base64.h"
#include "json.h"

/* ------------------------------------------------------------------ text generation */
typedef struct {
    char* p;
    size_t n;
    size_t cap;
} sbuf;

static void
sb_put(sbuf* s, const char* t, size_t n) {
    if (s->n + n + 1U > s->cap) {
        s->cap = (s->n + n + 1U) * 2U;
        s->p = realloc(s->p, s->cap);
    }
    if (n > 0) {
        memcpy(&s->p[s->n], t, n);
    }
    s->n += n;
    s->p[s->n] = '\0';
}

static void
sb_str(sbuf* s, const char* t) {
    sb_put(s, t, strlen(t));
}

/* text needing no JSON escaping, no NUL */
static char*
gen_text(size_t n, int style) {
    char* t = malloc(n + 1U);
    for (size_t i = 0; i < n; ++i) {
        unsigned char c;
        do {
            switch (style) {
                case 0:
                    c = (unsigned char)mon_range('a', 'c');
                    break;
                case 1:
                    c = (unsigned char)mon_range(32, 126);
                    break;
                case 2:
                    c = (unsigned char)"{}[]:, 0truefalsn"[mon_below(17)];
                    break;
                case 3:
                    c = (unsigned char)mon_range(128, 255);
                    break;
                default:
                    c = (unsigned char)mon_range(32, 255);
                    break;
            }
        } while ((c == '"') || (c == '\\') || (c == 0x7F));
        t[i] = (char)c;
    }
    t[n] = '\0';
    mon_overlay(t, n);
    return t;
}

static size_t
gen_len(void) {
    uint64_t d;
    if (mon_chance(1, 8) && mon_fresh(0, 2000, &d)) {
        return (size_t)d;
    }
    switch (mon_below(20)) {
        case 0:
            return mon_len(70000);
        case 1:
        case 2:
            return mon_len(1200);
        case 3:
        case 4:
        case 5:
            return 0;
        default:
            return (size_t)mon_below(14);
    }
}

/* ------------------------------------------------------------------ J01 */
static void
build_history(size_t size, unsigned n_pairs, bool small_text, int place) {
    char* buf = mon_alloc(size, place, 1);
    mon_fill(buf, size, (mon_rnd() & 1U) ? FILL_ONES : FILL_RANDOM);
    sbuf model = {NULL, 0, 0};
    sb_str(&model, "{");
    uint64_t sig = size;
    bool want = (size >= 2U);
    bool got = Json_startString(buf, size);
    MON_REQUIRE(got == want, "start-status", "start with size %zu reported %d", size, got);
    if (!want) {
        mon_check_guards();
        mon_event("start_refused", 1);
        free(model.p);
        return;
    }
    MON_REQUIRE(strcmp(buf, "{") == 0, "start-text", "start left '%.20s'", buf);
    unsigned members = 0;
    for (unsigned k = 0; k < n_pairs; ++k) {
        char* key = gen_text(small_text ? (size_t)mon_below(6) : gen_len(), (int)mon_below(5));
        char* val = gen_text(small_text ? (size_t)mon_below(6) : gen_len(), (int)mon_below(5));
        if (mon_chance(1, 3)) {
            /* aim at the boundary: adjust the value so that the result just fits or just does not */
            size_t used = model.n + (members ? 1U : 0U) + strlen(key) + 5U + 1U;
            if (used <= size + 2U) {
                size_t room = size - ((used > size) ? size : used);
                size_t target = room + (size_t)mon_below(3) - 1U;
                if (target < 200000U) {
                    free(val);
                    val = gen_text(target, (int)mon_below(5));
                }
            }
        }
        char* gk = mon_str(key, PL_RIGHT);
        char* gv = mon_str(val, PL_RIGHT);
        mon_seal(gk);
        mon_seal(gv);
        size_t need = model.n + (members ? 1U : 0U) + strlen(key) + strlen(val) + 5U + 1U;
        want = (need <= size);
        got = Json_addData(buf, size, gk, gv);
        mon_seal_check(gk);
        mon_seal_check(gv);
        MON_REQUIRE(got == want, "add-status", "size %zu, text length %zu, key length %zu, value length %zu (needs %zu with NUL): add reported %d", size, model.n,
                    strlen(key), strlen(val), need, got);
        if (want) {
            if (members) {
                sb_str(&model, ",");
            }
            sb_str(&model, "\"");
            sb_str(&model, key);
            sb_str(&model, "\":\"");
            sb_str(&model, val);
            sb_str(&model, "\"");
            ++members;
            mon_event("add_ok", 1);
        } else {
            mon_event("add_refused", 1);
        }
        MON_REQUIRE(memcmp(buf, model.p, model.n + 1U) == 0, want ? "add-text" : "failed-add-changed-text",
                    "size %zu, %u members, add %s: text differs at %zu, got '%.60s' want '%.60s'", size, members, want ? "ok" : "refused",
                    mon_diff(buf, model.p, model.n + 1U), buf, model.p);
        sig = mon_hash(key, strlen(key), mon_hash(val, strlen(val), sig));
        free(key);
        free(val);
        mon_check_guards();
        if (k > 200) {
            break;
        }
    }
    want = (model.n + 2U <= size);
    got = Json_endString(buf, size);
    MON_REQUIRE(got == want, "end-status", "size %zu, text length %zu: end reported %d", size, model.n, got);
    if (want) {
        sb_str(&model, "}");
        mon_event("end_ok", 1);
    } else {
        mon_event("end_refused", 1);
    }
    MON_REQUIRE(memcmp(buf, model.p, model.n + 1U) == 0, "end-text", "size %zu: final text differs at %zu: '%.60s' want '%.60s'", size,
                mon_diff(buf, model.p, model.n + 1U), buf, model.p);
    mon_check_guards();
    mon_sig(sig);
    mon_sample("size %zu -> %.120s", size, model.p);
    free(model.p);
}

static void
j01_small(uint64_t idx) {
    /* every buffer size 0..79 with several random histories each */
    build_history((size_t)(idx % 80U), (unsigned)mon_range(0, 12), true, (idx / 80U) % 2U ? PL_RIGHT : PL_MIDDLE);
}

static void
j01_random(uint64_t idx) {
    (void)idx;
    size_t size = mon_chance(1, 12) ? mon_len(200000) : mon_len(3000);
    build_history(size, (unsigned)mon_range(1, 25), mon_chance(1, 2), mon_chance(1, 2) ? PL_RIGHT : PL_MIDDLE);
}

static void
j01_restart(uint64_t idx) {
    /* a used buffer can be started again and behaves like a fresh one; sizes stated may be smaller than before */
    (void)idx;
    size_t size = 20U + mon_len(400);
    char* buf = mon_alloc(size, PL_RIGHT, 1);
    mon_fill(buf, size, FILL_RANDOM);
    for (unsigned round = 0; round < 4; ++round) {
        size_t stated = round == 0 ? size : (size_t)mon_range(2, size);
        char* key = gen_text((size_t)mon_below(8), 1);
        char* val = gen_text((size_t)mon_below(12), 1);
        char want[64];
        MON_REQUIRE(Json_startString(buf, stated), "restart", "start with size %zu failed", stated);
        int m = snprintf(want, sizeof(want), "{\"%s\":\"%s\"", key, val);
        bool ok = Json_addData(buf, stated, key, val);
        bool exp = ((size_t)m + 1U <= stated);
        MON_REQUIRE(ok == exp, "restart-add", "size %zu needs %d: add reported %d", stated, m + 1, ok);
        if (!exp) {
            strcpy(want, "{");
        }
        MON_REQUIRE(strcmp(buf, want) == 0, "restart-text", "got '%.50s' want '%s'", buf, want);
        bool e = Json_endString(buf, stated);
        MON_REQUIRE(e == (strlen(want) + 2U <= stated), "restart-end", "end reported %d with size %zu length %zu", e, stated, strlen(want));
        mon_event("restart_rounds", 1);
        mon_sig(mon_hash(want, strlen(want), stated));
        free(key);
        free(val);
    }
}

/* ------------------------------------------------------------------ J02 */
#define MAX_MEM 40
typedef struct {
    char* key;
    char* val;  /* NULL: not a string */
} member;

static void
put_ws(sbuf* s, unsigned mode) {
    unsigned n = 0;
    if (mode == 1) {
        n = (unsigned)mon_below(3);
    } else if (mode == 2) {
        n = (unsigned)mon_below(12);
        if (mon_chance(1, 40)) {
            n = (unsigned)mon_len(mon_chance(1, 64) ? 70000 : 300);
        }
    }
    for (unsigned i = 0; i < n; ++i) {
        sb_put(s, &" \t\r\n"[mon_below(4)], 1);
    }
}

static void
lookup_one(const char* text, size_t size, const member* mem, unsigned n_mem, const char* key, const char* ctx) {
    const char* want = NULL;
    bool present = false;
    for (unsigned i = 0; i < n_mem; ++i) {
        if (strcmp(mem[i].key, key) == 0) {
            present = true;
            want = mem[i].val;
            break;
        }
    }
    size_t vl = (want != NULL) ? strlen(want) : 0;
    size_t cap;
    switch (mon_below(5)) {
        case 0:
            cap = vl;
            break;
        case 1:
            cap = (size_t)mon_below(vl + 2U);
            break;
        case 2:
            cap = vl + 1U + (size_t)mon_below(50);
            break;
        default:
            cap = vl + 1U;
            break;
    }
    char* gk = mon_str(key, PL_RIGHT);
    mon_seal(gk);
    char* out = mon_alloc(cap, mon_chance(1, 2) ? PL_RIGHT : PL_MIDDLE, 1);
    mon_fill(out, cap, FILL_ONES);
    bool got = Json_findByKey(text, size, gk, out, cap);
    mon_seal_check(gk);
    bool exp = (want != NULL) && (vl + 1U <= cap);
    MON_REQUIRE(got == exp, exp ? "find-missed" : "find-wrong", "%s: document %.*s : lookup of '%s' (%s%s, value length %zu, capacity %zu) reported %d%s%.*s", ctx,
                (int)((size < 300U) ? size : 300U), text, key, present ? "present" : "absent", (present && want == NULL) ? ", not a string" : "", vl, cap, got,
                got ? " value " : "", got ? (int)((cap < 40U) ? cap : 40U) : 0, out);
    if (exp) {
        MON_REQUIRE(memcmp(out, want, vl + 1U) == 0, "find-value", "%s: document %.*s : lookup of '%s' gave '%.*s', want '%.60s'", ctx, (int)((size < 300U) ? size : 300U), text,
                    key, (int)((cap < 60U) ? cap : 60U), out, want);
        mon_event("lookup_found", 1);
    } else if (want != NULL) {
        mon_event("lookup_too_small", 1);
    } else if (present) {
        mon_event("lookup_nonstring", 1);
    } else {
        mon_event("lookup_absent", 1);
    }
    mon_check_guards();
}

static char*
derive_key(const member* mem, unsigned n_mem) {
    /* keys related to what the document contains: exact, prefixes, suffixes, infixes, extensions, values, fragments */
    const char* src = "";
    if (n_mem > 0) {
        const member* m = &mem[mon_below(n_mem)];
        src = (mon_chance(1, 3) && (m->val != NULL)) ? m->val : m->key;
    }
    size_t n = strlen(src);
    if (n > 3000) {
        n = 3000;
    }
    char* k = calloc(1, n + 8U);
    memcpy(k, src, n);
    k[n] = '\0';
    switch (mon_below(9)) {
        case 0:
            k[mon_below(n + 1U)] = '\0';
            break;
        case 1: {
            size_t o = (size_t)mon_below(n + 1U);
            memmove(k, &k[o], n + 1U - o);
            break;
        }
        case 2:
            k[n] = (char)mon_range('a', 'c');
            k[n + 1U] = '\0';
            break;
        case 3:
            if (n > 0) {
                k[mon_below(n)] ^= 1;
                if ((strchr(k, '"') != NULL) || (strchr(k, '\\') != NULL)) {
                    k[0] = '\0';
                }
            }
            break;
        case 4:
            memmove(&k[1], k, n + 1U);
            k[0] = (char)mon_range('a', 'c');
            break;
        default:
            break;
    }
    return k;
}

static void
lookup_doc(bool big) {
    member mem[MAX_MEM];
    unsigned n_mem = (unsigned)mon_either(4, MAX_MEM, 6);
    unsigned ws = (unsigned)mon_below(3);
    int kstyle = (int)mon_below(6);
    sbuf doc = {NULL, 0, 0};
    put_ws(&doc, ws);
    sb_str(&doc, "{");
    put_ws(&doc, ws);
    for (unsigned i = 0; i < n_mem; ++i) {
        size_t kl = big ? gen_len() : (size_t)mon_either(6, 20, 5);
        int st = (kstyle == 5) ? (int)mon_below(5) : kstyle;
        if ((i > 0) && mon_chance(1, 10)) {
            mem[i].key = strdup(mem[mon_below(i)].key);     /* duplicate key */
        } else if ((i > 0) && mon_chance(1, 8) && (mem[i - 1].val != NULL)) {
            mem[i].key = strdup(mem[i - 1].val);            /* key equal to an earlier value */
        } else {
            mem[i].key = gen_text(kl, st);
        }
        if (mon_chance(1, 5)) {
            mem[i].val = NULL;
        } else if (mon_chance(1, 4)) {
            mem[i].val = strdup(mem[mon_below(i + 1U)].key); /* value equal to a key */
        } else {
            mem[i].val = gen_text(big ? gen_len() : (size_t)mon_below(8), st);
        }
        if (i > 0) {
            sb_str(&doc, ",");
            put_ws(&doc, ws);
        }
        sb_str(&doc, "\"");
        sb_str(&doc, mem[i].key);
        sb_str(&doc, "\"");
        put_ws(&doc, ws);
        sb_str(&doc, ":");
        put_ws(&doc, ws);
        if (mem[i].val != NULL) {
            sb_str(&doc, "\"");
            sb_str(&doc, mem[i].val);
            sb_str(&doc, "\"");
        } else {
            static const char* const ns[] = {"0", "-12.5e+3", "true", "false", "null", "7", "123456789012345678901234567890"};
            if (mon_chance(1, 4)) {
                /* an array of texts, some of them equal to keys */
                sb_str(&doc, "[");
                unsigned el = (unsigned)mon_below(4);
                for (unsigned e = 0; e < el; ++e) {
                    put_ws(&doc, ws);
                    if (mon_chance(1, 5)) {
                        sb_str(&doc, ns[mon_below(7)]);
                    } else {
                        sb_str(&doc, "\"");
                        sb_str(&doc, mem[mon_below(i + 1U)].key);
                        sb_str(&doc, "\"");
                    }
                    put_ws(&doc, ws);
                    sb_str(&doc, (e + 1U < el) ? "," : "");
                }
                sb_str(&doc, "]");
            } else {
                sb_str(&doc, ns[mon_below(7)]);
            }
        }
        put_ws(&doc, ws);
    }
    sb_str(&doc, "}");
    put_ws(&doc, ws);
    size_t dl = doc.n;
    /* placement: exact without NUL against a guard page, NUL-terminated exact, with stale text after the NUL inside the
     * stated size, or stale text beyond the stated size */
    unsigned lay = (unsigned)mon_below(4);
    char* text;
    size_t size;
    const char* ctx;
    if (lay == 0) {
        text = mon_copy(doc.p, dl, PL_RIGHT, 1);
        size = dl;
        ctx = "unterminated";
    } else if (lay == 1) {
        text = mon_copy(doc.p, dl + 1U, PL_RIGHT, 1);
        size = dl + (mon_rnd() & 1U);
        ctx = "terminated";
    } else {
        sbuf junk = {NULL, 0, 0};
        sb_put(&junk, doc.p, dl);
        if (lay == 2) {
            sb_put(&junk, "\0", 1);
        }
        sb_str(&junk, (mon_rnd() & 1U) ? "\"}," : "");
        for (unsigned i = 0; i < 4; ++i) {
            char* k = derive_key(mem, n_mem);
            sb_str(&junk, ",\"");
            sb_str(&junk, k);
            sb_str(&junk, "\":\"stale\"");
            free(k);
        }
        sb_str(&junk, "}");
        text = mon_copy(junk.p, junk.n + 1U, PL_RIGHT, 1);
        size = (lay == 2) ? junk.n + 1U : dl;
        ctx = (lay == 2) ? "stale text after NUL" : "stale text after stated size";
        free(junk.p);
    }
    mon_seal(text);
    unsigned lookups = 0;
    for (unsigned i = 0; i < 12; ++i) {
        char* key;
        if ((i < n_mem) && (i < 6)) {
            key = strdup(mem[mon_below(n_mem)].key);
        } else if (mon_chance(1, 5)) {
            key = gen_text((size_t)mon_below(5), (int)mon_below(5));
        } else if (mon_chance(1, 15)) {
            key = gen_text(dl + (size_t)mon_below(4), 0);
        } else {
            key = derive_key(mem, n_mem);
        }
        lookup_one(text, size, mem, n_mem, key, ctx);
        ++lookups;
        free(key);
    }
    mon_event("documents", 1);
    if (n_mem > 0) {
        mon_sig(mon_hash(doc.p, dl, lay));
    }
    mon_sample("%s, %u members, %u lookups: %.160s", ctx, n_mem, lookups, doc.p);
    for (unsigned i = 0; i < n_mem; ++i) {
        free(mem[i].key);
        free(mem[i].val);
    }
    free(doc.p);
}

static void
j02_small(uint64_t idx) {
    (void)idx;
    lookup_doc(false);
}

static void
j02_big(uint64_t idx) {
    (void)idx;
    lookup_doc(true);
}

/* systematic: documents of two members whose keys and values come from a tiny set, every key of the set looked up */
static void
j02_systematic(uint64_t idx) {
    static const char* const al[] = {"", "a", "b", "aa", "ab", "a:", ":", ",", "{", "}", " ", "a "};
    const unsigned na = 12;
    member m[2];
    uint64_t x = idx;
    m[0].key = (char*)al[x % na];
    x /= na;
    m[1].key = (char*)al[x % na];
    x /= na;
    unsigned v0 = (unsigned)(x % (na + 1U));
    x /= na + 1U;
    unsigned v1 = (unsigned)(x % (na + 1U));
    x /= na + 1U;
    m[0].val = (v0 < na) ? (char*)al[v0] : NULL;
    m[1].val = (v1 < na) ? (char*)al[v1] : NULL;
    char doc[128];
    snprintf(doc, sizeof(doc), "{\"%s\":%s%s%s,%s\"%s\" : %s%s%s}", m[0].key, m[0].val ? "\"" : "", m[0].val ? m[0].val : "null", m[0].val ? "\"" : "",
             (idx & 1U) ? " " : "", m[1].key, m[1].val ? "\"" : "", m[1].val ? m[1].val : "17", m[1].val ? "\"" : "");
    size_t dl = strlen(doc);
    char* text = mon_copy(doc, dl, PL_RIGHT, 1);
    mon_seal(text);
    for (unsigned k = 0; k < na; ++k) {
        lookup_one(text, dl, m, 2, al[k], "systematic");
    }
    mon_sig(mon_hash(doc, dl, 1));
    mon_sample("%s, all 12 keys", doc);
}

/* ------------------------------------------------------------------ J03 */
#define MAX_PAY 12
static void
pipeline(bool roomy) {
    unsigned n = (unsigned)mon_range(1, MAX_PAY);
    uint8_t* pay[MAX_PAY];
    size_t pl[MAX_PAY];
    char* key[MAX_PAY];
    bool added[MAX_PAY];
    size_t total = 3;
    int kst = (int)mon_below(5);
    for (unsigned i = 0; i < n; ++i) {
        pl[i] = 1U + mon_len(mon_chance(1, 12) ? 60000U : (mon_chance(1, 3) ? 2000U : 40U));
        pay[i] = malloc(pl[i]);
        mon_fill_any(pay[i], pl[i]);
        for (;;) {
            bool dup = false;
            if ((i > 0) && mon_chance(1, 3)) {
                /* key extends or shortens an earlier one */
                size_t l = strlen(key[i - 1]);
                key[i] = malloc(l + 3U);
                strcpy(key[i], key[i - 1]);
                if ((l > 0) && (mon_rnd() & 1U)) {
                    key[i][l - 1U] = '\0';
                } else {
                    strcat(key[i], "a");
                }
            } else if ((i > 0) && mon_chance(1, 8) && (pl[i - 1] < 60)) {
                /* key is the Base64 text of an earlier payload */
                key[i] = malloc(ref_b64_len(pl[i - 1]) + 1U);
                ref_b64_encode(pay[i - 1], pl[i - 1], key[i]);
            } else {
                key[i] = gen_text((size_t)mon_either(10, 200, 8), kst);
            }
            for (unsigned k = 0; k < i; ++k) {
                dup = dup || (strcmp(key[k], key[i]) == 0);
            }
            if (!dup) {
                break;
            }
            free(key[i]);
            if (mon_chance(1, 3)) {
                /* longer than every earlier key, hence none of them */
                size_t longest = 0;
                for (unsigned k = 0; k < i; ++k) {
                    longest = (strlen(key[k]) > longest) ? strlen(key[k]) : longest;
                }
                key[i] = calloc(1, longest + 2U);
                memset(key[i], 'k', longest + 1U);
                break;
            }
        }
        total += strlen(key[i]) + ref_b64_len(pl[i]) + 6U;
    }
    size_t size = roomy ? total + mon_len(2000) : 4U + (size_t)mon_below(total);
    char* doc = mon_alloc(size, PL_RIGHT, 1);
    MON_REQUIRE(Json_startString(doc, size), "pipe-start", "start with %zu failed", size);
    uint64_t sig = size;
    for (unsigned i = 0; i < n; ++i) {
        size_t tl = ref_b64_len(pl[i]) + 1U;
        size_t cap = roomy ? tl + mon_len(64) : (size_t)mon_below(tl + 4U);
        char* text = mon_alloc(cap, PL_RIGHT, 1);
        int32_t er = Base64_encode((const char*)pay[i], pl[i], text, cap);
        added[i] = false;
        MON_REQUIRE(!roomy || (er == 0), "pipe-encode", "encode of %zu bytes into %zu failed", pl[i], cap);
        if (er == 0) {
            added[i] = Json_addData(doc, size, key[i], text);
            MON_REQUIRE(!roomy || added[i], "pipe-add", "add of key '%s' with %zu bytes failed", key[i], pl[i]);
        }
        mon_check_guards();
        sig = mon_hash(pay[i], pl[i], sig);
    }
    bool end = Json_endString(doc, size);
    MON_REQUIRE(!roomy || end, "pipe-end", "end failed with %zu spare", size - strlen(doc));
    if (end) {
        /* transport: exact copy, terminator kept or dropped */
        size_t dl = strlen(doc);
        size_t rl = dl + (mon_rnd() & 1U);
        char* rx = mon_copy(doc, rl, PL_RIGHT, 1);
        mon_seal(rx);
        for (unsigned i = 0; i < n; ++i) {
            unsigned j = (unsigned)((i * 7U + 3U) % n);
            size_t vcap = ref_b64_len(pl[j]) + 1U;
            if (!roomy) {
                vcap = (size_t)mon_below(vcap + 4U);
            } else if (mon_rnd() & 1U) {
                vcap += mon_len(64);
            }
            char* val = mon_alloc(vcap, PL_RIGHT, 1);
            bool f = Json_findByKey(rx, rl, key[j], val, vcap);
            MON_REQUIRE(!roomy || f, "pipe-find", "lookup of '%s' failed in %.200s", key[j], doc);
            MON_REQUIRE(!f || added[j], "pipe-ghost", "lookup of '%s', which was never added, succeeded in %.200s", key[j], doc);
            if (f) {
                size_t ocap = roomy ? pl[j] + mon_len(20) : (size_t)mon_below(pl[j] + 2U);
                uint8_t* out = mon_alloc(ocap, PL_RIGHT, 1);
                int32_t dr = Base64_decode(val, strlen(val), out, ocap);
                MON_REQUIRE(!roomy || (dr == 0), "pipe-decode", "decode of the value of '%s' (%zu bytes into %zu) failed", key[j], pl[j], ocap);
                if (dr == 0) {
                    MON_REQUIRE((ocap >= pl[j]) && mon_eq(out, pay[j], pl[j]), "pipe-bytes", "payload of '%s' (%zu bytes) came back different at %zu", key[j], pl[j],
                                (ocap >= pl[j]) ? mon_diff(out, pay[j], pl[j]) : ocap);
                    mon_event("payload_recovered", 1);
                } else {
                    mon_event("decode_refused", 1);
                }
            } else {
                mon_event("lookup_refused", 1);
            }
        }
        mon_check_guards();
    } else {
        mon_event("end_refused", 1);
    }
    mon_sig(sig);
    mon_sample("%u payloads, document size %zu, %s", n, size, roomy ? "roomy" : "tight");
    for (unsigned i = 0; i < n; ++i) {
        free(pay[i]);
        free(key[i]);
    }
}

static void
j03_roomy(uint64_t idx) {
    (void)idx;
    pipeline(true);
}

static void
j03_tight(uint64_t idx) {
    (void)idx;
    pipeline(false);
}

const mon_group mon_groups_json[] = {
    {"J01", "j01_small", 16000, 400000, j01_small, 0},
    {"J01", "j01_random", 8000, 200000, j01_random, 0},
    {"J01", "j01_restart", 4000, 50000, j01_restart, 0},
    {"J02", "j02_systematic", 24336, 24336, j02_systematic, 0},
    {"J02", "j02_small", 20000, 600000, j02_small, 0},
    {"J02", "j02_big", 3000, 60000, j02_big, 0},
    {"J03", "j03_roomy", 4000, 120000, j03_roomy, 0},
    {"J03", "j03_tight", 4000, 120000, j03_tight, 0},
    MON_END
};
