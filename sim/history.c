/* Histories of operations on hob3l's containers, run under the simulator.
 *
 * The operations come from the plan; what each one returned and what all
 * objects then hold is logged and compared with a model elsewhere. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stddef.h>
#include <errno.h>
#include <hob3lbase/base-def.h>
#include <hob3lbase/alloc.h>
#include <hob3lbase/vec.h>
#include <hob3lbase/vchar.h>
#include <hob3lbase/pool.h>
#include <hob3lbase/stream.h>
#include "sim.h"

extern FILE *__wrap_fopen(const char *, const char *);
extern void (*sim_end_hook)(void);

typedef struct { uint8_t op, s, t, x; uint32_t a, b, c; } op_t;

enum {
    V_PUSH, V_PUSH0, V_POP, V_SET_SIZE, V_ENSURE, V_INFLATE, V_INSERT1, V_INSERT_ARR, V_INSERT_SELF, V_INSERT,
    V_APPEND, V_APPEND_ARR, V_COPY1, V_COPY, V_COPY_ARR, V_REMOVE, V_EXTRACT, V_REVERSE, V_CLEAR, V_FINI,
    V_QSORT, V_BSEARCH, V_GET, V_INIT_WITH, V_INIT0, V_SHRINK, V_HEAP, V_BIT,
    P_CLEAR = 40, P_NOISE,
    C_APPEND_ARR = 50, C_PUSH, C_APPEND, C_APPEND_STR, C_PRINTF, C_POP, C_CLEAR, C_CSTR, C_SWAP, C_FINI,
    C_SPRINTF, C_SWRITE, C_APPEND_SELF,
    F_OPEN = 70, F_PRINTF, F_WRITE, F_CLOSE,
};

static uint32_t crctab[256];
static uint32_t crc(uint32_t h, const void *p, size_t n)
{
    const unsigned char *b = p;
    h = ~h;
    while (n--) h = crctab[(h ^ *b++) & 255] ^ (h >> 8);
    return ~h;
}
static void crc_init(void)
{
    for (uint32_t i = 0; i < 256; i++) {
        uint32_t c = i;
        for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1;
        crctab[i] = c;
    }
}
static unsigned char elem_byte(uint32_t v, size_t k)
{
    return (unsigned char)((v + (v >> 8) * 31u) * (2u * (uint32_t)k + 1u) + (uint32_t)k);
}

#define CMP_MAGIC 0x51ee7u
typedef struct { uint32_t magic, calls; } cmp_user_t;

#define NSLOT 16
typedef struct { cp_v_t v; int type; cp_alloc_t *m; int mi; } slot_t;
static slot_t slot[NSLOT];
static int nslot;
static cp_pool_t pool[2];
#define NSTR 4
static cp_vchar_t str[NSTR];
static FILE *file;

typedef struct { uint8_t b[3]; } b3_t;
typedef struct { uint8_t b[24]; } b24_t;
typedef struct { uint64_t q[5]; } b40_t;

#define E uint8_t
#define S(x) x##_1
#include "history_vec.h"
#undef E
#undef S
#define E b3_t
#define S(x) x##_3
#include "history_vec.h"
#undef E
#undef S
#define BITS
#define E uint32_t
#define S(x) x##_4
#include "history_vec.h"
#undef E
#undef S
#define E uint64_t
#define S(x) x##_8
#include "history_vec.h"
#undef E
#undef S
#undef BITS
#define E b24_t
#define S(x) x##_24
#include "history_vec.h"
#undef E
#undef S
#define E b40_t
#define S(x) x##_40
#include "history_vec.h"
#undef E
#undef S

static uint32_t vec_op(slot_t *s, slot_t *t, op_t const *o)
{
    switch (s->type) {
    case 0: return op_1(s, t, o);
    case 1: return op_3(s, t, o);
    case 2: return op_4(s, t, o);
    case 3: return op_8(s, t, o);
    case 4: return op_24(s, t, o);
    default: return op_40(s, t, o);
    }
}
static size_t vec_esz(int type)
{
    switch (type) {
    case 0: return esz_1();
    case 1: return esz_3();
    case 2: return esz_4();
    case 3: return esz_8();
    case 4: return esz_24();
    default: return esz_40();
    }
}
/* several bytes of text derived from a number: no 0 */
static void text(char *d, uint32_t v, size_t n)
{
    for (size_t i = 0; i < n; i++) d[i] = (char)(33 + (v + i * 7 + (v >> 5) * i) % 90);
    d[n] = 0;
}
static void tell(int k, cp_vchar_t *v, cp_stream_t *s, const char *form, ...) __attribute__((format(printf,4,5)));
static void tell(int k, cp_vchar_t *v, cp_stream_t *s, const char *form, ...)
{
    va_list va;
    va_start(va, form);
    if (k == 0) cp_vchar_vprintf(v, form, va);
    else cp_vprintf(s, form, va);
    va_end(va);
}
static void fmt(int k, cp_vchar_t *v, cp_stream_t *s, op_t const *o)
{
    char t[80], u[80];
    text(t, o->b, o->a % 60);
    text(u, o->c, o->b % 60);
#define P(...) do { if (k == 0 && (o->x & 1)) cp_vchar_printf(v, __VA_ARGS__); \
    else if (k == 1 && (o->x & 1)) cp_printf(s, __VA_ARGS__); else tell(k, v, s, __VA_ARGS__); } while (0)
    switch (o->x >> 1) {
    case 0: P("%d", (int)o->a); break;
    case 1: P("<%u>", o->a); break;
    case 2: P("%s", t); break;
    case 3: P("%5d|%-7d|%s", (int)o->a, (int)o->b, u); break;
    case 4: P("%g", (double)(int)o->a / (1.0 + o->b % 1000)); break;
    case 5: P("%.3f %s", (double)(int)o->a / 64.0, t); break;
    case 6: P("%c%c", (int)(33 + o->a % 90), (int)(33 + o->b % 90)); break;
    case 7: P("100%%"); break;
    case 8: P("%.*s", (int)(o->c % 70), t); break;
    case 9: P("%0*d", (int)(o->c % 300), (int)o->a); break;
    case 10: P("%x:%lld", o->a, (long long)o->b * 1000003); break;
    case 11: P("%s%s%s", t, u, t); break;
    case 12: P("%s", ""); break;
    case 13: P("%zu %s %zu", (size_t)o->a, u, (size_t)o->c); break;
    default: P("%*d", (int)(o->c % 3000), (int)o->b); break;
    }
#undef P
}

static void log_state(size_t i, int op, uint32_t r)
{
    uint32_t h = 0;
    size_t total = 0;
    for (int k = 0; k < nslot; k++) {
        cp_v_t *v = &slot[k].v;
        if (v->size > v->alloc) sim_finish(OUT_CHECK, 0, "vector of size %zu has only %zu allocated", v->size, v->alloc);
        size_t n = v->size * vec_esz(slot[k].type);
        if (n > (1u << 24)) sim_finish(OUT_CHECK, 0, "vector has size %zu", v->size);
        uint64_t z = v->size;
        h = crc(h, &z, 8);
        if (n) h = crc(h, v->data, n);
        total += v->size;
    }
    for (int k = 0; k < NSTR; k++) {
        cp_vchar_t *v = &str[k];
        uint64_t z = v->size;
        if (z > (1u << 24)) sim_finish(OUT_CHECK, 0, "string has size %zu", v->size);
        h = crc(h, &z, 8);
        if (z) h = crc(h, v->data, z);
        if (v->data) {
            if (v->alloc <= v->size) sim_finish(OUT_CHECK, 0, "string of size %zu has only %zu allocated", v->size, v->alloc);
            if (v->data[v->size] != 0) sim_finish(OUT_CHECK, 0, "string is not terminated after operation %d", op);
        }
        else if (z) sim_finish(OUT_CHECK, 0, "string of size %zu without data", v->size);
        total += z;
    }
    sim_event("H %zu %d r=%x n=%zu c=%x", i, op, r, total, h);
}

static void hist_seq(const uint8_t *ops, size_t n)
{
    const uint8_t *p = ops;
    nslot = *p++;
    cp_pool_init(&pool[0]);
    cp_pool_init(&pool[1]);
    for (int k = 0; k < nslot; k++) {
        slot[k].type = *p++;
        slot[k].mi = *p++;
        slot[k].m = slot[k].mi == 0 ? &cp_alloc_global : pool[slot[k].mi - 1].alloc;
        cp_v_init(&slot[k].v);
    }
    uint32_t bs;
    memcpy(&bs, p, 4);
    p += 4;
    pool[0].block_size = bs;
    for (int k = 0; k < NSTR; k++) cp_vchar_init(&str[k]);
    bool failed = false;
    for (size_t i = 0; p + sizeof(op_t) <= ops + n; p += sizeof(op_t), i++) {
        op_t o;
        memcpy(&o, p, sizeof o);
        const int op0 = o.op;
        uint32_t r = 0;
        char t[4096];
        if (o.op < P_CLEAR) {
            if (nslot == 0) continue;
            slot_t *s = &slot[o.s % nslot], *w = &slot[o.t % nslot];
            if (s->type != w->type) w = s;
            if (s->v.size > 1500) o.op = V_CLEAR;
            r = vec_op(s, w, &o);
        }
        else if (o.op == P_CLEAR) {
            int k = o.s & 1;
            for (int j = 0; j < nslot; j++) if (slot[j].mi == k + 1) cp_v_init(&slot[j].v);
            if (o.x & 1) {
                cp_pool_fini(&pool[k]);
                cp_pool_init(&pool[k]);
            }
            else cp_pool_clear(&pool[k]);
        }
        else if (o.op == P_NOISE) {
            size_t z = o.a % 200 + 1;
            char *q = cp_malloc(pool[o.s & 1].alloc, z, 1);
            memset(q, 0xee, z);
        }
        else if (o.op < F_OPEN) {
            cp_vchar_t *v = &str[o.s % NSTR], *w = &str[o.t % NSTR];
            for (size_t k = 0; k < o.a % 70; k++) t[k] = (char)elem_byte(o.c + (uint32_t)k, 0);
            if (v->size > 20000) o.op = C_CLEAR;
            switch (o.op) {
            case C_APPEND_ARR: cp_vchar_append_arr(v, t, o.a % 70); break;
            case C_PUSH: cp_vchar_push(v, (char)elem_byte(o.c, 1)); break;
            case C_APPEND: cp_vchar_append(v, w); break;
            case C_APPEND_STR: text(t, o.b, o.a % 200); cp_vchar_append_str(v, t); break;
            case C_PRINTF: fmt(0, v, NULL, &o); break;
            case C_POP: if (v->size) r = (unsigned char)cp_vchar_pop(v); break;
            case C_CLEAR: cp_vchar_clear(v); break;
            case C_CSTR: {
                char *q = cp_vchar_cstr(v);
                r = (q == NULL || q != v->data) ? 1 : crc(0, q, strlen(q));
                break; }
            case C_SWAP: cp_vchar_swap(v, w); break;
            case C_FINI: cp_vchar_fini(v); r = v->data == NULL && v->size == 0 && v->alloc == 0; break;
            case C_SPRINTF: fmt(1, NULL, CP_STREAM_FROM_VCHAR(v), &o); break;
            case C_SWRITE: cp_write(CP_STREAM_FROM_VCHAR(v), t, o.a % 70); break;
            case C_APPEND_SELF: {
                size_t a = o.a % (v->size + 1), k = o.b % (v->size - a + 1);
                if (k) cp_vchar_append_arr(v, v->data + a, k);
                break; }
            }
        }
        else {
            if (file == NULL) {
                if (o.op == F_CLOSE) goto log;
                file = __wrap_fopen("out/h.txt", o.op == F_OPEN && (o.x & 1) ? "wb" : "ab");
                if (file == NULL) { sim_event("failed open"); failed = true; break; }
            }
            cp_stream_t *s = CP_STREAM_FROM_FILE(file);
            if (o.op == F_PRINTF) fmt(1, NULL, s, &o);
            else if (o.op == F_WRITE) {
                size_t z = o.a % 4000;
                for (size_t k = 0; k < z; k++) t[k] = (char)elem_byte(o.c + (uint32_t)k, 0);
                cp_write(s, t, z);
            }
            else if (o.op == F_CLOSE) {
                int e = ferror(file) | fclose(file);
                file = NULL;
                if (e) { sim_event("failed close"); failed = true; break; }
            }
        }
    log:
        log_state(i, op0, r);
    }
    if (file) {
        int e = ferror(file) | fclose(file);
        file = NULL;
        if (e && !failed) { sim_event("failed close"); failed = true; }
    }
    if (failed) sim_finish(OUT_EXIT, 1, NULL);
    for (int k = 0; k < nslot; k++) cp_v_fini_alloc(slot[k].m, &slot[k].v);
    for (int k = 0; k < NSTR; k++) cp_vchar_fini(&str[k]);
    cp_pool_fini(&pool[0]);
    cp_pool_fini(&pool[1]);
    sim_event("H end live=%llu", (unsigned long long)sim_sh->live_bytes);
}

/* ------------------------------------------------------------------ */
/* pools: the model is the list of blocks handed out */

typedef struct { unsigned char *p; size_t n; uint32_t v; int pool; } blk_t;
#define NBLK 20000
static blk_t *blk;
static size_t nblk;

static unsigned char pat(uint32_t v, size_t k) { return (unsigned char)(v + k * 11 + (k >> 8) * 3 + 1); }
static void blk_fill(blk_t *b, uint32_t v)
{
    b->v = v;
    for (size_t k = 0; k < b->n; k++) b->p[k] = pat(v, k);
}
static void blk_verify(const char *when)
{
    for (size_t i = 0; i < nblk; i++) {
        blk_t *b = &blk[i];
        for (size_t k = 0; k < b->n; k++) {
            if (b->p[k] != pat(b->v, k))
                sim_finish(OUT_CHECK, 0, "pool: a block changed %s: byte %zu of %zu", when, k, b->n);
            if (k == 300 && b->n > 1000) k = b->n - 301;
        }
    }
}
static void at_end(void)
{
    sim_end_hook = NULL;
    blk_verify("when an allocation failed");
}
static void blk_new(unsigned char *p, size_t n, size_t al, int pl, uint32_t v, size_t keep, uint32_t keepv)
{
    if (p == NULL) sim_finish(OUT_CHECK, 0, "pool: no memory and no failure reported for %zu bytes", n);
    if (al && ((uintptr_t)p & (al - 1))) sim_finish(OUT_CHECK, 0, "pool: a block of %zu bytes is not aligned to %zu", n, al);
    for (size_t i = 0; i < nblk; i++)
        if (p < blk[i].p + blk[i].n && blk[i].p < p + n)
            sim_finish(OUT_CHECK, 0, "pool: a block of %zu bytes overlaps one of %zu bytes", n, blk[i].n);
    for (size_t k = 0; k < n; k++) {
        unsigned char want = k < keep ? pat(keepv, k) : 0;
        if (p[k] != want)
            sim_finish(OUT_CHECK, 0, k < keep ? "pool: contents lost at byte %zu of %zu" : "pool: byte %zu of a new block of %zu bytes is not zero", k, n);
    }
    if (nblk < NBLK) {
        blk_t *b = &blk[nblk++];
        *b = (blk_t){ p, n, v, pl };
        blk_fill(b, v);
    }
}
static size_t size_of(uint32_t a)
{
    /* 1 byte to several MB, mostly small */
    static const size_t sz[] = { 1, 2, 3, 4, 5, 7, 8, 12, 15, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64, 65, 96, 100, 128, 160, 200, 255, 256,
        333, 512, 1000, 1024, 4072, 4080, 4096, 5000, 10000, 16384, 50000, 100000, 104000, 200000, 262144, 500000, 1048552, 1048576, 1200000 };
    size_t k = sizeof sz / sizeof *sz;
    uint32_t lim = (a >> 8) % 64;
    size_t m = lim < 40 ? 27 : lim < 58 ? 34 : lim < 62 ? 40 : k;
    return sz[(a & 255) % m];
}
static void hist_pool(const uint8_t *ops, size_t n)
{
    static blk_t store[NBLK];
    blk = store;
    sim_end_hook = at_end;
    cp_pool_init(&pool[0]);
    cp_pool_init(&pool[1]);
    size_t total = 0;
    const uint8_t *p = ops;
    uint32_t bs[2];
    memcpy(bs, p, 8);
    p += 8;
    pool[0].block_size = bs[0];
    pool[1].block_size = bs[1];
    for (size_t i = 0; p + sizeof(op_t) <= ops + n; p += sizeof(op_t), i++) {
        op_t o;
        memcpy(&o, p, sizeof o);
        int k = o.s & 1;
        cp_pool_t *pl = &pool[k];
        cp_alloc_t *m = pl->alloc;
        size_t z = size_of(o.a);
        size_t cnt = o.b % 4 == 0 ? o.b / 4 % 50 + 1 : 1;
        if (z * cnt > 3000000) cnt = 1;
        size_t nat = z & -z;
        if (nat > cp_alignof(max_align_t)) nat = cp_alignof(max_align_t);
        if (total > (200u << 20) && o.op <= 8) continue;
        switch (o.op) {
        case 0: case 1: {
            /* direct, with an alignment */
            size_t al = (size_t)1 << (o.t % 7);
            if (o.op == 1) al = 0;
            void *q = cp_pool_calloc("history", (int)i, pl, cnt, z, al);
            blk_new(q, cnt * z, al ? al : nat, k, o.c, 0, 0);
            total += cnt * z;
            break; }
        case 2:
            if (cp_pool_calloc("history", (int)i, pl, 0, z, 8) != NULL) sim_finish(OUT_CHECK, 0, "pool: empty array is not NULL");
            break;
        case 3:
            blk_new(cp_malloc(m, cnt, z), cnt * z, nat, k, o.c, 0, 0);
            total += cnt * z;
            break;
        case 4:
            blk_new(cp_calloc(m, cnt, z), cnt * z, nat, k, o.c, 0, 0);
            total += cnt * z;
            break;
        case 5: case 6: {
            /* grow or shrink an array; the pool keeps the old block alive */
            if (nblk == 0) break;
            blk_t b = blk[o.c % nblk];
            if (b.pool != k) break;
            size_t e = 1;
            while (e < 8 && b.n % (2 * e) == 0) e *= 2;
            size_t ao = b.n / e, an = (size_t)(o.b % (2 * ao + 10)) + (o.t & 1 ? ao : 0);
            if (an == 0) an = 1;
            if (an > 2000000) an = ao;
            unsigned char *q = o.op == 5 ? cp_remalloc(m, b.p, ao, an, e) : cp_recalloc(m, b.p, ao, an, e);
            if (q == b.p) {
                if (an > ao) sim_finish(OUT_CHECK, 0, "pool: an array was not grown");
                break;
            }
            /* the old block must be as it was; the new one starts with its contents */
            blk_new(q, an * e, e, k, b.v, an < ao ? an * e : b.n, b.v);
            total += an * e;
            break; }
        case 7:
            if (nblk) { blk_t *b = &blk[o.c % nblk]; if (b->pool == k) cp_free(m, b->p); }
            break;
        case 8: {
            /* typed interfaces */
            uint64_t *q = CP_POOL_NEW(pl, *q);
            blk_new((void*)q, sizeof *q, cp_alignof(uint64_t), k, o.c, 0, 0);
            struct { void *a; long double d; } *w = CP_POOL_NEW_ARR(pl, *w, cnt);
            blk_new((void*)w, sizeof *w * cnt, cp_alignof(max_align_t), k, o.c + 1, 0, 0);
            b24_t *s = CP_POOL_NEW_PLUS(pl, *s, 5 + cnt % 8);
            blk_new((void*)s, sizeof *s + 5 + cnt % 8, 1, k, o.c + 2, 0, 0);
            uint32_t *f = CP_NEW_ALLOC(m, *f);
            blk_new((void*)f, sizeof *f, cp_alignof(uint32_t), k, o.c + 3, 0, 0);
            uint32_t val = o.c;
            uint32_t *h = CP_CLONE1_ALLOC(m, &val);
            if (*h != val) sim_finish(OUT_CHECK, 0, "pool: clone differs");
            *h = 0;
            blk_new((void*)h, sizeof *h, cp_alignof(uint32_t), k, o.c + 4, 0, 0);
            break; }
        case 9: case 10: {
            blk_verify("before its pool was cleared");
            size_t j = 0;
            for (size_t q = 0; q < nblk; q++) if (blk[q].pool != k) blk[j++] = blk[q];
            nblk = j;
            total = 0;
            for (size_t q = 0; q < nblk; q++) total += blk[q].n;
            if (o.op == 9) cp_pool_clear(pl);
            else {
                cp_pool_fini(pl);
                if (o.t & 1) {
                    cp_pool_init(pl);
                    if (o.t & 2) pl->block_size = bs[k];
                }
            }
            blk_verify("when another pool was cleared");
            break; }
        default:
            break;
        }
        if (i % 8 == 7) blk_verify("while others were allocated");
        sim_event("P %zu %d n=%zu", i, o.op, nblk);
    }
    blk_verify("in the end");
    sim_end_hook = NULL;
    cp_pool_fini(&pool[0]);
    cp_pool_fini(&pool[1]);
    sim_event("P end live=%llu", (unsigned long long)sim_sh->live_bytes);
}

/* ------------------------------------------------------------------ */
/* blocks of the global allocator */
static void hist_glob(const uint8_t *ops, size_t n)
{
    static blk_t store[NBLK];
    blk = store;
    sim_end_hook = at_end;
    cp_alloc_t *m = &cp_alloc_global;
    const uint8_t *p = ops + 8;
    for (size_t i = 0; p + sizeof(op_t) <= ops + n; p += sizeof(op_t), i++) {
        op_t o;
        memcpy(&o, p, sizeof o);
        size_t z = size_of(o.a & ~0x3f00u), cnt = o.b % 12 + 1;
        if (o.op <= 4) {
            unsigned char *q = o.op & 1 ? cp_malloc(m, cnt, z) : cp_calloc(m, cnt, z);
            if (o.op & 1) memset(q, 0, cnt * z);
            blk_new(q, cnt * z, cp_alignof(max_align_t), 0, o.c, 0, 0);
        }
        else if (o.op <= 8 && nblk) {
            size_t j = o.c % nblk;
            blk_t b = blk[j];
            blk[j] = blk[--nblk];
            size_t e = 1;
            while (e < 8 && b.n % (2 * e) == 0) e *= 2;
            size_t ao = b.n / e, an = (size_t)(o.b % (3 * ao + 10)) + 1;
            bool re = o.op & 1;
            unsigned char *q = re ? cp_recalloc(m, b.p, ao, an, e) : cp_remalloc(m, b.p, ao, an, e);
            if (an <= ao) { blk[nblk++] = (blk_t){ q, an * e, b.v, 0 }; }
            else {
                if (!re) memset(q + b.n, 0, an * e - b.n);
                blk_new(q, an * e, e, 0, b.v, b.n, b.v);
            }
        }
        else if (nblk) {
            size_t j = o.c % nblk;
            blk_t b = blk[j];
            blk[j] = blk[--nblk];
            cp_free(m, b.p);
        }
        if (i % 8 == 7) blk_verify("while others were allocated");
        sim_event("P %zu %d n=%zu", i, o.op, nblk);
    }
    blk_verify("in the end");
    sim_end_hook = NULL;
    while (nblk) cp_free(m, blk[--nblk].p);
    sim_event("P end live=%llu", (unsigned long long)sim_sh->live_bytes);
}

int sim_history(const char *which, const uint8_t *ops, size_t n)
{
    crc_init();
    if (strcmp(which, "seq") == 0) hist_seq(ops, n);
    else if (strcmp(which, "pool") == 0) hist_pool(ops, n);
    else if (strcmp(which, "glob") == 0) hist_glob(ops, n);
    else sim_finish(OUT_HARNESS, 0, "unknown history %s", which);
    return 0;
}
