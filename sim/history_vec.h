/* operations on vectors of one element type; included once per type.
 * E: element type, S(x): suffixed name */
typedef CP_VEC_T(E) S(vec);

static E S(mk)(uint32_t v)
{
    E e;
    unsigned char b[sizeof(E)];
    for (size_t k = 0; k < sizeof(E); k++) b[k] = elem_byte(v, k);
    memcpy(&e, b, sizeof e);
    return e;
}
static int S(cmp)(E const *a, E const *b, cmp_user_t *u)
{
    if (u == NULL || u->magic != CMP_MAGIC) sim_finish(OUT_CHECK, 0, "comparison called without its user pointer");
    u->calls++;
    return memcmp(a, b, sizeof(E));
}
static uint32_t S(crc1)(E const *e) { return crc(0, e, sizeof(E)); }

/* returns the result of the operation as the log shows it */
static uint32_t S(op)(slot_t *sl, slot_t *tl, op_t const *o)
{
    S(vec) *v = (S(vec)*)&sl->v;
    S(vec) *w = (S(vec)*)&tl->v;
    cp_alloc_t *m = sl->m;
    bool g = (m == &cp_alloc_global) && (o->x & 1);
    size_t n = v->size;
    size_t pos = o->a % (n + 1);
    E arr[64];
    switch (o->op) {
    case V_PUSH: {
        E e = S(mk)(o->c);
        E *p = g ? cp_v_push(v, e) : cp_v_push_alloc(m, v, e);
        return (p == &v->data[v->size - 1]) ? S(crc1)(p) : 1; }
    case V_PUSH0: {
        E *p = g ? cp_v_push0(v) : cp_v_push0_alloc(m, v);
        return (p == &v->data[v->size - 1]) ? S(crc1)(p) : 1; }
    case V_POP: {
        if (n == 0) return 0;
        E e = cp_v_pop(v);
        return S(crc1)(&e); }
    case V_SET_SIZE: {
        size_t k = o->a % 41 + (o->b % 8 == 0 ? o->a % 300 : 0);
        if (g) cp_v_set_size(v, k); else cp_v_set_size_alloc(m, v, k);
        return 0; }
    case V_ENSURE: {
        size_t k = o->a % 41;
        if (g) cp_v_ensure_size(v, k); else cp_v_ensure_size_alloc(m, v, k);
        return 0; }
    case V_INFLATE:
        if (g) cp_v_inflate(v, pos, o->b % 9); else cp_v_inflate_alloc(m, v, pos, o->b % 9);
        return 0;
    case V_INSERT1: {
        E e = S(mk)(o->c);
        if (g) cp_v_insert1(v, pos, e); else cp_v_insert1_alloc(m, v, pos, e);
        return 0; }
    case V_INSERT_ARR:
    case V_APPEND_ARR: {
        size_t k = o->b % 30;
        for (size_t i = 0; i < k; i++) arr[i] = S(mk)(o->c + (uint32_t)i);
        if (o->op == V_INSERT_ARR) {
            if (g) cp_v_insert_arr(v, pos, arr, k); else cp_v_insert_arr_alloc(m, v, pos, arr, k);
        }
        else {
            if (g) cp_v_insert_arr(v, n, arr, k); else cp_v_insert_arr_alloc(m, v, n, arr, k);
        }
        return 0; }
    case V_INSERT_SELF: {
        size_t src = o->b % (n + 1);
        size_t k = o->c % (n - src + 1);
        if (k == 0) return 0;
        if (g) cp_v_insert_arr(v, pos, v->data + src, k); else cp_v_insert_arr_alloc(m, v, pos, v->data + src, k);
        return 0; }
    case V_INSERT:
        if (g) cp_v_insert(v, pos, w); else cp_v_insert_alloc(m, v, pos, w);
        return 0;
    case V_APPEND:
        if (g) cp_v_append(v, w); else cp_v_append_alloc(m, v, w);
        return 0;
    case V_COPY1: {
        E e = S(mk)(o->c);
        if (g) cp_v_copy1(v, pos, e); else cp_v_copy1_alloc(m, v, pos, e);
        return 0; }
    case V_COPY: {
        size_t src = o->b % (w->size + 1);
        size_t k = (o->c % 5 == 0) ? CP_SIZE_MAX : o->c % 40;
        if (v == w && k > n - src) k = n - src;
        if (g) cp_v_copy(v, pos, w, src, k); else cp_v_copy_alloc(m, v, pos, w, src, k);
        return 0; }
    case V_COPY_ARR: {
        size_t src = o->b % (w->size + 1);
        size_t k = w->size - src < n - pos ? w->size - src : n - pos;
        k = o->c % (k + 1);
        if (k == 0) return 0;
        cp_v_copy_arr(v, pos, w, src, k);
        return 0; }
    case V_REMOVE:
        if (n == 0) return 0;
        cp_v_remove(v, pos, (o->b % 7 == 0) ? CP_SIZE_MAX : o->b % 9);
        return 0;
    case V_EXTRACT: {
        if (n == 0) return 0;
        E e = cp_v_extract(v, o->a % n);
        return S(crc1)(&e); }
    case V_REVERSE:
        if (n == 0) return 0;
        cp_v_reverse(v, pos, (o->b % 5 == 0) ? CP_SIZE_MAX : o->b % 20);
        return 0;
    case V_CLEAR:
        if (g) cp_v_clear(v, o->a % 20); else cp_v_clear_alloc(m, v, o->a % 20);
        return 0;
    case V_FINI:
#ifdef cp_v_delete
        if (m == &cp_alloc_global && (o->x & 6) == 0) {
            /* the same vector, but in a block of its own */
            S(vec) *h = CP_NEW(*h);
            memcpy(h, v, sizeof *h);
            cp_v_init(v);
            if (g) cp_v_delete(&h); else cp_v_delete_alloc(m, &h);
            return h == NULL && v->data == NULL && v->size == 0 && v->alloc == 0;
        }
#endif
        if (g) cp_v_fini(v); else cp_v_fini_alloc(m, v);
        return v->data == NULL && v->size == 0 && v->alloc == 0;
    case V_QSORT: {
        if (n == 0) return 0;
        cmp_user_t u = { CMP_MAGIC, 0 };
        cp_v_qsort(v, pos, (o->b % 3) ? CP_SIZE_MAX : o->b % 20, S(cmp), &u);
        return 0; }
    case V_BSEARCH: {
        if (n == 0) return 0;
        cmp_user_t u = { CMP_MAGIC, 0 };
        cp_v_qsort(v, 0, CP_SIZE_MAX, S(cmp), &u);
        E e = S(mk)(o->c);
        if (o->b & 1) e = v->data[o->a % n];
        size_t i = cp_v_bsearch(&e, v, S(cmp), &u);
        if (i == CP_SIZE_MAX) return 0;
        if (i >= v->size || memcmp(&v->data[i], &e, sizeof e)) return 2;
        return 1; }
    case V_GET: {
        E z;
        memset(&z, 0, sizeof z);
        if (cp_v_nth_ptr0(v, n + o->b % 3) != NULL) return 1;
        if (n == 0) return 0;
        size_t i = o->a % n;
        E *p = cp_v_nth_ptr(v, i);
        if (p != cp_v_nth_ptr0(v, i) || cp_v_idx(v, p) != i || cp_v_lastp_but(v, n - 1 - i) != p ||
            cp_v_lastp(v) != &v->data[n - 1] || &cp_v_nth(v, i) != p) return 1;
#ifdef cp_v_last_but
        if (&cp_v_last_but(v, n - 1 - i) != p || &cp_v_last(v) != &v->data[n - 1]) return 1;
#endif
        size_t k = 0;
        for (cp_v_each(j, v)) k += (j < n) ? 1 : 1000;
        for (cp_v_eachp(q, v)) k += (q >= v->data && q < v->data + n) ? 1 : 1000;
        if (k != 2 * n) return 2;
        return S(crc1)(p); }
    case V_INIT_WITH: {
        size_t k = o->b % 30 + 1;
        for (size_t i = 0; i < k; i++) arr[i] = S(mk)(o->c + (uint32_t)i);
        cp_v_fini_alloc(m, v);
        if (g) cp_v_init_with(v, arr, k); else cp_v_init_with_alloc(m, v, arr, k);
        return 0; }
    case V_INIT0:
        cp_v_fini_alloc(m, v);
        if (g) cp_v_init0(v, o->b % 30 + 1); else cp_v_init0_alloc(m, v, o->b % 30 + 1);
        return 0;
    case V_SHRINK:
        if (g) cp_v_shrink(v, o->a % 10); else cp_v_shrink_alloc(m, v, o->a % 10);
        return 0;
    case V_HEAP: {
        /* a session: make a heap of what is there, then insert, update and
         * extract by turns; in the end extract everything and put it back */
        cmp_user_t u = { CMP_MAGIC, 0 };
        uint32_t h = 0, s = o->c;
        cp_v_heap_make(v, S(cmp), &u);
        for (size_t i = 0; i < o->b % 40; i++) {
            s = s * 1664525u + 1013904223u;
            uint32_t k = (s >> 16) % 5;
            if (k <= 2) {
                E e = S(mk)(s >> 8);
                if (g) cp_v_heap_insert(v, S(cmp), &u, e); else cp_v_heap_insert_alloc(m, v, S(cmp), &u, e);
            }
            else if (v->size > 0 && k == 3) {
                E *q = cp_v_heap_min(v);
                E mn = *q;
#ifdef cp_v_heap_extract_ptr
                E e = (s & 64) ? *cp_v_heap_extract_ptr(v, S(cmp), &u) : cp_v_heap_extract(v, S(cmp), &u);
#else
                E e = cp_v_heap_extract(v, S(cmp), &u);
#endif
                if (memcmp(&mn, &e, sizeof e)) return 1;
                h = crc(h, &e, sizeof e);
            }
            else if (v->size > 0) {
                /* change the priority of the smallest one, or of any one */
                size_t j = 0;
                if (v->size <= 200) {
                    size_t want = (s >> 4) % v->size;
                    for (j = 0; j < v->size; j++) {
                        size_t lt = 0, eq = 0;
                        for (size_t q = 0; q < v->size; q++) {
                            int d = memcmp(&v->data[q], &v->data[j], sizeof(E));
                            lt += d < 0;
                            eq += d == 0;
                        }
                        if (lt <= want && want < lt + eq) break;
                    }
                }
                v->data[j] = S(mk)(s >> 8);
                cp_v_heap_update(v, S(cmp), &u, j);
            }
        }
        static E all[4096];
        size_t k = 0;
        while (v->size > 0 && k < 4096) all[k++] = cp_v_heap_extract(v, S(cmp), &u);
        for (size_t i = 0; i < k; i++) cp_v_push_alloc(m, v, all[i]);
        return h; }
#ifdef BITS
    case V_BIT: {
        if (n == 0) return 0;
        size_t i = o->a % (n * 8 * sizeof(E));
        bool was = cp_v_bit_get(v, i);
#ifdef cp_v_nth0
        size_t e = i / (8 * sizeof(E));
        if (cp_v_nth0(v, e) != v->data[e] || cp_v_nth0(v, n + o->c % 5) != 0) return 2;
#endif
        cp_v_bit_set(v, i, o->b & 1);
        return was; }
#endif
    }
    return 0;
}
static size_t S(esz)(void) { return sizeof(((S(vec)*)0)->data[0]); }
