/* Histories of operations on hob3l's ordered containers: dictionaries (trees),
 * heaps and lists.
 *
 * The operations come from the plan.  Next to each container there is a plain
 * sequence (or set, or permutation) on which the same operation is done in the
 * obvious way; after every operation the container is walked through and
 * compared.  The first difference is logged as "O bad". */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stddef.h>
#include <hob3lbase/base-def.h>
#include <hob3lbase/alloc.h>
#include <hob3lbase/vec.h>
#include <hob3lbase/dict.h>
#include <hob3lbase/heap.h>
#include <hob3lbase/list.h>
#if __has_include(<hob3l/vec3-dict.h>)
#include <hob3lbase/err_tam.h>
#include <hob3lmat/mat.h>
#include <hob3lbase/pool.h>
#include <hob3l/vec3-dict.h>
#define POINTS
#endif
#include "sim.h"

typedef struct { uint8_t op, s, t, x; uint32_t a, b, c; } op_t;

static size_t op_i;
static int op_k, is_bad;
static void bad(const char *form, ...) __attribute__((format(printf,1,2)));
static void bad(const char *form, ...)
{
    char buf[300];
    va_list va;
    if (is_bad) return;
    is_bad = 1;
    va_start(va, form);
    vsnprintf(buf, sizeof buf, form, va);
    va_end(va);
    sim_event("O bad %zu op=%d %s", op_i, op_k, buf);
}

#define CMP_MAGIC 0x51ee7u
typedef struct { uint32_t magic, calls; } user_t;
static user_t user = { CMP_MAGIC, 0 };
/* the sign counts, not the value */
static int cmp64(uint64_t a, uint64_t b, user_t *u)
{
    if (u == NULL || u->magic != CMP_MAGIC) { bad("the user pointer is not passed on"); return 0; }
    static const int mag[5] = { 1, 2, 77, 1 << 20, 0x7fffffff };
    int d = mag[u->calls++ % 5];
    return a < b ? -d : a > b ? d : 0;
}

/* ------------------------------------------------------------- dictionary */

#define ND 300
#define NT 4
typedef struct { uint64_t guard, key; cp_dict_t node; uint64_t val, sum; int tree; } num_t;
static num_t nd[ND];
static cp_dict_t *root[NT], *mn[NT], *mx[NT];
static unsigned short seq[NT][ND + 1];
static size_t len[NT];
static bool use_aug;

static num_t *num(cp_dict_t *n) { return CP_BOX_OF(n, num_t, node); }
static size_t id_of(cp_dict_t *n)
{
    if (n == NULL) return ND;
    num_t *x = num(n);
    if (x < nd || x >= nd + ND || ((char *)x - (char *)nd) % sizeof(num_t) != 0) { bad("not a node of any tree is returned"); return ND; }
    return (size_t)(x - nd);
}
static uint64_t sum_of(cp_dict_t *n) { return n == NULL ? 0 : num(n)->sum; }
static void update(cp_dict_t *n) { if (n != NULL) num(n)->sum = num(n)->val + sum_of(n->edge[0]) + sum_of(n->edge[1]); }
static void on_aug(cp_dict_aug_t *aug, cp_dict_t *a, cp_dict_t *b, cp_dict_aug_type_t c)
{
    (void)aug;
    switch (c) {
    case CP_DICT_AUG_LEFT: case CP_DICT_AUG_RIGHT: update(b); update(a); break;
    case CP_DICT_AUG_NOP: case CP_DICT_AUG_ADD: case CP_DICT_AUG_JOIN: case CP_DICT_AUG_CUT_LEAF: update(a); break;
    case CP_DICT_AUG_NOP2: update(a); update(a->parent); break;
    case CP_DICT_AUG_FINI: for (int g = 0; a != NULL && g < 1000; g++, a = a->parent) update(a); break;
    case CP_DICT_AUG_CUT_SWAP: break;
    case CP_DICT_AUG_SPLIT: num(a)->sum = num(a)->val; break;
    default: break;
    }
}
static cp_dict_aug_t the_aug = { .event = on_aug };
#define AUG (use_aug ? &the_aug : NULL)

static int cmp_key(uint64_t *k, cp_dict_t *n, user_t *u) { return cmp64(*k, num(n)->key, u); }
static int cmp_node(cp_dict_t *a, cp_dict_t *n, user_t *u) { return cmp64(num(a)->key, num(n)->key, u); }

static num_t *free_node(uint32_t c)
{
    for (size_t i = 0; i < ND; i++) {
        num_t *n = &nd[(c + i) % ND];
        if (n->tree < 0) { n->sum = n->val; return n; }
    }
    return NULL;
}
static uint64_t key_at(size_t t, size_t i) { return nd[seq[t][i]].key; }
static void put(size_t t, size_t pos, num_t *n)
{
    memmove(&seq[t][pos + 1], &seq[t][pos], (len[t] - pos) * sizeof seq[t][0]);
    seq[t][pos] = (unsigned short)(n - nd);
    len[t]++;
    n->tree = (int)t;
}
static void drop(size_t t, size_t pos)
{
    num_t *n = &nd[seq[t][pos]];
    memmove(&seq[t][pos], &seq[t][pos + 1], (len[t] - pos - 1) * sizeof seq[t][0]);
    len[t]--;
    n->tree = -1;
    n->sum = n->val;
}
static size_t lower(size_t t, uint64_t k) { size_t i = 0; while (i < len[t] && key_at(t, i) < k) i++; return i; }
static size_t upper(size_t t, uint64_t k) { size_t i = 0; while (i < len[t] && key_at(t, i) <= k) i++; return i; }
static void ends(size_t t) { mn[t] = cp_dict_min(root[t]); mx[t] = cp_dict_max(root[t]); }

static size_t walk_n, walk_deep;
static void walk(size_t t, cp_dict_t *n, cp_dict_t *parent, size_t depth)
{
    if (is_bad || n == NULL) return;
    if (depth > 100 || walk_n > len[t]) { bad("tree %zu holds more than its %zu elements", t, len[t]); return; }
    size_t id = id_of(n);
    if (id >= ND) return;
    if (n->parent != parent) { bad("tree %zu: parent link of element %zu is wrong", t, id); return; }
    if (depth + 1 > walk_deep) walk_deep = depth + 1;
    walk(t, n->edge[0], n, depth + 1);
    if (is_bad) return;
    if (walk_n >= len[t]) { bad("tree %zu holds more than its %zu elements", t, len[t]); return; }
    if (seq[t][walk_n] != id) { bad("tree %zu position %zu: element %zu instead of %u", t, walk_n, id, seq[t][walk_n]); return; }
    walk_n++;
    walk(t, n->edge[1], n, depth + 1);
    if (is_bad) return;
    bool red = cp_dict_is_red(n);
    for (int i = 0; i < 2; i++) {
        if (red && cp_dict_is_red(n->edge[i])) bad("tree %zu: red below red at element %zu", t, id);
        if (cp_dict_black_height(n) != cp_dict_black_height(n->edge[i]) + !red) bad("tree %zu: wrong height at element %zu", t, id);
    }
    if (use_aug && num(n)->sum != num(n)->val + sum_of(n->edge[0]) + sum_of(n->edge[1])) bad("tree %zu: augmentation out of date at element %zu", t, id);
}
static void check_tree(size_t t)
{
    if (is_bad) return;
    walk_n = walk_deep = 0;
    walk(t, root[t], NULL, 0);
    if (is_bad) return;
    if (walk_n != len[t]) { bad("tree %zu holds %zu elements instead of %zu", t, walk_n, len[t]); return; }
    size_t lg = 0;
    while (((size_t)1 << lg) < len[t] + 1) lg++;
    if (walk_deep > 2 * lg + 1) bad("tree %zu with %zu elements is %zu deep", t, len[t], walk_deep);
    size_t i = 0;
    for (cp_dict_each(e, root[t])) {
        if (i >= len[t] || id_of(e) != seq[t][i]) { bad("tree %zu: wrong element at %zu going forward", t, i); return; }
        i++;
    }
    if (i != len[t]) bad("tree %zu: %zu of %zu elements going forward", t, i, len[t]);
    for (cp_dict_each_rev(e, root[t])) {
        if (i == 0 || id_of(e) != seq[t][i - 1]) { bad("tree %zu: wrong element at %zu going backward", t, i); return; }
        i--;
    }
    if (i != 0) bad("tree %zu: %zu elements missing going backward", t, i);
    if (mn[t] != (len[t] ? &nd[seq[t][0]].node : NULL)) bad("tree %zu: wrong minimum", t);
    if (mx[t] != (len[t] ? &nd[seq[t][len[t] - 1]].node : NULL)) bad("tree %zu: wrong maximum", t);
    for (i = 1; i < len[t]; i++) if (key_at(t, i - 1) > key_at(t, i)) bad("model: order");
}
static void check_all(void)
{
    for (size_t t = 0; t < NT; t++) check_tree(t);
    for (size_t i = 0; i < ND && !is_bad; i++) {
        cp_dict_t *n = &nd[i].node;
        if (nd[i].guard != i * 0x9e3779b97f4a7c15ull) bad("element %zu: overwritten", i);
        if (nd[i].tree < 0 && (n->parent || n->edge[0] || n->edge[1] || n->stat || cp_dict_is_member(n)))
            bad("element %zu: removed, but still linked", i);
    }
}
static void sums(cp_dict_t *n) { if (n) { sums(n->edge[0]); sums(n->edge[1]); update(n); } }

static void dict_insert(size_t t, uint64_t key, int dup, unsigned how, uint32_t c)
{
    num_t *n = free_node(c);
    if (n == NULL) return;
    n->key = how & 1 ? ~key : key; /* variants 'by' do not look at the element itself */
    size_t lo = lower(t, key), up = upper(t, key);
    cp_dict_t *r = NULL;
    unsigned m = (c >> 7) & 3;
    cp_dict_t **minp = m & 1 ? NULL : &mn[t], **maxp = m & 2 ? NULL : &mx[t];
    switch (how) {
    case 0: r = use_aug ? cp_dict_insert_aug(&n->node, &root[t], cmp_node, &user, dup, &the_aug) : cp_dict_insert(&n->node, &root[t], cmp_node, &user, dup); break;
    case 1: r = use_aug ? cp_dict_insert_by_aug(&n->node, &key, &root[t], cmp_key, &user, dup, &the_aug) : cp_dict_insert_by(&n->node, &key, &root[t], cmp_key, &user, dup); break;
    case 2: r = use_aug ? cp_dict_insert_update_aug(&n->node, &root[t], minp, maxp, cmp_node, &user, dup, &the_aug) : cp_dict_insert_update(&n->node, &root[t], minp, maxp, cmp_node, &user, dup); break;
    default: r = use_aug ? cp_dict_insert_update_by_aug(&n->node, &key, &root[t], minp, maxp, cmp_key, &user, dup, &the_aug) : cp_dict_insert_update_by(&n->node, &key, &root[t], minp, maxp, cmp_key, &user, dup); break;
    }
    n->key = key;
    if (dup == 0 && lo != up) {
        size_t id = id_of(r);
        if (id == ND || nd[id].tree != (int)t || nd[id].key != key) bad("insert: the equal element is not returned");
    }
    else {
        if (r != NULL) bad("insert: an element is returned where nothing equal is kept from being inserted twice");
        put(t, dup < 0 ? lo : up, n);
    }
    if (how < 2) ends(t);
    else {
        if (minp == NULL) mn[t] = cp_dict_min(root[t]);
        if (maxp == NULL) mx[t] = cp_dict_max(root[t]);
    }
}
static void dict_remove(size_t t, size_t pos, unsigned how)
{
    num_t *n = &nd[seq[t][pos]];
    cp_dict_t *r = NULL;
    if (how == 1 || how == 2) {
        /* the root is not read and need not be wanted */
        cp_dict_t **rp = how == 1 ? NULL : &r;
        if (use_aug) cp_dict_remove_aug(&n->node, rp, &the_aug); else cp_dict_remove(&n->node, rp);
        drop(t, pos);
        if (how == 1 || len[t] == 0) root[t] = len[t] ? cp_dict_root(&nd[seq[t][0]].node) : NULL;
        else if (r != NULL) root[t] = r;
    }
    else {
        if (use_aug) cp_dict_remove_aug(&n->node, &root[t], &the_aug); else cp_dict_remove(&n->node, &root[t]);
        drop(t, pos);
    }
    ends(t);
}
static void dict_extract(size_t t, unsigned x)
{
    cp_dict_t *r;
    size_t had = len[t], pos = x & 1 ? (had ? had - 1 : 0) : 0;
    cp_dict_t *want = had ? &nd[seq[t][pos]].node : NULL;
    switch (x & 3) {
    case 0: r = use_aug ? cp_dict_extract_min_aug(&root[t], &the_aug) : cp_dict_extract_min(&root[t]); break;
    case 1: r = use_aug ? cp_dict_extract_max_aug(&root[t], &the_aug) : cp_dict_extract_max(&root[t]); break;
    case 2: r = use_aug ? cp_dict_extract_update_min_aug(&root[t], &mn[t], &the_aug) : cp_dict_extract_update_min(&root[t], &mn[t]); break;
    default: r = use_aug ? cp_dict_extract_update_max_aug(&root[t], &mx[t], &the_aug) : cp_dict_extract_update_max(&root[t], &mx[t]); break;
    }
    if (r != want) bad("extract: wrong element");
    if (had) drop(t, pos);
    if ((x & 3) != 2) mn[t] = cp_dict_min(root[t]);
    if ((x & 3) != 3) mx[t] = cp_dict_max(root[t]);
}
/* make all of tree t larger than key k or equal */
static void shift(size_t t, uint64_t k)
{
    if (len[t] == 0 || key_at(t, 0) >= k) return;
    uint64_t d = k - key_at(t, 0);
    for (size_t i = 0; i < len[t]; i++) nd[seq[t][i]].key += d;
}
static void dict_join(size_t s, size_t t, num_t *m, uint32_t b)
{
    uint64_t k = len[s] ? key_at(s, len[s] - 1) : 0;
    if (m) { m->key = k + b % 3; k = m->key + (b >> 8) % 3; }
    shift(t, k);
    if (m) root[s] = use_aug ? cp_dict_join3_aug(root[s], &m->node, root[t], &the_aug) : cp_dict_join3(root[s], &m->node, root[t]);
    else root[s] = use_aug ? cp_dict_join2_aug(root[s], root[t], &the_aug) : cp_dict_join2(root[s], root[t]);
    if (m) put(s, len[s], m);
    for (size_t i = 0; i < len[t]; i++) { seq[s][len[s]++] = seq[t][i]; nd[seq[t][i]].tree = (int)s; }
    len[t] = 0;
    root[t] = NULL;
    ends(s);
    ends(t);
}
static void dict_split(size_t s, size_t t, uint64_t k, bool leq)
{
    cp_dict_t *l = (cp_dict_t *)8, *r = (cp_dict_t *)8;
    if (use_aug) cp_dict_split_aug(&l, &r, root[s], &k, cmp_key, &user, leq, &the_aug);
    else cp_dict_split(&l, &r, root[s], &k, cmp_key, &user, leq);
    size_t n = leq ? lower(s, k) : upper(s, k);
    root[s] = l;
    root[t] = r;
    for (size_t i = n; i < len[s]; i++) { seq[t][len[t]++] = seq[s][i]; nd[seq[s][i]].tree = (int)t; }
    len[s] = n;
    ends(s);
    ends(t);
}

enum { D_INSERT, D_REF, D_AT, D_FIND, D_REMOVE, D_EXTRACT, D_SWAP, D_JOIN3, D_JOIN2, D_SPLIT, D_EACHRM, D_STEP, D_FILL, D_DRAIN, D_RELABEL, D_GROW };

static void hist_dict(const uint8_t *ops, size_t n)
{
    use_aug = ops[0] & 1;
    uint64_t range = ops[1] | ops[2] << 8;
    range++;
    for (size_t i = 0; i < ND; i++) {
        nd[i].guard = i * 0x9e3779b97f4a7c15ull;
        nd[i].tree = -1;
        nd[i].val = nd[i].sum = i * i + 1;
        cp_dict_init(&nd[i].node);
    }
    const uint8_t *p = ops + 8;
    for (size_t i = 0; p + sizeof(op_t) <= ops + n && !is_bad; p += sizeof(op_t), i++) {
        op_t o;
        memcpy(&o, p, sizeof o);
        op_i = i;
        op_k = o.op;
        size_t s = o.s % NT, t = o.t % NT;
        uint64_t key = o.c % range;
        size_t lo = lower(s, key), up = upper(s, key);
        switch (o.op) {
        case D_INSERT: dict_insert(s, key, o.x % 3 - 1, (o.x / 3) & 3, o.a); break;
        case D_REF: {
            static const int dups[4] = { -2, -1, 1, 2 };
            int dup = dups[o.x & 3];
            num_t *m = free_node(o.a);
            if (m == NULL) break;
            m->key = key;
            cp_dict_ref_t ref;
            memset(&ref, 0xee, sizeof ref);
            cp_dict_t *r = cp_dict_find_ref(&ref, &key, root[s], cmp_key, &user, dup);
            if (dup == -2 && r != (lo != up ? &nd[seq[s][lo]].node : NULL)) bad("find: not the first equal element");
            if (dup == 2 && r != (lo != up ? &nd[seq[s][up - 1]].node : NULL)) bad("find: not the last equal element");
            if (use_aug) cp_dict_insert_ref_aug(&m->node, &ref, &root[s], &the_aug); else cp_dict_insert_ref(&m->node, &ref, &root[s]);
            put(s, dup < 0 ? lo : up, m);
            ends(s);
            break; }
        case D_AT: {
            num_t *m = free_node(o.a);
            if (m == NULL) break;
            cp_dict_ref_t ref = { NULL, o.x & 1, 0 };
            size_t pos;
            if ((o.x & 6) == 0 || len[s] == 0) { pos = o.x & 1 ? 0 : len[s]; m->key = len[s] ? key_at(s, o.x & 1 ? 0 : len[s] - 1) : key; }
            else {
                size_t at = o.b % len[s];
                ref.parent = &nd[seq[s][at]].node;
                m->key = key_at(s, at);
                pos = at + (o.x & 1);
            }
            unsigned how = ref.parent || len[s] == 0 ? (o.x >> 3) & 3 : 0;
            cp_dict_t **minp = o.x & 32 ? NULL : &mn[s], **maxp = o.x & 64 ? NULL : &mx[s];
            if (how == 0) { if (use_aug) cp_dict_insert_ref_aug(&m->node, &ref, &root[s], &the_aug); else cp_dict_insert_ref(&m->node, &ref, &root[s]); }
            else if (how == 1) { if (use_aug) cp_dict_insert_at_aug(&m->node, ref.parent, ref.child, &root[s], &the_aug); else cp_dict_insert_at(&m->node, ref.parent, ref.child, &root[s]); }
            else { if (use_aug) cp_dict_insert_update_at_aug(&m->node, ref.parent, ref.child, &root[s], minp, maxp, &the_aug); else cp_dict_insert_update_at(&m->node, ref.parent, ref.child, &root[s], minp, maxp); }
            put(s, pos, m);
            if (how < 2) ends(s);
            else {
                if (minp == NULL) mn[s] = cp_dict_min(root[s]);
                if (maxp == NULL) mx[s] = cp_dict_max(root[s]);
            }
            break; }
        case D_FIND: {
            static const int dups[4] = { 0, 0, -2, 2 };
            int dup = dups[o.x & 3];
            cp_dict_t *r = cp_dict_find(&key, root[s], cmp_key, &user, dup);
            size_t id = id_of(r);
            if (lo == up) { if (r != NULL) bad("find: something else is found"); }
            else if (id == ND || nd[id].tree != (int)s || nd[id].key != key) bad("find: not found or wrong");
            else if (dup < 0 && id != seq[s][lo]) bad("find: not the first equal element");
            else if (dup > 0 && id != seq[s][up - 1]) bad("find: not the last equal element");
            break; }
        case D_REMOVE: if (len[s]) dict_remove(s, o.a % len[s], o.x & 3); break;
        case D_EXTRACT: dict_extract(s, o.x); break;
        case D_SWAP: {
            if (len[s] == 0) break;
            size_t i1 = o.a % len[s];
            num_t *a = &nd[seq[s][i1]], *b;
            size_t i2 = 0, k = o.x % 3;
            if (k == 0) { /* with one that is not in any tree */
                b = free_node(o.b);
                if (b == NULL) break;
                b->key = a->key;
                if (o.x & 4) cp_dict_swap_update_root(&root[s], &b->node, &a->node); else cp_dict_swap_update_root(&root[s], &a->node, &b->node);
                seq[s][i1] = (unsigned short)(b - nd);
                b->tree = (int)s;
                a->tree = -1;
                a->sum = a->val;
            }
            else {
                if (k == 1) t = s;
                if (len[t] == 0) break;
                i2 = o.b % len[t];
                if (o.x & 8 && t == s && i1 + 1 < len[s]) i2 = i1 + 1;
                b = &nd[seq[t][i2]];
                if (t == s && o.x & 16) cp_dict_swap_update_root(&root[s], &a->node, &b->node);
                else cp_dict_swap_update_root2(&root[s], &root[t], &a->node, &b->node);
                uint64_t ka = a->key;
                a->key = b->key;
                b->key = ka;
                seq[s][i1] = (unsigned short)(b - nd);
                seq[t][i2] = (unsigned short)(a - nd);
                b->tree = (int)s;
                a->tree = (int)t;
            }
            ends(s);
            ends(t);
            walk_n = 0;
            { bool u = use_aug; use_aug = false; check_tree(s); check_tree(t); use_aug = u; }
            if (!is_bad && use_aug) { sums(root[s]); sums(root[t]); }
            break; }
        case D_JOIN3: case D_JOIN2: {
            num_t *m = o.op == D_JOIN3 ? free_node(o.a) : NULL;
            if (s == t || (o.op == D_JOIN3 && m == NULL)) break;
            dict_join(s, t, m, o.b);
            break; }
        case D_SPLIT:
            if (s == t) break;
            if (len[t]) dict_join(s, t, NULL, 0);
            if (o.x & 2 && len[s]) key = key_at(s, o.a % len[s]) + (o.x & 4 ? 1 : 0);
            dict_split(s, t, key, o.x & 1);
            break;
        case D_EACHRM: {
            size_t m = o.a % 5 + 1, j = 0;
            for (cp_dict_each_robust(e, root[s])) {
                size_t id = id_of(e);
                if (j >= len[s] || seq[s][j] != id) { bad("going through while removing: wrong element"); break; }
                if ((id + o.b) % m == 0) { if (use_aug) cp_dict_remove_aug(e, &root[s], &the_aug); else cp_dict_remove(e, &root[s]); drop(s, j); }
                else j++;
            }
            if (!is_bad && j != len[s]) bad("going through while removing: not all elements seen");
            ends(s);
            break; }
        case D_STEP: {
            if (len[s] == 0) break;
            size_t at = o.a % len[s];
            cp_dict_t *e = &nd[seq[s][at]].node;
            if (cp_dict_next(e) != (at + 1 < len[s] ? &nd[seq[s][at + 1]].node : NULL)) bad("next: wrong element");
            if (cp_dict_prev(e) != (at ? &nd[seq[s][at - 1]].node : NULL)) bad("prev: wrong element");
            if (cp_dict_next0(e) != cp_dict_next(e) || cp_dict_prev0(e) != cp_dict_prev(e)) bad("next0: wrong element");
            if (cp_dict_next0(NULL) != NULL || cp_dict_prev0(NULL) != NULL) bad("next0: of nothing");
            if (cp_dict_root(e) != root[s]) bad("root: wrong element");
            for (size_t u = 0; u < NT; u++) if (cp_dict_contains(root[u], e) != (u == s)) bad("contains: wrong answer");
            if (!cp_dict_may_contain(root[s], e)) bad("may_contain: wrong answer");
            if (len[s] > 1 && !cp_dict_is_member(e)) bad("is_member: wrong answer");
            if (cp_dict_is_root(e) != (e == root[s])) bad("is_root: wrong answer");
            if (cp_dict_is_singleton(e) != (len[s] == 1)) bad("is_singleton: wrong answer");
            break; }
        case D_FILL:
            for (size_t k = o.a % 50 + 1; k > 0 && !is_bad; k--) {
                uint64_t kk = o.x % 3 == 0 ? key : o.x % 3 == 1 ? (key + k) % range : (key + 1000003 - k) % range;
                dict_insert(s, kk, o.x & 64 ? 1 : -1, (o.x / 3) & 3, o.b + (uint32_t)k * 7);
            }
            break;
        case D_DRAIN:
            for (size_t k = o.a % 60 + 1; k > 0 && len[s] && !is_bad; k--) {
                if (o.x & 4) dict_remove(s, (o.b + k * 13) % len[s], o.x & 3);
                else { dict_extract(s, o.x & 3); if ((o.x & 3) == 2) mx[s] = cp_dict_max(root[s]); }
            }
            break;
        case D_RELABEL:
            for (size_t k = 0; k < len[s]; k++) nd[seq[s][k]].key = k / (o.x % 4 + 1u);
            break;
        case D_GROW: /* as a sequence: one by one at either end */
            for (size_t k = o.a % 40 + 1; k > 0 && !is_bad; k--) {
                num_t *m = free_node(o.b + (uint32_t)k * 3);
                if (m == NULL) break;
                if (o.x & 1) {
                    m->key = len[s] ? key_at(s, len[s] - 1) : 0;
                    root[s] = cp_dict_join3_aug(root[s], &m->node, NULL, AUG);
                    put(s, len[s], m);
                }
                else {
                    m->key = len[s] ? key_at(s, 0) : 0;
                    root[s] = cp_dict_join3_aug(NULL, &m->node, root[s], AUG);
                    put(s, 0, m);
                }
            }
            ends(s);
            break;
        }
        check_all();
        uint32_t h = 0;
        for (size_t k = 0; k < len[s]; k++) h = h * 31 + seq[s][k];
        sim_event("O %zu %d n=%zu,%zu h=%x", i, o.op, len[s], len[t], h);
    }
    if (!is_bad) sim_event("O end");
}

/* ------------------------------------------------------------------- heap */

#define NH 200
typedef struct { uint64_t key; size_t idx; uint64_t guard; bool in; } item_t;
static item_t it[NH];
static cp_heap_t heap;
static size_t nin;
static item_t *item(size_t const *x) { return CP_BOX_OF((size_t *)(size_t)x, item_t, idx); }
static int cmp_item(size_t const *a, size_t const *b, void *u) { return cmp64(item(a)->key, item(b)->key, u); }

static bool is_item(size_t *x)
{
    size_t i = (size_t)((char *)x - (char *)&it[0].idx) / sizeof(item_t);
    return x != NULL && i < NH && x == &it[i].idx;
}
static void check_heap(void)
{
    if (is_bad) return;
    if (heap.size != nin) { bad("the heap holds %zu elements instead of %zu", heap.size, nin); return; }
    for (size_t i = 0; i < heap.size; i++) {
        size_t *x = heap.data[i];
        if (!is_item(x) || !item(x)->in) { bad("the heap holds something that is no element at %zu", i); return; }
        if (*x != i) { bad("element %zu at position %zu says it is at %zu", (size_t)(item(x) - it), i, *x); return; }
        if (i && item(heap.data[(i - 1) / 2])->key > item(x)->key) { bad("order at position %zu", i); return; }
    }
    uint64_t least = ~(uint64_t)0;
    for (size_t i = 0; i < NH; i++) {
        if (it[i].guard != i * 77) bad("element %zu overwritten", i);
        if (!it[i].in && it[i].idx != CP_HEAP_NO_IDX) bad("element %zu is out of the heap, but says it is at %zu", i, it[i].idx);
        if (cp_heap_is_member(&it[i].idx) != it[i].in) bad("is_member: wrong answer for %zu", i);
        if (it[i].in && it[i].key < least) least = it[i].key;
    }
    size_t *m = cp_heap_min(&heap);
    if (nin == 0 ? m != NULL : (!is_item(m) || item(m)->key != least)) bad("wrong minimum");
}
static item_t *free_item(uint32_t c)
{
    for (size_t i = 0; i < NH; i++) if (!it[(c + i) % NH].in) return &it[(c + i) % NH];
    return NULL;
}
static item_t *used_item(uint32_t c)
{
    for (size_t i = 0; i < NH; i++) if (it[(c + i) % NH].in) return &it[(c + i) % NH];
    return NULL;
}

enum { H_INSERT, H_EXTRACT, H_REMOVE, H_REPLACE, H_UPDATE, H_MAKE, H_FILL, H_DRAIN, H_FINI };

static void heap_insert(uint32_t a, uint64_t key)
{
    item_t *x = free_item(a);
    if (x == NULL) return;
    x->key = key;
    cp_heap_insert(&heap, cmp_item, &user, &x->idx);
    x->in = true;
    nin++;
}
static void heap_extract(void)
{
    size_t *r = cp_heap_extract(&heap, cmp_item, &user);
    if (nin == 0) { if (r != NULL) bad("extract from an empty heap"); return; }
    uint64_t least = ~(uint64_t)0;
    for (size_t i = 0; i < NH; i++) if (it[i].in && it[i].key < least) least = it[i].key;
    if (!is_item(r) || !item(r)->in || item(r)->key != least) { bad("extract: not the minimum"); return; }
    item(r)->in = false;
    nin--;
}
static void hist_heap(const uint8_t *ops, size_t n)
{
    uint64_t range = (ops[1] | ops[2] << 8) + 1u;
    cp_v_init0(&heap, ops[0] % 20);
    for (size_t i = 0; i < NH; i++) { it[i].idx = CP_HEAP_NO_IDX; it[i].guard = i * 77; }
    const uint8_t *p = ops + 8;
    if (heap.size) cp_v_set_size(&heap, 0);
    for (size_t i = 0; p + sizeof(op_t) <= ops + n && !is_bad; p += sizeof(op_t), i++) {
        op_t o;
        memcpy(&o, p, sizeof o);
        op_i = i;
        op_k = o.op;
        uint64_t key = o.c % range;
        item_t *u = used_item(o.a), *f = free_item(o.b);
        size_t *r;
        switch (o.op) {
        case H_INSERT: heap_insert(o.a, key); break;
        case H_EXTRACT: heap_extract(); break;
        case H_REMOVE:
            if (u == NULL) break;
            r = cp_heap_remove(&heap, cmp_item, &user, u->idx);
            if (r != &u->idx) bad("remove: another element is returned");
            u->in = false;
            nin--;
            break;
        case H_REPLACE:
            switch (o.x & 3) {
            case 0:
                if (f == NULL) break;
                f->key = key;
                r = cp_heap_replace(&heap, cmp_item, &user, CP_HEAP_NO_IDX, &f->idx);
                if (r != NULL) bad("replace: nothing to return");
                f->in = true;
                nin++;
                break;
            case 1:
                if (u == NULL) break;
                r = cp_heap_replace(&heap, cmp_item, &user, u->idx, NULL);
                if (r != &u->idx) bad("replace: another element is returned");
                u->in = false;
                nin--;
                break;
            case 2:
                if (u == NULL || f == NULL) break;
                f->key = key;
                r = cp_heap_replace(&heap, cmp_item, &user, u->idx, &f->idx);
                if (r != &u->idx) bad("replace: another element is returned");
                u->in = false;
                f->in = true;
                break;
            default:
                if (u == NULL) break;
                u->key = key;
                r = cp_heap_replace(&heap, cmp_item, &user, u->idx, &u->idx);
                if (r != NULL) bad("replace: nothing to return");
                break;
            }
            break;
        case H_UPDATE:
            if (u == NULL) break;
            u->key = o.x & 1 ? key : o.x & 2 ? u->key + key : u->key > key ? u->key - key : 0;
            cp_heap_update(&heap, cmp_item, &user, u->idx);
            break;
        case H_MAKE: {
            /* out of an array in no order; indices are set by it */
            size_t add = o.b % 40;
            for (size_t k = 0; k < add; k++) {
                item_t *y = free_item(o.c + (uint32_t)k * 11);
                if (y == NULL) break;
                size_t *yp = &y->idx;
                cp_v_push(&heap, yp);
                y->in = true;
                nin++;
            }
            for (size_t k = 0; k < nin; k++) {
                item_t *y = item(heap.data[k]);
                y->key = o.x & 1 ? (key + k * (o.a % 97)) % range : o.x & 2 ? key + nin - k : key + k;
                y->idx = o.x & 4 ? (size_t)-1 : 0xdead;
            }
            cp_heap_make_(&heap, cmp_item, &user);
            break; }
        case H_FILL:
            for (size_t k = o.a % 40 + 1; k > 0 && !is_bad; k--) heap_insert(o.b + (uint32_t)k * 5, o.x & 1 ? key + k : o.x & 2 ? key + 1000 - k : (key * k) % range);
            break;
        case H_DRAIN:
            for (size_t k = o.a % 60 + 1; k > 0 && nin && !is_bad; k--) { heap_extract(); if (k % 8 == 0) check_heap(); }
            break;
        case H_FINI:
            cp_v_fini(&heap);
            for (size_t k = 0; k < NH; k++) { it[k].in = false; it[k].idx = CP_HEAP_NO_IDX; }
            nin = 0;
            break;
        }
        check_heap();
        sim_event("O %zu %d n=%zu", i, o.op, nin);
    }
    if (is_bad) return;
    cp_v_fini(&heap);
    sim_event("O end live=%llu", (unsigned long long)sim_sh->live_bytes);
}

/* ------------------------------------------------------------------- list */

#define NL 60
typedef struct ring { uint64_t guard; struct ring *next; size_t id; struct ring *prev; } ring_t;
static ring_t rg[NL];
static cp_list_t ls[NL];
static size_t nx[NL];

static size_t pv(size_t i) { size_t j = i; while (nx[j] != i) j = nx[j]; return j; }
static void mchain(size_t p, size_t n)
{
    size_t a = pv(n), d = nx[p];
    nx[p] = n;
    nx[a] = d;
}
static void check_lists(void)
{
    for (size_t i = 0; i < NL && !is_bad; i++) {
        if (rg[i].guard != i * 99 || rg[i].id != i) bad("node %zu overwritten", i);
        if (rg[i].next != &rg[nx[i]] || ls[i].next != &ls[nx[i]]) bad("node %zu: wrong successor", i);
        if (rg[nx[i]].prev != &rg[i] || ls[nx[i]].prev != &ls[i]) bad("node %zu: wrong predecessor", nx[i]);
        if (ls[i].edge[0] != ls[i].next || ls[i].edge[1] != ls[i].prev) bad("node %zu: directions", i);
        if (cp_list_is_member(&rg[i]) != (nx[i] != i) || cp_list_is_member(&ls[i]) != (nx[i] != i)) bad("node %zu: is_member", i);
    }
}

enum { L_CHAIN, L_REMOVE, L_EACH, L_EACHRM, L_EACHREV };

static void hist_list(const uint8_t *ops, size_t n)
{
    for (size_t i = 0; i < NL; i++) {
        rg[i].guard = i * 99;
        rg[i].id = nx[i] = i;
        cp_list_init(&rg[i]);
        cp_list_init(&ls[i]);
    }
    const uint8_t *p = ops + 8;
    size_t m = ops[0] % NL + 1;
    for (size_t i = 0; p + sizeof(op_t) <= ops + n && !is_bad; p += sizeof(op_t), i++) {
        op_t o;
        memcpy(&o, p, sizeof o);
        op_i = i;
        op_k = o.op;
        size_t a = o.a % m, b = o.b % m, k = 0, j;
        /* arguments are expressions: each is to be evaluated once */
        size_t ev = 0;
        switch (o.op) {
        case L_CHAIN:
            cp_list_chain((ev++, &rg[a]), (ev += 16, &rg[b]));
            cp_list_chain(&ls[a], &ls[b]);
            mchain(a, b);
            if (ev != 17) bad("chain: arguments evaluated more or less than once");
            break;
        case L_REMOVE:
            cp_list_remove((ev++, &rg[a]));
            cp_list_remove(&ls[a]);
            mchain(a, a);
            if (ev != 1) bad("remove: argument evaluated more or less than once");
            break;
        case L_EACH:
            j = nx[a];
            for (cp_list_each(e, &rg[a])) {
                if (e != &rg[j] || j == a || k++ > NL) { bad("each: wrong node"); break; }
                j = nx[j];
            }
            if (!is_bad && j != a) bad("each: ends early");
            break;
        case L_EACHREV:
            j = pv(a);
            for (cp_list_each_rev(e, &ls[a])) {
                if (e != &ls[j] || j == a || k++ > NL) { bad("each_rev: wrong node"); break; }
                j = pv(j);
            }
            if (!is_bad && j != a) bad("each_rev: ends early");
            break;
        case L_EACHRM:
            /* insert behind some of the nodes while going through them */
            j = nx[a];
            for (cp_list_each(e, &rg[a])) {
                if (e != &rg[j] || j == a || k++ > NL) { bad("each: wrong node while inserting"); break; }
                for (size_t f = 0; f < m; f++) {
                    if (nx[f] == f && f != a && (f + o.b + k) % 3 == 0) {
                        cp_list_chain(e, &rg[f]);
                        cp_list_chain(&ls[j], &ls[f]);
                        mchain(j, f);
                        break;
                    }
                }
                j = nx[j];
            }
            break;
        }
        check_lists();
        sim_event("O %zu %d h=%zu", i, o.op, nx[a] * 64 + nx[b]);
    }
    if (!is_bad) sim_event("O end");
}

/* ------------------------------------------------- points found again by place */

#ifdef POINTS
#define NPT 600
static cp_vec3_dict_t pd[2];
static struct { double c[3]; cp_vec3_dict_node_t *n; } pt[2][NPT];
static size_t npt[2];
static char const place[4] = "abc";

static int plex(double const *a, double const *b)
{
    for (int k = 0; k < 3; k++) if (a[k] != b[k]) return a[k] < b[k] ? -1 : 1;
    return 0;
}
static void hist_points(const uint8_t *ops, size_t n)
{
    cp_pool_t pool;
    cp_pool_init(&pool);
    const uint8_t *p = ops + 8;
    uint32_t range = (ops[1] | (uint32_t)ops[2] << 8) + 1u;
    pool.block_size = (size_t)ops[3] * 64;
    for (size_t i = 0; p + sizeof(op_t) <= ops + n && !is_bad; p += sizeof(op_t), i++) {
        op_t o;
        memcpy(&o, p, sizeof o);
        op_i = i;
        op_k = o.op;
        size_t t = o.s & 1;
        if (o.op == 1) {
            /* other use of the pool */
            memset(cp_pool_calloc("history", (int)i, &pool, 1, o.a % 300 + 1, 8), 0xee, o.a % 300 + 1);
            continue;
        }
        /* close to each other or far from the origin, but never as close as what counts as equal */
        double step = (ops[4] & 1) ? 0x1p-11 : 0.25, far = (ops[4] & 2) ? 0x1p20 : 3;
        double c[3] = { (double)(o.a % range) * step - far, (double)(o.b % range) * step + (far - 3), (double)(o.c % range) * -step };
        if (o.op == 2 && npt[t]) memcpy(c, pt[t][o.a % npt[t]].c, sizeof c);
        else if (o.op == 3 && npt[t]) memcpy(c, pt[t][o.a % npt[t]].c, 16);
        if (npt[t] == NPT && o.op != 2) continue;
        size_t j = 0;
        while (j < npt[t] && plex(pt[t][j].c, c) != 0) j++;
        cp_vec3_t v = { .v = { c[0], c[1], c[2] } };
        cp_vec3_dict_node_t *e = cp_vec3_dict_insert(&pool, &pd[t], &v, &place[o.x & 3]);
        if (j == npt[t]) {
            memcpy(pt[t][j].c, c, sizeof c);
            pt[t][j].n = e;
            npt[t]++;
            if (e->loc != &place[o.x & 3]) bad("points: place of a new point");
        }
        if (e != pt[t][j].n || e->idx != j) bad("points: number %zu instead of %zu", e->idx, j);
        if (pd[t].size != npt[t]) bad("points: %zu instead of %zu", pd[t].size, npt[t]);
        if (i % 16 == 15 || p + 2 * sizeof(op_t) > ops + n) {
            for (size_t u = 0; u < 2; u++) {
                size_t k = 0;
                double const *last = NULL;
                for (cp_dict_each(q, pd[u].root)) {
                    cp_vec3_dict_node_t *g = CP_BOX_OF(q, *g, node);
                    if (g->idx >= npt[u] || pt[u][g->idx].n != g || plex(pt[u][g->idx].c, g->coord.v)) { bad("points: changed"); break; }
                    if (last != NULL && plex(last, g->coord.v) >= 0) { bad("points: order"); break; }
                    last = g->coord.v;
                    k++;
                }
                if (k != npt[u]) bad("points: %zu of %zu when going through them", k, npt[u]);
            }
        }
        sim_event("O %zu %d h=%zu", i, o.op, e->idx);
    }
    cp_pool_fini(&pool);
    if (!is_bad) sim_event("O end live=%llu", (unsigned long long)sim_sh->live_bytes);
}
#endif

int sim_history_ord(const char *which, const uint8_t *ops, size_t n)
{
    if (strcmp(which, "dict") == 0) hist_dict(ops, n);
    else if (strcmp(which, "heap") == 0) hist_heap(ops, n);
    else if (strcmp(which, "list") == 0) hist_list(ops, n);
#ifdef POINTS
    else if (strcmp(which, "points") == 0) hist_points(ops, n);
#else
    else if (strcmp(which, "points") == 0) sim_event("O end");
#endif
    else return 0;
    return 1;
}
