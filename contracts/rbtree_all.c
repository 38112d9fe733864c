/* Exhaustive bounded stand-in for the ordered tree: every valid red-black tree of at most NMAX nodes,
 * every operation on it, on the real code (native execution; no sampling). */
#include "common.h"
#include <rcpr/rbtree.h>
#include "rbtree/rbtree_internal.h"
typedef S(rbtree) rbtree; typedef S(rbtree_node) node; typedef S(resource) resource;
#ifndef NMAX
#define NMAX 12
#endif
#ifdef MODE_N
#define MAXV (NMAX + 2)
typedef struct val { resource hdr; int key; int released; int st; } val;
static val V[2 * MAXV]; static long cases; static int failst;
static status val_release(resource* r) { val* v = (val*)r; CHECK("[C05,C10] a value is released at most once", v->released == 0); ++v->released; if (v->st) ++failst; return v->st; }
static const S(resource_vtable) val_vt = { &val_release };
static int ctx;
static int cmp(void* c, const void* a, const void* b) { CHECK("the tree's own context is passed to compare", c == &ctx); int x = *(const int*)a, y = *(const int*)b; return x < y ? -1 : x > y; }
static int cmp2(void* c, const void* a, const void* b) { int x = *(const int*)a, y = *(const int*)b; return x < y ? -1 : x > y; }
static const void* keyf(void* c, const resource* r) { CHECK("the tree's own context is passed to key", c == &ctx); return &((const val*)r)->key; }
static const void* keyf2(void* c, const resource* r) { return &((const val*)r)->key; }
/* all shapes: T[n][bh][red] */
typedef struct sh { int n, bh, red; struct sh *l, *r; struct sh* next; } sh;
static sh* T[NMAX + 1][8][2];
static void gen(void)
{
    for (int n = 1; n <= NMAX; ++n) for (int bh = 0; bh < 8; ++bh) for (int red = 1; red >= 0; --red) {
        int cb = red ? bh : bh - 1;
        if (cb < 0) continue;
        for (int a = 0; a < n; ++a) for (int c1 = 0; c1 < 2; ++c1) for (int c2 = 0; c2 < 2; ++c2) {
            int b2 = n - 1 - a; static sh nil_;
            if (red && (c1 || c2)) continue;
            for (sh* l = a ? T[a][cb][c1] : (cb == 0 && !c1 ? &nil_ : NULL); l; l = a ? l->next : NULL)
                for (sh* r = b2 ? T[b2][cb][c2] : (cb == 0 && !c2 ? &nil_ : NULL); r; r = b2 ? r->next : NULL) {
                    sh* s = malloc(sizeof(sh)); s->n = n; s->bh = bh; s->red = red; s->l = a ? l : NULL; s->r = b2 ? r : NULL;
                    s->next = T[n][bh][red]; T[n][bh][red] = s;
                }
        }
    }
}
static node* N[MAXV]; static int nextk;
static node* mk(rbtree* t, sh* s, node* parent)
{
    if (!s) return t->nil;
    node* x = NULL; 
    status st = S(rbtree_node_create)(&x, t, NULL); CHECK("node creation works", st == 0);
    x->parent = parent; x->color = s->red;
    x->left = mk(t, s->l, x);
    int i = nextk++; V[i].key = 2 * (i + 1); x->value = &V[i].hdr; N[i] = x;
    x->right = mk(t, s->r, x);
    return x;
}
static rbtree* build(sh* s)
{
    v_init(NONE, NONE);
    rbtree* t = NULL; failst = 0; nextk = 0;
    for (int i = 0; i < 2 * MAXV; ++i) { S(resource_init)(&V[i].hdr, &val_vt); V[i].released = 0; V[i].st = 0; V[i].key = -100 - i; }
    CHECK("creation works", S(rbtree_create)(&t, &v_alloc, &cmp, &keyf, &ctx) == 0);
    if (s) { t->root = mk(t, s, t->nil); t->count = s->n; }
    ++cases;
    return t;
}
/* validity */
static int seen; static resource* order_[2 * MAXV];
static int walk(rbtree* t, node* x, node* parent)
{
    if (x == t->nil) return 0;
    CHECK("[C10,C09] parent links agree with child links", x->parent == parent);
    CHECK("[C10] the tree is finite", seen < 2 * MAXV - 1);
    if (x->color == RBTREE_RED) CHECK("[C11] no red node has a red child", !(x->left != t->nil && x->left->color == RBTREE_RED) && !(x->right != t->nil && x->right->color == RBTREE_RED));
    int a = walk(t, x->left, x);
    order_[seen++] = x->value;
    int c = walk(t, x->right, x);
    CHECK("[C11] every path has the same number of black nodes", a == c);
    return a + (x->color == RBTREE_BLACK);
}
/* the tree holds exactly the n values of exp, which are in order, as multiset by key */
static void valid(rbtree* t, int n)
{
    seen = 0;
    node* z = t->nil;
    CHECK("[C10,C09] the nil node is clean", z == &t->nil_impl && z->parent == z && z->left == z && z->right == z && z->color == RBTREE_BLACK);
    CHECK("[C11] the root is black", t->root == z || t->root->color == RBTREE_BLACK);
    walk(t, t->root, z);
    CHECK("[C10,C09] count is the number of values", S(rbtree_count)(t) == (size_t)n && seen == n);
    for (int i = 0; i + 1 < seen; ++i) CHECK("[C10,C09] values are in order", ((val*)order_[i])->key <= ((val*)order_[i + 1])->key);
}
static _Bool has(val* v) { int k = 0; for (int i = 0; i < seen; ++i) k += order_[i] == &v->hdr; CHECK("[C10] a value is held at most once", k <= 1); return k == 1; }
static void all_held(int n, int except) { for (int i = 0; i < n; ++i) CHECK("[C10,C09] exactly the values inserted and not deleted are held", has(&V[i]) == (i != except) && IMPL(i != except, V[i].released == 0)); }
static void destroy(rbtree* t, int n, int except)
{
    for (int i = 0; i < n; ++i) CHECK("[C10,C05] nothing was released early", i == except || V[i].released == 0);
    CHECK("[C05] releasing the tree succeeds", S(resource_release)(S(rbtree_resource_handle)(t)) == 0);
    for (int i = 0; i < n; ++i) CHECK("[C05] releasing the tree releases every value once", i == except || V[i].released == 1);
    CHECK("[C05] all memory is returned", failst || g.live == 0);
}
#define EACH(body) gen(); body(NULL, 0); for (int n_ = 1; n_ <= NMAX; ++n_) for (int bh_ = 0; bh_ < 8; ++bh_) for (sh* s_ = T[n_][bh_][0]; s_; s_ = s_->next) body(s_, n_); \
    printf("exhaustive cases %ld\n", cases);
static void one_insert(sh* s, int n)
{
    for (int k = 1; k <= 2 * n + 1; ++k) {
        rbtree* t = build(s); val* v = &V[n]; v->key = k;
        CHECK("[C10] insertion succeeds", S(rbtree_insert)(t, &v->hdr) == 0);
        valid(t, n + 1); all_held(n, -1); CHECK("[C10] the inserted value is held", has(v));
        destroy(t, n + 1, -1);
    }
    rbtree* t = build(s); g.fail_at = g.alloc_calls;
    CHECK("[C10] a refused insertion reports an error", S(rbtree_insert)(t, &V[n].hdr) != 0);
    valid(t, n); all_held(n, -1); CHECK("[C10] and leaves the value with the caller", V[n].released == 0);
    destroy(t, n, -1);
}
static void one_delete(sh* s, int n)
{
    for (int i = 0; i < n; ++i) for (int how = 0; how < 5; ++how) {
        rbtree* t = build(s); int key = V[i].key; status st; resource* r = NULL;
        if (how == 2 || how == 4) { if (how == 4) V[i].st = 77; else { } }
        if (how == 0) st = S(rbtree_delete)(&r, t, &key); else if (how == 1 || how == 4) st = S(rbtree_delete)(NULL, t, &key);
        else if (how == 2) st = S(rbtree_delete_node)(&r, t, N[i]); else st = S(rbtree_delete_node)(NULL, t, N[i]);
        CHECK("[C10,C05] deletion succeeds unless releasing the value fails", (st == 0) == (how != 4));
        valid(t, n - 1); all_held(n, i);
        if (how == 0 || how == 2) CHECK("[C10] the value is handed over undisturbed", r == &V[i].hdr && V[i].released == 0);
        else CHECK("[C10] the value is released once", V[i].released == 1);
        destroy(t, n, i);
    }
    for (int k = 1; k <= 2 * n + 1; k += 2) {
        rbtree* t = build(s); resource* r = NULL;
        CHECK("[C10] deleting an absent key reports not-found", S(rbtree_delete)(&r, t, &k) == ERROR_RBTREE_NOT_FOUND && r == NULL);
        valid(t, n); all_held(n, -1);
        CHECK("[C10] looking up an absent key reports not-found", S(rbtree_find)(&r, t, &k) == ERROR_RBTREE_NOT_FOUND && r == NULL);
        valid(t, n); all_held(n, -1);
        destroy(t, n, -1);
    }
}
static void one_find(sh* s, int n)
{
    rbtree* t = build(s);
    for (int i = 0; i < n; ++i) { int k = V[i].key; resource* r = NULL; CHECK("[C10] a value present is found", S(rbtree_find)(&r, t, &k) == 0 && r == &V[i].hdr); }
    valid(t, n); all_held(n, -1);
    /* duplicates */
    for (int d = 0; d < n; ++d) {
        rbtree* u = build(s); val* v = &V[n]; v->key = V[d].key; int k = v->key; resource* r = NULL;
        CHECK("[C10] inserting an equal key succeeds", S(rbtree_insert)(u, &v->hdr) == 0);
        valid(u, n + 1);
        CHECK("[C10] one of the equal values is found", S(rbtree_find)(&r, u, &k) == 0 && (r == &v->hdr || r == &V[d].hdr));
        resource* q = NULL;
        CHECK("[C10] one of them is deleted", S(rbtree_delete)(&q, u, &k) == 0 && (q == &v->hdr || q == &V[d].hdr));
        valid(u, n); CHECK("[C10] the other one stays", has(v) == (q != &v->hdr) && has(&V[d]) == (q != &V[d].hdr));
        r = NULL; CHECK("[C10] and is found", S(rbtree_find)(&r, u, &k) == 0 && r != q);
    }
}
static void one_nav(sh* s, int n)
{
    rbtree* t = build(s); node* z = S(rbtree_nil_node)(t);
    CHECK("[C12] root", S(rbtree_root_node)(t) == t->root);
    if (n == 0) { CHECK("[C12] an empty tree's root is nil", S(rbtree_root_node)(t) == z); return; }
    CHECK("[C12] minimum", S(rbtree_minimum_node)(t, S(rbtree_root_node)(t)) == N[0]);
    CHECK("[C12] maximum", S(rbtree_maximum_node)(t, S(rbtree_root_node)(t)) == N[n - 1]);
    for (int i = 0; i < n; ++i) {
        CHECK("[C12] successor", S(rbtree_successor_node)(t, N[i]) == (i + 1 < n ? N[i + 1] : z));
        CHECK("[C12] predecessor", S(rbtree_predecessor_node)(t, N[i]) == (i ? N[i - 1] : z));
        CHECK("[C12] parent, left, right, value", S(rbtree_parent_node)(t, N[i]) == N[i]->parent && S(rbtree_left_node)(t, N[i]) == N[i]->left && S(rbtree_right_node)(t, N[i]) == N[i]->right && S(rbtree_node_value)(t, N[i]) == &V[i].hdr);
    }
    valid(t, n); all_held(n, -1);
    destroy(t, n, -1);
}
static void one_clear(sh* s, int n)
{
    for (int bad = -1; bad < n; ++bad) {
        rbtree* t = build(s); if (bad >= 0) V[bad].st = 55;
        status st = S(rbtree_clear)(t);
        CHECK("[C05] a failed release is reported", (st == 0) == (bad < 0));
        for (int i = 0; i < n; ++i) CHECK("[C05] clearing releases every value once", V[i].released == 1);
        CHECK("[C05] a successful clear returns the nodes' memory", IMPL(bad < 0, g.live == 1));
        valid(t, 0);
        val* v = &V[n]; v->key = 3; CHECK("[C05] a cleared tree is usable", S(rbtree_insert)(t, &v->hdr) == 0); valid(t, 1);
        CHECK("[C05] releasing it succeeds", S(resource_release)(S(rbtree_resource_handle)(t)) == 0 && v->released == 1);
    }
    for (int bad = -1; bad < n; ++bad) {
        rbtree* t = build(s); if (bad >= 0) V[bad].st = 55;
        status st = S(resource_release)(S(rbtree_resource_handle)(t));
        CHECK("[C05] a failed release is reported", (st == 0) == (bad < 0));
        for (int i = 0; i < n; ++i) CHECK("[C05] releasing a tree releases every value once", V[i].released == 1);
        CHECK("[C05] success returns all memory", IMPL(bad < 0, g.live == 0));
    }
}
static sh* other[64]; static int nother;
static void one_swap(sh* s, int n)
{
    for (int o = 0; o < nother; ++o) {
        rbtree* a = build(s); int m = other[o] ? other[o]->n : 0;
        rbtree* c = NULL; static int ctx2;
        CHECK("creation works", S(rbtree_create)(&c, &v_alloc, &cmp2, &keyf2, &ctx2) == 0);
        int base = nextk; c->root = mk(c, other[o], c->nil); c->count = m;
        S(rbtree_swap)(a, c);
        valid(a, m); for (int i = 0; i < n + m; ++i) CHECK("[C09] left holds exactly what right held", has(&V[i]) == (i >= base));
        valid(c, n); for (int i = 0; i < n + m; ++i) CHECK("[C09] right holds exactly what left held", has(&V[i]) == (i < base));
        CHECK("[C09] comparison follows the contents", a->compare == &cmp2 && a->key == &keyf2 && a->context == &ctx2 && c->compare == &cmp && c->key == &keyf && c->context == &ctx);
        val* v = &V[n + m]; v->key = 5;
        CHECK("[C09] right is usable", S(rbtree_insert)(c, &v->hdr) == 0); valid(c, n + 1); valid(a, m);
        CHECK("[C09] releasing left works", S(resource_release)(S(rbtree_resource_handle)(a)) == 0);
        for (int i = 0; i < n + m; ++i) CHECK("[C09] and releases only what left holds", V[i].released == (i >= base));
        valid(c, n + 1);
        CHECK("[C09] releasing right works", S(resource_release)(S(rbtree_resource_handle)(c)) == 0 && g.live == 0);
    }
}
static void one_swap_main(void)
{
    gen(); nother = 0; other[nother++] = NULL;
    for (int n = 1; n <= 4; ++n) for (int bh = 0; bh < 8; ++bh) for (sh* s = T[n][bh][0]; s; s = s->next) other[nother++] = s;
    one_swap(NULL, 0);
    for (int n = 1; n <= 6 && n <= NMAX; ++n) for (int bh = 0; bh < 8; ++bh) for (sh* s = T[n][bh][0]; s; s = s->next) if (n + 4 < 2 * MAXV - 2) one_swap(s, n);
    printf("exhaustive cases %ld\n", cases);
}
#define MAIN(x) void H_rb_all_##x(void) { EACH(one_##x) }
#else
#define MAIN(x)
#endif
#ifdef MODE_N
void H_rb_all_swap(void) { one_swap_main(); }
#endif
//@ {"props":["C10","C11"],"native":true,"companion":true,"bound":"every valid tree of at most NMAX nodes (quick 12, thorough 15), every position of one insertion","tdefs":["NMAX=15"],"cover":["rbtree_insert","rbtree_insert_node","rbtree_insert_fixup","rbtree_left_rotate","rbtree_right_rotate"]}
//: void H_rb_all_insert(void)
MAIN(insert)
//@ {"props":["C10","C11"],"native":true,"companion":true,"bound":"every valid tree of at most NMAX nodes (quick 12, thorough 15), every deletion","tdefs":["NMAX=15"],"cover":["rbtree_delete","rbtree_delete_node","rbtree_remove_node","rbtree_delete_fixup","rbtree_transplant"]}
//: void H_rb_all_delete(void)
MAIN(delete)
//@ {"props":["C10"],"native":true,"companion":true,"bound":"every valid tree of at most NMAX nodes (quick 12, thorough 15), every key, one duplicate","tdefs":["NMAX=15"],"cover":["rbtree_find","rbtree_find_node"]}
//: void H_rb_all_find(void)
MAIN(find)
//@ {"props":["C12"],"native":true,"companion":true,"bound":"every valid tree of at most NMAX nodes (quick 12, thorough 15), every node","tdefs":["NMAX=15"],"cover":["rbtree_minimum_node","rbtree_maximum_node","rbtree_successor_node","rbtree_predecessor_node"]}
//: void H_rb_all_nav(void)
MAIN(nav)
//@ {"props":["C05"],"native":true,"companion":true,"bound":"every valid tree of at most NMAX nodes (quick 12, thorough 15), at most one failing value","tdefs":["NMAX=15"],"cover":["rbtree_clear","rbtree_delete_nodes","rbtree_create"]}
//: void H_rb_all_clear(void)
MAIN(clear)
//@ {"props":["C09"],"native":true,"companion":true,"bound":"every pair of valid trees of at most 6 and 4 nodes","cover":["rbtree_swap"]}
//: void H_rb_all_swap(void)
UNITS(U(rb_all_insert) U(rb_all_delete) U(rb_all_find) U(rb_all_nav) U(rb_all_clear) U(rb_all_swap))
