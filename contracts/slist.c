/* Contracts for the singly linked list (src/slist). */
#include "common.h"
#include <rcpr/slist.h>
#include "slist/slist_internal.h"
typedef S(slist) slist; typedef S(slist_node) node; typedef S(resource) resource;

/* A window onto a slist of any length: n is the node operated on, p and m its
 * neighbours when it has them, far_h / far_t stand for everything beyond. */
typedef struct LG { slist l; node* p; node* n; node* m; node* far_h; node* far_t;
    slist ol; node op, on, om, ofh, oft; node* nw; resource* r; resource* or_; node* out; size_t cnt; } LG;
LG L;

static const S(resource_vtable) v_node_vt = { &S(slist_node_release) };
static void mknode(node* x, resource* c)
{
    S(resource_init)(&x->hdr, &v_node_vt);
    x->alloc = &v_alloc; x->parent = &L.l; x->next = NULL; x->child = c;
}
static void snap(void)
{
    L.ol = L.l; if (L.p) L.op = *L.p; if (L.n) L.on = *L.n; if (L.m) L.om = *L.m;
    L.ofh = *L.far_h; L.oft = *L.far_t;
}
static _Bool eqn(const node* a, const node* b)
{
    return a->alloc == b->alloc && a->parent == b->parent && a->next == b->next && a->child == b->child;
}
static _Bool far_same(void) { return eqn(L.far_h, &L.ofh) && eqn(L.far_t, &L.oft); }
static _Bool slist_same(void) { return L.l.head == L.ol.head && L.l.tail == L.ol.tail && L.l.count == L.ol.count && L.l.alloc == L.ol.alloc; }
static _Bool all_same(void)
{
    return slist_same() && far_same() && (!L.p || eqn(L.p, &L.op)) && (!L.n || eqn(L.n, &L.on)) && (!L.m || eqn(L.m, &L.om));
}
static void base(void)
{
    v_init(ANY, ANY);
    S(resource_init)(&L.l.hdr, &v_child_vt);
    L.l.alloc = &v_alloc; L.p = L.m = L.n = NULL; L.l.head = L.l.tail = NULL; L.l.count = 0;
    L.far_h = NEW(node); L.far_t = NEW(node); mknode(L.far_h, NULL); mknode(L.far_t, NULL);
    L.r = &v_c[3].hdr;
}
static void setcount(size_t min, _Bool more)
{
    size_t c = nd_size(); ASSUME(c >= min && c < SIZE_MAX && (more || c == min));
    L.l.count = c;
}
static size_t before(int c)    /* 0: n is the head, 1: p is the head, 2: p and more before it */
{
    if (c == 0) { L.l.head = L.n; return 0; }
    L.p = NEW(node); mknode(L.p, &v_c[0].hdr); L.p->next = L.n;
    if (c == 1) { L.l.head = L.p; return 1; }
    L.far_h->next = L.p; L.l.head = L.far_h; return 2;
}
static size_t after(int c)
{
    if (c == 0) { L.l.tail = L.n; return 0; }
    L.m = NEW(node); mknode(L.m, &v_c[2].hdr); L.n->next = L.m;
    if (c == 1) { L.l.tail = L.m; return 1; }
    L.m->next = L.far_t; L.l.tail = L.far_t; return 2;
}
/* n somewhere in the slist: 9 cases, each for any total length */
#define NWIN 9
static void window(unsigned c)
{
    base();
    L.n = NEW(node); mknode(L.n, &v_c[1].hdr);
    size_t k = 1 + before(c % 3) + after(c / 3);
    setcount(k, c % 3 == 2 || c / 3 == 2);
    snap();
}
/* n is the head (cases 1..3), or the slist is empty (case 0) */
static void window_head(unsigned c)
{
    base();
    if (c > 0) { L.n = NEW(node); mknode(L.n, &v_c[1].hdr); L.l.head = L.n; setcount(1 + after(c - 1), c == 3); }
    snap();
}
/* n is the tail, or the slist is empty */
static void window_tail(unsigned c)
{
    base();
    if (c > 0) { L.n = NEW(node); mknode(L.n, &v_c[1].hdr); L.l.tail = L.n; setcount(1 + before(c - 1), c == 3); }
    snap();
}
static _Bool node_ok(const node* x)
{
    return x->parent == &L.l && x->alloc == &v_alloc && x->child == L.r;
}

/* ---------------------------------------------------------------- append */
#define SPEC_slist_append(E) \
 E("append: fails exactly when memory is refused", (RET == 0) == (g.oom == 0)) \
 E("append: new node follows n and holds r", IMPL(RET == 0, L.n->next != NULL && L.n->next != L.on.next && node_ok(L.n->next))) \
 E("append: rest of the slist follows the new node", IMPL(RET == 0, L.n->next->next == L.on.next)) \
 E("append: tail", IMPL(RET == 0, L.l.tail == (L.m ? L.ol.tail : L.n->next))) \
 E("append: head unchanged", L.l.head == L.ol.head) \
 E("append: count", IMPL(RET == 0, L.l.count == L.ol.count + 1)) \
 E("append: everything else unchanged", far_same() && L.n->child == L.on.child && (!L.p || eqn(L.p, &L.op)) && (!L.m || eqn(L.m, &L.om))) \
 E("append: failure changes nothing", IMPL(RET != 0, all_same())) \
 E("append: exactly one block of memory is used", IMPL(RET == 0, g.allocs == 1 && g.reclaims == 0) && IMPL(RET != 0, g.allocs == g.reclaims)) \
 E("append: r is not released", g.child_rel == 0)
status S(slist_append)(node* nd, resource* r)
 REQ(nd == L.n && r == L.r) CONTRACT(slist_append)
 FRAME(L.n->next, L.l.tail, L.l.count, g, v_feed);
static void c_slist_append(unsigned c)
{
    window(c);
    status RET = S(slist_append)(L.n, L.r);
    CHECKSPEC(slist_append)
    if (RET == 0) REACH("appended"); else REACH("refused");
    if (RET == 0 && L.m) REACH("appended in the middle");
}
//@ {"fn":"slist_append","props":["C07"]}
CASEUNIT(9, slist_append)
/* ---------------------------------------------------------------- insert at head */
#define SPEC_slist_insert_head(E) \
 E("insert_head: fails exactly when memory is refused", (RET == 0) == (g.oom == 0)) \
 E("insert_head: new head holds r", IMPL(RET == 0, L.l.head != NULL && L.l.head != L.n && node_ok(L.l.head) && L.l.head->next == L.n)) \
 E("insert_head: tail", IMPL(RET == 0, L.l.tail == (L.n ? L.ol.tail : L.l.head))) \
 E("insert_head: count", IMPL(RET == 0, L.l.count == L.ol.count + 1)) \
 E("insert_head: everything else unchanged", far_same() && (!L.n || eqn(L.n, &L.on)) && (!L.m || eqn(L.m, &L.om))) \
 E("insert_head: failure changes nothing", IMPL(RET != 0, all_same())) \
 E("insert_head: memory", IMPL(RET == 0, g.allocs == 1 && g.reclaims == 0) && IMPL(RET != 0, g.allocs == g.reclaims)) \
 E("insert_head: r is not released", g.child_rel == 0)
status S(slist_insert_head)(slist* l, resource* r)
 REQ(l == &L.l && r == L.r) CONTRACT(slist_insert_head)
 FRAME(L.l.head, L.l.tail, L.l.count, g, v_feed);
static void c_slist_insert_head(unsigned c)
{
    window_head(c);
    status RET = S(slist_insert_head)(&L.l, L.r);
    CHECKSPEC(slist_insert_head)
    if (RET != 0) REACH("refused"); else if (L.n) REACH("inserted"); else REACH("inserted into empty");
}
//@ {"fn":"slist_insert_head","props":["C07"]}
CASEUNIT(4, slist_insert_head)
/* ---------------------------------------------------------------- append at tail */
#define SPEC_slist_append_tail(E) \
 E("append_tail: fails exactly when memory is refused", (RET == 0) == (g.oom == 0)) \
 E("append_tail: new tail holds r", IMPL(RET == 0, L.l.tail != NULL && L.l.tail != L.n && node_ok(L.l.tail) && L.l.tail->next == NULL)) \
 E("append_tail: old tail points to it", IMPL(RET == 0 && L.n, L.n->next == L.l.tail)) \
 E("append_tail: head", IMPL(RET == 0, L.l.head == (L.n ? L.ol.head : L.l.tail))) \
 E("append_tail: count", IMPL(RET == 0, L.l.count == L.ol.count + 1)) \
 E("append_tail: everything else unchanged", far_same() && (!L.n || L.n->child == L.on.child) && (!L.p || eqn(L.p, &L.op))) \
 E("append_tail: failure changes nothing", IMPL(RET != 0, all_same())) \
 E("append_tail: memory", IMPL(RET == 0, g.allocs == 1 && g.reclaims == 0) && IMPL(RET != 0, g.allocs == g.reclaims)) \
 E("append_tail: r is not released", g.child_rel == 0)
status S(slist_append_tail)(slist* l, resource* r)
 REQ(l == &L.l && r == L.r) CONTRACT(slist_append_tail)
 FRAME(L.l.head, L.l.tail, L.l.count, g, v_feed; L.n != NULL: L.n->next);
static void c_slist_append_tail(unsigned c)
{
    window_tail(c);
    status RET = S(slist_append_tail)(&L.l, L.r);
    CHECKSPEC(slist_append_tail)
    if (RET != 0) REACH("refused"); else if (L.n) REACH("appended"); else REACH("appended to empty");
}
//@ {"fn":"slist_append_tail","props":["C07"]}
CASEUNIT(4, slist_append_tail)
/* ---------------------------------------------------------------- pop */
#define SPEC_slist_pop(E) \
 E("pop: succeeds unless memory cannot be returned", (RET == 0) == (g.reclaim_failed == 0)) \
 E("pop: yields the head's resource, or nothing when empty", IMPL(RET == 0, L.r == (L.n ? &v_c[1].hdr : NULL))) \
 E("pop: a popped resource is handed over unreleased", IMPL(RET == 0, g.child_rel == 0)) \
 E("pop: on failure nothing is handed over and the resource is not lost", IMPL(RET != 0, L.r == NULL && v_c[1].released == 1 && g.child_rel == 1)) \
 E("pop: head is the second element", L.l.head == L.m) \
 E("pop: tail", L.l.tail == (L.m ? L.ol.tail : NULL)) \
 E("pop: count", L.l.count == L.ol.count - (L.n ? 1 : 0)) \
 E("pop: everything else unchanged", far_same() && (!L.m || (L.m->next == L.om.next && L.m->child == L.om.child && L.m->parent == &L.l))) \
 E("pop: the node's memory is returned once", g.reclaims == (L.n ? 1 : 0) && g.allocs == 0)
status S(slist_pop)(slist* l, resource** r)
 REQ(l == &L.l && r == &L.r) CONTRACT(slist_pop)
 FRAME(L.l.head, L.l.tail, L.l.count, L.r, g, v_c, v_feed; L.n != NULL: *L.n)
 FREES(L.n);
static void c_slist_pop(unsigned c)
{
    window_head(c);
    L.r = NULL; v_c[1].st = nd_int();
    status RET = S(slist_pop)(&L.l, &L.r);
    CHECKSPEC(slist_pop)
    if (RET != 0) REACH("failed"); else if (L.n) REACH("popped"); else REACH("empty");
}
//@ {"fn":"slist_pop","props":["C07"]}
CASEUNIT(4, slist_pop)
/* ---------------------------------------------------------------- pop the element after a node */
#define SPEC_slist_node_next_pop(E) \
 E("next_pop: succeeds unless memory cannot be returned", (RET == 0) == (g.reclaim_failed == 0)) \
 E("next_pop: yields the following node's resource, or nothing at the end", IMPL(RET == 0, L.r == (L.m ? &v_c[2].hdr : NULL))) \
 E("next_pop: a popped resource is handed over unreleased", IMPL(RET == 0, g.child_rel == 0)) \
 E("next_pop: on failure nothing is handed over and the resource is not lost", IMPL(RET != 0, L.r == NULL && v_c[2].released == 1 && g.child_rel == 1)) \
 E("next_pop: the node after it follows n", L.n->next == (L.m ? L.om.next : NULL)) \
 E("next_pop: tail", L.l.tail == (L.m && !L.om.next ? L.n : L.ol.tail)) \
 E("next_pop: head unchanged", L.l.head == L.ol.head) \
 E("next_pop: count", L.l.count == L.ol.count - (L.m ? 1 : 0)) \
 E("next_pop: everything else unchanged", far_same() && L.n->child == L.on.child && L.n->parent == &L.l && (!L.p || eqn(L.p, &L.op))) \
 E("next_pop: the node's memory is returned once", g.reclaims == (L.m ? 1 : 0) && g.allocs == 0)
status S(slist_node_next_pop)(node* nd, resource** r)
 REQ(nd == L.n && r == &L.r) CONTRACT(slist_node_next_pop)
 FRAME(L.n->next, L.l.tail, L.l.count, L.r, g, v_c, v_feed; L.m != NULL: *L.m)
 FREES(L.m);
static void c_slist_node_next_pop(unsigned c)
{
    window(c);
    L.r = NULL; v_c[2].st = nd_int();
    status RET = S(slist_node_next_pop)(L.n, &L.r);
    CHECKSPEC(slist_node_next_pop)
    if (RET != 0) REACH("failed"); else if (L.m) REACH("popped"); else REACH("end");
}
//@ {"fn":"slist_node_next_pop","props":["C07"]}
CASEUNIT(9, slist_node_next_pop)
/* ---------------------------------------------------------------- reading */
#define SPEC_slist_head(E) E("head: first node or none", RET == 0 && L.out == L.n) E("head: slist unchanged", all_same())
status S(slist_head)(node** nd, slist* l) REQ(l == &L.l && nd == &L.out) CONTRACT(slist_head) FRAME(L.out);
static void c_slist_head(unsigned c)
{
    window_head(c);
    status RET = S(slist_head)(&L.out, &L.l);
    CHECKSPEC(slist_head)
    if (L.n) REACH("some"); else REACH("none");
}
//@ {"fn":"slist_head","props":["C07"]}
CASEUNIT(4, slist_head)
#define SPEC_slist_tail(E) E("tail: last node or none", RET == 0 && L.out == L.n) E("tail: slist unchanged", all_same())
status S(slist_tail)(node** nd, slist* l) REQ(l == &L.l && nd == &L.out) CONTRACT(slist_tail) FRAME(L.out);
static void c_slist_tail(unsigned c)
{
    window_tail(c);
    status RET = S(slist_tail)(&L.out, &L.l);
    CHECKSPEC(slist_tail)
    if (L.n) REACH("some"); else REACH("none");
}
//@ {"fn":"slist_tail","props":["C07"]}
CASEUNIT(4, slist_tail)
#define SPEC_slist_count(E) E("count: number of elements", RET == L.ol.count) E("count: slist unchanged", all_same())
size_t S(slist_count)(slist* l) REQ(l == &L.l) CONTRACT(slist_count) FRAME();
static void c_slist_count(unsigned c)
{
    window(c);
    size_t RET = S(slist_count)(&L.l);
    CHECKSPEC(slist_count)
    REACH("done");
}
//@ {"fn":"slist_count","props":["C07"]}
CASEUNIT(1, slist_count)
#define SPEC_slist_node_next(E) E("next: following node or none", RET == 0 && L.out == L.m) E("next: slist unchanged", all_same())
status S(slist_node_next)(node** nx, node* nd) REQ(nd == L.n && nx == &L.out) CONTRACT(slist_node_next) FRAME(L.out);
static void c_slist_node_next(unsigned c)
{
    window(c);
    status RET = S(slist_node_next)(&L.out, L.n);
    CHECKSPEC(slist_node_next)
    if (L.m) REACH("some"); else REACH("none");
}
//@ {"fn":"slist_node_next","props":["C07"]}
CASEUNIT(9, slist_node_next)
#define SPEC_slist_node_child(E) E("child: the node's resource", RET == 0 && L.r == &v_c[1].hdr) E("child: slist unchanged", all_same()) E("child: not released", g.child_rel == 0)
status S(slist_node_child)(resource** r, node* nd) REQ(nd == L.n && r == &L.r) CONTRACT(slist_node_child) FRAME(L.r);
static void c_slist_node_child(unsigned c)
{
    window(c);
    status RET = S(slist_node_child)(&L.r, L.n);
    CHECKSPEC(slist_node_child)
    REACH("done");
}
//@ {"fn":"slist_node_child","props":["C07"]}
CASEUNIT(1, slist_node_child)
#define SPEC_slist_node_child_swap(E) \
 E("child_swap: node holds the caller's resource, caller gets the node's", RET == 0 && L.n->child == L.or_ && L.r == &v_c[1].hdr) \
 E("child_swap: nothing else changes", slist_same() && far_same() && L.n->next == L.on.next && L.n->parent == L.on.parent && L.n->alloc == L.on.alloc && (!L.p || eqn(L.p, &L.op)) && (!L.m || eqn(L.m, &L.om))) \
 E("child_swap: nothing is released", g.child_rel == 0)
status S(slist_node_child_swap)(node* nd, resource** r) REQ(nd == L.n && r == &L.r) CONTRACT(slist_node_child_swap) FRAME(L.r, L.n->child);
static void c_slist_node_child_swap(unsigned c)
{
    window(c);
    L.r = nd_bool() ? &v_c[3].hdr : NULL; L.or_ = L.r;
    status RET = S(slist_node_child_swap)(L.n, &L.r);
    CHECKSPEC(slist_node_child_swap)
    REACH("done");
}
//@ {"fn":"slist_node_child_swap","props":["C07"]}
CASEUNIT(9, slist_node_child_swap)
/* ---------------------------------------------------------------- node creation and release */
#define SPEC_slist_node_create(E) \
 E("node_create: fails exactly when memory is refused", (RET == 0) == (g.oom == 0)) \
 E("node_create: fresh unlinked node holding r", IMPL(RET == 0, L.out != NULL && node_ok(L.out) && L.out->next == NULL)) \
 E("node_create: failure hands out nothing", IMPL(RET != 0, L.out == L.nw)) \
 E("node_create: memory", g.live == (RET == 0 ? 1 : 0)) E("node_create: slist unchanged", slist_same()) E("node_create: r not released", g.child_rel == 0)
status S(slist_node_create)(node** nd, slist* l, resource* r)
 REQ(nd == &L.out && l == &L.l && r == L.r) CONTRACT(slist_node_create) FRAME(L.out, g, v_feed);
//@ {"fn":"slist_node_create","props":["C04","C07"]}
void H_slist_node_create(void)
{
    base(); g.live = 0;
    L.l.head = L.far_h; L.l.tail = L.far_t; L.l.count = nd_size(); L.out = L.nw = NULL; snap();
    status RET = S(slist_node_create)(&L.out, &L.l, L.r);
    CHECKSPEC(slist_node_create)
    if (RET == 0) REACH("created"); else REACH("refused");
}
#define SPEC_slist_node_release(E) \
 E("node_release: failure of the child or of the memory is reported", (RET == 0) == (g.child_fail == 0 && g.reclaim_failed == 0)) \
 E("node_release: the child is released exactly once", g.child_rel == (L.or_ ? 1 : 0)) \
 E("node_release: success returns the memory", IMPL(RET == 0, g.live == 0)) \
 E("node_release: memory returned at most once", g.reclaims <= 1)
status S(slist_node_release)(resource* r)
 REQ(r == &L.n->hdr) CONTRACT(slist_node_release)
 FRAME(*L.n, g, v_c, v_feed) FREES(L.n);
//@ {"fn":"slist_node_release","props":["C05","C07"]}
void H_slist_node_release(void)
{
    v_init(NONE, ANY);
    L.n = NEW(node); mknode(L.n, nd_bool() ? &v_c[1].hdr : NULL); L.or_ = L.n->child; v_c[1].st = nd_int();
    status RET = S(slist_node_release)(&L.n->hdr);
    CHECKSPEC(slist_node_release)
    if (RET == 0) REACH("released"); else REACH("failed");
}
/* a node released through its generic handle releases its child and memory */
//@ {"props":["C03","C05"],"cover":["slist_node_resource_handle","slist_node_create","resource_release"]}
void H_slist_node_handle(void)
{
    v_init(NONE, NONE);
    L.l.alloc = &v_alloc;
    node* x = NULL;
    ASSUME(S(slist_node_create)(&x, &L.l, &v_c[0].hdr) == 0);
    CHECK("[C03] the handle of a node designates the node", (void*)S(slist_node_resource_handle)(x) == (void*)x);
    v_c[0].st = nd_int();
    status s = S(resource_release)(S(slist_node_resource_handle)(x));
    CHECK("[C03] releasing the handle releases the child once", v_c[0].released == 1);
    CHECK("[C03,C05] its status is the child's", (s == 0) == (v_c[0].st == 0));
    CHECK("[C05] on success the memory is returned", IMPL(s == 0, g.live == 0));
    if (s == 0) REACH("ok"); else REACH("failed");
}
#define SPEC_slist_create(E) \
 E("create: fails exactly when memory is refused", (RET == 0) == (g.oom == 0)) \
 E("create: an empty slist on the given allocator", IMPL(RET == 0, outl != NULL && outl->head == NULL && outl->tail == NULL && outl->count == 0 && outl->alloc == &v_alloc)) \
 E("create: failure hands out nothing", IMPL(RET != 0, outl == NULL)) \
 E("create: memory", g.live == (RET == 0 ? 1 : 0))
slist* outl;
status S(slist_create)(slist** l, S(allocator)* a)
 REQ(l == &outl && a == &v_alloc) CONTRACT(slist_create) FRAME(outl, g, v_feed);
//@ {"fn":"slist_create","props":["C04"]}
void H_slist_create(void)
{
    v_init(ANY, ANY); outl = NULL;
    status RET = S(slist_create)(&outl, &v_alloc);
    CHECKSPEC(slist_create)
    if (RET == 0) REACH("created"); else REACH("refused");
}
/* whole-life lemma: create, release through the handle */
//@ {"props":["C03","C04","C05"],"cover":["slist_create","slist_resource_handle"]}
void H_slist_life(void)
{
    v_init(NONE, ANY); outl = NULL;
    ASSUME(S(slist_create)(&outl, &v_alloc) == 0);
    CHECK("[C03] the handle of a slist designates the slist", (void*)S(slist_resource_handle)(outl) == (void*)outl);
    status s = S(resource_release)(S(slist_resource_handle)(outl));
    CHECK("[C04,C05] releasing a new slist returns its memory", g.live == 0 && (s == 0) == (g.reclaim_failed == 0));
    if (s == 0) REACH("ok");
}

/* ---------------------------------------------------------------- clear, release, swap: all nodes */
#define NL 4
static void mkslist(slist** l, unsigned n, int base)
{
    status s = S(slist_create)(l, &v_alloc); ASSUME(s == 0);
    for (unsigned i = 0; i < n; ++i) { s = S(slist_append_tail)(*l, &v_c[base + i].hdr); ASSUME(s == 0); }
}
/* the chain agrees with the children expected */
static _Bool holds(slist* l, const int* idx, unsigned n)
{
    node* x = l->head; node* pr = NULL;
    for (unsigned i = 0; i < n; ++i) {
        if (!x || x->child != &v_c[idx[i]].hdr || x->parent != l) return 0;
        pr = x; x = x->next;
    }
    return x == NULL && l->tail == pr && l->count == n;
}
static void c_slist_clear(unsigned n)
{
    v_init(NONE, NONE);
    slist* l; mkslist(&l, n, 0);
    for (int i = 0; i < NL; ++i) v_c[i].st = nd_int();
    status s = S(slist_clear)(l);
    CHECK("clear: failure is reported", (s == 0) == (g.child_fail == 0));
    unsigned rel = 0;
    for (unsigned i = 0; i < NL; ++i) { CHECK("clear: only contents are released", IMPL(i >= n, v_c[i].released == 0)); rel += v_c[i].released; }
    CHECK("clear: success releases every element once and empties the slist", IMPL(s == 0, rel == n && l->head == NULL && l->tail == NULL && l->count == 0 && g.live == 1));
    unsigned k = n - l->count;
    CHECK("clear: the count is what is left", l->count <= n && (s == 0 || l->count < n));
    CHECK("clear: what remains after a failure is a valid slist of the remaining elements", l->count == 0 ? (l->head == NULL && l->tail == NULL)
        : (l->head != NULL && l->tail != NULL && l->tail->next == NULL && l->head->child == &v_c[k].hdr && l->tail->child == &v_c[n - 1].hdr));
    for (unsigned i = 0; i < NL; ++i) CHECK("clear: elements go in order, the rest is untouched", v_c[i].released == (i < k));
    if (s == 0 && n == NL) REACH("cleared"); if (s != 0) REACH("failed");
}
//@ {"props":["C05","C07"],"bound":"slists of at most 4 nodes","unwind":6,"cover":["slist_clear"]}
CASEUNIT(5, slist_clear)
static void c_slist_release(unsigned n)
{
    v_init(NONE, ANY);
    slist* l; mkslist(&l, n, 0);
    for (int i = 0; i < NL; ++i) v_c[i].st = nd_int();
    status s = S(resource_release)(S(slist_resource_handle)(l));
    CHECK("release: failure is reported", (s == 0) == (g.child_fail == 0 && g.reclaim_failed == 0));
    CHECK("release: success releases all elements and memory", IMPL(s == 0, g.child_rel == (int)n && g.live == 0));
    if (s == 0) REACH("released"); else REACH("failed");
}
//@ {"props":["C05"],"bound":"slists of at most 4 nodes","unwind":6,"cover":["slist_release","slist_resource_handle"]}
CASEUNIT(5, slist_release)
static void c_slist_swap(unsigned c)
{
    v_init(NONE, NONE);
    slist* a; slist* b;
    unsigned n = c % 3, m = c / 3; mkslist(&a, n, 0); mkslist(&b, m, 2);
    S(slist_swap)(a, b);
    int ia[4] = { 2, 3, 0, 0 }, ib[4] = { 0, 1, 0, 0 };
    CHECK("swap: left holds what right held", holds(a, ia, m));
    CHECK("swap: right holds what left held", holds(b, ib, n));
    CHECK("swap: each slist keeps its own allocator", a->alloc == &v_alloc && b->alloc == &v_alloc);
    status s;
    if (nd_bool()) {
        s = S(resource_release)(S(slist_resource_handle)(a));
        CHECK("swap: releasing left leaves right intact", s == 0 && holds(b, ib, n) && v_c[0].released == 0 && v_c[1].released == 0 && g.live == (int)n + 1);
        s = S(resource_release)(S(slist_resource_handle)(b));
    } else {
        s = S(resource_release)(S(slist_resource_handle)(b));
        CHECK("swap: releasing right leaves left intact", s == 0 && holds(a, ia, m) && v_c[2].released == 0 && v_c[3].released == 0 && g.live == (int)m + 1);
        s = S(resource_release)(S(slist_resource_handle)(a));
    }
    CHECK("swap: releasing both releases everything", s == 0 && g.live == 0 && g.child_rel == (int)(n + m));
    if (n == 2 && m == 0) REACH("two and none"); if (n == 2 && m == 2) REACH("two and two");
}
//@ {"props":["C09"],"bound":"two slists of at most 2 nodes each","unwind":6,"cover":["slist_swap"]}
CASEUNIT(9, slist_swap)
static void c_slist_swap_use(unsigned c)
{
    v_init(NONE, NONE);
    slist* a; slist* b;
    unsigned n = 1 + c % 2, m = c / 2; mkslist(&a, n, 0); mkslist(&b, m, 2);
    S(slist_swap)(a, b);
    /* right now holds left's nodes: append after its head */
    status s = S(slist_append)(b->head, &v_c[3].hdr); ASSUME(s == 0);
    int ib1[4] = { 0, 3, 0, 0 }, ib2[4] = { 0, 3, 1, 0 }, ia[4] = { 2, 0, 0, 0 };
    CHECK("swap: a later insertion goes to the slist that now owns the node", holds(b, n == 1 ? ib1 : ib2, n + 1));
    CHECK("swap: and does not touch the other slist", holds(a, ia, m));
    REACH("used");
}
//@ {"props":["C09"],"bound":"two slists of at most 2 nodes each","unwind":6,"cover":["slist_swap","slist_append"]}
CASEUNIT(4, slist_swap_use)
#ifndef V_NO_UNITS
UNITS(U(slist_append) U(slist_insert_head) U(slist_append_tail) U(slist_pop) U(slist_node_next_pop) U(slist_head) U(slist_tail) U(slist_count) U(slist_node_next)
 U(slist_node_child) U(slist_node_child_swap) U(slist_node_create) U(slist_node_release) U(slist_node_handle) U(slist_create) U(slist_life)
 U(slist_clear) U(slist_release) U(slist_swap) U(slist_swap_use))
#endif
