/* Contracts for the queue (src/queue), over the singly linked list windows of slist.c. */
#define V_NO_UNITS
#include "slist.c"
#include <rcpr/queue.h>
#include "queue/queue_internal.h"
typedef S(queue) queue;
queue Q; queue* outq;
static void qinit(void) { S(resource_init)(&Q.hdr, &v_child_vt); Q.list = &L.l; }
#define SPEC_queue_append(E) \
 E("append: fails exactly when memory is refused", (RET == 0) == (g.oom == 0)) \
 E("append: r becomes the last element", IMPL(RET == 0, L.l.tail != NULL && L.l.tail != L.n && node_ok(L.l.tail) && L.l.tail->next == NULL)) \
 E("append: behind everything else", IMPL(RET == 0, L.n ? (L.n->next == L.l.tail && L.l.head == L.ol.head) : L.l.head == L.l.tail)) \
 E("append: count", IMPL(RET == 0, L.l.count == L.ol.count + 1)) \
 E("append: other elements unchanged", far_same() && (!L.n || L.n->child == L.on.child) && (!L.p || eqn(L.p, &L.op))) \
 E("append: a refused append leaves the queue unchanged", IMPL(RET != 0, all_same() && g.allocs == g.reclaims)) \
 E("append: r is not released", g.child_rel == 0) E("append: the queue itself is unchanged", Q.list == &L.l)
status S(queue_append)(queue* q, resource* r)
 REQ(q == &Q && r == L.r) CONTRACT(queue_append)
 FRAME(L.l.head, L.l.tail, L.l.count, g, v_feed; L.n != NULL: L.n->next);
static void c_queue_append(unsigned c)
{
    window_tail(c); qinit();
    status RET = S(queue_append)(&Q, L.r);
    CHECKSPEC(queue_append)
    if (RET != 0) REACH("refused"); else if (L.n) REACH("appended"); else REACH("appended to empty");
}
//@ {"fn":"queue_append","props":["C08"]}
CASEUNIT(4, queue_append)
#define SPEC_queue_insert(E) \
 E("insert: fails exactly when memory is refused", (RET == 0) == (g.oom == 0)) \
 E("insert: r becomes the first element", IMPL(RET == 0, L.l.head != NULL && L.l.head != L.n && node_ok(L.l.head) && L.l.head->next == L.n)) \
 E("insert: last element", IMPL(RET == 0, L.l.tail == (L.n ? L.ol.tail : L.l.head))) \
 E("insert: count", IMPL(RET == 0, L.l.count == L.ol.count + 1)) \
 E("insert: other elements unchanged", far_same() && (!L.n || eqn(L.n, &L.on)) && (!L.m || eqn(L.m, &L.om))) \
 E("insert: a refused insert leaves the queue unchanged", IMPL(RET != 0, all_same() && g.allocs == g.reclaims)) \
 E("insert: r is not released", g.child_rel == 0) E("insert: the queue itself is unchanged", Q.list == &L.l)
status S(queue_insert)(queue* q, resource* r)
 REQ(q == &Q && r == L.r) CONTRACT(queue_insert)
 FRAME(L.l.head, L.l.tail, L.l.count, g, v_feed);
static void c_queue_insert(unsigned c)
{
    window_head(c); qinit();
    status RET = S(queue_insert)(&Q, L.r);
    CHECKSPEC(queue_insert)
    if (RET != 0) REACH("refused"); else if (L.n) REACH("inserted"); else REACH("inserted into empty");
}
//@ {"fn":"queue_insert","props":["C08"]}
CASEUNIT(4, queue_insert)
#define SPEC_queue_pop(E) \
 E("pop: succeeds unless memory cannot be returned", (RET == 0) == (g.reclaim_failed == 0)) \
 E("pop: yields the first element, or nothing when empty", IMPL(RET == 0, L.r == (L.n ? &v_c[1].hdr : NULL))) \
 E("pop: a popped resource is handed over unreleased", IMPL(RET == 0, g.child_rel == 0)) \
 E("pop: on failure nothing is handed over and the resource is not lost", IMPL(RET != 0, L.r == NULL && v_c[1].released == 1 && g.child_rel == 1)) \
 E("pop: the second element is first now", L.l.head == L.m && L.l.tail == (L.m ? L.ol.tail : NULL)) \
 E("pop: count", L.l.count == L.ol.count - (L.n ? 1 : 0)) \
 E("pop: other elements unchanged", far_same() && (!L.m || eqn(L.m, &L.om))) \
 E("pop: memory is returned once", g.reclaims == (L.n ? 1 : 0) && g.allocs == 0)
status S(queue_pop)(queue* q, resource** r)
 REQ(q == &Q && r == &L.r) CONTRACT(queue_pop)
 FRAME(L.l.head, L.l.tail, L.l.count, L.r, g, v_c, v_feed; L.n != NULL: *L.n)
 FREES(L.n);
static void c_queue_pop(unsigned c)
{
    window_head(c); qinit();
    L.r = NULL; v_c[1].st = nd_int();
    status RET = S(queue_pop)(&Q, &L.r);
    CHECKSPEC(queue_pop)
    if (RET != 0) REACH("failed"); else if (L.n) REACH("popped"); else REACH("empty");
}
//@ {"fn":"queue_pop","props":["C08"]}
CASEUNIT(4, queue_pop)
#define SPEC_queue_count(E) E("count: number of elements held", RET == L.ol.count) E("count: queue unchanged", all_same())
size_t S(queue_count)(queue* q) REQ(q == &Q) CONTRACT(queue_count) FRAME();
static void c_queue_count(unsigned c)
{
    window(c); qinit();
    size_t RET = S(queue_count)(&Q);
    CHECKSPEC(queue_count)
    REACH("done");
}
//@ {"fn":"queue_count","props":["C08"]}
CASEUNIT(1, queue_count)
#define SPEC_queue_create(E) \
 E("create: fails exactly when memory is refused", (RET == 0) == (g.oom == 0)) \
 E("create: an empty queue", IMPL(RET == 0, outq != NULL && outq->list != NULL && outq->list->head == NULL && outq->list->tail == NULL && outq->list->count == 0 && outq->list->alloc == &v_alloc)) \
 E("create: failure hands out nothing", IMPL(RET != 0, outq == NULL)) E("create: memory", g.live == (RET == 0 ? 2 : 0))
status S(queue_create)(queue** q, S(allocator)* a) REQ(q == &outq && a == &v_alloc) CONTRACT(queue_create) FRAME(outq, g, v_feed);
//@ {"fn":"queue_create","props":["C04"]}
void H_queue_create(void)
{
    v_init(ANY, ANY); outq = NULL;
    status RET = S(queue_create)(&outq, &v_alloc);
    CHECKSPEC(queue_create)
    if (RET == 0) REACH("created"); else if (g.reclaims) REACH("refused late"); else REACH("refused");
}
/* whole life of a queue with n elements */
static void c_queue_life(unsigned n)
{
    v_init(NONE, ANY); outq = NULL;
    status s = S(queue_create)(&outq, &v_alloc); ASSUME(s == 0);
    CHECK("[C03] the handle of a queue designates the queue", (void*)S(queue_resource_handle)(outq) == (void*)outq);
    for (unsigned i = 0; i < n; ++i) { s = S(queue_append)(outq, &v_c[i].hdr); ASSUME(s == 0); }
    for (int i = 0; i < 4; ++i) v_c[i].st = nd_int();
    s = S(resource_release)(S(queue_resource_handle)(outq));
    CHECK("[C05] failure is reported", IMPL(g.child_fail || g.reclaim_failed, s != 0));
    CHECK("[C05] success releases every element and all memory once", IMPL(s == 0, g.child_rel == (int)n && g.live == 0 && g.child_fail == 0));
    CHECK("[C03,C05] releasing a good queue succeeds", IMPL(!g.child_fail && !g.reclaim_failed, s == 0));
    if (s == 0) REACH("released"); else REACH("failed");
}
//@ {"props":["C03","C05"],"bound":"queues of at most 4 elements","unwind":6,"cover":["queue_create","queue_append","queue_resource_handle","queue_release"]}
CASEUNIT(5, queue_life)
UNITS(U(queue_append) U(queue_insert) U(queue_pop) U(queue_count) U(queue_create) U(queue_life))
