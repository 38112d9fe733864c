/* Contract stand-ins of the containers (verified against the same contracts in
 * queue.c, rbtree_all.c, slist.c) for the units of their callers.
 * A stand-in holds the elements a unit knows about, plus (queues) any number of
 * others, of which only the first can be reached in a unit. */
#ifndef V_STUBS_H
#define V_STUBS_H
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#define GN 6
#define QN 4
typedef struct gq { S(resource) hdr; S(resource)* el[2 * QN]; int lo, hi; size_t rest; S(resource)* restel; int restpos; int live; } gq;
typedef struct gt { S(resource) hdr; S(compare_fn) cmp; S(compare_key_fn) key; void* ctx; S(resource)* el[GN]; int n; int live; int released; } gt;
static struct { int nq, nt; gq* q[3]; gt* t[3]; int qops, pops, inserts, appends, tins, tdel; int rel_fail; _Bool known; int at; /* where a search must end, when the unit knows */ } G;
static _Bool stub_refused(void)
{
    ++g.alloc_calls;
    if (g.fail_at == -2 ? nd_bool() : g.fail_at >= 0 && g.fail_at == g.alloc_calls - 1) { ++g.oom; return 1; }
    return 0;
}
static void stubs_init(void) { G.nq = G.nt = 0; for (int i = 0; i < 3; ++i) { G.q[i] = NULL; G.t[i] = NULL; } G.qops = G.pops = G.inserts = G.appends = G.tins = G.tdel = 0; G.rel_fail = 0; G.known = 0; G.at = -1; }
static status gq_release(S(resource)* r)
{
    gq* q = (gq*)r; status st = STATUS_SUCCESS;
    CHECK("[C05] a queue is released once", q->live); q->live = 0;
    for (int i = 0; i < 2 * QN; ++i) if (i >= q->lo && i < q->hi) { status s2 = S(resource_release)(q->el[i]); if (s2 != STATUS_SUCCESS) st = s2; }
    if (q->rest > 0 && q->restel != NULL) { status s2 = S(resource_release)(q->restel); if (s2 != STATUS_SUCCESS) st = s2; }
    status s3 = v_reclaim(&v_alloc, q); return s3 != STATUS_SUCCESS ? s3 : st;
}
static const S(resource_vtable) gq_vt = { &gq_release };
static void gq_setup(gq* q) { S(resource_init)(&q->hdr, &gq_vt); for (int i = 0; i < 2 * QN; ++i) q->el[i] = NULL; q->lo = q->hi = QN; q->rest = 0; q->restel = NULL; q->restpos = QN; q->live = 1; }
status S(queue_create)(S(queue)** out, S(allocator)* a)
{
    gq* q = NULL; status st = v_allocate(a, (void**)&q, sizeof(gq)); if (st != STATUS_SUCCESS) return st;
    gq_setup(q); if (G.nq < 3) G.q[G.nq] = q; ++G.nq; *out = (S(queue)*)q; return STATUS_SUCCESS;
}
status S(queue_append)(S(queue)* x, S(resource)* r)
{
    gq* q = (gq*)x; CHECK("a queue is used while it is live", q->live); ++G.qops;
    if (stub_refused()) return ERROR_GENERAL_OUT_OF_MEMORY;
    ++G.appends; ASSUME(q->hi < 2 * QN); q->el[q->hi++] = r; return STATUS_SUCCESS;
}
status S(queue_insert)(S(queue)* x, S(resource)* r)
{
    gq* q = (gq*)x; CHECK("a queue is used while it is live", q->live); ++G.qops;
    if (stub_refused()) return ERROR_GENERAL_OUT_OF_MEMORY;
    ++G.inserts; ASSUME(q->lo > 0); q->el[--q->lo] = r; return STATUS_SUCCESS;
}
/* the order: el[lo..restpos), the others, el[restpos..hi) */
status S(queue_pop)(S(queue)* x, S(resource)** r)
{
    gq* q = (gq*)x; CHECK("a queue is used while it is live", q->live); ++G.qops; ++G.pops;
    if (q->lo < q->restpos) { *r = q->el[q->lo++]; return STATUS_SUCCESS; }
    if (q->rest > 0) { CHECK("STUB only the first of the others is reached", q->restel != NULL); *r = q->restel; q->restel = NULL; --q->rest; return STATUS_SUCCESS; }
    if (q->lo < q->hi) { *r = q->el[q->lo++]; q->restpos = q->lo; return STATUS_SUCCESS; }
    *r = NULL; return STATUS_SUCCESS;
}
size_t S(queue_count)(S(queue)* x) { gq* q = (gq*)x; CHECK("a queue is used while it is live", q->live); return (size_t)(q->hi - q->lo) + q->rest; }
S(resource)* S(queue_resource_handle)(S(queue)* x) { return &((gq*)x)->hdr; }
#ifdef STUB_SLIST
#include <rcpr/slist.h>
/* singly linked lists, used as queues; nodes are the addresses of the element slots */
status S(slist_create)(S(slist)** out, S(allocator)* a) { return S(queue_create)((S(queue)**)out, a); }
status S(slist_append_tail)(S(slist)* x, S(resource)* r) { return S(queue_append)((S(queue)*)x, r); }
status S(slist_insert_head)(S(slist)* x, S(resource)* r) { return S(queue_insert)((S(queue)*)x, r); }
status S(slist_pop)(S(slist)* x, S(resource)** r) { if (S(queue_count)((S(queue)*)x) == 0) return STATUS_SUCCESS; return S(queue_pop)((S(queue)*)x, r); }
size_t S(slist_count)(S(slist)* x) { return S(queue_count)((S(queue)*)x); }
S(resource)* S(slist_resource_handle)(S(slist)* x) { return &((gq*)x)->hdr; }
status S(slist_head)(S(slist_node)** n, S(slist)* x)
{
    gq* q = (gq*)x; CHECK("a list is used while it is live", q->live);
    if (q->lo < q->restpos) *n = (S(slist_node)*)&q->el[q->lo];
    else if (q->rest > 0) { CHECK("STUB only the first of the others is reached", q->restel != NULL); *n = (S(slist_node)*)&q->restel; }
    else if (q->lo < q->hi) *n = (S(slist_node)*)&q->el[q->lo];
    else *n = NULL;
    return STATUS_SUCCESS;
}
status S(slist_node_child)(S(resource)** r, S(slist_node)* n) { *r = *(S(resource)**)n; return STATUS_SUCCESS; }
#endif

static status gt_release(S(resource)* r)
{
    gt* t = (gt*)r; status st = STATUS_SUCCESS;
    CHECK("[C05] a tree is released once", t->live); t->live = 0;
    for (int i = 0; i < GN; ++i) if (i < t->n) { status s2 = S(resource_release)(t->el[i]); if (s2 != STATUS_SUCCESS) st = s2; }
    status s3 = v_reclaim(&v_alloc, t); return s3 != STATUS_SUCCESS ? s3 : st;
}
static const S(resource_vtable) gt_vt = { &gt_release };
status S(rbtree_create)(S(rbtree)** out, S(allocator)* a, S(compare_fn) c, S(compare_key_fn) k, void* ctx)
{
    gt* t = NULL; status st = v_allocate(a, (void**)&t, sizeof(gt)); if (st != STATUS_SUCCESS) return st;
    S(resource_init)(&t->hdr, &gt_vt); t->cmp = c; t->key = k; t->ctx = ctx; t->n = 0; t->live = 1; t->released = 0; for (int i = 0; i < GN; ++i) t->el[i] = NULL;
    if (G.nt < 3) G.t[G.nt] = t; ++G.nt; *out = (S(rbtree)*)t; return STATUS_SUCCESS;
}
static int gt_pos(gt* t, const void* key)
{
    int p = -1; CHECK("a tree is used while it is live", t->live);
    for (int i = 0; i < GN; ++i) if (i < t->n && t->cmp(t->ctx, key, t->key(t->ctx, t->el[i])) == RCPR_COMPARE_EQ) p = i;
    if (G.known) { CHECK("what is looked up is what the request names", p == G.at); return G.at; }
    return p;
}
status S(rbtree_insert)(S(rbtree)* x, S(resource)* r)
{
    gt* t = (gt*)x; CHECK("a tree is used while it is live", t->live);
    if (stub_refused()) return ERROR_GENERAL_OUT_OF_MEMORY;
    ++G.tins; ASSUME(t->n < GN); t->el[t->n++] = r; return STATUS_SUCCESS;
}
status S(rbtree_find)(S(resource)** r, S(rbtree)* x, const void* key)
{
    gt* t = (gt*)x; int p = gt_pos(t, key); if (p < 0) return ERROR_RBTREE_NOT_FOUND; *r = t->el[p]; return STATUS_SUCCESS;
}
static status gt_take(gt* t, S(resource)** r, int p)
{
    S(resource)* e = t->el[p]; ++G.tdel; --t->n; for (int i = 0; i < GN - 1; ++i) if (i >= p) t->el[i] = t->el[i + 1];
    if (r) { *r = e; return STATUS_SUCCESS; }
    return S(resource_release)(e);
}
status S(rbtree_delete)(S(resource)** r, S(rbtree)* x, const void* key)
{
    gt* t = (gt*)x; int p = gt_pos(t, key); if (p < 0) return ERROR_RBTREE_NOT_FOUND; return gt_take(t, r, p);
}
status S(rbtree_clear)(S(rbtree)* x) { gt* t = (gt*)x; status st = STATUS_SUCCESS; for (int i = 0; i < GN; ++i) if (i < t->n) { status s2 = S(resource_release)(t->el[i]); if (s2) st = s2; } t->n = 0; return st; }
#ifndef STUB_OWN_NODES
static char gt_nil;
/* nodes are the addresses of the element slots */
S(rbtree_node)* S(rbtree_nil_node)(S(rbtree)* x) { CHECK("a tree is used while it is live", ((gt*)x)->live); return (S(rbtree_node)*)&gt_nil; }
S(rbtree_node)* S(rbtree_root_node)(S(rbtree)* x) { gt* t = (gt*)x; return t->n ? (S(rbtree_node)*)&t->el[t->n / 2] : (S(rbtree_node)*)&gt_nil; }
S(rbtree_node)* S(rbtree_minimum_node)(S(rbtree)* x, S(rbtree_node)* n) { gt* t = (gt*)x; return (void*)n == (void*)&gt_nil ? n : (S(rbtree_node)*)&t->el[0]; }
S(rbtree_node)* S(rbtree_successor_node)(S(rbtree)* x, S(rbtree_node)* n) { gt* t = (gt*)x; S(resource)** p = (S(resource)**)n; return p - t->el + 1 < t->n ? (S(rbtree_node)*)(p + 1) : (S(rbtree_node)*)&gt_nil; }
S(resource)* S(rbtree_node_value)(S(rbtree)* x, S(rbtree_node)* n) { (void)x; return (void*)n == (void*)&gt_nil ? NULL : *(S(resource)**)n; }
status S(rbtree_delete_node)(S(resource)** r, S(rbtree)* x, S(rbtree_node)* n) { gt* t = (gt*)x; S(resource)** p = (S(resource)**)n; return gt_take(t, r, (int)(p - t->el)); }
#endif
S(resource)* S(rbtree_resource_handle)(S(rbtree)* x) { return &((gt*)x)->hdr; }
size_t S(rbtree_count)(S(rbtree)* x) { return (size_t)((gt*)x)->n; }
#endif
