/* A scheduler for the units of the disciplines built on it: its run queue is a
 * contract stand-in (stubs.h), registration and look-up of disciplines obey
 * the contracts proved in sched.c, and so does the yield of a fiber. */
#ifndef V_DISC_H
#define V_DISC_H
#include <rcpr/fiber.h>
#include "fiber/common/fiber_internal.h"
#include "stubs.h"
typedef S(fiber) fib_t; typedef S(fiber_scheduler) sch_t; typedef S(rcpr_uuid) id_t_; typedef S(fiber_scheduler_disciplined_context) ctx_t; typedef S(fiber_scheduler_discipline) disc_t;
#define PTR ((void*)(uintptr_t)nd_u64())
static struct {
    int finds, adds; const id_t_* want; disc_t* existing; disc_t* added;
    int yields; disc_t* yd; int ye; void* yp; status yst; const id_t_* rid; int rev; void* rp; void (*during)(void);
} E;
static fib_t f[4]; static sch_t s1; static sch_t* s; static ctx_t c1; static gq* q; static disc_t* dd;
static id_t_ idA = { .data = { 1, 2, 3 } };
static status f_release(S(resource)* r) { (void)r; CHECK("a fiber is not released by those it waits for", 0); return STATUS_SUCCESS; }
static const S(resource_vtable) f_vt = { &f_release };
static void f_init(fib_t* x)
{
    S(resource_init)(&x->hdr, &f_vt); x->stack_ptr = NULL; x->alloc = &v_alloc; x->st = NULL; x->context = NULL; x->fn = NULL; x->unexpected_fn = NULL; x->unexpected_context = NULL;
    x->restore_discipline_id = &idA; x->restore_reason_code = 4711; x->restore_param = NULL; x->fiber_state = FIBER_STATE_RUNNING; x->sched = s; x->queued = 0;
}
static void pre(void)
{
    v_init(NONE, NONE); stubs_init(); E.finds = E.adds = E.yields = 0; E.existing = E.added = NULL; E.want = NULL; E.during = NULL; dd = NULL; s = &s1;
    memset(&s1, 0, sizeof(s1)); memset(&c1, 0, sizeof(c1)); S(queue)* qq = NULL; status st = S(queue_create)(&qq, &v_alloc); ASSUME(st == STATUS_SUCCESS); q = (gq*)qq; c1.run_queue = qq;
    for (int i = 0; i < 4; ++i) f_init(&f[i]);
    s1.alloc = &v_alloc; s1.context = &c1; s1.disciplined = 1; s1.current_fiber = s1.main_fiber = &f[0]; c1.alloc = &v_alloc; c1.sched = s; g.allocs = 0; g.alloc_calls = 0; g.live = 0;
}
/* any number of others wait to run */
static void others(void) { q->rest = nd_size(); ASSUME(q->rest <= SIZE_MAX / 2); q->restel = NULL; }
static void zero(void) { G.qops = G.pops = G.inserts = G.appends = G.tins = G.tdel = 0; g.alloc_calls = 0; g.allocs = 0; g.reclaims = 0; }
static _Bool is(const id_t_* a, const id_t_* b) { return a != NULL && memcmp(a, b, sizeof(*a)) == 0; }
#define SET(x, i, e, p) (is((x)->restore_discipline_id, i) && (int)(x)->restore_reason_code == (e) && (x)->restore_param == (p))
#define SETST(x, i, e, v) (is((x)->restore_discipline_id, i) && (int)(x)->restore_reason_code == (e) && (status)(intptr_t)(x)->restore_param == (v))
#define QHEAD(n) (q->restpos - q->lo == (n))
#define QTAIL(n) (q->hi - q->restpos == (n))
#define HEADIS(x) (QHEAD(1) && q->el[q->lo] == &(x)->hdr && (x)->queued)
/* not resumed by this */
#define ASLEEP(x) (!(x)->queued && (x)->restore_reason_code == 4711 && (x)->restore_param == NULL)
/* x resumes before all that wait already */
#define FIRST(x) (QHEAD(1) && QTAIL(0) && q->el[q->lo] == &(x)->hdr && (x)->queued)
#define NOBODY (QHEAD(0) && QTAIL(0))
status S(fiber_scheduler_discipline_find)(disc_t** d, sch_t* x, const id_t_* id)
{
    CHECK("the discipline is looked for in the scheduler given, by its own identity", x == s && is(id, E.want)); ++E.finds;
    if (E.existing == NULL) return ERROR_FIBER_SCHEDULER_DISCIPLINE_NOT_FOUND;
    *d = E.existing; return STATUS_SUCCESS;
}
status S(fiber_scheduler_discipline_add)(sch_t* x, disc_t* d)
{
    CHECK("the discipline is registered with the scheduler given, once, under its own identity", x == s && is(&d->id, E.want) && E.adds == 0); ++E.adds;
    if (stub_refused()) return ERROR_GENERAL_OUT_OF_MEMORY;
    d->sched = x; E.added = d; return STATUS_SUCCESS;
}
status S(fiber_discipline_yield)(disc_t* d, int e, void* p, const id_t_** id, int* re, void** rp)
{
    ++E.yields; E.yd = d; E.ye = e; E.yp = p; if (E.during) E.during(); if (E.yst) return E.yst;
    *id = E.rid; *re = E.rev; *rp = E.rp; return STATUS_SUCCESS;
}
/* how a request ends: 0 the scheduler refuses; 1 an event that is no answer; 2.. the answers */
static void answer(unsigned c) { pre(); dd = NEW(disc_t); E.yst = c == 0 ? nd_int() : STATUS_SUCCESS; if (c == 0) ASSUME(E.yst != STATUS_SUCCESS); E.rev = nd_int(); E.rid = &idA; E.rp = PTR; }
#define ASKED(e, p) (E.yields == 1 && E.yd == dd && E.ye == (e) && E.yp == (void*)(p))
#endif
