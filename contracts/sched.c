/* Contracts of the disciplined fiber scheduler.  The containers are stand-ins
 * obeying the contracts proved in queue.c and rbtree_all.c; the context switch
 * is a stand-in obeying its contract (fiber.c).  Handlers are reached as the
 * scheduler reaches them: through its callback, by yield event. */
#include "common.h"
#include <rcpr/fiber.h>
#include <rcpr/fiber/disciplines/management.h>
#include <rcpr/stack.h>
#include "fiber/common/fiber_internal.h"
#include "stubs.h"
typedef S(fiber) fib_t; typedef S(fiber_scheduler) sch_t; typedef S(rcpr_uuid) id_t_; typedef S(fiber_scheduler_disciplined_context) ctx_t; typedef S(fiber_scheduler_discipline) disc_t;
typedef S(fiber_scheduler_discipline_callback_fn) hd_t;
#define PTR ((void*)(uintptr_t)nd_u64())
static struct {
    int calls; void* ctx; fib_t* yf; int ev; void* yp; status st; int which;      /* a handler of a discipline */
    int switches; fib_t* prev; fib_t* next; sch_t* sc;
    const id_t_* bid; uint64_t bev; void* bp;
    int frel; unsigned relmask; status frst;
} K;
static id_t_ idA, idB;
static fib_t f[4]; static sch_t* s; static ctx_t* cx; static fib_t* mainf; static gq* q; static gt* tf; static gt* td;
static status f_release(S(resource)* r) { for (int i = 0; i < 4; ++i) if (r == &f[i].hdr) { CHECK("[C05] a fiber is released once", !(K.relmask >> i & 1)); K.relmask |= 1u << i; } ++K.frel; return K.frst; }
static const S(resource_vtable) f_vt = { &f_release };
void S(fiber_switch)(fib_t* prev, fib_t* next, const id_t_* disc, int64_t event, void* param)
{
    CHECK("control goes to a fiber that is not the suspended one only while it is the current one", s == NULL || s->current_fiber == next);
    ++K.switches; K.prev = prev; K.next = next;
    next->restore_discipline_id = disc; next->restore_reason_code = (uint64_t)event; next->restore_param = param;
    if (next != prev) { prev->restore_discipline_id = K.bid; prev->restore_reason_code = K.bev; prev->restore_param = K.bp; s->current_fiber = prev; }
}
void S(fiber_make)(fib_t* x, sch_t* y, S(fiber_entry_fn) e) { (void)x; (void)y; (void)e; }
static void f_init(fib_t* x)
{
    S(resource_init)(&x->hdr, &f_vt); x->stack_ptr = NULL; x->alloc = &v_alloc; x->st = NULL; x->context = NULL; x->fn = NULL; x->unexpected_fn = NULL; x->unexpected_context = NULL;
    x->restore_discipline_id = nd_bool() ? &idA : &idB; x->restore_reason_code = (uint64_t)(int64_t)nd_int(); x->restore_param = PTR; x->fiber_state = FIBER_STATE_RUNNING; x->sched = s; x->queued = 0;
}
static void pre(void)
{
    v_init(NONE, NONE); stubs_init(); s = NULL; cx = NULL; mainf = NULL; q = NULL; tf = td = NULL;
    K.calls = 0; K.ctx = NULL; K.yf = NULL; K.ev = 0; K.yp = NULL; K.st = STATUS_SUCCESS; K.which = 0; K.switches = 0; K.prev = K.next = NULL;
    K.bid = nd_bool() ? &idA : &idB; K.bev = (uint64_t)(int64_t)nd_int(); K.bp = PTR; K.frel = 0; K.relmask = 0; K.frst = STATUS_SUCCESS;
    memset(&idA, 0x11, sizeof(idA)); memset(&idB, 0x22, sizeof(idB));
}
/* others already wait: any number of them, the first being f[3] */
static void others(void) { q->rest = nd_size(); ASSUME(q->rest >= 1 && q->rest <= SIZE_MAX / 2); q->restel = &f[3].hdr; f[3].queued = 1; }
static void after(void)
{
    cx = (ctx_t*)s->context; q = G.q[0]; tf = G.t[0]; td = G.t[1]; mainf = s->main_fiber;
    for (int i = 0; i < 4; ++i) f_init(&f[i]);
}
static void mk(void)
{
    pre(); status st = S(fiber_scheduler_create_with_disciplines)(&s, &v_alloc); ASSUME(st == STATUS_SUCCESS); after();
    G.qops = G.pops = G.inserts = G.appends = G.tins = G.tdel = 0; g.alloc_calls = 0; g.allocs = 0; K.switches = 0;
}
static fib_t* rf; static const id_t_* rid; static int rev; static void* rp;
static status ev(fib_t* y, int e, void* p) { rf = NULL; rid = NULL; rev = -77; rp = NULL; return (*s->fn)(s->context, y, e, p, &rf, &rid, &rev, &rp); }
static _Bool is(const id_t_* a, const id_t_* b) { return a != NULL && memcmp(a, b, sizeof(*a)) == 0; }
#define INT_ID (&FIBER_SCHEDULER_INTERNAL_DISCIPLINE)
#define MAN_ID (&FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE)
/* what the scheduler chose to resume */
#define CHOSE(x, i, e, p) (rf == (x) && is(rid, i) && rev == (e) && rp == (p))
#define SET(x, i, e, p) (is((x)->restore_discipline_id, i) && (int)(x)->restore_reason_code == (e) && (x)->restore_param == (p))
#define OTHERS_FIRST (rf == &f[3] && rid == f[3].restore_discipline_id && rev == (int)f[3].restore_reason_code && rp == f[3].restore_param && !f[3].queued)
/* the run queue: head elements, the others, tail elements */
#define QHEAD(n) (q->restpos - q->lo == (n))
#define QTAIL(n) (q->hi - q->restpos == (n))
#define QUNCHANGED (q->lo == QN && q->hi == QN && q->restpos == QN)
static int code(int e) { return (int)cx->management_discipline->callback_codes[e]; }

static status h0(void* c, fib_t* y, int e, void* p) { ++K.calls; K.ctx = c; K.yf = y; K.ev = e; K.yp = p; K.which = 0; return K.st; }
static status h1(void* c, fib_t* y, int e, void* p) { ++K.calls; K.ctx = c; K.yf = y; K.ev = e; K.yp = p; K.which = 1; return K.st; }
static hd_t vec[8]; static void* cvec[8];
/* Dispatch: any number of registered requests, the entry under test concrete.
 * cases 0-6: request c of n > c; 7: a request that is negative or not below n */
//@ {"props":["C27","C26"],"unwind":18,"cover":["fiber_scheduler_create_with_disciplines"]}
CASEUNIT(8, dispatch)
static void c_dispatch(unsigned c)
{
    mk(); void* v0 = cx->callback_vector; void* c0 = cx->context_vector; (void)v0; (void)c0;
    for (int i = 0; i < 8; ++i) { vec[i] = &h0; cvec[i] = PTR; } if (c < 7) vec[c] = &h1; else for (int i = 0; i < 8; ++i) cvec[i] = cx;
    cx->callback_vector = vec; cx->context_vector = cvec; size_t n = nd_upto(7); ASSUME(c == 7 || n > c); cx->callback_vector_size = n;
    int e = c < 7 ? (int)c : nd_int(); if (c == 7) ASSUME(e < 0 || (size_t)e >= n);
    K.st = nd_bool() ? STATUS_SUCCESS : nd_int(); void* yp = PTR; unsigned kind = c % 3;
    if (kind == 0) others(); cx->idle_fiber = kind == 1 ? &f[1] : NULL;
    status st = ev(&f[0], e, yp);
    if (c == 7) { CHECK("a request outside the registered range is refused with an error, and nothing runs", st == ERROR_FIBER_SCHEDULER_BAD_YIELD_EVENT && K.calls == 0 && G.qops == 0 && rf == NULL); REACH("refused"); return; }
    CHECK("a request reaches the one handler registered for it, once, with its context, the yielding fiber, the request and its parameter", K.calls == 1 && K.which == 1 && K.ctx == cvec[c] && K.yf == &f[0] && K.ev == e && K.yp == yp);
    if (K.st) { CHECK("a handler's error is reported and nothing is resumed", st == K.st && G.pops == 0 && rf == NULL); REACH("error"); return; }
    if (kind == 0) { CHECK("the fiber first in the run queue is resumed, with exactly the reason and parameter its resumer supplied", st == STATUS_SUCCESS && OTHERS_FIRST && G.pops == 1); REACH("next"); }
    else if (kind == 1) { CHECK("with nothing to run, the idle fiber is resumed as idle", st == STATUS_SUCCESS && CHOSE(&f[1], INT_ID, FIBER_SCHEDULER_RESUME_EVENT_IDLE, NULL)); REACH("idle"); }
    else { CHECK("with nothing to run and no idle fiber, the scheduler says so", st == ERROR_FIBER_SCHEDULER_EXHAUSTED && rf == NULL); REACH("exhausted"); }
}
/* 0 others wait; 1 nobody waits; 2 no memory; 3 the idle fiber, others wait; 4 the idle fiber, nobody waits */
//@ {"unwind":18,"props":["C26"],"cover":["fiber_scheduler_create_with_disciplines","disciplined_fiber_scheduler_add_fiber_to_run_queue","disciplined_fiber_scheduler_idle_fiber_yield"]}
CASEUNIT(5, run)
static void c_run(unsigned c)
{
    mk(); if (c == 0 || c == 2 || c == 3) others(); size_t r0 = q->rest; g.fail_at = c == 2 ? 0 : NONE; cx->idle_fiber = c == 3 || c == 4 ? &f[0] : nd_bool() ? &f[1] : NULL;
    status st = ev(&f[0], FIBER_SCHEDULER_YIELD_EVENT_RUN, PTR);
    if (c == 2) { CHECK("run: when a fiber cannot be queued it gets the error and goes on running", st != STATUS_SUCCESS && QUNCHANGED && q->rest == r0 && !f[0].queued && rf == NULL); REACH("refused"); return; }
    CHECK("run: succeeds", st == STATUS_SUCCESS);
    if (c == 0) { CHECK("run: the fiber that waited longest runs next, and the yielding fiber waits behind all others, to be resumed as running", OTHERS_FIRST && q->rest == r0 - 1 && QHEAD(0) && QTAIL(1) && q->el[q->restpos] == &f[0].hdr && f[0].queued && SET(&f[0], INT_ID, FIBER_SCHEDULER_RESUME_EVENT_RUN, NULL)); REACH("others"); }
    if (c == 1) { CHECK("run: alone, the fiber is resumed at once", CHOSE(&f[0], INT_ID, FIBER_SCHEDULER_RESUME_EVENT_RUN, NULL) && q->hi == q->lo && q->rest == 0 && !f[0].queued); REACH("alone"); }
    if (c == 3) { CHECK("run: the idle fiber never waits in the run queue", OTHERS_FIRST && QHEAD(0) && QTAIL(0) && q->rest == r0 - 1); REACH("idle"); }
    if (c == 4) { CHECK("run: with nothing to run, the idle fiber is resumed as idle", CHOSE(&f[0], INT_ID, FIBER_SCHEDULER_RESUME_EVENT_IDLE, NULL) && QUNCHANGED); REACH("idle2"); }
}
/* a fiber is in the run queue at most once.  bit 0: at the front; bit 1: waits already; 4-5: no memory */
//@ {"unwind":18,"props":["C26"],"cover":["disciplined_fiber_scheduler_add_fiber_to_run_queue","disciplined_fiber_scheduler_set_next_fiber_to_run"]}
CASEUNIT(6, queueing)
static void c_queueing(unsigned c)
{
    mk(); others(); size_t r0 = q->rest; _Bool front = c & 1, was = c >> 1 & 1; f[0].queued = was; g.fail_at = c >= 4 ? 0 : NONE;
    const id_t_* id = nd_bool() ? &idA : &idB; int e = nd_int(); void* p = PTR;
    status st = front ? S(disciplined_fiber_scheduler_set_next_fiber_to_run)(s, &f[0], id, e, p) : S(disciplined_fiber_scheduler_add_fiber_to_run_queue)(s, &f[0], id, e, p);
    if (c >= 4) { CHECK("queueing: a failure is reported and queues nothing", st != STATUS_SUCCESS && QUNCHANGED && q->rest == r0 && !f[0].queued); REACH("refused"); return; }
    CHECK("queueing: the fiber is to be resumed with exactly this discipline, reason and parameter", st == STATUS_SUCCESS && f[0].restore_discipline_id == id && (int)f[0].restore_reason_code == e && f[0].restore_param == p && f[0].queued);
    CHECK("queueing: a fiber that waits already is not queued twice", IMPL(was, QUNCHANGED && q->rest == r0));
    CHECK("queueing: a fiber is queued once, before or behind all others as asked", IMPL(!was, q->rest == r0 && (front ? QHEAD(1) && QTAIL(0) && q->el[q->lo] == &f[0].hdr : QHEAD(0) && QTAIL(1) && q->el[q->restpos] == &f[0].hdr))); REACH("done");
}
/* bit 0: a management fiber is there; 2 it is, and waits already; then failures: 3 tree, 4 front (no management), 5 front, 6 management, 7 tail (no management), 8 tail, 9 tail with the management fiber waiting already */
//@ {"unwind":18,"props":["C26","C05"],"cover":["fiber_scheduler_create_with_disciplines"]}
CASEUNIT(10, add)
static void c_add(unsigned c)
{
    static const unsigned char man[10] = { 0, 1, 2, 1, 0, 1, 1, 0, 1, 2 }; static const signed char fail[10] = { -1, -1, -1, 0, 1, 1, 2, 2, 3, 2 };
    mk(); others(); size_t r0 = q->rest; int m = man[c]; if (m) { cx->management_fiber = &f[1]; f[1].queued = m == 2; } g.fail_at = fail[c]; int n0 = tf->n;
    status st = ev(&f[0], FIBER_SCHEDULER_YIELD_EVENT_ADD_FIBER, &f[2]);
    if (fail[c] >= 0) {
        CHECK("add: an error is reported", st != STATUS_SUCCESS && rf == NULL);
        CHECK("add: a failure leaves the new fiber with the caller, neither owned nor released", tf->n == n0 && K.frel == 0);
        CHECK("add: a failure leaves the run queue as it was", q->lo == q->restpos && q->hi == q->restpos && q->rest == r0 && !f[0].queued && !f[2].queued && f[1].queued == (m == 2));
        CHECK("add: a failure leaves the management fiber waiting", cx->management_fiber == (m ? &f[1] : NULL)); REACH("refused"); return;
    }
    CHECK("add: the scheduler owns the new fiber", st == STATUS_SUCCESS && tf->n == n0 + 1 && tf->el[n0] == &f[2].hdr && K.frel == 0);
    CHECK("add: the new fiber waits behind all others, to start as added", QTAIL(1) && q->el[q->restpos] == &f[2].hdr && f[2].queued && SET(&f[2], INT_ID, FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL) && q->rest == r0);
    if (m == 1) CHECK("add: the management fiber is told first, once, and the adding fiber goes on next", CHOSE(&f[1], MAN_ID, FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_ADD, &f[2]) && !f[1].queued && cx->management_fiber == NULL && QHEAD(1) && q->el[q->lo] == &f[0].hdr && f[0].queued && SET(&f[0], INT_ID, FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL));
    else CHECK("add: the adding fiber goes on at once", CHOSE(&f[0], INT_ID, FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL) && QHEAD(0) && !f[0].queued && cx->management_fiber == NULL);
    REACH("added");
}
/* 0 no management fiber; 1 one; 2 no memory to queue it; 3 none, nobody waits, an idle fiber; 4 nobody at all */
//@ {"unwind":18,"props":["C26","C05"],"cover":["fiber_scheduler_create_with_disciplines"]}
CASEUNIT(5, stop)
static void c_stop(unsigned c)
{
    mk(); if (c < 3) others(); size_t r0 = q->rest; cx->management_fiber = c == 1 || c == 2 ? &f[1] : NULL; g.fail_at = c == 2 ? 0 : NONE; cx->idle_fiber = c == 3 ? &f[2] : NULL;
    f[0].fiber_state = FIBER_STATE_STOPPED; status code_ = nd_int(); tf->el[tf->n++] = &f[0].hdr; int n0 = tf->n;
    status st = ev(&f[0], FIBER_SCHEDULER_YIELD_EVENT_STOP, &code_);
    CHECK("stop: a stopped fiber is not queued, and stays owned by the scheduler until it is taken out", !f[0].queued && K.frel == 0 && tf->n == n0);
    if (c == 0) { CHECK("stop: the next fiber runs", st == STATUS_SUCCESS && OTHERS_FIRST && q->rest == r0 - 1 && QHEAD(0) && QTAIL(0)); REACH("next"); }
    if (c == 1) { CHECK("stop: the management fiber is told, once", st == STATUS_SUCCESS && CHOSE(&f[1], MAN_ID, FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_STOP, &f[0]) && cx->management_fiber == NULL && q->rest == r0 && QHEAD(0) && QTAIL(0)); REACH("told"); }
    if (c == 2) { CHECK("stop: a failure is reported", st != STATUS_SUCCESS && rf == NULL && cx->management_fiber == &f[1] && QUNCHANGED); REACH("refused"); }
    if (c == 3) { CHECK("stop: with nothing to run, the idle fiber is resumed as idle", st == STATUS_SUCCESS && CHOSE(&f[2], INT_ID, FIBER_SCHEDULER_RESUME_EVENT_IDLE, NULL)); REACH("idle"); }
    if (c == 4) { CHECK("stop: with nothing to run at all, the scheduler says so", st == ERROR_FIBER_SCHEDULER_EXHAUSTED); REACH("exhausted"); }
}

/* Requests of the management discipline: to one fiber.
 * e: quiesce or terminate; k: 0 the fiber runs, 1 it does not, 2 it waits in the queue, 3-4 no memory (first, second), 5 not running and no memory */
static void to_one(unsigned k, int e, int rev_)
{
    mk(); others(); size_t r0 = q->rest; fib_t* m = nd_bool() ? &f[2] : NULL; cx->management_fiber = m; g.fail_at = k == 3 || k == 5 ? 0 : k == 4 ? 1 : NONE; f[1].queued = k == 2;
    if (k == 1 || k == 5) { uint64_t x = nd_u64(); ASSUME(x != FIBER_STATE_RUNNING); f[1].fiber_state = x; }
    const id_t_* i0 = f[1].restore_discipline_id; uint64_t e0 = f[1].restore_reason_code; void* p0 = f[1].restore_param;
    status st = ev(&f[0], code(e), &f[1]);
    if (k >= 3) {
        CHECK("request to a fiber: an error is reported", st != STATUS_SUCCESS && rf == NULL);
        CHECK("request to a fiber: a failure leaves the run queue as it was, so nobody is resumed for it", q->rest == r0 && q->lo == q->restpos && q->hi == q->restpos && !f[0].queued && !f[1].queued); REACH("refused"); return;
    }
    CHECK("request to a fiber: the management fiber keeps waiting", st == STATUS_SUCCESS && cx->management_fiber == m && q->rest == r0);
    if (k == 0) CHECK("request to a fiber: it is asked once, next, and then the requester learns of its success", CHOSE(&f[1], MAN_ID, rev_, NULL) && QHEAD(1) && QTAIL(0) && q->el[q->lo] == &f[0].hdr && f[0].queued && SET(&f[0], MAN_ID, FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_REQUEST_RESULT, (void*)STATUS_SUCCESS));
    if (k == 1) CHECK("request to a fiber: one that is not running is not resumed; the requester is told", CHOSE(&f[0], MAN_ID, FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_REQUEST_RESULT, rp) && (status)(intptr_t)rp == ERROR_FIBER_INVALID_STATE && QHEAD(0) && QTAIL(0) && !f[1].queued && f[1].restore_discipline_id == i0 && f[1].restore_reason_code == e0 && f[1].restore_param == p0);
    if (k == 2) CHECK("request to a fiber: one that waits is not queued twice; it is resumed with the request", CHOSE(&f[0], MAN_ID, FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_REQUEST_RESULT, (void*)STATUS_SUCCESS) && QHEAD(0) && QTAIL(0) && SET(&f[1], MAN_ID, rev_, NULL));
    REACH("asked");
}
//@ {"unwind":18,"props":["C26"],"cover":["fiber_scheduler_create_with_disciplines"]}
CASEUNIT(6, quiesce)
static void c_quiesce(unsigned c) { to_one(c, FIBER_SCHEDULER_MANAGEMENT_YIELD_EVENT_QUIESCE_REQUEST, FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST); }
//@ {"unwind":18,"props":["C26"],"cover":["fiber_scheduler_create_with_disciplines"]}
CASEUNIT(6, terminate)
static void c_terminate(unsigned c) { to_one(c, FIBER_SCHEDULER_MANAGEMENT_YIELD_EVENT_TERMINATION_REQUEST, FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_TERMINATION_REQUEST); }
/* Requests to all fibers: an arbitrary fiber of arbitrarily many (the loop cut at its head).
 * 0 running, 1 not running, 2 the requester, 3 the management fiber, 4 it waits already, 5 no memory; 6-7 the end of the loop, 7 no memory; 8 without the cut: none at all */
static struct { unsigned k; int arr, evt; S(rbtree_node)* at; size_t r0; } A;
static _Bool all_cut(void* vn)
{
    S(rbtree_node)** n = vn;
    if (A.arr++ == 0) {
        CHECK("ATTACH request to all: starts at the first fiber", *n == S(rbtree_minimum_node)((S(rbtree)*)tf, S(rbtree_root_node)((S(rbtree)*)tf)));
        A.at = A.k < 6 ? (S(rbtree_node)*)&tf->el[1] : S(rbtree_nil_node)((S(rbtree)*)tf); *n = A.at;
        q->rest = nd_size(); ASSUME(q->rest >= 1 && q->rest <= SIZE_MAX / 2); A.r0 = q->rest; q->lo = q->hi = q->restpos = QN; g.alloc_calls = 0;
    } else {
        CHECK("ATTACH request to all: goes on with the next fiber", *n == (S(rbtree_node)*)&tf->el[2]);
        CHECK("request to all: goes on only without an error", A.k != 5);
        if (A.k == 0) CHECK("request to all: every running fiber is asked, once, behind those that wait", f[0].queued && QTAIL(1) && QHEAD(0) && q->el[q->restpos] == &f[0].hdr && q->rest == A.r0 && SET(&f[0], MAN_ID, A.evt, NULL));
        if (A.k == 4) CHECK("request to all: a fiber that waits is not queued twice; it is resumed with the request", QTAIL(0) && QHEAD(0) && q->rest == A.r0 && SET(&f[0], MAN_ID, A.evt, NULL));
        if (A.k >= 1 && A.k <= 3) CHECK("request to all: neither the requester, nor the management fiber, nor one that is not running is asked", QTAIL(0) && QHEAD(0) && q->rest == A.r0 && !f[0].queued && !f[1].queued && !f[2].queued);
        REACH("round");
        ASSUME(0);
    }
    return 1;
}
_Bool v_cut_fiber_scheduler_disciplined_management_quiesce_all_callback_handler_0(void* n) { return all_cut(n); }
_Bool v_cut_fiber_scheduler_disciplined_management_terminate_all_callback_handler_0(void* n) { return all_cut(n); }
static void to_all(unsigned k, int e, int rev_)
{
    mk(); others(); A.k = k; A.arr = 0; A.evt = rev_; A.r0 = q->rest; g.fail_at = k == 5 || k == 7 ? 0 : NONE; fib_t* m = nd_bool() ? &f[2] : NULL; cx->management_fiber = m;
    fib_t* y = &f[1]; fib_t* x = k == 2 ? y : &f[0]; if (k == 3) { cx->management_fiber = m = &f[0]; } if (k == 1) { f[0].fiber_state = nd_u64(); ASSUME(f[0].fiber_state != FIBER_STATE_RUNNING); } f[0].queued = k == 4;
    f[3].fiber_state = FIBER_STATE_STOPPED; tf->el[0] = tf->el[2] = &f[3].hdr; tf->el[1] = &x->hdr; tf->n = k == 8 ? 0 : 3;
    status st = ev(y, code(e), NULL);
    if (k == 5 || k == 7) { CHECK("request to all: an error is reported to the requester, who is not queued", st != STATUS_SUCCESS && !y->queued && rf == NULL); REACH("refused"); return; }
    if ((k == 6 && A.arr) || k == 8) {
        CHECK("request to all: the requester learns of its success once, after those it asked", st == STATUS_SUCCESS && y->queued && QTAIL(1) && q->el[q->restpos] == &y->hdr && SET(y, MAN_ID, FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_REQUEST_RESULT, (void*)STATUS_SUCCESS) && cx->management_fiber == m && OTHERS_FIRST && q->rest == A.r0 - 1); REACH("end");
    } else {    /* only when the loop was not cut */
        _Bool asked = k == 0 || k == 4 || k == 6;
        CHECK("request to all: every running fiber but the requester and the management fiber is asked, once", st == STATUS_SUCCESS && q->hi - q->restpos == (k == 0 || k == 6 ? 2 : 1) && f[0].queued == asked && IMPL(asked, SET(&f[0], MAN_ID, rev_, NULL)) && y->queued);
    }
}
//@ {"uncut":true,"unwind":18,"props":["C26"],"cuts":{"src/fiber/common/fiber_scheduler_create_with_disciplines.c:fiber_scheduler_disciplined_management_quiesce_all_callback_handler":[["node"]]},"cover":["fiber_scheduler_create_with_disciplines"]}
CASEUNIT(9, quiesce_all)
static void c_quiesce_all(unsigned c) { to_all(c, FIBER_SCHEDULER_MANAGEMENT_YIELD_EVENT_QUIESCE_ALL_REQUEST, FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST); }
//@ {"uncut":true,"unwind":18,"props":["C26"],"cuts":{"src/fiber/common/fiber_scheduler_create_with_disciplines.c:fiber_scheduler_disciplined_management_terminate_all_callback_handler":[["node"]]},"cover":["fiber_scheduler_create_with_disciplines"]}
CASEUNIT(9, terminate_all)
static void c_terminate_all(unsigned c) { to_all(c, FIBER_SCHEDULER_MANAGEMENT_YIELD_EVENT_TERMINATION_ALL_REQUEST, FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_TERMINATION_REQUEST); }
/* 0 others wait; 1 nobody, an idle fiber; 2 nobody */
//@ {"unwind":18,"props":["C26"],"cover":["fiber_scheduler_create_with_disciplines"]}
CASEUNIT(3, mgmt_wait)
static void c_mgmt_wait(unsigned c)
{
    mk(); if (c == 0) others(); cx->idle_fiber = c == 1 ? &f[1] : NULL; cx->management_fiber = nd_bool() ? &f[2] : NULL;
    status st = ev(&f[0], code(FIBER_SCHEDULER_MANAGEMENT_YIELD_EVENT_RECEIVE_EVENT), NULL);
    CHECK("management: the fiber that waits for events is the management fiber, and waits outside the run queue", cx->management_fiber == &f[0] && !f[0].queued && QHEAD(0) && QTAIL(0));
    CHECK("management: others run meanwhile", c == 0 ? st == STATUS_SUCCESS && OTHERS_FIRST : c == 1 ? st == STATUS_SUCCESS && CHOSE(&f[1], INT_ID, FIBER_SCHEDULER_RESUME_EVENT_IDLE, NULL) : st == ERROR_FIBER_SCHEDULER_EXHAUSTED); REACH("done");
}
/* 0 well, 1 no memory */
//@ {"unwind":18,"props":["C26"],"cover":["fiber_scheduler_create_with_disciplines"]}
CASEUNIT(2, released)
static void c_released(unsigned c)
{
    mk(); others(); g.fail_at = c ? 0 : NONE; size_t r0 = q->rest;
    status st = ev(&f[0], FIBER_SCHEDULER_YIELD_EVENT_RESOURCE_RELEASE, PTR);
    if (c) CHECK("scheduler release event: an error is reported", st != STATUS_SUCCESS && rf == NULL && QUNCHANGED && q->rest == r0);
    else CHECK("scheduler release event: control returns to the releasing fiber", st == STATUS_SUCCESS && CHOSE(&f[0], INT_ID, FIBER_SCHEDULER_RESUME_EVENT_RESOURCE_RELEASE, NULL) && q->rest == r0);
    REACH("done");
}
//@ {"unwind":18,"props":["C26"],"cover":["disciplined_fiber_scheduler_main_fiber_get","disciplined_fiber_scheduler_current_fiber_get","disciplined_fiber_scheduler_set_idle_fiber","fiber_scheduler_create_with_disciplines","fiber_discipline_scheduler_get","fiber_scheduler_discipline_resource_handle"]}
void H_getters(void)
{
    mk(); fib_t* x = NULL; sch_t* s2 = NULL;
    CHECK("the main fiber is the one the scheduler was created in", S(disciplined_fiber_scheduler_main_fiber_get)(&x, s) == STATUS_SUCCESS && x == mainf && x != NULL && mainf->sched == s && mainf->fiber_state == FIBER_STATE_RUNNING && s->disciplined && s->current_fiber == mainf);
    s->current_fiber = &f[1]; x = NULL;
    CHECK("the current fiber is the one running", S(disciplined_fiber_scheduler_current_fiber_get)(&x, s) == STATUS_SUCCESS && x == &f[1]);
    CHECK("an idle fiber can be set", S(disciplined_fiber_scheduler_set_idle_fiber)(s, &f[2]) == STATUS_SUCCESS && cx->idle_fiber == &f[2]);
    CHECK("a new scheduler has nothing to run and owns only its management discipline", QUNCHANGED == (q->lo == QN) && q->lo == q->hi && q->rest == 0 && tf->n == 0 && td->n == 1 && td->el[0] == &cx->management_discipline->hdr && cx->management_fiber == NULL);
    CHECK("a registered discipline knows its scheduler", S(fiber_discipline_scheduler_get)(&s2, cx->management_discipline) == STATUS_SUCCESS && s2 == s && S(fiber_scheduler_discipline_resource_handle)(cx->management_discipline) == &cx->management_discipline->hdr);
    REACH("done");
}
/* 0 there, 1 not there, 2 nothing at all */
//@ {"unwind":18,"props":["C26","C05"],"flags":["--no-signed-overflow-check"],"assumes":["the addresses of two fibers differ by less than 2^63"],"cover":["disciplined_fiber_scheduler_remove_fiber"]}
CASEUNIT(3, remove)
static void c_remove(unsigned c)
{
    mk(); if (c < 2) { tf->el[0] = &f[1].hdr; tf->n = 1; } if (c == 0) { tf->el[1] = &f[0].hdr; tf->n = 2; }
    status st = S(disciplined_fiber_scheduler_remove_fiber)(s, &f[0]);
    CHECK("remove: a fiber taken out of the scheduler belongs to the caller, and is not released", st == (c == 0 ? STATUS_SUCCESS : ERROR_RBTREE_NOT_FOUND) && K.frel == 0 && tf->n == (c < 2 ? 1 : 0) && IMPL(c < 2, tf->el[0] == &f[1].hdr)); REACH("done");
}
static id_t_ manx;
static status yield_cb(void* c, fib_t* y, int e, void* p, fib_t** x, const id_t_** i, int* re, void** rp_)
{
    ++K.calls; K.ctx = c; K.yf = y; K.ev = e; K.yp = p; if (K.st) return K.st;
    *x = &f[2]; *i = &idA; *re = 5; *rp_ = NULL; return STATUS_SUCCESS;
}
/* what the helpers do with the answer.  0 the yield fails, 1 another discipline, 2 another event, 3 the answer */
static void answer(unsigned c)
{
    mk(); s->fn = &yield_cb; s->current_fiber = &f[0]; K.st = c == 0 ? nd_int() : 0; if (c == 0) ASSUME(K.st != 0);
    memcpy(&manx, MAN_ID, sizeof(manx)); K.bid = c == 1 ? &idA : &manx; status r = nd_int(); K.bp = (void*)(intptr_t)r; K.bev = FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_REQUEST_RESULT;
    if (c == 2) { int x = nd_int(); ASSUME(x != FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_REQUEST_RESULT); K.bev = (uint64_t)(int64_t)x; }
}
static void answered(unsigned c, status st, int e, void* p)
{
    CHECK("a management request is made once, with its request code and parameter", K.calls == 1 && K.ev == code(e) && K.yp == p && K.yf == &f[0] && K.ctx == s->context);
    CHECK("the requester gets exactly the answer: the scheduler's error, the error for an unexpected event, or the result it was sent", st == (c == 0 ? K.st : c < 3 ? ERROR_FIBER_UNEXPECTED_RESUME_EVENT : (status)(intptr_t)K.bp)); REACH("done");
}
//@ {"unwind":18,"props":["C26"],"cover":["disciplined_fiber_scheduler_send_quiesce_request_to_fiber"]}
CASEUNIT(4, send_q)
static void c_send_q(unsigned c) { answer(c); answered(c, S(disciplined_fiber_scheduler_send_quiesce_request_to_fiber)(s, &f[1]), FIBER_SCHEDULER_MANAGEMENT_YIELD_EVENT_QUIESCE_REQUEST, &f[1]); }
//@ {"unwind":18,"props":["C26"],"cover":["disciplined_fiber_scheduler_send_terminate_request_to_fiber"]}
CASEUNIT(4, send_t)
static void c_send_t(unsigned c) { answer(c); answered(c, S(disciplined_fiber_scheduler_send_terminate_request_to_fiber)(s, &f[1]), FIBER_SCHEDULER_MANAGEMENT_YIELD_EVENT_TERMINATION_REQUEST, &f[1]); }
//@ {"unwind":18,"props":["C26"],"cover":["disciplined_fiber_scheduler_send_quiesce_request_to_all"]}
CASEUNIT(4, send_qa)
static void c_send_qa(unsigned c) { answer(c); answered(c, S(disciplined_fiber_scheduler_send_quiesce_request_to_all)(s), FIBER_SCHEDULER_MANAGEMENT_YIELD_EVENT_QUIESCE_ALL_REQUEST, NULL); }
//@ {"unwind":18,"props":["C26"],"cover":["disciplined_fiber_scheduler_send_terminate_request_to_all"]}
CASEUNIT(4, send_ta)
static void c_send_ta(unsigned c) { answer(c); answered(c, S(disciplined_fiber_scheduler_send_terminate_request_to_all)(s), FIBER_SCHEDULER_MANAGEMENT_YIELD_EVENT_TERMINATION_ALL_REQUEST, NULL); }
//@ {"unwind":18,"props":["C26"],"cover":["disciplined_fiber_scheduler_receive_management_event"]}
CASEUNIT(4, recv_m)
static void c_recv_m(unsigned c)
{
    answer(c); const id_t_* i = NULL; int e = 0; void* p = NULL;
    status st = S(disciplined_fiber_scheduler_receive_management_event)(s, &i, &e, &p);
    CHECK("receiving a management event yields once", K.calls == 1 && K.ev == code(FIBER_SCHEDULER_MANAGEMENT_YIELD_EVENT_RECEIVE_EVENT) && K.yf == &f[0] && K.ctx == s->context);
    CHECK("receiving a management event delivers exactly what resumed the fiber, or the scheduler's error", c == 0 ? st == K.st : st == STATUS_SUCCESS && i == K.bid && e == (int)K.bev && p == K.bp); REACH("done");
}

/* Creation: the n-th request (memory, container, queue) is refused; 0 none */
//@ {"unwind":18,"timeout":300,"props":["C04","C26","C27"],"cover":["fiber_scheduler_create_with_disciplines"]}
CASEUNIT(18, create)
static void c_create(unsigned c)
{
    pre(); g.fail_at = (int)c - 1;
    status st = S(fiber_scheduler_create_with_disciplines)(&s, &v_alloc);
    CHECK("scheduler create: succeeds exactly when every step does", (st == STATUS_SUCCESS) == (g.oom == 0));
    if (st) { CHECK("scheduler create: a failure keeps nothing", g.live == 0 && s == NULL); REACH("refused"); return; }
    after();
    CHECK("scheduler create: main is the running fiber, nothing waits, and its management discipline is the one registered", s->disciplined && s->current_fiber == mainf && cx->main_fiber == mainf && q->lo == q->hi && q->rest == 0 && tf->n == 0 && td->n == 1 && cx->management_discipline->sched == s && cx->callback_vector_size == FIBER_SCHEDULER_YIELD_EVENT_INTERNAL_COUNT + 5 && cx->idle_fiber == NULL && cx->management_fiber == NULL && K.switches == 0); REACH("created");
}
/* Release: owned fibers, disciplines, waiting fibers and an idle fiber.
 * 0 well; 1 a fiber's release fails; 2-11 the n-th return of memory fails */
_Bool v_cut_fiber_scheduler_disciplined_context_resource_release_0(void)
{
    if (A.arr++ == 0) { q->rest = nd_size(); ASSUME(q->rest <= SIZE_MAX / 2); q->restel = &f[3].hdr; A.r0 = q->rest; A.k = K.frel; }
    else { CHECK("scheduler release: the run queue is emptied without releasing its fibers, whose owner is another", q->rest + 1 == A.r0 && K.frel == (int)A.k); ASSUME(0); }
    return 1;
}
//@ {"uncut":true,"unwind":18,"timeout":300,"props":["C05","C26","C03"],"cuts":{"src/fiber/common/fiber_scheduler_create_with_disciplines.c:fiber_scheduler_disciplined_context_resource_release":[[]]},"cover":["fiber_scheduler_create_with_disciplines","fiber_scheduler_discipline_create"]}
CASEUNIT(12, release)
static void c_release(unsigned c)
{
    mk(); A.arr = 0; tf->el[0] = &f[0].hdr; tf->el[1] = &f[1].hdr; tf->n = 2; cx->idle_fiber = &f[2]; q->rest = 1; q->restel = &f[0].hdr; int live0 = g.live;
    K.frst = c == 1 ? 77 : STATUS_SUCCESS; g.reclaims = 0; g.reclaim_fail_at = c >= 2 ? (int)c - 2 : NONE;
    status st = S(resource_release)(S(fiber_scheduler_resource_handle)(s));
    CHECK("scheduler release: every fiber it owns, and the idle fiber, is released once", K.relmask == 7 && K.frel == 3);
    CHECK("scheduler release: everything it owns is given back once", g.live == 0 && g.reclaims == live0 && live0 == 11);
    CHECK("scheduler release: failures are reported", (st == STATUS_SUCCESS) == (c == 0 || (c >= 2 && g.reclaim_failed == 0))); REACH("done");
}
/* Disciplines: any number of requests registered, any number in the new one.
 * 0 well; 1 its identity is taken; 2 it has an owner; 3 a plain scheduler; 4-5 the tables cannot grow; 6 the tree */
static struct { size_t n0, k, w; hd_t oh; void* oc; id_t_ id; } D;
static disc_t* dd;
_Bool v_cut_fiber_scheduler_discipline_add_0(void* vi)
{
    size_t* i = vi;
    if (A.arr++ == 0) {
        CHECK("ATTACH registration: starts with the first request", *i == 0);
        *i = nd_size(); ASSUME(*i <= D.k); A.r0 = *i;
        if (D.w < *i) { ASSUME(cx->callback_vector[D.n0 + D.w] == dd->callback_vector[D.w] && cx->context_vector[D.n0 + D.w] == dd->context && dd->callback_codes[D.w] == (uint32_t)(D.n0 + D.w)); }
    } else {
        CHECK("ATTACH registration: one request after the other", *i == A.r0 + 1 && *i <= D.k);
        if (D.w < *i) CHECK("registration: each request gets its own entry", cx->callback_vector[D.n0 + D.w] == dd->callback_vector[D.w] && cx->context_vector[D.n0 + D.w] == dd->context && dd->callback_codes[D.w] == (uint32_t)(D.n0 + D.w));
        ASSUME(0);
    }
    return 1;
}
static const id_t_* d_key(void* c, const S(resource)* r) { (void)c; return &((const disc_t*)r)->id; }
static const void* key_fn(void* c, const S(resource)* r) { return d_key(c, r); }
static S(rcpr_comparison_result) cmp_fn(void* c, const void* a, const void* b) { (void)c; int x = memcmp(a, b, sizeof(id_t_)); return x < 0 ? RCPR_COMPARE_LT : x > 0 ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ; }
static sch_t s1; static ctx_t c1; static disc_t d0;
static void dmk(void)
{
    pre(); s = &s1; cx = &c1; S(rbtree)* t = NULL; S(queue)* qq = NULL; status st;
    memset(&s1, 0, sizeof(s1)); memset(&c1, 0, sizeof(c1)); memset(&d0, 0, sizeof(d0));
    st = S(rbtree_create)(&t, &v_alloc, &cmp_fn, &key_fn, NULL); ASSUME(st == STATUS_SUCCESS); td = (gt*)t; c1.disciplines_by_uuid = t;
    st = S(queue_create)(&qq, &v_alloc); ASSUME(st == STATUS_SUCCESS); q = (gq*)qq; c1.run_queue = qq;
    for (int i = 0; i < 4; ++i) f_init(&f[i]);
    s1.alloc = &v_alloc; s1.context = cx; s1.disciplined = 1; s1.current_fiber = s1.main_fiber = &f[0]; s1.fn = &yield_cb; c1.alloc = &v_alloc; c1.sched = s; d0.alloc = &v_alloc; d0.id = idA; d0.sched = s; td->el[0] = &d0.hdr; td->n = 1;
}
//@ {"uncut":true,"unwind":18,"timeout":300,"props":["C27","C04"],"cuts":{"fiber_scheduler_discipline_add":[["i"]]},"assumes":["fewer than 2^31 requests are registered in a scheduler (request codes are ints)"],"cover":["fiber_scheduler_discipline_add"]}
CASEUNIT(7, disc_add)
static void c_disc_add(unsigned c)
{
    dmk(); A.arr = 0; D.n0 = nd_upto(1 << 20); D.k = nd_upto(1 << 20); D.w = nd_size(); ASSUME(D.n0 >= 1 && D.k >= 1); size_t ow = nd_size(); ASSUME(ow < D.n0);
    c1.callback_vector_size = D.n0; c1.callback_vector = v_new(D.n0 * sizeof(hd_t)); c1.context_vector = v_new(D.n0 * sizeof(void*)); D.oh = nd_bool() ? &h0 : &h1; D.oc = PTR; c1.callback_vector[ow] = D.oh; c1.context_vector[ow] = D.oc; g.watch_on = 1; g.watch = ow;
    dd = NEW(disc_t); dd->alloc = &v_alloc; dd->id = c == 1 ? idA : idB; dd->sched = c == 2 ? s : NULL; dd->context = PTR; dd->callback_vector_size = D.k; dd->callback_vector = v_new(D.k * sizeof(hd_t)); dd->callback_codes = v_new(D.k * sizeof(uint32_t));
    if (D.w < D.k) dd->callback_vector[D.w] = nd_bool() ? &h0 : &h1;
    if (c == 3) s1.disciplined = 0; g.alloc_calls = 0; g.fail_at = c >= 4 ? (int)c - 4 : NONE; sch_t* own = dd->sched; void* dc = dd->context; void* dv = dd->callback_vector; int live0 = g.live; hd_t wh = D.w < D.k ? dd->callback_vector[D.w] : NULL;
    status st = S(fiber_scheduler_discipline_add)(s, dd);
    CHECK("registration: succeeds exactly when the discipline is new, has no owner, and every step does", (st == STATUS_SUCCESS) == (c == 0));
    CHECK("registration: the requests registered before are as they were", c1.callback_vector[ow] == D.oh && c1.context_vector[ow] == D.oc && g.live == live0 && td->el[0] == &d0.hdr);
    if (st) {
        CHECK("registration: the refusal says why", IMPL(c == 1, st == ERROR_FIBER_SCHEDULER_DUPLICATE_DISCIPLINE_ID) && IMPL(c == 2, st == ERROR_FIBER_SCHEDULER_DISCIPLINE_ALREADY_OWNED) && IMPL(c == 3, st == ERROR_FIBER_SCHEDULER_NOT_DISCIPLINED));
        CHECK("registration: a failure leaves the discipline with the caller and the scheduler as it was", c1.callback_vector_size == D.n0 && td->n == 1 && dd->sched == own && dd->callback_vector == dv && dd->context == dc && dd->callback_vector_size == D.k); REACH("refused"); return;
    }
    CHECK("registration: the scheduler owns the discipline, once", td->n == 2 && td->el[1] == &dd->hdr && dd->sched == s && c1.callback_vector_size == D.n0 + D.k);
    if (D.w < D.k) CHECK("registration: each request is dispatched to the handler in the position declared, with the discipline's context", dd->callback_codes[D.w] == D.n0 + D.w && c1.callback_vector[D.n0 + D.w] == wh && c1.context_vector[D.n0 + D.w] == dc);
    REACH("registered");
}
/* 0 there; 1 not there; 2 a plain scheduler */
//@ {"unwind":18,"props":["C27"],"cover":["fiber_scheduler_discipline_find","fiber_scheduler_discipline_context_get"]}
CASEUNIT(3, disc_find)
static void c_disc_find(unsigned c)
{
    dmk(); dd = NEW(disc_t); dd->id = idB; dd->context = PTR; td->el[1] = &dd->hdr; td->n = 2; s1.disciplined = c != 2; disc_t* r = NULL;
    id_t_ want; for (int i = 0; i < 16; ++i) want.data[i] = nd_u8(); if (c == 0) want = idB; else if (c == 1) { ASSUME(memcmp(&want, &idA, 16) && memcmp(&want, &idB, 16)); }
    status st = S(fiber_scheduler_discipline_find)(&r, s, &want);
    CHECK("find: a registered discipline is found by its identity, and no other is", st == (c == 0 ? STATUS_SUCCESS : c == 1 ? ERROR_FIBER_SCHEDULER_DISCIPLINE_NOT_FOUND : ERROR_FIBER_SCHEDULER_NOT_DISCIPLINED) && r == (c == 0 ? dd : NULL));
    if (c == 0) { void* x = S(fiber_scheduler_discipline_context_get)(dd); CHECK("a discipline's context is the one it was created with", x == dd->context); }
    REACH("done");
}
/* any number of requests.  0 in range, answered; 1 in range, refused by the scheduler; 2 out of range */
//@ {"unwind":18,"props":["C27","C26"],"cover":["fiber_discipline_yield"]}
CASEUNIT(3, disc_yield)
static void c_disc_yield(unsigned c)
{
    dmk(); dd = NEW(disc_t); size_t k = nd_upto(1 << 20); int e = nd_int(); dd->callback_vector_size = k; dd->sched = s; ASSUME(k >= 1); dd->callback_codes = v_new(k * sizeof(uint32_t)); uint32_t cd = nd_u32();
    if (c < 2) { ASSUME(e >= 0 && (size_t)e < k); dd->callback_codes[e] = cd; } else ASSUME(e < 0 || (size_t)e >= k);
    if (c == 1) { K.st = nd_int(); ASSUME(K.st != STATUS_SUCCESS); } void* p = PTR; const id_t_* i = NULL; int re = 0; void* rp_ = NULL;
    status st = S(fiber_discipline_yield)(dd, e, p, &i, &re, &rp_);
    if (c == 2) { CHECK("a request outside the declared range is refused with an error, and nothing runs", st == ERROR_FIBER_SCHEDULER_BAD_YIELD_EVENT && K.calls == 0 && K.switches == 0); REACH("refused"); return; }
    CHECK("a request of a discipline reaches the scheduler once, as the code it was registered with, with the caller's parameter", K.calls == 1 && K.ev == (int)cd && K.yp == p && K.yf == &f[0] && K.ctx == s1.context);
    CHECK("the caller is resumed with what its resumer supplied, or gets the scheduler's error", c == 1 ? st == K.st && K.switches == 0 : st == STATUS_SUCCESS && i == K.bid && re == (int)K.bev && rp_ == K.bp); REACH("done");
}
/* any number of requests.  0 well; 1-3 memory; 4-5 memory, and it cannot be returned */
#if defined(STUB_CPY) && !defined(MODE_N)
/* memcpy by its contract; for long copies stated for an arbitrary word */
static const void* cpy_src;
void* memcpy(void* d, const void* x, size_t n)
{
    CHECK("memcpy: source and destination are that long", __CPROVER_r_ok(x, n) && __CPROVER_w_ok(d, n));
    if (x == cpy_src) { CHECK("whole words are copied", n % sizeof(void*) == 0); if (g.watch < n / sizeof(void*)) ((void**)d)[g.watch] = ((void* const*)x)[g.watch]; }
    else for (size_t i = 0; i < n; ++i) ((uint8_t*)d)[i] = ((const uint8_t*)x)[i];
    return d;
}
#define CPY_ON (cpy_src = hv)
#else
#define CPY_ON ((void)0)
#endif
//@ {"unwind":18,"props":["C27","C04"],"defs":["STUB_CPY"],"cover":["fiber_scheduler_discipline_create","fiber_scheduler_discipline_context_get"]}
CASEUNIT(6, disc_create)
static void c_disc_create(unsigned c)
{
    pre(); size_t k = nd_upto(1 << 20), w = nd_size(); ASSUME(k >= 1 && w < k); g.watch = w; hd_t* hv = malloc(k * sizeof(hd_t)); ASSUME(hv != NULL); hd_t hw = nd_bool() ? &h0 : &h1; hv[w] = hw; void* ctx = PTR; disc_t* d = NULL; CPY_ON;
    g.fail_at = c == 0 ? NONE : c <= 3 ? (int)c - 1 : (int)c - 3; g.reclaim_fail_at = c >= 4 ? 0 : NONE; id_t_ id; for (int i = 0; i < 16; ++i) id.data[i] = nd_u8();
    status st = S(fiber_scheduler_discipline_create)(&d, &id, &v_alloc, ctx, k, hv);
    CHECK("discipline create: succeeds exactly when memory is given", (st == STATUS_SUCCESS) == (c == 0));
    if (st) { CHECK("discipline create: a failure keeps nothing", g.live == 0 && d == NULL); free(hv); REACH("refused"); return; }
    hv[w] = NULL; free(hv);
    CHECK("discipline create: a discipline of its own, with these handlers in this order and this context, not yet registered", d->callback_vector[w] == hw && d->callback_vector_size == k && S(fiber_scheduler_discipline_context_get)(d) == ctx && d->sched == NULL && memcmp(&d->id, &id, 16) == 0 && g.live == 3 && d->alloc == &v_alloc);
    CHECK("the handle of a discipline is its own", S(fiber_scheduler_discipline_resource_handle)(d) == &d->hdr); REACH("created");
}
/* 0 well; 1-3 the n-th return of memory fails */
//@ {"unwind":18,"props":["C05","C03"],"cover":["fiber_scheduler_discipline_create"]}
CASEUNIT(4, disc_release)
static void c_disc_release(unsigned c)
{
    pre(); hd_t hv[2] = { &h0, &h1 }; disc_t* d = NULL; status st = S(fiber_scheduler_discipline_create)(&d, &idA, &v_alloc, NULL, 2, hv); ASSUME(st == STATUS_SUCCESS);
    g.reclaim_fail_at = (int)c - 1; st = S(resource_release)(S(fiber_scheduler_discipline_resource_handle)(d));
    CHECK("discipline release: everything it owns is given back once, and failures are reported", g.live == 0 && g.reclaims == 3 && (st == STATUS_SUCCESS) == (c == 0)); REACH("done");
}
UNITS(U(dispatch) U(run) U(queueing) U(add) U(stop) U(quiesce) U(terminate) U(quiesce_all) U(terminate_all) U(mgmt_wait) U(released) U(getters) U(remove) U(send_q) U(send_t) U(send_qa) U(send_ta) U(recv_m) U(create) U(release) U(disc_add) U(disc_find) U(disc_yield) U(disc_create) U(disc_release))
