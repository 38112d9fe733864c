/* Contracts of condition barriers.  Handlers are reached as the scheduler
 * reaches them, by their position in the registered discipline. */
#define STUB_SLIST
#include "common.h"
#include <rcpr/condition.h>
#include <rcpr/fiber/disciplines/condition.h>
#include "condition/condition_internal.h"
#include "disc.h"
typedef S(condition_barrier) cb_t; typedef S(condition_discipline_context) cx_t; typedef S(conditional) cd_t;
#define ID (&FIBER_SCHEDULER_CONDITION_DISCIPLINE)
static cx_t* cx; static cb_t* cb[2]; static gq* wq[2]; static gt* bt;
static status req(int e, fib_t* y, void* p) { return dd->callback_vector[e](dd->context, y, e, p); }
static void mkd(void)
{
    pre(); E.want = ID; status st = S(condition_discipline_get_or_create)(&dd, &v_alloc, s); ASSUME(st == STATUS_SUCCESS);
    cx = (cx_t*)dd->context; bt = G.t[0]; cx->index = nd_u64(); ASSUME(cx->index < UINT64_MAX); others(); zero();
}
static void mkbar(int i, cd_t a)
{
    cb_t* m = NULL; status st = S(condition_barrier_create)(&m, &v_alloc, a); ASSUME(st == STATUS_SUCCESS);
    wq[i] = G.q[i + 1]; bt->el[bt->n++] = &m->hdr; cb[i] = m;
}
static void waits(int i, fib_t* x) { wq[i]->el[wq[i]->hi++] = &x->hdr; }
/* two open barriers of arbitrary different handles among those given out so far; f[3] waits at barrier 0 */
static void mk(void)
{
    mkd(); cd_t a = nd_u64(), b = nd_u64(); ASSUME(a >= 1 && a <= cx->index && b >= 1 && b <= cx->index && a != b);
    mkbar(0, a); mkbar(1, b); waits(0, &f[3]); zero(); G.known = 1; G.at = 1;
}
#define NWAIT(i) ((size_t)(wq[i]->hi - wq[i]->lo) + wq[i]->rest)
#define OTHERBAR (bt->n >= 1 && bt->el[0] == &cb[0]->hdr && ASLEEP(&f[3]) && wq[0]->live && NWAIT(0) == 1 && wq[0]->el[wq[0]->lo] == &f[3].hdr)
static cd_t unknown(void) { cd_t u = nd_u64(); ASSUME(u != cb[0]->cond && u != cb[1]->cond); G.at = -1; return u; }
static cd_t which(_Bool u) { return u ? unknown() : cb[1]->cond; }

/* 0 it exists; 1 created; 2-7 the n-th step refused */
//@ {"unwind":18,"props":["C29","C04","C05","C27"],"cover":["condition_discipline_get_or_create","condition_discipline_context_create","condition_discipline_set_resource_release"]}
CASEUNIT(8, goc)
static void c_goc(unsigned c)
{
    pre(); E.want = ID; disc_t ex; if (c == 0) E.existing = &ex; g.fail_at = c >= 2 ? (int)c - 2 : NONE; disc_t* d = NULL;
    status st = S(condition_discipline_get_or_create)(&d, &v_alloc, s);
    if (c == 0) { CHECK("the condition discipline of a scheduler that has one is that one", st == STATUS_SUCCESS && d == &ex && g.live == 0 && E.adds == 0); REACH("found"); return; }
    CHECK("condition discipline: created exactly when every step succeeds", (st == STATUS_SUCCESS) == (g.oom == 0));
    if (st) { CHECK("condition discipline: a failure keeps nothing and hands out nothing", g.live == 0 && d == NULL && E.added == NULL); REACH("refused"); return; }
    CHECK("condition discipline: created once and registered, with no barrier", E.added == d && d->sched == s && d->callback_vector_size == 5 && G.nt == 1 && G.t[0]->n == 0 && G.t[0]->live && g.live == 5);
    st = S(resource_release)(S(fiber_scheduler_discipline_resource_handle)(d));
    CHECK("[C05,C29] condition discipline release: everything it owns is given back once", st == STATUS_SUCCESS && g.live == 0); REACH("created");
}
/* the release of a barrier empties its wait list, whatever its length, without releasing the fibers */
static struct { int arr, k, oom0; size_t r0; int wake; unsigned c; } A;
static struct { int arr; size_t r0; } R;
_Bool v_cut_condition_barrier_release_0(void* vst)
{
    gq* w = wq[A.k]; status* st = vst;
    if (R.arr++ == 0) { CHECK("ATTACH barrier release: starts well", *st == STATUS_SUCCESS); w->lo = w->hi = w->restpos = QN; w->rest = nd_size(); ASSUME(w->rest <= SIZE_MAX / 2); w->restel = &f[3].hdr; R.r0 = w->rest; }
    else { CHECK("ATTACH barrier release: no error", *st == STATUS_SUCCESS); CHECK("barrier release: a waiting fiber is let go without being released", NWAIT(A.k) + 1 == R.r0); REACH("round"); ASSUME(0); }
    return 1;
}
/* 0 well; 1-2 the n-th return of memory fails; 3-4 no memory at creation; 5 no waiter and no cut */
//@ {"uncut":true,"unwind":18,"props":["C29","C04","C05","C03"],"cuts":{"src/condition/condition_barrier_create.c:condition_barrier_release":[["cleanup_retval"]]},"cover":["condition_barrier_create"]}
CASEUNIT(5, barrier)
static void c_barrier(unsigned c)
{
    pre(); R.arr = 0; A.k = 0; cb_t* m = NULL; g.fail_at = c >= 3 ? (int)c - 3 : NONE; cd_t a = nd_u64();
    status st = S(condition_barrier_create)(&m, &v_alloc, a);
    if (c >= 3) { CHECK("barrier: a failed creation keeps nothing", st != STATUS_SUCCESS && g.live == 0 && m == NULL); REACH("refused"); return; }
    CHECK("barrier: created with nobody waiting", st == STATUS_SUCCESS && m->cond == a && g.live == 2 && m->wait_list == (S(slist)*)G.q[1] && G.q[1]->lo == G.q[1]->hi);
    wq[0] = G.q[1]; waits(0, &f[1]); waits(0, &f[2]);
    zero(); g.reclaim_fail_at = (int)c - 1; st = S(resource_release)(&m->hdr);
    CHECK("barrier release: all it owns is given back once, no fiber is released, and failures are reported", g.live == 0 && g.reclaims == 2 && (st == STATUS_SUCCESS) == (c == 0)); REACH("done");
}
/* 0 well; 1-9 the n-th return of memory fails */
//@ {"unwind":18,"props":["C05","C03","C29"],"cover":["condition_discipline_set_resource_release","condition_discipline_context_create","condition_barrier_create"]}
CASEUNIT(10, disc_release)
static void c_disc_release(unsigned c)
{
    mk(); waits(1, &f[1]); zero(); g.reclaim_fail_at = (int)c - 1;
    status st = S(resource_release)(S(fiber_scheduler_discipline_resource_handle)(dd));
    CHECK("condition discipline release: every barrier is released once, and no fiber", g.live == 0 && g.reclaims == 9 && ASLEEP(&f[1]) && ASLEEP(&f[3]));
    CHECK("condition discipline release: failures are reported", (st == STATUS_SUCCESS) == (c == 0)); REACH("done");
}
/* 0 well; 1-3 memory; 4 the requester cannot be queued */
//@ {"unwind":18,"props":["C29","C04"],"assumes":["fewer than 2^64 barriers are ever created"],"cover":["condition_discipline_create_callback_handler","condition_barrier_create"]}
CASEUNIT(5, create)
static void c_create(unsigned c)
{
    mk(); int live0 = g.live; g.fail_at = c == 0 ? NONE : (int)c - 1; cd_t i0 = cx->index;
    status st = req(FIBER_SCHEDULER_CONDITION_YIELD_EVENT_CREATE, &f[0], PTR);
    if (c == 4) { CHECK("barrier create: a scheduling failure is reported", st != STATUS_SUCCESS && NOBODY); REACH("unscheduled"); return; }
    CHECK("barrier create: the requester goes on next, and nobody else is resumed", st == STATUS_SUCCESS && FIRST(&f[0]) && OTHERBAR && bt->el[1] == &cb[1]->hdr);
    if (c) { CHECK("barrier create: a failure is reported, creates no barrier and keeps nothing", SETST(&f[0], ID, FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CREATE_FAILURE, ERROR_GENERAL_OUT_OF_MEMORY) && g.live == live0 && bt->n == 2); REACH("refused"); return; }
    cd_t a = (cd_t)f[0].restore_param;
    CHECK("barrier create: a new barrier with nobody waiting exists under the handle given to the requester", SET(&f[0], ID, FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CREATE_SUCCESS, (void*)a) && bt->n == 3 && ((cb_t*)bt->el[2])->cond == a && G.nq == 4 && g.live == live0 + 2);
    CHECK("barrier create: the handle is that of no existing barrier, nor one to be given out later", a != cb[0]->cond && a != cb[1]->cond && a <= cx->index && a != 0 && cx->index > i0); REACH("created");
}
/* 0 unknown; 1 any number wait already; 2 no memory; 3 no memory, and it cannot be queued; 4 unknown, it cannot be queued */
//@ {"unwind":18,"props":["C29"],"cover":["condition_discipline_wait_callback_handler"]}
CASEUNIT(5, wait)
static void c_wait(unsigned c)
{
    mk(); size_t r0 = nd_size(); ASSUME(r0 <= SIZE_MAX / 2); wq[1]->rest = r0; wq[1]->restel = &f[1].hdr; cd_t a = which(c == 0 || c == 4); g.fail_at = c == 2 || c == 4 ? 0 : c == 3 ? ANY : NONE; int live0 = g.live;
    status st = req(FIBER_SCHEDULER_CONDITION_YIELD_EVENT_COND_WAIT, &f[0], (void*)a);
    CHECK("wait: nobody else is touched", OTHERBAR && bt->n == 2 && ASLEEP(&f[1]) && ASLEEP(&f[2]) && g.live == live0 && wq[1]->rest == r0 && QTAIL(0));
    if (c == 3 && g.oom < 2) { REACH("less"); return; }
    if (c >= 3) { CHECK("wait: a scheduling failure is reported", st != STATUS_SUCCESS && NOBODY && NWAIT(1) == r0); REACH("unscheduled"); return; }
    CHECK("wait: succeeds", st == STATUS_SUCCESS);
    if (c == 1) { CHECK("wait: the fiber waits, behind all that wait already, and does not run", NOBODY && ASLEEP(&f[0]) && wq[1]->restpos == wq[1]->lo && NWAIT(1) == r0 + 1 && wq[1]->el[wq[1]->lo] == &f[0].hdr); REACH("waits"); return; }
    CHECK("wait: a failure is reported to the fiber, which does not wait", FIRST(&f[0]) && SETST(&f[0], ID, FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_FAILURE, c ? ERROR_GENERAL_OUT_OF_MEMORY : ERROR_RBTREE_NOT_FOUND) && NWAIT(1) == r0); REACH("failed");
}
#define TAILIS(k, x) (q->el[q->restpos + (k)] == &(x)->hdr && (x)->queued)
/* 0 unknown; 1 nobody waits; 2 any number wait; 3 the waiter cannot be queued; 4 nobody waits, the notifier cannot be queued; 5 the waiter is, the notifier cannot be queued; 6 unknown, the notifier cannot be queued */
//@ {"unwind":18,"props":["C29"],"cover":["condition_discipline_notify_one_callback_handler"]}
CASEUNIT(7, notify_one)
static void c_notify_one(unsigned c)
{
    mk(); _Bool some = c == 2 || c == 3 || c == 5; size_t r0 = 0; if (some) { r0 = nd_size(); ASSUME(r0 >= 1 && r0 <= SIZE_MAX / 2); wq[1]->rest = r0; wq[1]->restel = &f[1].hdr; }
    cd_t a = which(c == 0 || c == 6); g.fail_at = c == 3 || c == 4 || c == 6 ? 0 : c == 5 ? 1 : NONE; int live0 = g.live;
    status st = req(FIBER_SCHEDULER_CONDITION_YIELD_EVENT_NOTIFY_ONE, &f[0], (void*)a);
    CHECK("notify one: nobody else is touched", OTHERBAR && bt->n == 2 && ASLEEP(&f[2]) && g.live == live0 && wq[1]->lo == wq[1]->hi);
    if (c == 2 || c == 5) CHECK("notify one: the fiber that waited longest, and no other, is resumed once and waits no longer", f[1].queued && SETST(&f[1], ID, FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_SUCCESS, STATUS_SUCCESS) && NWAIT(1) == r0 - 1 && (TAILIS(0, &f[1]) || q->el[q->lo] == &f[1].hdr));
    else CHECK("notify one: nobody is woken", !f[1].queued && NWAIT(1) == r0);
    if (c >= 4) { CHECK("notify one: a scheduling failure is reported", st != STATUS_SUCCESS && !f[0].queued && q->hi - q->lo == (c == 5 ? 1 : 0)); REACH("unscheduled"); return; }
    CHECK("notify one: the notifier goes on, once, and the outcome is reported", st == STATUS_SUCCESS && f[0].queued && q->hi - q->lo == (c == 2 ? 2 : 1) && SETST(&f[0], ID, c == 1 || c == 2 ? FIBER_SCHEDULER_CONDITION_RESUME_EVENT_NOTIFY_SUCCESS : FIBER_SCHEDULER_CONDITION_RESUME_EVENT_NOTIFY_FAILURE, c == 0 ? ERROR_RBTREE_NOT_FOUND : c == 3 ? ERROR_GENERAL_OUT_OF_MEMORY : STATUS_SUCCESS)); REACH("notified");
}
/* Waking all: an arbitrary waiter of arbitrarily many (the loop cut at its head).
 * A.c: 0 a round; 1 a waiter cannot be queued; 2 the end */
static _Bool wake_cut(void* vst)
{
    status* st = vst; gq* w = wq[1];
    if (A.arr++ == 0) {
        CHECK("ATTACH wake all: starts well", *st == STATUS_SUCCESS);
        w->lo = w->hi = w->restpos = QN; w->rest = nd_size(); ASSUME(A.c < 2 ? w->rest >= 1 && w->rest <= SIZE_MAX / 2 : w->rest == 0); w->restel = &f[1].hdr; A.r0 = w->rest; f_init(&f[1]); f_init(&f[2]); q->lo = q->hi = q->restpos = QN; g.alloc_calls = 0; A.oom0 = g.oom;
    } else {
        CHECK("ATTACH wake all: goes on only without an error", *st == STATUS_SUCCESS);
        CHECK("wake all: when a fiber cannot be resumed, that is not passed over", A.c != 1 && g.oom == A.oom0);
        CHECK("wake all: every waiting fiber is resumed once, as told, in the order they came, and waits no longer", f[1].queued && QTAIL(1) && QHEAD(0) && TAILIS(0, &f[1]) && NWAIT(1) == A.r0 - 1 && w->lo == w->hi && SETST(&f[1], ID, A.wake, A.wake == FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_SUCCESS ? STATUS_SUCCESS : ERROR_CONDITION_UNKNOWN_ERROR) && w->live);
        CHECK("wake all: nobody else is touched, and nothing is released", OTHERBAR && ASLEEP(&f[2]) && bt->n == 2 && !f[0].queued);
        REACH("round"); ASSUME(0);
    }
    return 1;
}
_Bool v_cut_condition_discipline_notify_all_callback_handler_0(void* st) { return wake_cut(st); }
_Bool v_cut_condition_discipline_close_callback_handler_0(void* st) { return wake_cut(st); }
/* 0-2 as above; 3 unknown; 4 the notifier cannot be queued at the end; 5 unknown, nor can it be queued; 6 the waiter cannot be queued, nor the notifier */
//@ {"uncut":true,"unwind":18,"props":["C29"],"cuts":{"condition_discipline_notify_all_callback_handler":[["retval"]]},"cover":["condition_discipline_notify_all_callback_handler"]}
CASEUNIT(7, notify_all)
static void c_notify_all(unsigned c)
{
    mk(); A.arr = 0; A.k = 1; A.c = c == 4 ? 2 : c == 6 ? 0 : c; A.wake = FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_SUCCESS; _Bool unk = c == 3 || c == 5; cd_t a = which(unk); _Bool some = A.c < 2; int live0 = g.live;
    waits(1, &f[1]); waits(1, &f[2]); if (!some && !unk) { wq[1]->lo = wq[1]->hi = QN; } g.fail_at = c == 1 || c == 4 || c == 5 ? 0 : c == 6 ? ANY : NONE;
    status st = req(FIBER_SCHEDULER_CONDITION_YIELD_EVENT_NOTIFY_ALL, &f[0], (void*)a);
    CHECK("notify all: nobody else is touched, and nothing is released", OTHERBAR && bt->n == 2 && g.live == live0 && wq[1]->live);
    if (c == 6) { CHECK("notify all: a failure is reported", st == STATUS_SUCCESS ? f[0].queued && IMPL(g.oom > 0, (int)f[0].restore_reason_code == FIBER_SCHEDULER_CONDITION_RESUME_EVENT_NOTIFY_FAILURE) : !f[0].queued && g.oom > 0); REACH("failed"); return; }
    if (c >= 4) { CHECK("notify all: a scheduling failure is reported", st != STATUS_SUCCESS && NOBODY); REACH("unscheduled"); return; }
    CHECK("notify all: the notifier goes on, once", st == STATUS_SUCCESS && f[0].queued);
    if (c == 1) { CHECK("notify all: when a waiting fiber cannot be resumed it goes on waiting, first in line, and the notifier gets the error", !f[1].queued && !f[2].queued && q->hi - q->lo == 1 && SETST(&f[0], ID, FIBER_SCHEDULER_CONDITION_RESUME_EVENT_NOTIFY_FAILURE, ERROR_GENERAL_OUT_OF_MEMORY) && NWAIT(1) == (A.arr ? A.r0 : 2)); REACH("failed"); return; }
    if (c == 3) { CHECK("notify all: an unknown barrier is an error, and wakes nobody", q->hi - q->lo == 1 && ASLEEP(&f[1]) && NWAIT(1) == 2 && SETST(&f[0], ID, FIBER_SCHEDULER_CONDITION_RESUME_EVENT_NOTIFY_FAILURE, ERROR_RBTREE_NOT_FOUND)); REACH("unknown"); return; }
    CHECK("notify all: succeeds with everyone woken, once each", NWAIT(1) == 0 && SETST(&f[0], ID, FIBER_SCHEDULER_CONDITION_RESUME_EVENT_NOTIFY_SUCCESS, STATUS_SUCCESS) && q->hi - q->lo == (some ? 3 : 1) && f[1].queued == some && f[2].queued == some && IMPL(some, SETST(&f[1], ID, A.wake, STATUS_SUCCESS) && SETST(&f[2], ID, A.wake, STATUS_SUCCESS))); 
    if (c == 2) REACH("end");
}
/* as above, closing; 6 its memory cannot be returned */
//@ {"uncut":true,"unwind":18,"props":["C29","C05"],"cuts":{"condition_discipline_close_callback_handler":[["retval"]],"src/condition/condition_barrier_create.c:condition_barrier_release":[["cleanup_retval"]]},"cover":["condition_discipline_close_callback_handler"]}
CASEUNIT(7, close)
static void c_close(unsigned c)
{
    mk(); A.arr = R.arr = 0; A.k = 1; A.c = c == 4 || c == 6 ? 2 : c; A.wake = FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_FAILURE; _Bool unk = c == 3 || c == 5; cd_t a = which(unk); _Bool some = A.c < 2; zero(); int live0 = g.live;
    waits(1, &f[1]); waits(1, &f[2]); if (!some && !unk) { wq[1]->lo = wq[1]->hi = QN; } g.fail_at = c == 1 || c == 4 || c == 5 ? 0 : NONE; if (c == 6) g.reclaim_fail_at = 0;
    status st = req(FIBER_SCHEDULER_CONDITION_YIELD_EVENT_CLOSE, &f[0], (void*)a);
    CHECK("close: no other barrier is touched", OTHERBAR);
    if (c == 1) { CHECK("close: when a waiting fiber cannot be resumed it goes on waiting, the barrier stays, and the error is reported", st == STATUS_SUCCESS && FIRST(&f[0]) && !f[1].queued && !f[2].queued && SETST(&f[0], ID, FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CLOSE_FAILURE, ERROR_GENERAL_OUT_OF_MEMORY) && bt->n == 2 && g.live == live0 && NWAIT(1) == (A.arr ? A.r0 : 2)); REACH("stays"); return; }
    if (unk) {
        CHECK("close: an unknown barrier is an error, and nothing is closed", bt->n == 2 && g.live == live0 && ASLEEP(&f[1]) && NWAIT(1) == 2);
        if (c == 5) CHECK("close: a scheduling failure is reported", st != STATUS_SUCCESS && NOBODY);
        else CHECK("close: the error is reported to the requester", st == STATUS_SUCCESS && FIRST(&f[0]) && SETST(&f[0], ID, FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CLOSE_FAILURE, ERROR_RBTREE_NOT_FOUND));
        REACH("unknown"); return;
    }
    CHECK("close: the barrier is gone, and all it owned is given back once", bt->n == 1 && g.live == live0 - 2 && g.reclaims == 2);
    if (c == 4) { CHECK("close: a scheduling failure is reported", st != STATUS_SUCCESS && NOBODY); REACH("unscheduled"); return; }
    CHECK("close: the requester goes on next with the outcome", st == STATUS_SUCCESS && HEADIS(&f[0]) && (int)f[0].restore_reason_code == (c == 6 ? FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CLOSE_FAILURE : FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CLOSE_SUCCESS) && is(f[0].restore_discipline_id, ID) && (status)(intptr_t)f[0].restore_param == (c == 6 ? 1234 : STATUS_SUCCESS));
    CHECK("close: everyone who waited is woken with an error, once", QTAIL(some ? 2 : 0) && f[1].queued == some && f[2].queued == some && IMPL(some, SETST(&f[1], ID, A.wake, ERROR_CONDITION_UNKNOWN_ERROR) && SETST(&f[2], ID, A.wake, ERROR_CONDITION_UNKNOWN_ERROR)));
    if (c == 2 || c == 6) REACH("end");
}
//@ {"unwind":18,"props":["C29"],"cover":["condition_discipline_context_create"]}
void H_order(void)
{
    mk(); const void* k0 = bt->key(bt->ctx, &cb[0]->hdr); const void* k1 = bt->key(bt->ctx, &cb[1]->hdr); S(rcpr_comparison_result) r = bt->cmp(bt->ctx, k0, k1);
    CHECK("barriers are ordered by handle", r == (cb[0]->cond < cb[1]->cond ? RCPR_COMPARE_LT : RCPR_COMPARE_GT) && bt->cmp(bt->ctx, k1, k1) == RCPR_COMPARE_EQ && bt->cmp(bt->ctx, &cb[1]->cond, k0) == (cb[0]->cond < cb[1]->cond ? RCPR_COMPARE_GT : RCPR_COMPARE_LT)); REACH("done");
}
#define NOT(a) ASSUME(E.rev != FIBER_SCHEDULER_CONDITION_RESUME_EVENT_##a)
#define AS(a) (E.rev = FIBER_SCHEDULER_CONDITION_RESUME_EVENT_##a)
#define REPLY(a) answer(c); if (c == 1) { NOT(a##_SUCCESS); NOT(a##_FAILURE); } else if (c == 2) { AS(a##_SUCCESS); E.rp = (void*)STATUS_SUCCESS; } else if (c == 3) { AS(a##_FAILURE); ASSUME((status)(intptr_t)E.rp != STATUS_SUCCESS); }
#define OUTCOME (c == 0 ? E.yst : c == 1 ? ERROR_CONDITION_UNKNOWN_ERROR : c == 2 ? STATUS_SUCCESS : (status)(intptr_t)E.rp)
//@ {"unwind":18,"props":["C29"],"cover":["conditional_create"]}
CASEUNIT(4, f_create)
static void c_f_create(unsigned c)
{
    REPLY(CREATE); if (c == 2) E.rp = PTR; cd_t a0 = nd_u64(), a = a0; status st = S(conditional_create)(&a, dd);
    CHECK("a barrier is asked for once", E.yields == 1 && E.yd == dd && E.ye == FIBER_SCHEDULER_CONDITION_YIELD_EVENT_CREATE);
    CHECK("barrier create: the caller gets the handle, or the error", st == OUTCOME && a == (c == 2 ? (cd_t)E.rp : a0)); REACH("done");
}
#define FRONT(fn, ev, ans) REPLY(ans); cd_t a = nd_u64(); status st = S(fn)(a, dd); \
    CHECK(#fn " is asked for once, by the handle of the barrier", ASKED(FIBER_SCHEDULER_CONDITION_YIELD_EVENT_##ev, a)); \
    CHECK(#fn ": the caller gets the outcome", st == OUTCOME); REACH("done");
//@ {"unwind":18,"props":["C29"],"cover":["conditional_close"]}
CASEUNIT(4, f_close)
static void c_f_close(unsigned c) { FRONT(conditional_close, CLOSE, CLOSE) }
//@ {"unwind":18,"props":["C29"],"cover":["conditional_wait"]}
CASEUNIT(4, f_wait)
static void c_f_wait(unsigned c) { FRONT(conditional_wait, COND_WAIT, WAIT) }
//@ {"unwind":18,"props":["C29"],"cover":["conditional_notify_one"]}
CASEUNIT(4, f_notify_one)
static void c_f_notify_one(unsigned c) { FRONT(conditional_notify_one, NOTIFY_ONE, NOTIFY) }
//@ {"unwind":18,"props":["C29"],"cover":["conditional_notify_all"]}
CASEUNIT(4, f_notify_all)
static void c_f_notify_all(unsigned c) { FRONT(conditional_notify_all, NOTIFY_ALL, NOTIFY) }
UNITS(U(goc) U(barrier) U(disc_release) U(create) U(wait) U(notify_one) U(notify_all) U(close) U(order) U(f_create) U(f_close) U(f_wait) U(f_notify_one) U(f_notify_all))
