/* Contracts of fibers and of the basic fiber scheduler.  The context switch
 * itself (assembly) is a stand-in that obeys its contract: it hands the given
 * restore values to the fiber it switches to, other fibers run, and it returns
 * once some switch selects the suspended fiber again. */
#include "common.h"
#include <rcpr/fiber.h>
#include <rcpr/stack.h>
#include "fiber/common/fiber_internal.h"
#include "stack/stack_internal.h"
typedef S(fiber) fib_t; typedef S(fiber_scheduler) sch_t; typedef S(rcpr_uuid) id_t_;
#define PTR ((void*)(uintptr_t)nd_u64())
static struct {
    int calls, fail_call; status fail_st;           /* scheduler callback: which call fails, and how */
    int ev[3]; void* ctx[3]; fib_t* yf[3]; void* yp[3];
    fib_t* resume; const id_t_* id; int rev; void* rp; int order;  /* what the callback asks for */
    fib_t* back_fib; const id_t_* bid; uint64_t bev; void* bp;      /* how the suspended fiber is resumed */
    int switches; fib_t* prev; fib_t* next; sch_t* sc;
    fib_t* add; sch_t* addsc;
    int ran; void* fctx; status code; fib_t* self;
    S(fiber_entry_fn) me; int made; fib_t* mfib; sch_t* msch; void* msp; size_t mreg; int entered;
    int maps, unmaps, map_fail, unmap_fail; void* region; size_t rsz;
    int relrel, freed_before;
    int un; status ust; void* uctx; fib_t* ufib; const id_t_* uid; int uev; void* up; const id_t_* uxid; int uxev;
    fib_t* mainf; int main_mode;
} K;
static id_t_ idA, idB;
static void k_init(void)
{
    v_init(NONE, NONE);
    K.calls = 0; K.fail_call = -1; K.fail_st = nd_int(); ASSUME(K.fail_st != STATUS_SUCCESS);
    for (int i = 0; i < 3; ++i) { K.ev[i] = 0; K.ctx[i] = NULL; K.yf[i] = NULL; K.yp[i] = NULL; }
    K.resume = NULL; K.id = nd_bool() ? &idA : &idB; K.rev = nd_int(); K.rp = PTR; K.order = 0; K.back_fib = NULL; K.bid = nd_bool() ? &idA : &idB; K.bev = nd_u32() & 0x7fffffff; K.bp = PTR;
    K.switches = 0; K.prev = K.next = NULL; K.sc = NULL; K.add = NULL; K.addsc = NULL; K.ran = 0; K.fctx = PTR; K.code = nd_int(); K.self = NULL;
    K.me = NULL; K.made = 0; K.mfib = NULL; K.msch = NULL; K.msp = NULL; K.mreg = 0; K.entered = 0; K.maps = K.unmaps = K.map_fail = K.unmap_fail = 0; K.region = NULL; K.rsz = 0; K.relrel = K.freed_before = 0;
    K.un = 0; K.ust = nd_int(); K.uctx = PTR; K.ufib = NULL; K.uid = NULL; K.uev = 0; K.up = NULL; K.uxid = NULL; K.uxev = 0; K.mainf = NULL; K.main_mode = -1;
}
static int SWITCHED;
void S(fiber_switch)(fib_t* prev, fib_t* next, const id_t_* disc, int64_t event, void* param)
{
    CHECK("a switch happens once per yield, after the scheduler chose", K.switches == 0 && K.calls == 1);
    CHECK("the yielding fiber is the one suspended", prev == K.yf[0]);
    CHECK("control goes to the fiber the scheduler chose, with the discipline, reason and parameter it chose", next == K.resume && disc == K.id && event == K.rev && param == K.rp);
    CHECK("the fiber the scheduler chose is the current one when it runs", K.sc->current_fiber == next);
    ++K.switches; K.prev = prev; K.next = next;
    next->restore_discipline_id = disc; next->restore_reason_code = (uint64_t)event; next->restore_param = param;
    if (next != prev) {     /* others run; later the suspended fiber is chosen again */
        prev->restore_discipline_id = K.bid; prev->restore_reason_code = K.bev; prev->restore_param = K.bp; K.sc->current_fiber = prev;
    } else { K.bid = disc; K.bev = (uint64_t)event; K.bp = param; }
}
void S(fiber_make)(fib_t* f, sch_t* s, S(fiber_entry_fn) e)
{
    CHECK("a new fiber starts at the common entry point, on its own stack, for its scheduler", f->st != NULL && f->stack_ptr == (uint8_t*)f->st->region + f->st->size);
    ++K.made; K.me = e; K.mfib = f; K.msch = s; f->stack_ptr = (uint8_t*)f->stack_ptr - 64;
}
static status cb(void* ctx, fib_t* yf, int ev, void* yp, fib_t** rf, const id_t_** rid, int* rev, void** rp)
{
    int i = K.calls++; if (i < 3) { K.ctx[i] = ctx; K.yf[i] = yf; K.ev[i] = ev; K.yp[i] = yp; }
    CHECK("[C26] a fiber is stopped when the scheduler is told so, and the scheduler is given its exit status", IMPL(K.self && ev == FIBER_SCHEDULER_YIELD_EVENT_STOP, K.ran == 1 && K.self->fiber_state == FIBER_STATE_STOPPED && *(status*)yp == K.code));
    CHECK("[C26] a fiber being added already belongs to the scheduler", IMPL(K.add && ev == FIBER_SCHEDULER_YIELD_EVENT_ADD_FIBER, yp == K.add && K.add->sched == K.addsc));
    if (i == K.fail_call) return K.fail_st;
    if (K.main_mode >= 0) {
        if (ev != FIBER_SCHEDULER_YIELD_EVENT_MAIN) return STATUS_SUCCESS;
        K.mainf = yf; *rf = K.main_mode == 1 ? NULL : yf; *rid = K.id; *rev = K.main_mode == 2 ? FIBER_SCHEDULER_RESUME_EVENT_RUN : FIBER_SCHEDULER_RESUME_EVENT_MAIN; *rp = NULL; return STATUS_SUCCESS;
    }
    *rf = K.resume; *rid = K.id; *rev = K.rev; *rp = K.rp;
    return STATUS_SUCCESS;
}
static void fib_init(fib_t* f, sch_t* s)
{
    f->stack_ptr = NULL; f->alloc = &v_alloc; f->st = NULL; f->context = K.fctx; f->fn = NULL; f->unexpected_fn = NULL; f->unexpected_context = NULL;
    f->restore_discipline_id = nd_bool() ? &idA : &idB; f->restore_reason_code = nd_u32(); f->restore_param = PTR; f->fiber_state = nd_u64(); f->sched = s;
}
static sch_t sc; static fib_t cur, oth, nw;
static void mk(void)
{
    k_init(); K.sc = &sc; sc.alloc = &v_alloc; sc.current_fiber = &cur; sc.main_fiber = &cur; sc.context = PTR; sc.fn = &cb; sc.disciplined = nd_bool();
    fib_init(&cur, &sc); fib_init(&oth, &sc); fib_init(&nw, NULL);
}
/* cases: 0 the scheduler refuses, 1 it switches to another fiber, 2 it resumes the same fiber */
//@ {"props":["C26"],"cover":["fiber_scheduler_yield"]}
CASEUNIT(3, yield)
static void c_yield(unsigned c)
{
    mk(); K.resume = c == 2 ? &cur : &oth; K.fail_call = c == 0 ? 0 : -1; void* ctx = sc.context; int ev = nd_int(); void* yp = PTR;
    const id_t_* id = NULL; int rev = 0; void* rp = NULL;
    status st = S(fiber_scheduler_yield)(&sc, ev, yp, &id, &rev, &rp);
    CHECK("a yield reaches the scheduler's callback once, with its context, the yielding fiber, its reason and its parameter", K.calls == 1 && K.ctx[0] == ctx && K.yf[0] == &cur && K.ev[0] == ev && K.yp[0] == yp);
    CHECK("an error from the scheduler is reported to the yielding fiber", st == (c == 0 ? K.fail_st : STATUS_SUCCESS));
    if (c == 0) { CHECK("an error from the scheduler leaves the fiber running", K.switches == 0 && sc.current_fiber == &cur); REACH("refused"); }
    else { CHECK("a yield resumes with exactly the restore reason and parameter its resumer supplied", K.switches == 1 && sc.current_fiber == &cur && id == K.bid && rev == (int)K.bev && rp == K.bp); REACH("resumed"); }
}
//@ {"props":["C26"],"cover":["fiber_scheduler_run"]}
CASEUNIT(3, run)
static void c_run(unsigned c)
{
    mk(); K.resume = c == 2 ? &cur : &oth; K.fail_call = c == 0 ? 0 : -1;
    status st = S(fiber_scheduler_run)(&sc);
    CHECK("running the scheduler yields once with the run request", K.calls == 1 && K.yf[0] == &cur && K.ev[0] == FIBER_SCHEDULER_YIELD_EVENT_RUN && K.ctx[0] == sc.context);
    CHECK("an error from the scheduler is reported to its caller", st == (c == 0 ? K.fail_st : STATUS_SUCCESS) && K.switches == (c != 0) && sc.current_fiber == &cur); REACH("done");
}
//@ {"props":["C26"],"cover":["fiber_scheduler_add","fiber_scheduler_from_fiber_get"]}
CASEUNIT(3, add)
static void c_add(unsigned c)
{
    mk(); K.resume = c == 2 ? &cur : &nw; K.fail_call = c == 0 ? 0 : -1; K.add = &nw; K.addsc = &sc;
    status st = S(fiber_scheduler_add)(&sc, &nw);
    CHECK("adding a fiber hands it to the scheduler once, with the add request", K.calls == 1 && K.yf[0] == &cur && K.ev[0] == FIBER_SCHEDULER_YIELD_EVENT_ADD_FIBER && K.yp[0] == &nw && K.ctx[0] == sc.context);
    CHECK("an error from the scheduler is reported to its caller", st == (c == 0 ? K.fail_st : STATUS_SUCCESS) && K.switches == (c != 0) && sc.current_fiber == &cur);
    if (c) CHECK("a fiber that was added belongs to the scheduler", S(fiber_scheduler_from_fiber_get)(&nw) == &sc);
    REACH("done");
}
static status body(void* c)
{
    CHECK("a fiber runs its own function, with its own context, once, and is then running", c == K.fctx && K.ran == 0 && K.self->fiber_state == FIBER_STATE_RUNNING && S(fiber_state_get)(K.self) == FIBER_STATE_RUNNING);
    ++K.ran; return K.code;
}
/* cases: 0 the scheduler refuses the stop, 1 it switches away (the stand-in then resumes the stopped fiber, which the real one never does) */
//@ {"props":["C26"],"cover":["fiber_entry","fiber_state_get"]}
CASEUNIT(2, entry)
static void c_entry(unsigned c)
{
    mk(); K.resume = &oth; K.fail_call = c == 0 ? 0 : -1; K.self = &cur; cur.fn = &body;
    status st = S(fiber_entry)(&sc, &cur);
    CHECK("a fiber whose function ends tells the scheduler so, once", K.ran == 1 && K.calls == 1 && K.yf[0] == &cur && K.ev[0] == FIBER_SCHEDULER_YIELD_EVENT_STOP && K.ctx[0] == sc.context);
    CHECK("a fiber whose function ended is stopped", cur.fiber_state == FIBER_STATE_STOPPED && S(fiber_state_get)(&cur) == FIBER_STATE_STOPPED && K.switches == (c != 0));
    CHECK("an error from the scheduler is not lost", IMPL(c == 0, st == K.fail_st)); REACH("done");
}
static S(stack) stk;
static status stk_release(S(resource)* r) { CHECK("[C05] a fiber's stack is released once", r == &stk.hdr && K.maps == 1 && K.unmaps == 0); ++K.unmaps; return K.unmap_fail ? ERROR_STACK_UNMAP : STATUS_SUCCESS; }
static const S(resource_vtable) stk_vt = { &stk_release };
status S(stack_create)(S(stack)** st, S(allocator)* a, size_t n)
{
    CHECK("a fiber's stack comes from its own allocator", a == &v_alloc && K.maps == 0);
    if (K.map_fail) { *st = NULL; return ERROR_GENERAL_OUT_OF_MEMORY; }
    ++K.maps; K.rsz = n; K.region = (void*)(uintptr_t)0x100000; S(resource_init)(&stk.hdr, &stk_vt); stk.alloc = a; stk.region = K.region; stk.size = n; *st = &stk; return STATUS_SUCCESS;
}
/* cases: 0 well; 1 memory; 2 the stack; 3 the stack, and memory cannot be returned */
//@ {"props":["C04","C26","C03"],"cover":["fiber_create","fiber_resource_handle"]}
CASEUNIT(4, create)
static void c_create(unsigned c)
{
    mk(); fib_t* f = NULL; size_t n = nd_upto(0x40000000); K.map_fail = c >= 2; g.fail_at = c == 1 ? 0 : NONE; g.reclaim_fail_at = c == 3 ? 0 : NONE;
    void* ctx = PTR;
    status st = S(fiber_create)(&f, &v_alloc, &sc, n, ctx, &body);
    CHECK("fiber create: succeeds exactly when every step does", (st == STATUS_SUCCESS) == (c == 0));
    CHECK("fiber create: neither runs nor schedules the fiber", K.calls == 0 && K.switches == 0 && K.ran == 0 && sc.current_fiber == &cur);
    if (st) { CHECK("fiber create: a failure keeps nothing", g.live == 0 && f == NULL && K.maps == 0); REACH("refused"); return; }
    CHECK("fiber create: a fiber created but not yet running, not in any queue, with its own stack, function and context", f->fiber_state == FIBER_STATE_CREATED && S(fiber_state_get)(f) == FIBER_STATE_CREATED && K.rsz == n && f->fn == &body && f->context == ctx && f->unexpected_fn == NULL && S(fiber_scheduler_from_fiber_get)(f) == &sc && g.live == 1 && f->alloc == &v_alloc);
    CHECK("fiber create: the fiber is set up to start once, for its scheduler", K.made == 1 && K.mfib == f && K.msch == &sc && f->stack_ptr == (uint8_t*)K.region + n - 64);
    CHECK("the handle of a fiber is its own", S(fiber_resource_handle)(f) == &f->hdr);
    K.self = f; K.fctx = ctx; K.resume = &oth; sc.current_fiber = f; st = (*K.me)(&sc, f); (void)st;      /* what the context switch starts */
    CHECK("fiber create: once started, the fiber runs its function with its context once, and then tells its scheduler that it stopped", K.ran == 1 && K.calls == 1 && K.ev[0] == FIBER_SCHEDULER_YIELD_EVENT_STOP && K.yf[0] == f && f->fiber_state == FIBER_STATE_STOPPED);
    REACH("created");
}
/* release: cases: stack release fails x memory return (either) fails */
//@ {"props":["C05","C03","C26"],"cover":["fiber_resource_release"]}
CASEUNIT(4, release)
static void c_release(unsigned c)
{
    mk(); fib_t* f = NULL; status st = S(fiber_create)(&f, &v_alloc, &sc, 16384, NULL, &body); ASSUME(st == STATUS_SUCCESS); f->fiber_state = nd_bool() ? FIBER_STATE_STOPPED : FIBER_STATE_CREATED;
    K.unmap_fail = c & 1; g.reclaim_fail_at = (c >> 1) ? 0 : NONE;
    st = S(resource_release)(S(fiber_resource_handle)(f));
    CHECK("fiber release: its stack is given back once", K.unmaps == 1);
    CHECK("fiber release: a success leaks nothing, a failure is reported", (st == STATUS_SUCCESS) == (!K.unmap_fail && !g.reclaim_failed) && g.live == 0 && g.reclaims == 1); REACH("done");
}
/* cases: 0 well, 1 memory */
//@ {"props":["C04","C05","C26"],"cover":["fiber_create_for_thread","fiber_resource_release"]}
CASEUNIT(2, forthread)
static void c_forthread(unsigned c)
{
    mk(); fib_t* f = NULL; g.fail_at = c ? 0 : NONE;
    status st = S(fiber_create_for_thread)(&f, &sc, &v_alloc);
    CHECK("fiber for thread: succeeds exactly when its memory is given", (st == STATUS_SUCCESS) == (c == 0));
    if (st) { CHECK("fiber for thread: a failure keeps nothing", g.live == 0 && f == NULL); REACH("refused"); return; }
    CHECK("fiber for thread: a running fiber without a stack of its own, of its scheduler", f->fiber_state == FIBER_STATE_RUNNING && f->st == NULL && f->unexpected_fn == NULL && f->sched == &sc && g.live == 1 && K.maps == 0 && K.made == 0);
    g.reclaim_fail_at = nd_bool() ? 0 : NONE;
    st = S(resource_release)(S(fiber_resource_handle)(f));
    CHECK("fiber release: a success leaks nothing, a failure is reported", g.live == 0 && K.unmaps == 0 && (st == STATUS_SUCCESS) == !g.reclaim_failed); REACH("released");
}
/* cases: 0 well; 1-2 the n-th request for memory; 3 the callback refuses; 4 it resumes another fiber; 5 it resumes main for another reason; 6 memory and return; 7 callback refuses and the memory of the fiber cannot be returned */
//@ {"props":["C04","C26","C03"],"cover":["fiber_scheduler_create","fiber_scheduler_resource_handle"]}
CASEUNIT(8, sch_create)
static void c_sch_create(unsigned c)
{
    k_init(); sch_t* s = NULL; g.fail_at = c == 1 ? 0 : c == 2 || c == 6 ? 1 : NONE; K.fail_call = c == 3 || c == 7 ? 0 : -1; K.main_mode = c == 4 ? 1 : c == 5 ? 2 : 0; g.reclaim_fail_at = c >= 6 ? 0 : NONE;
    void* ctx = PTR;
    status st = S(fiber_scheduler_create)(&s, &v_alloc, ctx, &cb);
    CHECK("scheduler create: succeeds exactly when every step does", (st == STATUS_SUCCESS) == (c == 0));
    CHECK("scheduler create: the error is reported", IMPL(c == 3, st == K.fail_st));
    if (c != 1 && c != 2 && c != 6) CHECK("scheduler create: its callback is told of the main fiber first", K.calls >= 1 && K.ev[0] == FIBER_SCHEDULER_YIELD_EVENT_MAIN && K.ctx[0] == ctx && K.yp[0] == NULL && K.yf[0] != NULL);
    if (st) {
        CHECK("scheduler create: a failure keeps nothing", g.live == 0 && s == NULL && K.switches == 0); REACH("refused"); return;
    }
    CHECK("scheduler create: a plain scheduler whose main fiber is running", g.live == 2 && s->current_fiber == K.mainf && s->main_fiber == K.mainf && !s->disciplined && s->context == ctx && s->fn == &cb && K.mainf->fiber_state == FIBER_STATE_RUNNING && K.mainf->sched == s && K.calls == 1);
    CHECK("the handle of a scheduler is its own", S(fiber_scheduler_resource_handle)(s) == &s->hdr); REACH("created");
}
/* cases: 0 well; 1 the callback fails; 2-3 memory */
//@ {"props":["C05","C26","C03"],"cover":["fiber_scheduler_resource_release"]}
CASEUNIT(4, sch_release)
static void c_sch_release(unsigned c)
{
    k_init(); K.main_mode = 0; sch_t* s = NULL; void* ctx = PTR; status st = S(fiber_scheduler_create)(&s, &v_alloc, ctx, &cb); ASSUME(st == STATUS_SUCCESS); fib_t* m = K.mainf;
    K.fail_call = c == 1 ? 1 : -1; g.reclaim_fail_at = c >= 2 ? (int)c - 2 : NONE; K.resume = m;
    st = S(resource_release)(S(fiber_scheduler_resource_handle)(s));
    CHECK("scheduler release: its callback is told so once, with the main fiber", K.calls == 2 && K.ev[1] == FIBER_SCHEDULER_YIELD_EVENT_RESOURCE_RELEASE && K.yf[1] == m && K.ctx[1] == ctx && K.switches == 0);
    CHECK("scheduler release: everything is given back once, and failures are reported", g.live == 0 && g.reclaims == 2 && (st == STATUS_SUCCESS) == (c == 0)); REACH("done");
}
static status unex(void* ctx, fib_t* f, const id_t_* id, int ev, void* p, const id_t_* xid, int xev)
{ ++K.un; K.uctx = ctx; K.ufib = f; K.uid = id; K.uev = ev; K.up = p; K.uxid = xid; K.uxev = xev; return K.ust; }
//@ {"props":["C26","C25"],"cover":["fiber_unexpected_event","fiber_unexpected_event_callback_add"]}
CASEUNIT(2, unexpected)
static void c_unexpected(unsigned c)
{
    mk(); void* ctx = PTR; int ev = nd_int(), xev = nd_int(); void* p = PTR; const id_t_* a = nd_bool() ? &idA : &idB; const id_t_* b = nd_bool() ? &idA : &idB;
    if (c) { status s = S(fiber_unexpected_event_callback_add)(&cur, &unex, ctx); CHECK("an out-of-band handler can be set", s == STATUS_SUCCESS); }
    status st = S(fiber_unexpected_event)(&cur, a, ev, p, b, xev);
    if (c) CHECK("an out-of-band event reaches the fiber's handler once, exactly as it was, and its answer is the result", K.un == 1 && K.uctx == ctx && K.ufib == &cur && K.uid == a && K.uev == ev && K.up == p && K.uxid == b && K.uxev == xev && st == K.ust);
    else CHECK("an out-of-band event without a handler is an error", K.un == 0 && st == ERROR_FIBER_NO_UNEXPECTED_HANDLER);
    REACH("done");
}
UNITS(U(yield) U(run) U(add) U(entry) U(create) U(release) U(forthread) U(sch_create) U(sch_release) U(unexpected))
