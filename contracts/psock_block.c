/* Contracts of waiting for readiness: a fiber blocks on its stream, the
 * discipline arms the descriptor with the operating system, and the idle fiber
 * turns readiness into resumption.  The operating system's readiness interface
 * is a stand-in with its documented behaviour; so is the yield. */
#include "common.h"
#include <errno.h>
#include <rcpr/psock.h>
#include <rcpr/fiber/disciplines/psock_io.h>
#include "psock/platform/epoll/psock_epoll_internal.h"
#include "disc.h"
#ifdef MODE_N
#define W_OK(p, n) ((p) != NULL)
#else
#define W_OK(p, n) __CPROVER_w_ok(p, n)
#endif
typedef S(psock_wrap_async) as_t; typedef S(psock_from_descriptor) pd_t; typedef psock_io_epoll_context ep_t;
#define ID (&FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE)
#define RD FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_READ
#define WR FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_WRITE
#define FERR FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_FLAG_ERROR
#define FEOF_ FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_FLAG_EOF
static as_t as[2]; static pd_t pd[2]; static ep_t* ep;
static struct {
    int arr, oarr, n, dir; _Bool unasked; fib_t* mid; fib_t* keep; int hcalls; status hst; fib_t* hfib;
    /* the operating system */
    _Bool reg[2], hard; uint32_t armed[2]; int ctls[2]; int wait; int nev, at; uint32_t ev[2]; fib_t* rf[2]; fib_t* wf[2]; int i0; int yields; status ys; _Bool done, wfail;
} K;
static void base(void)
{
    pre(); memset(&K, 0, sizeof(K)); memset(as, 0, sizeof(as)); memset(pd, 0, sizeof(pd)); dd = NEW(disc_t); dd->sched = s;
    for (int i = 0; i < 2; ++i) { as[i].hdr.type = PSOCK_TYPE_WRAP_ASYNC; as[i].wrapped = &pd[i].hdr; as[i].psock_discipline = dd; as[i].fib = &f[0]; pd[i].hdr.type = PSOCK_TYPE_DESCRIPTOR; pd[i].descriptor = nd_int(); ASSUME(pd[i].descriptor >= 0); }
    ASSUME(pd[0].descriptor != pd[1].descriptor);
}
/* ---- a fiber blocks ---- */
static fib_t** mine(void) { return K.dir ? &as[0].write_block_fib : &as[0].read_block_fib; }
static fib_t** opposite(void) { return K.dir ? &as[0].read_block_fib : &as[0].write_block_fib; }
status S(fiber_unexpected_event)(fib_t* x, const id_t_* id, int ev, void* p, const id_t_* xid, int xev)
{
    ++K.hcalls; CHECK("an event from elsewhere goes to the fiber's own handler, as it came, with what was awaited", x == &f[0] && is(id, E.rid) && ev == E.rev && p == E.rp && is(xid, ID) && xev == (K.dir ? WR : RD));
    CHECK("an event meant for the stream is no unexpected one", K.unasked && K.hcalls == E.yields);
    K.hst = nd_int(); return K.hst;
}
/* while it is away the registration may end, and another fiber may block */
static void away(void)
{
    CHECK("a fiber waits registered with its stream, in its direction only", *mine() == &f[0] && *opposite() == K.keep);
    unsigned k = nd_below(3); if (k == 1) *mine() = NULL; if (k == 2) *mine() = &f[2];
    K.mid = k == 2 ? &f[2] : NULL; if (nd_bool()) { K.keep = nd_bool() ? NULL : &f[3]; *opposite() = K.keep; }
    K.unasked = nd_bool(); E.rid = K.unasked ? &idA : ID; E.rev = nd_int(); E.rp = PTR; if (K.arr == 0) ASSUME(++K.n <= 3);
}
static _Bool block_cut(void* done)
{
    if (K.arr++ == 0) {
        CHECK("ATTACH block: begins", !*(bool*)done && E.yields == 0);
        if (nd_bool()) { E.yields = K.hcalls = 1; K.mid = nd_bool() ? NULL : &f[2]; *mine() = K.mid; K.keep = nd_bool() ? NULL : &f[3]; *opposite() = K.keep; }   /* any number of unexpected events later */
    } else if (!*(bool*)done) {
        CHECK("block: waits again exactly after an unexpected event its handler took", K.unasked && K.hst == STATUS_SUCCESS && K.hcalls == E.yields && E.yst == STATUS_SUCCESS);
        CHECK("block: does not forget another's registration", *mine() == K.mid && *opposite() == K.keep); REACH("again"); ASSUME(0);
    }
    return 1;
}
_Bool v_cut_psock_read_block_0(void* d) { return block_cut(d); }
_Bool v_cut_psock_write_block_0(void* d) { return block_cut(d); }
/* 0 not a stream that can wait; 1 another fiber is blocked; 2 the yield fails; 3 it resumes */
static void block(unsigned c, int dir)
{
    base(); K.dir = dir; K.keep = nd_bool() ? NULL : &f[3]; *opposite() = K.keep; K.mid = *mine() = c == 1 ? &f[2] : NULL; E.during = &away; E.yst = STATUS_SUCCESS;
    if (c == 2) { E.yst = nd_int(); ASSUME(E.yst != STATUS_SUCCESS); }
    if (c == 0) { int t = nd_int(); ASSUME(t != PSOCK_TYPE_WRAP_ASYNC); as[0].hdr.type = t; }
    status st = dir ? S(psock_write_block)(&as[0].hdr) : S(psock_read_block)(&as[0].hdr);
    CHECK("block: afterwards the fiber is registered nowhere, and others are as they were", *mine() == K.mid && *opposite() == K.keep);
    if (c == 0) { CHECK("a stream that cannot wait is refused", st == ERROR_PSOCK_UNSUPPORTED_TYPE && E.yields == 0); REACH("type"); return; }
    if (E.yields == K.hcalls && K.hst == STATUS_SUCCESS) { CHECK("only one fiber blocks in a direction: the second is refused", st == ERROR_PSOCK_DOUBLE_BLOCK_UNSUPPORTED && K.mid == &f[2]); REACH("second"); return; }
    CHECK("a blocked fiber yields to the stream discipline, asking to wait for its stream in its direction", E.yields > 0 && E.yd == dd && E.yp == (void*)&as[0] && E.ye == (dir ? FIBER_SCHEDULER_PSOCK_IO_YIELD_EVENT_WAIT_WRITE : FIBER_SCHEDULER_PSOCK_IO_YIELD_EVENT_WAIT_READ));
    if (E.yst) { CHECK("block: a failure to yield is reported", st == E.yst && K.hcalls <= E.yields - 1); REACH("yield fails"); return; }
    if (K.unasked) { CHECK("block: an unexpected event its handler does not take is reported", st == K.hst && st != STATUS_SUCCESS && K.hcalls == E.yields); REACH("unexpected"); return; }
    CHECK("block: the stream is ready", st == STATUS_SUCCESS && K.hcalls == E.yields - 1); REACH("ready");
}
//@ {"uncut":true,"props":["C25"],"unwind":18,"cuts":{"psock_read_block":[["done"]]},"cover":["psock_read_block"]}
CASEUNIT(4, read_block)
static void c_read_block(unsigned c) { block(c, 0); }
//@ {"uncut":true,"props":["C25"],"unwind":18,"cuts":{"psock_write_block":[["done"]]},"cover":["psock_write_block"]}
CASEUNIT(4, write_block)
static void c_write_block(unsigned c) { block(c, 1); }

/* ---- the operating system: one registration per descriptor; one-shot events ---- */
int SYSFN(epoll_ctl)(int e, int op, int fd, struct epoll_event* ev)
{
    CHECK("readiness is asked of the discipline's own interface, for a stream's own descriptor", e == ep->ep && (fd == pd[0].descriptor || fd == pd[1].descriptor)); int i = fd == pd[1].descriptor;
    CHECK("readiness is asked for the stream it belongs to, one-shot", ev->data.ptr == (void*)&as[i] && (ev->events & EPOLLONESHOT)); ++K.ctls[i];
    if (K.hard) { errno = nd_bool() ? ENOMEM : EBADF; return -1; }
    if (op == EPOLL_CTL_MOD && !K.reg[i]) { errno = ENOENT; return -1; }
    if (op == EPOLL_CTL_ADD && K.reg[i]) { errno = EEXIST; return -1; }
    CHECK("readiness is asked for by adding or changing", op == EPOLL_CTL_MOD || op == EPOLL_CTL_ADD); K.reg[i] = 1; K.armed[i] = ev->events; return 0;
}
#define WANT(i) ((uint32_t)(EPOLLONESHOT | (as[i].read_block_fib ? EPOLLIN : 0) | (as[i].write_block_fib ? EPOLLOUT : 0)))
static void mkep(void) { ep = malloc(sizeof(ep_t)); ASSUME(ep != NULL); ep->ep = nd_int(); ep->sched = s; ep->alloc = &v_alloc; }
static void wait(int dir)
{
    base(); mkep(); K.hard = nd_bool(); K.reg[0] = nd_bool(); as[0].read_block_fib = dir == 0 || nd_bool() ? &f[1] : NULL; as[0].write_block_fib = dir == 1 || nd_bool() ? &f[2] : NULL;
    status st = dir ? S(psock_fiber_scheduler_disciplined_write_wait_callback_handler)(ep, &f[dir + 1], FIBER_SCHEDULER_PSOCK_IO_YIELD_EVENT_WAIT_WRITE, &as[0])
                    : S(psock_fiber_scheduler_disciplined_read_wait_callback_handler)(ep, &f[dir + 1], FIBER_SCHEDULER_PSOCK_IO_YIELD_EVENT_WAIT_READ, &as[0]);
    CHECK("wait: a failure of the operating system is reported, and only that", (st == STATUS_SUCCESS) == !K.hard && IMPL(st, st == ERROR_PSOCK_EPOLL_CTL_FAILED));
    CHECK("wait: the registrations stay", as[0].write_block_fib == (dir == 1 || as[0].write_block_fib ? &f[2] : NULL) && as[0].read_block_fib == (dir == 0 || as[0].read_block_fib ? &f[1] : NULL) && G.appends == 0);
    if (!st) { CHECK("wait: the descriptor is armed for exactly the directions fibers wait in", K.armed[0] == WANT(0) && K.ctls[1] == 0); REACH("armed"); } else { REACH("failed"); }
    free(ep);
}
//@ {"props":["C25"],"cover":["psock_fiber_scheduler_disciplined_read_wait_callback_handler"]}
void H_wait_read(void) { wait(0); }
//@ {"props":["C25"],"cover":["psock_fiber_scheduler_disciplined_write_wait_callback_handler"]}
void H_wait_write(void) { wait(1); }

/* ---- the idle fiber ---- */
#define RDY(i) (K.ev[i] & (EPOLLIN | EPOLLERR | EPOLLHUP | EPOLLRDHUP))
#define WDY(i) (K.ev[i] & (EPOLLOUT | EPOLLERR | EPOLLHUP))
/* while others run, fibers block on streams and the descriptors get armed: an arbitrary event of an arbitrary stream */
static void event(int i)
{
    K.ev[i] = (uint32_t)nd_u64(); K.rf[i] = nd_bool() ? NULL : &f[2 * i]; K.wf[i] = nd_bool() ? NULL : &f[2 * i + 1]; as[i].read_block_fib = K.rf[i]; as[i].write_block_fib = K.wf[i];
    K.reg[i] = nd_bool(); K.armed[i] = 0; K.ctls[i] = 0; if (K.rf[i]) f_init(K.rf[i]); if (K.wf[i]) f_init(K.wf[i]);
}
static _Bool woken(fib_t* x, int ev, int fl) { return x->queued && SETST(x, ID, ev, fl) && (uint64_t)(uintptr_t)x->restore_param == (uint64_t)fl; }
#define NQ ((int)(q->hi - q->restpos))
static int queued(fib_t* x) { int n = 0; for (int k = QN; k < 2 * QN; ++k) if (k < q->hi && q->el[k] == &x->hdr) ++n; return n; }
static void handled(int i)
{
    _Bool rl = K.rf[i] && !RDY(i), wl = K.wf[i] && !WDY(i), lost = K.hard && (rl || wl);
    if (K.rf[i] && RDY(i)) CHECK("idle: a reader whose stream is ready, in error or at its end resumes, told which", woken(K.rf[i], RD, (K.ev[i] & EPOLLERR ? FERR : 0) | (K.ev[i] & (EPOLLHUP | EPOLLRDHUP) ? FEOF_ : 0)));
    if (K.wf[i] && WDY(i)) CHECK("idle: a writer whose stream is ready, in error or at its end resumes, told which", woken(K.wf[i], WR, (K.ev[i] & EPOLLERR ? FERR : 0) | (K.ev[i] & EPOLLHUP ? FEOF_ : 0)));
    if (lost) { CHECK("idle: a fiber that can no longer be told of readiness resumes with an error", IMPL(rl, woken(K.rf[i], RD, FERR)) && IMPL(wl, woken(K.wf[i], WR, FERR))); REACH("lost"); }
    CHECK("idle: a resumed fiber resumes once and is no longer registered", IMPL(K.rf[i], queued(K.rf[i]) == (rl && !lost ? 0 : 1)) && IMPL(K.wf[i], queued(K.wf[i]) == (wl && !lost ? 0 : 1)));
    CHECK("idle: who is not ready goes on waiting, armed", as[i].read_block_fib == (rl && !lost ? K.rf[i] : NULL) && as[i].write_block_fib == (wl && !lost ? K.wf[i] : NULL) && IMPL(rl && !lost, ASLEEP(K.rf[i])) && IMPL(wl && !lost, ASLEEP(K.wf[i])) && IMPL((rl || wl) && !lost, K.armed[i] == WANT(i)));
}
int SYSFN(epoll_wait)(int e, struct epoll_event* out, int max, int to)
{
    CHECK("idle: waits for readiness on its own interface, for as long as it takes, with room for what is asked", e == ep->ep && max >= 1 && W_OK(out, (size_t)max * sizeof(*out)) && to == -1); CHECK("idle: waits only when nothing is left to do", !K.done && K.at == K.nev);
    ++K.wait; if (K.oarr == 0) ASSUME(++K.n <= 2);
    q->restpos = q->lo = q->hi = QN; K.at = 0; K.nev = 0; if (nd_bool()) { errno = nd_bool() ? EINTR : EBADF; K.ys = errno == EINTR ? STATUS_SUCCESS : ERROR_PSOCK_EPOLL_WAIT_FAILED; K.done = K.wfail = K.ys != STATUS_SUCCESS; return -1; }
    K.nev = nd_int(); ASSUME(K.nev >= 0 && K.nev <= max); K.ys = STATUS_SUCCESS;
#ifndef MODE_P
    ASSUME(K.nev <= 2); for (int i = 0; i < 2; ++i) if (i < K.nev) { event(i); out[i].events = K.ev[i]; out[i].data.ptr = &as[i]; }
#endif
    return K.nev;
}
status S(disciplined_fiber_scheduler_idle_fiber_yield)(sch_t* x)
{
    CHECK("idle: lets the others run, in its own scheduler, when every event is handled", x == s && K.wait > 0 && !K.done);
    if (K.arr == 0) { for (int i = 0; i < 2; ++i) if (i < K.nev) handled(i); } else CHECK("ATTACH idle: all events handled", K.at == K.nev);
    K.at = K.nev; ++K.yields; K.ys = nd_bool() ? STATUS_SUCCESS : nd_int(); if (K.ys) K.done = 1; return K.ys;
}
_Bool v_cut_psock_idle_fiber_entry_0(void* run)
{
    if (K.oarr++ == 0) { CHECK("ATTACH idle: begins", *(bool*)run); K.wait = (int)nd_below(1000); K.yields = (int)nd_below(1000); return 1; }
    CHECK("idle: goes on until letting the others run fails", *(bool*)run == !K.done && IMPL(K.ys == STATUS_SUCCESS, !K.done)); if (*(bool*)run) { REACH("again"); ASSUME(0); }
    return 1;
}
_Bool v_cut_psock_idle_fiber_entry_1(void* nev, void* i)
{
    int* pi = (int*)i;
    if (K.arr++ == 0) {
        CHECK("ATTACH idle: handles the events from the first", *pi == 0 && *(int*)nev == K.nev && K.wait > 0); *pi = nd_int(); ASSUME(*pi >= 0 && *pi <= K.nev); K.i0 = K.at = *pi;
        if (*pi < K.nev) { event(0); ep->epoll_outputs[*pi].events = K.ev[0]; ep->epoll_outputs[*pi].data.ptr = &as[0]; REACH("event"); } else { REACH("all"); }
    } else { CHECK("ATTACH idle: event after event", *pi == K.i0 + 1 && *(int*)nev == K.nev); handled(0); REACH("handled"); ASSUME(0); }
    return 1;
}
/* 0 well; 1,2 the first or second fiber to resume cannot be queued */
//@ {"uncut":true,"props":["C25"],"unwind":18,"cuts":{"psock_idle_fiber_entry":[["run_state"],["nev","i"]]},"cover":["psock_idle_fiber_entry"]}
CASEUNIT(3, idle)
static void c_idle(unsigned c)
{
    base(); mkep(); c1.idle_fiber = &f[3]; s1.current_fiber = &f[3]; K.hard = nd_bool(); others(); zero(); g.fail_at = c == 0 ? NONE : (int)c - 1;
    status st = S(psock_idle_fiber_entry)(ep);
    CHECK("idle: ends only when waiting or letting the others run fails, or a fiber cannot be resumed; and is then idle no more", (K.done || g.oom > 0) && c1.idle_fiber == NULL);
    if (g.oom > 0) { CHECK("idle: a fiber that cannot be queued is reported", st != STATUS_SUCCESS && c > 0); REACH("unqueued"); }
    else if (K.wfail) { CHECK("idle: a failure to wait is reported", st == ERROR_PSOCK_EPOLL_WAIT_FAILED); REACH("unwaited"); }
    else { CHECK("idle: ends quietly when the others end", st == STATUS_SUCCESS && K.yields > 0); REACH("end"); }
    free(ep);
}
UNITS(U(read_block) U(write_block) U(wait_read) U(wait_write) U(idle))
