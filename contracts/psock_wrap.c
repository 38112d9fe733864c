/* Contracts of making a stream non-blocking: the wrapper, and the discipline
 * and idle fiber a scheduler gets with its first one.  What they are made of
 * is stood in for; refusals may happen at every step. */
#include "common.h"
#include <errno.h>
#include <rcpr/psock.h>
#include <rcpr/socket_utilities.h>
#include <rcpr/fiber/disciplines/psock_io.h>
#include "psock/platform/epoll/psock_epoll_internal.h"
#include "disc.h"
typedef S(psock_wrap_async) as_t; typedef S(psock_from_descriptor) pd_t; typedef S(psock) ps_t; typedef psock_io_epoll_context ep_t;
#define ID (&FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE)
static struct { int step, at; int eps, open, fds, badclose, nb, idles, ran, rw, frel; void* ictx; int crel; status cst, frst; int epfd; pd_t child; fib_t* fib; } K;
static _Bool refuse(void) { return g.fail_at >= 0 && g.alloc_calls++ == g.fail_at ? (++g.oom, 1) : 0; }
int SYSFN(epoll_create1)(int fl) { (void)fl; if (refuse()) { errno = EMFILE; return -1; } ++K.eps; K.open = 1; return K.epfd; }
int SYSFN(close)(int fd) { CHECK("[C05,C25] the discipline's own interface is closed, once", fd == K.epfd && K.open); K.open = 0; return 0; }
status S(socket_utility_set_nonblock)(int fd) { CHECK("the stream's own descriptor is made non-blocking", fd == K.child.descriptor); if (refuse()) return 4242; ++K.nb; return STATUS_SUCCESS; }
static status i_release(S(resource)* r) { CHECK("[C05,C25] the idle fiber is released once", r == &K.fib->hdr && K.frel == 0); ++K.frel; free(K.fib); return K.frst; }
static const S(resource_vtable) i_vt = { &i_release };
status S(fiber_create)(fib_t** out, S(allocator)* a, sch_t* x, size_t stack, void* ctx, S(fiber_fn) fn)
{
    CHECK("an idle fiber for the scheduler, with its own stack, running the discipline's idle loop", a == &v_alloc && x == s && stack > 0); if (refuse()) return ERROR_GENERAL_OUT_OF_MEMORY;
    ++K.idles; K.ictx = ctx; status st = fn(ctx); CHECK("the idle fiber runs the idle loop", st == 4343 && K.ran == 1);
    fib_t* x2 = malloc(sizeof(fib_t)); ASSUME(x2 != NULL); f_init(x2); S(resource_init)(&x2->hdr, &i_vt); K.fib = x2; *out = x2; return STATUS_SUCCESS;
}
status S(psock_idle_fiber_entry)(void* c) { (void)c; ++K.ran; return 4343; }
status S(psock_fiber_scheduler_disciplined_read_wait_callback_handler)(void* c, fib_t* y, int e, void* p) { (void)c; (void)y; (void)e; (void)p; K.rw = 1; return 1; }
status S(psock_fiber_scheduler_disciplined_write_wait_callback_handler)(void* c, fib_t* y, int e, void* p) { (void)c; (void)y; (void)e; (void)p; K.rw = 2; return 2; }
status S(psock_wrap_async_read)(ps_t* x, void* c, void* d, size_t* n, bool b) { (void)x; (void)c; (void)d; (void)n; (void)b; return 101; }
status S(psock_wrap_async_write)(ps_t* x, void* c, const void* d, size_t* n) { (void)x; (void)c; (void)d; (void)n; return 102; }
status S(psock_wrap_async_accept)(ps_t* x, void* c, int* d, struct sockaddr* a, socklen_t* l) { (void)x; (void)c; (void)d; (void)a; (void)l; return 103; }
status S(psock_wrap_async_sendmsg)(ps_t* x, void* c, const struct msghdr* m, int fl) { (void)x; (void)c; (void)m; (void)fl; return 104; }
status S(psock_wrap_async_recvmsg)(ps_t* x, void* c, struct msghdr* m, size_t* l, int fl) { (void)x; (void)c; (void)m; (void)l; (void)fl; return 105; }
static status c_release(S(resource)* r) { CHECK("[C05,C25] the wrapped stream is released once", r == &K.child.hdr.hdr && K.crel == 0); ++K.crel; return K.cst; }
static const S(resource_vtable) c_vt = { &c_release };
static disc_t ex;
#ifndef MODE_N
/* memset: of the epoll context, the 1024 event slots are left arbitrary, which only weakens what is known of them */
void* memset(void* p, int c, size_t n)
{
    CHECK("memset: in bounds", __CPROVER_w_ok(p, n));
#define Z(T) else if (c == 0 && n == sizeof(T)) { static const T z; *(T*)p = z; }
    if (c == 0 && n == sizeof(ep_t)) { ep_t* e = (ep_t*)p; static const S(resource) zr; e->hdr = zr; e->alloc = NULL; e->discipline_cache = zr; e->sched = NULL; e->ep = 0; e->outputs = 0; }
    Z(disc_t) Z(as_t) Z(sch_t) Z(ctx_t) Z(fib_t) Z(pd_t)
    else { uint8_t* b = p; for (size_t i = 0; i < n; ++i) b[i] = (uint8_t)c; }
    return p;
}
#endif
static void mkw(unsigned c)
{
    pre(); K.eps = K.open = K.nb = K.idles = K.ran = K.rw = K.frel = K.crel = 0; K.ictx = NULL; K.cst = K.frst = STATUS_SUCCESS; K.fib = NULL; memset(&K.child, 0, sizeof(K.child)); E.want = ID; K.epfd = c & 1 ? 7 : 0; K.child.hdr.type = PSOCK_TYPE_DESCRIPTOR; K.child.hdr.socktype = nd_int(); K.child.descriptor = nd_int();
    S(resource_init)(&K.child.hdr.hdr, &c_vt); others(); zero();
}
static void is_wrapped(as_t* w, disc_t* d)
{
    CHECK("wrap: a non-blocking stream of the fiber, over the stream given", w->hdr.type == PSOCK_TYPE_WRAP_ASYNC && w->wrapped == &K.child.hdr && w->fib == &f[1] && w->psock_discipline == d && w->hdr.socktype == K.child.hdr.socktype && w->hdr.alloc == &v_alloc && w->read_block_fib == NULL && w->write_block_fib == NULL && K.nb == 1 && K.crel == 0);
    const S(psock_vtable)* vt = (const S(psock_vtable)*)w->hdr.hdr.vtable; struct msghdr m; size_t n;
    CHECK("wrap: its transfers are the waiting ones", vt->read_fn(&w->hdr, NULL, &n, &n, 1) == 101 && vt->write_fn(&w->hdr, NULL, &n, &n) == 102 && vt->accept_fn(&w->hdr, NULL, NULL, NULL, NULL) == 103 && vt->sendmsg_fn(&w->hdr, NULL, &m, 0) == 104 && vt->recvmsg_fn(&w->hdr, NULL, &m, &n, 0) == 105);
}
static void is_disc(disc_t* d)
{
    CHECK("discipline: it has one interface, one idle fiber that runs when nobody else can, and is registered", E.adds == 1 && E.added == d && d->sched == s && is(&d->id, ID) && K.eps == 1 && K.open && K.idles == 1 && K.frel == 0 && c1.idle_fiber == K.fib);
    CHECK("discipline: the idle fiber waits on the interface of the discipline", K.ictx == d->context && ((ep_t*)d->context)->ep == K.epfd && ((ep_t*)d->context)->sched == s);
    CHECK("discipline: it answers the two requests, each with its own handler", d->callback_vector_size == 2 && d->callback_vector[FIBER_SCHEDULER_PSOCK_IO_YIELD_EVENT_WAIT_READ](NULL, NULL, 0, NULL) == 1 && d->callback_vector[FIBER_SCHEDULER_PSOCK_IO_YIELD_EVENT_WAIT_WRITE](NULL, NULL, 0, NULL) == 2);
}
/* 0 the first of the scheduler; 1 a later one; 2 not a stream that can be wrapped */
//@ {"unwind":18,"props":["C25","C27","C05"],"cover":["psock_create_wrap_async","psock_fiber_scheduler_discipline_create","psock_fiber_scheduler_discipline_context_create","psock_fiber_scheduler_discipline_set_resource_release"]}
CASEUNIT(3, wrap)
static void c_wrap(unsigned c)
{
    mkw(c); if (c == 1) E.existing = &ex; if (c == 2) { int t = nd_int(); ASSUME(t != PSOCK_TYPE_DESCRIPTOR); K.child.hdr.type = t; } ps_t* p = NULL;
    status st = S(psock_create_wrap_async)(&p, &v_alloc, &f[1], &K.child.hdr);
    if (c == 2) { CHECK("wrap: a stream that has no descriptor is refused, and untouched", st == ERROR_PSOCK_UNSUPPORTED_TYPE && p == NULL && g.live == 0 && K.crel == 0 && K.nb == 0 && E.adds == 0 && K.idles == 0); REACH("type"); return; }
    CHECK("wrap: succeeds", st == STATUS_SUCCESS); as_t* w = (as_t*)p; disc_t* d = w->psock_discipline; is_wrapped(w, c ? &ex : d);
    if (c) CHECK("wrap: the discipline of a scheduler is made once", E.adds == 0 && K.eps == 0 && K.idles == 0 && g.live == 1); else { is_disc(d); CHECK("wrap: owns what it made", g.live == 5); }
    K.cst = nd_int(); st = S(resource_release)(S(psock_resource_handle)(p));
    CHECK("[C05,C25] wrapper release: the wrapped stream and the memory are given back once, failure reported", K.crel == 1 && g.live == (c ? 0 : 4) && st == K.cst);
    if (!c) { K.crel = 0; st = S(resource_release)(S(fiber_scheduler_discipline_resource_handle)(d)); CHECK("[C05,C25,C27] discipline release: its memory is given back and its interface is closed once", st == STATUS_SUCCESS && g.live == 0 && !K.open && K.frel == 0); free(K.fib); }
    REACH("done");
}
/* the n-th step refused: context, interface, discipline (3), idle fiber, registration, wrapper, descriptor; 9,10 the last two of a later one */
//@ {"unwind":18,"props":["C25","C04","C05","C27"],"cover":["psock_create_wrap_async","psock_fiber_scheduler_discipline_create","psock_fiber_scheduler_discipline_context_create"]}
CASEUNIT(11, refused)
static void c_refused(unsigned c)
{
    mkw(c); if (c >= 9) { E.existing = &ex; g.fail_at = (int)c - 9; } else g.fail_at = (int)c; ps_t* p = NULL;
    status st = S(psock_create_wrap_async)(&p, &v_alloc, &f[1], &K.child.hdr);
    CHECK("wrap: a failure is reported, hands out nothing and leaves the stream with the caller", st != STATUS_SUCCESS && p == NULL && K.crel == 0 && g.oom == 1);
    if (c == 7 || c == 8) { is_disc(E.added); CHECK("wrap: only what the scheduler owns now is kept", g.live == 4); disc_t* d = E.added; st = S(resource_release)(S(fiber_scheduler_discipline_resource_handle)(d)); CHECK("[C05,C25] what the scheduler owns is complete", st == STATUS_SUCCESS && g.live == 0 && !K.open); free(K.fib); REACH("kept"); }
    else { CHECK("wrap: a failure keeps nothing: no memory, no interface, no idle fiber", g.live == 0 && !K.open && K.frel == K.idles && c1.idle_fiber == NULL && E.added == NULL); REACH("nothing"); }
}
/* 0 well; the n-th return of memory fails */
//@ {"unwind":18,"props":["C05","C25"],"cover":["psock_create_wrap_async","psock_fiber_scheduler_discipline_set_resource_release","psock_fiber_scheduler_discipline_context_create"]}
CASEUNIT(6, w_release)
static void c_w_release(unsigned c)
{
    mkw(c); ps_t* p = NULL; status st = S(psock_create_wrap_async)(&p, &v_alloc, &f[1], &K.child.hdr); ASSUME(st == STATUS_SUCCESS); disc_t* d = ((as_t*)p)->psock_discipline; zero(); g.reclaim_fail_at = (int)c - 1; K.cst = STATUS_SUCCESS;
    status s1_ = S(resource_release)(S(psock_resource_handle)(p)); status s2_ = S(resource_release)(S(fiber_scheduler_discipline_resource_handle)(d));
    CHECK("release: everything is given back once, whatever fails", g.live == 0 && g.reclaims == 5 && !K.open && K.crel == 1);
    CHECK("release: failures are reported", (s1_ == STATUS_SUCCESS) == (c != 1) && (s2_ == STATUS_SUCCESS) == (c < 2)); free(K.fib); REACH("done");
}
UNITS(U(wrap) U(refused) U(w_release))
