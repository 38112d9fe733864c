/* Contracts of the thread, mutex and condition variable wrappers over the
 * POSIX primitives.  The primitives are stand-ins that obey their contracts:
 * any outcome, a mutex held by at most the caller, a wait that gives the mutex
 * up and takes it back.  Exclusion itself is the system library's. */
#include "common.h"
#include "enum.h"
#include <rcpr/thread.h>
#include "platform/pthread/thread/thread_internal.h"
typedef S(thread) thr; typedef S(thread_mutex) mtx; typedef S(thread_mutex_lock) lck; typedef S(thread_cond) cnd;
static struct {
    int fail;                       /* which primitive fails (bit) */
    int attr, attr_d, created, joined, minit, mdest, locks, unlocks, cinit, cdest, sig, bc, waits, held, ran, order;
    size_t stk; void* (*start)(void*); void* arg; pthread_t id; pthread_t* idp; const pthread_attr_t* at;
    pthread_mutex_t* m; pthread_cond_t* c; int early; void* ctx; status code; void* mp; void* cp;
} K;
enum { X_ATTR = 1, X_STK = 2, X_CREATE = 4, X_JOIN = 8, X_MINIT = 16, X_MDEST = 32, X_LOCK = 64, X_UNLOCK = 128, X_CINIT = 256, X_CDEST = 512, X_SIG = 1024, X_BC = 2048, X_WAIT = 4096 };
static int out(int bit) { if (K.fail & bit) { int e = nd_int(); ASSUME(e > 0); return e; } return 0; }
int SYSFN(pthread_attr_init)(pthread_attr_t* a) { K.at = a; if (K.fail & X_ATTR) return out(X_ATTR); ++K.attr; return 0; }
int SYSFN(pthread_attr_setstacksize)(pthread_attr_t* a, size_t n) { CHECK("thread create: stack size set on its own attributes", a == K.at && K.attr == 1 && K.attr_d == 0); if (K.fail & X_STK) return out(X_STK); K.stk = n; return 0; }
int SYSFN(pthread_attr_destroy)(pthread_attr_t* a) { CHECK("thread create: attributes destroyed once", a == K.at && K.attr == 1 && K.attr_d == 0); ++K.attr_d; return 0; }
int SYSFN(pthread_create)(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg)
{
    CHECK("thread create: with the attributes set up", a == K.at && K.attr == 1 && K.attr_d == 0);
    if (K.fail & X_CREATE) return out(X_CREATE);
    ++K.created; K.start = f; K.arg = arg; K.idp = t;
    if (K.early) { (void)f(arg); }          /* the new thread may run, and finish, before this call returns */
    *t = K.id; return 0;
}
int SYSFN(pthread_join)(pthread_t t, void** r)
{
    CHECK("thread release: waits for that very thread, once", t == K.id && K.joined == 0); ++K.joined;
    if (!K.early && K.created && !(K.fail & X_JOIN)) (void)K.start(K.arg);   /* the thread finishes before join returns */
    (void)r; return out(X_JOIN);
}
int SYSFN(pthread_mutex_init)(pthread_mutex_t* m, const pthread_mutexattr_t* a) { (void)a; if (K.fail & X_MINIT) return out(X_MINIT); ++K.minit; K.m = m; return 0; }
int SYSFN(pthread_mutex_destroy)(pthread_mutex_t* m) { CHECK("mutex release: destroys that very mutex, once, while its memory is live", m == K.m && K.minit == 1 && K.mdest == 0 && g.live == 1); ++K.mdest; return out(X_MDEST); }
int SYSFN(pthread_mutex_lock)(pthread_mutex_t* m) { CHECK("lock: locks that very mutex", m == K.m && K.minit == 1 && !K.held); ++K.locks; if (K.fail & X_LOCK) return out(X_LOCK); K.held = 1; return 0; }
int SYSFN(pthread_mutex_trylock)(pthread_mutex_t* m) { (void)m; CHECK("lock: waits for the mutex rather than trying it", 0); return 16; }
int SYSFN(pthread_mutex_unlock)(pthread_mutex_t* m) { CHECK("unlock: unlocks that very mutex, which is held, once", m == K.m && K.held); ++K.unlocks; if (K.fail & X_UNLOCK) return out(X_UNLOCK); K.held = 0; return 0; }
int SYSFN(pthread_cond_init)(pthread_cond_t* c, const pthread_condattr_t* a) { (void)a; if (K.fail & X_CINIT) return out(X_CINIT); ++K.cinit; K.c = c; return 0; }
int SYSFN(pthread_cond_destroy)(pthread_cond_t* c) { CHECK("condition release: destroys that very condition variable, once, while its memory is live", c == K.c && K.cinit == 1 && K.cdest == 0 && g.live >= 1); ++K.cdest; return out(X_CDEST); }
int SYSFN(pthread_cond_signal)(pthread_cond_t* c) { CHECK("signal: that very condition variable, with the lock held", c == K.c && K.cinit == 1 && K.held); ++K.sig; return out(X_SIG); }
int SYSFN(pthread_cond_broadcast)(pthread_cond_t* c) { CHECK("signal: that very condition variable, with the lock held", c == K.c && K.cinit == 1 && K.held); ++K.bc; return out(X_BC); }
int SYSFN(pthread_cond_wait)(pthread_cond_t* c, pthread_mutex_t* m) { CHECK("wait: gives up the caller's lock, on that very condition variable", c == K.c && m == K.m && K.held); ++K.waits; return out(X_WAIT); }
static void k_init(void)
{
    v_init(NONE, NONE);
    K.fail = 0; K.attr = K.attr_d = K.created = K.joined = K.minit = K.mdest = K.locks = K.unlocks = K.cinit = K.cdest = K.sig = K.bc = K.waits = K.held = K.ran = 0;
    K.stk = 0; K.start = NULL; K.arg = NULL; K.id = (pthread_t)nd_u32(); K.idp = NULL; K.at = NULL; K.m = NULL; K.c = NULL; K.early = 0; K.ctx = &v_c[2]; K.code = nd_int(); K.mp = NULL; K.cp = NULL;
}
static status entry(void* c) { CHECK("thread: its entry function runs once, with its context", c == K.ctx && K.ran == 0); ++K.ran; return K.code; }
/* cases: 0 all well; 1 well and run early; 2 attr; 3 stack size; 4 memory; 5 create; 6 create, then memory cannot be returned */
//@ {"props":["C30","C04"],"cover":["thread_create"]}
CASEUNIT(7, thr_create)
static void c_thr_create(unsigned c)
{
    k_init(); K.early = c == 1; K.fail = c == 2 ? X_ATTR : c == 3 ? X_STK : c >= 5 ? X_CREATE : 0; g.fail_at = c == 4 ? 0 : NONE; g.reclaim_fail_at = c == 6 ? 0 : NONE;
    thr* t = NULL; size_t stk = nd_size();
    status st = S(thread_create)(&t, &v_alloc, stk, K.ctx, &entry);
    CHECK("thread create: succeeds exactly when every step does", (st == STATUS_SUCCESS) == (c < 2));
    CHECK("thread create: the attributes it sets up are destroyed", K.attr == K.attr_d);
    if (st == STATUS_SUCCESS) {
        CHECK("thread create: one thread with the stack size asked for", K.created == 1 && K.stk == stk && t != NULL && g.live == 1);
        if (!K.early) (void)K.start(K.arg);
        CHECK("thread: its entry function runs once, with its context", K.ran == 1 && g.live == 1);
        CHECK("the handle of a thread is its own", S(thread_resource_handle)(t) == &t->hdr); REACH("created");
    } else { CHECK("thread create: a failure starts no thread and keeps no memory", K.created == 0 && g.live == 0 && t == NULL && K.ran == 0); REACH("refused"); }
}
/* cases: join ok/fails x memory return ok/fails x ran early or not */
//@ {"props":["C30","C05","C03"],"cover":["thread_release"]}
CASEUNIT(8, thr_release)
static void c_thr_release(unsigned c)
{
    k_init(); K.early = (c >> 2) & 1; thr* t = NULL; status st = S(thread_create)(&t, &v_alloc, 4096, K.ctx, &entry); ASSUME(st == STATUS_SUCCESS);
    K.fail = c & 1 ? X_JOIN : 0; g.reclaim_fail_at = c & 2 ? 0 : NONE;
    st = S(resource_release)(S(thread_resource_handle)(t));
    CHECK("thread release: waits for the thread to finish, then returns its memory, once each", K.joined == 1 && g.live == 0 && g.reclaims == 1 && IMPL(!(c & 1), K.ran == 1));
    CHECK("thread release: failures are reported, else the thread's exit status", c & 2 ? st != STATUS_SUCCESS : c & 1 ? st == ERROR_THREAD_JOIN : st == K.code);
    REACH("done");
}
/* cases: 0 well; 1 memory; 2 init; 3 init, then memory cannot be returned */
//@ {"props":["C30","C04"],"cover":["thread_mutex_create"]}
CASEUNIT(4, mtx_create)
static void c_mtx_create(unsigned c)
{
    k_init(); K.fail = c >= 2 ? X_MINIT : 0; g.fail_at = c == 1 ? 0 : NONE; g.reclaim_fail_at = c == 3 ? 0 : NONE; mtx* m = NULL;
    status st = S(thread_mutex_create)(&m, &v_alloc);
    CHECK("mutex create: succeeds exactly when every step does", (st == STATUS_SUCCESS) == (c == 0));
    if (st == STATUS_SUCCESS) { CHECK("mutex create: an unlocked mutex", m != NULL && g.live == 1 && K.minit == 1 && K.locks == 0 && (void*)K.m == (void*)&m->mutex); CHECK("the handle of a mutex is its own", S(thread_mutex_resource_handle)(m) == &m->hdr); REACH("created"); }
    else { CHECK("mutex create: a failure keeps no memory", g.live == 0 && m == NULL && K.minit == K.mdest); REACH("refused"); }
}
static mtx* mk(void) { mtx* m = NULL; status st = S(thread_mutex_create)(&m, &v_alloc); ASSUME(st == STATUS_SUCCESS); return m; }
static cnd* mkc(void) { cnd* m = NULL; status st = S(thread_cond_create)(&m, &v_alloc); ASSUME(st == STATUS_SUCCESS); return m; }
//@ {"props":["C30","C05","C03"],"cover":["thread_mutex_release"]}
CASEUNIT(4, mtx_release)
static void c_mtx_release(unsigned c)
{
    k_init(); mtx* m = mk(); K.fail = c & 1 ? X_MDEST : 0; g.reclaim_fail_at = c & 2 ? 0 : NONE;
    status st = S(resource_release)(S(thread_mutex_resource_handle)(m));
    CHECK("mutex release: destroyed and its memory returned, once each", K.mdest == 1 && g.live == 0 && g.reclaims == 1 && K.unlocks == 0);
    CHECK("mutex release: failures are reported", (st == STATUS_SUCCESS) == (c == 0)); REACH("done");
}
/* cases: lock fails or not x unlock fails or not */
//@ {"props":["C30","C03"],"cover":["thread_mutex_lock_acquire","thread_mutex_lock_release"]}
CASEUNIT(4, lock)
static void c_lock(unsigned c)
{
    k_init(); mtx* m = mk(); K.fail = (c & 1 ? X_LOCK : 0) | (c & 2 ? X_UNLOCK : 0); lck* l = NULL;
    status st = S(thread_mutex_lock_acquire)(&l, m);
    CHECK("lock: held exactly when it succeeds", (st == STATUS_SUCCESS) == !(c & 1) && K.held == !(c & 1) && K.locks == 1 && K.unlocks == 0 && IMPL(c & 1, l == NULL && st == ERROR_THREAD_MUTEX_LOCK));
    if (st == STATUS_SUCCESS) {
        CHECK("the handle of a lock is its own", l != NULL && S(thread_mutex_lock_resource_handle)(l) == &l->hdr);
        st = S(resource_release)(S(thread_mutex_lock_resource_handle)(l));
        CHECK("unlock: releasing the lock unlocks that very mutex once, and says whether it did", K.unlocks == 1 && (st == STATUS_SUCCESS) == !(c & 2) && K.held == !!(c & 2) && K.mdest == 0 && g.live == 1);
        if (!(c & 2)) { lck* l2 = NULL; st = S(thread_mutex_lock_acquire)(&l2, m); CHECK("lock: the mutex can be locked again", st == STATUS_SUCCESS && l2 != NULL && K.held && K.locks == 2); }
        REACH("unlocked");
    }
    REACH("done");
}
//@ {"props":["C30","C04"],"cover":["thread_cond_create"]}
CASEUNIT(4, cnd_create)
static void c_cnd_create(unsigned c)
{
    k_init(); K.fail = c >= 2 ? X_CINIT : 0; g.fail_at = c == 1 ? 0 : NONE; g.reclaim_fail_at = c == 3 ? 0 : NONE; cnd* m = NULL;
    status st = S(thread_cond_create)(&m, &v_alloc);
    CHECK("condition create: succeeds exactly when every step does", (st == STATUS_SUCCESS) == (c == 0));
    if (st == STATUS_SUCCESS) { CHECK("condition create: a condition variable of its own", m != NULL && g.live == 1 && K.cinit == 1 && (void*)K.c == (void*)&m->cond); CHECK("the handle of a condition variable is its own", S(thread_cond_resource_handle)(m) == &m->hdr); REACH("created"); }
    else { CHECK("condition create: a failure keeps no memory", g.live == 0 && m == NULL && K.cinit == K.cdest); REACH("refused"); }
}
//@ {"props":["C30","C05","C03"],"cover":["thread_cond_release"]}
CASEUNIT(4, cnd_release)
static void c_cnd_release(unsigned c)
{
    k_init(); cnd* m = mkc(); K.fail = c & 1 ? X_CDEST : 0; g.reclaim_fail_at = c & 2 ? 0 : NONE;
    status st = S(resource_release)(S(thread_cond_resource_handle)(m));
    CHECK("condition release: destroyed and its memory returned, once each", K.cdest == 1 && g.live == 0 && g.reclaims == 1);
    CHECK("condition release: failures are reported", (st == STATUS_SUCCESS) == (c == 0)); REACH("done");
}
//@ {"props":["C30"],"cover":["thread_cond_wait","thread_cond_signal_one","thread_cond_signal_all"]}
CASEUNIT(6, cnd_ops)
static void c_cnd_ops(unsigned c)
{
    k_init(); mtx* m = mk(); cnd* v = mkc(); lck* l = NULL; status st = S(thread_mutex_lock_acquire)(&l, m); ASSUME(st == STATUS_SUCCESS);
    K.fail = c & 1 ? X_WAIT | X_SIG | X_BC : 0; lck* l0 = l;
    switch (c >> 1) {
    case 0: st = S(thread_cond_wait)(&l, v); CHECK("wait: once; the caller has its lock back", K.waits == 1 && l == l0 && K.held && K.sig == 0 && K.bc == 0 && K.locks == 1 && K.unlocks == 0); break;
    case 1: st = S(thread_cond_signal_one)(l, v); CHECK("signal: one waiter is signalled, once", K.sig == 1 && K.bc == 0 && K.waits == 0 && K.held); break;
    default: st = S(thread_cond_signal_all)(l, v); CHECK("signal: every waiter is signalled, once", K.bc == 1 && K.sig == 0 && K.waits == 0 && K.held); break;
    }
    CHECK("condition: failures are reported", (st == STATUS_SUCCESS) == !(c & 1)); REACH("done");
}
UNITS(U(thr_create) U(thr_release) U(mtx_create) U(mtx_release) U(lock) U(cnd_create) U(cnd_release) U(cnd_ops))
