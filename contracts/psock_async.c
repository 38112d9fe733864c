/* Contracts of the streams wrapped for non-blocking use.  The wrapped stream
 * and the wait for readiness are contract stand-ins: a transfer moves any part
 * of what is asked for, would block, or fails; the wait succeeds or fails. */
#include "common.h"
#include <rcpr/psock.h>
#include <sys/socket.h>
#include "psock/psock_internal.h"
typedef S(psock) ps_t; typedef S(psock_wrap_async) as_t;
static as_t as; static ps_t w;
static struct {
    int arr; unsigned n; uint8_t* data; size_t total, got; size_t* sz; _Bool block; int calls, waits; status last, wst; int wr; void* p1; void* p2; void* p3; int flags; int want; _Bool ended;
} K;
/* without a cut, few rounds (bounded runs only) */
static void rnd(void) { ++K.calls; CHECK("nothing is transferred after the end", !K.ended); if (K.arr == 0) ASSUME(++K.n <= 4); }
static status moved(size_t* n, status wb)
{
    unsigned k = nd_below(4);
    if (k == 0) { size_t m = nd_size(); ASSUME(m >= 1 && m <= *n); *n = m; K.got += m; return K.last = STATUS_SUCCESS; }
    if (k == 1) { *n = nd_size(); return K.last = wb; }
    K.ended = 1; if (k == 2) { *n = 0; return K.last = STATUS_SUCCESS; }
    *n = nd_size(); K.last = nd_int(); ASSUME(K.last != STATUS_SUCCESS && K.last != wb); return K.last;
}
static status w_read(ps_t* s, void* ctx, void* data, size_t* n, bool block)
{
    rnd(); CHECK("the wrapped stream is read, with its own context and as told to block or not", s == &w && ctx == w.context && block == K.block);
    CHECK("a read goes on exactly where the last one stopped, for exactly what is missing", data == K.data + K.got && *n == K.total - K.got && *n > 0);
    status st = moved(n, ERROR_PSOCK_READ_WOULD_BLOCK); if (st == ERROR_PSOCK_READ_WOULD_BLOCK && !block) K.ended = 1; return st;
}
static status w_write(ps_t* s, void* ctx, const void* data, size_t* n)
{
    rnd(); CHECK("the wrapped stream is written, with its own context", s == &w && ctx == w.context);
    CHECK("a write goes on exactly where the last one stopped, with exactly what is missing", data == K.data + K.got && *n == K.total - K.got && *n > 0);
    return moved(n, ERROR_PSOCK_WRITE_WOULD_BLOCK);
}
static status once(status wb) { unsigned k = nd_below(3); if (k == 0) return K.last = wb; K.ended = 1; if (k == 1) return K.last = STATUS_SUCCESS; K.last = nd_int(); ASSUME(K.last != STATUS_SUCCESS && K.last != wb); return K.last; }
static status w_accept(ps_t* s, void* ctx, int* d, struct sockaddr* a, socklen_t* l)
{
    rnd(); CHECK("the wrapped stream accepts, with its own context, for the caller's results", s == &w && ctx == w.context && d == K.p1 && a == K.p2 && l == K.p3); return once(ERROR_PSOCK_ACCEPT_WOULD_BLOCK);
}
static status w_sendmsg(ps_t* s, void* ctx, const struct msghdr* m, int fl)
{
    rnd(); CHECK("the wrapped stream sends the caller's message, with its own context", s == &w && ctx == w.context && (void*)m == K.p1 && fl == K.flags); return once(ERROR_PSOCK_WRITE_WOULD_BLOCK);
}
static status w_recvmsg(ps_t* s, void* ctx, struct msghdr* m, size_t* l, int fl)
{
    rnd(); CHECK("the wrapped stream receives the caller's message, with its own context", s == &w && ctx == w.context && m == K.p1 && l == K.p2 && fl == K.flags); return once(ERROR_PSOCK_READ_WOULD_BLOCK);
}
static status w_release(S(resource)* r) { (void)r; CHECK("a transfer releases nothing", 0); return STATUS_SUCCESS; }
static const S(psock_vtable) w_vt = { .hdr = { &w_release }, .read_fn = &w_read, .write_fn = &w_write, .accept_fn = &w_accept, .sendmsg_fn = &w_sendmsg, .recvmsg_fn = &w_recvmsg };
static const S(psock_vtable) w_none = { .hdr = { &w_release }, .read_fn = &w_read, .write_fn = &w_write };
static status waits(ps_t* s, int wr, status wb)
{
    CHECK("a fiber waits on its own stream, in the right direction, only because the wrapped one would block, and not when told not to", s == (ps_t*)&as && K.wr == wr && K.last == wb && K.waits < K.calls && !K.ended);
    K.last = STATUS_SUCCESS; ++K.waits; if (nd_bool()) { K.ended = 1; K.wst = nd_int(); ASSUME(K.wst != STATUS_SUCCESS); return K.wst; }
    return STATUS_SUCCESS;
}
status S(psock_read_block)(ps_t* s) { return waits(s, 0, K.want); }
status S(psock_write_block)(ps_t* s) { return waits(s, 1, K.want); }
static void mk(_Bool none, int want, int wr)
{
    v_init(NONE, NONE); K.arr = 0; K.n = 0; K.calls = K.waits = 0; K.last = K.wst = STATUS_SUCCESS; K.got = 0; K.ended = 0; K.want = want; K.wr = wr; K.block = 1; K.sz = NULL;
    memset(&as, 0, sizeof(as)); memset(&w, 0, sizeof(w)); as.wrapped = &w; as.hdr.type = PSOCK_TYPE_WRAP_ASYNC; w.context = (void*)(uintptr_t)nd_u64(); as.hdr.context = (void*)(uintptr_t)nd_u64();
    if (none) S(resource_init)(&w.hdr, &w_none.hdr); else S(resource_init)(&w.hdr, &w_vt.hdr);
}
/* the head of the loops: an arbitrary part has been transferred */
static _Bool xfer_cut(size_t* left, uint8_t** p)
{
    if (K.arr++ == 0) {
        CHECK("ATTACH transfer: begins with nothing transferred", *left == K.total && *p == K.data && K.got == 0);
        K.got = nd_size(); ASSUME(K.got <= K.total); *left = K.total - K.got; *p = K.data + K.got; K.calls = (int)nd_below(1000); K.waits = (int)nd_below(1000); ASSUME(K.waits <= K.calls); K.last = nd_bool() ? STATUS_SUCCESS : K.want;
        if (K.sz) *K.sz = K.got;
    } else {
        CHECK("ATTACH transfer: goes on with the rest", *left == K.total - K.got && *p == K.data + K.got && IMPL(K.sz, *K.sz == K.got));
        CHECK("transfer: goes on only while nothing has failed", !K.ended); REACH("round"); ASSUME(0);
    }
    return 1;
}
_Bool v_cut_psock_wrap_async_read_0(void* left, void* p) { return xfer_cut(left, p); }
_Bool v_cut_psock_wrap_async_write_0(void* left, void* p) { return xfer_cut(left, p); }
/* 0 reading, 1 reading without blocking */
//@ {"uncut":true,"props":["C25"],"unwind":8,"cuts":{"psock_wrap_async_read":[["read_size","dptr"]]},"cover":["psock_wrap_async_read"]}
CASEUNIT(2, read)
static void c_read(unsigned c)
{
    mk(0, ERROR_PSOCK_READ_WOULD_BLOCK, 0); K.block = c == 0; K.total = nd_upto(1 << 20); uint8_t* b = malloc(K.total + 1); ASSUME(b != NULL); K.data = b; size_t n = K.total; K.sz = &n;
    status st = S(psock_wrap_async_read)((ps_t*)&as, as.hdr.context, b, &n, K.block);
    CHECK("async read: the caller is told exactly how much it got", n == K.got);
    CHECK("async read: success means all of it, or, when told not to block, what was there", IMPL(st == STATUS_SUCCESS, K.got == K.total || (!K.block && K.last == ERROR_PSOCK_READ_WOULD_BLOCK && K.got > 0)));
    CHECK("async read: everything there is succeeds", IMPL(K.got == K.total, st == STATUS_SUCCESS));
    if (st != STATUS_SUCCESS) CHECK("async read: the error is the wait's, the stream's, its end, or that it would block", st == (K.wst ? K.wst : K.last ? K.last : ERROR_PSOCK_READ_EOF) && K.ended);
    if (K.block) CHECK("async read: a blocking caller never sees that the stream would block", IMPL(K.wst == STATUS_SUCCESS, st != ERROR_PSOCK_READ_WOULD_BLOCK));
    REACH("done"); free(b);
}
//@ {"uncut":true,"props":["C25"],"unwind":8,"cuts":{"psock_wrap_async_write":[["write_size","dptr"]]},"cover":["psock_wrap_async_write"]}
void H_write(void)
{
    mk(0, ERROR_PSOCK_WRITE_WOULD_BLOCK, 1); K.total = nd_upto(1 << 20); uint8_t* b = malloc(K.total + 1); ASSUME(b != NULL); K.data = b; size_t n = K.total;
    status st = S(psock_wrap_async_write)((ps_t*)&as, as.hdr.context, b, &n);
    CHECK("async write: the caller is told exactly how much was written", n == K.got);
    CHECK("async write: succeeds exactly when all of it is written", (st == STATUS_SUCCESS) == (K.got == K.total));
    if (st != STATUS_SUCCESS) CHECK("async write: the error is the wait's, the stream's, or its end", st == (K.wst ? K.wst : K.last ? K.last : ERROR_PSOCK_WRITE_EOF) && K.ended);
    CHECK("async write: a caller never sees that the stream would block", IMPL(K.wst == STATUS_SUCCESS, st != ERROR_PSOCK_WRITE_WOULD_BLOCK));
    REACH("done"); free(b);
}
static _Bool once_cut(void)
{
    if (K.arr++ == 0) { K.calls = (int)nd_below(1000); K.waits = (int)nd_below(1000); ASSUME(K.waits <= K.calls); K.last = nd_bool() ? STATUS_SUCCESS : K.want; }
    else { CHECK("ATTACH goes on only while nothing has failed", !K.ended); REACH("round"); ASSUME(0); }
    return 1;
}
_Bool v_cut_psock_wrap_async_accept_0(void* acc) { if (K.arr) CHECK("ATTACH accept: not accepted", !*(bool*)acc || K.ended); if (K.arr && K.ended && *(bool*)acc) return 1; return once_cut(); }
_Bool v_cut_psock_wrap_async_sendmsg_0(void) { return once_cut(); }
_Bool v_cut_psock_wrap_async_recvmsg_0(void) { return once_cut(); }
#define OUTCOME(st) CHECK("the outcome is the stream's, or the wait's; never that it would block", (st) == (K.wst ? K.wst : K.last) && K.ended && IMPL(K.wst == STATUS_SUCCESS, (st) != K.want)); REACH("done")
#define UNDEF(st) if (c) { CHECK("a method the wrapped stream lacks is an error", (st) == ERROR_PSOCK_METHOD_UNDEFINED && K.calls == 0 && K.waits == 0); REACH("undefined"); return; }
/* 0 defined, 1 not */
//@ {"uncut":true,"props":["C25"],"unwind":8,"cuts":{"psock_wrap_async_accept":[["accepted"]]},"cover":["psock_wrap_async_accept"]}
CASEUNIT(2, accept)
static void c_accept(unsigned c)
{
    mk(c, ERROR_PSOCK_ACCEPT_WOULD_BLOCK, 0); int d = -1; struct sockaddr sa; socklen_t l = sizeof(sa); K.p1 = &d; K.p2 = &sa; K.p3 = &l;
    status st = S(psock_wrap_async_accept)((ps_t*)&as, as.hdr.context, &d, &sa, &l); UNDEF(st); OUTCOME(st);
}
//@ {"uncut":true,"props":["C25"],"unwind":8,"cuts":{"psock_wrap_async_sendmsg":[[]]},"cover":["psock_wrap_async_sendmsg"]}
CASEUNIT(2, sendmsg)
static void c_sendmsg(unsigned c)
{
    mk(c, ERROR_PSOCK_WRITE_WOULD_BLOCK, 1); struct msghdr m; K.p1 = &m; K.flags = nd_int();
    status st = S(psock_wrap_async_sendmsg)((ps_t*)&as, as.hdr.context, &m, K.flags); UNDEF(st); OUTCOME(st);
}
//@ {"uncut":true,"props":["C25"],"unwind":8,"cuts":{"psock_wrap_async_recvmsg":[[]]},"cover":["psock_wrap_async_recvmsg"]}
CASEUNIT(2, recvmsg)
static void c_recvmsg(unsigned c)
{
    mk(c, ERROR_PSOCK_READ_WOULD_BLOCK, 0); struct msghdr m; size_t l = nd_size(); K.p1 = &m; K.p2 = &l; K.flags = nd_int();
    status st = S(psock_wrap_async_recvmsg)((ps_t*)&as, as.hdr.context, &m, &l, K.flags); UNDEF(st); OUTCOME(st);
}
UNITS(U(read) U(write) U(accept) U(sendmsg) U(recvmsg))
