/* Contracts of the buffered reader (src/psock/psock_br_*).
 *
 * The underlying stream is known by its contract: a read delivers some number
 * of the next bytes (0: the end), or an error.  G.D is the position in the
 * stream of the first byte the reader has not yet delivered; the bytes from
 * there on are the buffered ones, then the ones still in the stream.
 * G.W is an arbitrary position, G.wv the byte there. */
#define V_SYMALLOC
#include "common.h"
#include "enum.h"
#include <rcpr/psock.h>
#include "psock/psock_internal.h"
#include "psock/psock_br_create_from_psock.c"   /* the real constructor and its method table */
typedef S(psock) psock; typedef S(psock_br) br_t; typedef S(resource) resource; typedef S(allocator) allocator;
#define MAXN ((size_t)1 << 40)
#ifdef MODE_N
#define __CPROVER_r_ok(p, n) 1
#define __CPROVER_w_ok(p, n) 1
#define __CPROVER_havoc_slice(p, n) ((void)0)
#define __CPROVER_havoc_object(p) ((void)0)
#endif
#if defined(STUB_MEM)
#include "memlog.h"
#else
#define ml_init() ((void)0)
#define ml_add(d, s, n) ((void)0)
#endif
struct {
    br_t b; psock w; int ctx; size_t room;
    uint8_t* S_; size_t D, W; uint8_t wv;
    int reads, fills, arr, arr2, arr3; status err; size_t got; _Bool ended;
    uint8_t* dst; size_t n, D0, c0, c1, a0, r0; _Bool block;
    int acc, snd, rcv, wr; status pst; void *q1, *q2, *q3; int fl;
} G;
static status w_read(psock* s, void* c, void* d, size_t* n, bool b)
{
    CHECK("the underlying stream is read on itself with its own context", s == &G.w && c == &G.ctx); (void)b;
    CHECK("the underlying stream may fill no more than the free room", *n <= G.room && __CPROVER_w_ok(d, *n));
    ++G.reads;
    if (nd_bool()) { G.err = nd_int(); ASSUME(G.err != STATUS_SUCCESS); *n = nd_size(); return G.err; }
    size_t a = nd_size(); ASSUME(a <= *n);
    G.got = a; if (a == 0) G.ended = 1;
    ml_add(d, G.S_ + (G.D + G.c0), a);
    *n = a; return STATUS_SUCCESS;
}
static status w_write(psock* s, void* c, const void* d, size_t* n) { CHECK("a write goes to the underlying stream, as given", s == &G.w && c == &G.ctx && d == G.q1 && n == G.q2); ++G.wr; return G.pst; }
static status w_accept(psock* s, void* c, int* d, struct sockaddr* a, socklen_t* l) { CHECK("an accept goes to the underlying stream, as given", s == &G.w && c == &G.ctx && d == G.q1 && a == G.q2 && l == G.q3); ++G.acc; return G.pst; }
static status w_sendmsg(psock* s, void* c, const struct msghdr* m, int f) { CHECK("a sendmsg goes to the underlying stream, as given", s == &G.w && c == &G.ctx && m == G.q1 && f == G.fl); ++G.snd; return G.pst; }
static status w_recvmsg(psock* s, void* c, struct msghdr* m, size_t* l, int f) { CHECK("a recvmsg goes to the underlying stream, as given", s == &G.w && c == &G.ctx && m == G.q1 && l == G.q2 && f == G.fl); ++G.rcv; return G.pst; }
static status w_release(resource* r) { (void)r; CHECK("the underlying stream stays its owner's", 0); return 0; }
static const S(psock_vtable) w_vt = { .hdr = { &w_release }, .read_fn = &w_read, .write_fn = &w_write, .accept_fn = &w_accept, .sendmsg_fn = &w_sendmsg, .recvmsg_fn = &w_recvmsg };
static const S(psock_vtable) w_vt0 = { .hdr = { &w_release }, .read_fn = &w_read, .write_fn = &w_write };
static void r_init(void)
{
    v_init(NONE, NONE);
    G.room = 0; G.S_ = NULL; G.D = G.W = G.D0 = 0; G.wv = 0; G.reads = G.fills = G.arr = G.arr2 = G.arr3 = 0; G.err = 0; G.got = 0; G.ended = 0; G.dst = NULL; G.n = G.c0 = G.c1 = G.a0 = G.r0 = 0; G.block = 0;
    G.acc = G.snd = G.rcv = G.wr = 0; G.pst = nd_int(); G.q1 = G.q2 = G.q3 = NULL; G.fl = nd_int();
    S(resource_init)(&G.w.hdr, &w_vt.hdr); G.w.context = &G.ctx; G.w.type = PSOCK_TYPE_USER; G.w.socktype = 0; G.w.alloc = &v_alloc;
    S(resource_init)(&G.b.hdr.hdr, &psock_br_vtable.hdr); G.b.hdr.context = NULL; G.b.hdr.type = PSOCK_TYPE_BUFFERED; G.b.hdr.socktype = 0; G.b.hdr.alloc = &v_alloc;
    G.b.wrapped = &G.w; G.b.buffer = NULL; G.b.max_size = G.b.current_size = G.b.offset = 0; G.b.error = 0;
    ml_init();
}
/* any state of a reader: any buffer size, fill and offset */
static void r_any(void)
{
    size_t m = nd_size(), c = nd_size(), o = nd_size(); ASSUME(m > 0 && m < MAXN && c <= m && o <= c);
    G.b.buffer = malloc(m); ASSUME(G.b.buffer != NULL); G.b.max_size = m; G.b.current_size = c; G.b.offset = o;
    G.D = nd_size(); ASSUME(G.D < MAXN);
}
#ifdef STUB_MEM
/* ---- filling ---- */
//@ {"props":["C22"],"defs":["STUB_MEM"],"cover":["psock_br_fill"],"assumes":["memmove meets its C standard contract (stated as a log of moves)"]}
void H_br_fill(void)
{
#ifndef MODE_N
    r_init(); r_any();
    size_t m = G.b.max_size; uint8_t* buf = G.b.buffer;
    G.c0 = G.b.current_size - G.b.offset; G.room = m - G.c0;
    G.S_ = malloc(MAXN * 4); ASSUME(G.S_ != NULL);
    ml_add(buf + G.b.offset, G.S_ + G.D, G.c0);      /* what is buffered is what the stream holds next */
    status st = S(psock_br_fill)(&G.b);
    size_t k = nd_size(); size_t c = G.b.current_size - G.b.offset;
    CHECK("fill: the reader stays well formed", G.b.buffer == buf && G.b.max_size == m && G.b.wrapped == &G.w && G.b.offset <= G.b.current_size && G.b.current_size <= m);
    CHECK("fill: one read of the underlying stream", G.reads == 1);
    CHECK("fill: what the underlying stream delivered is buffered, nothing else", c == G.c0 + (G.err ? 0 : G.got));
    CHECK("fill: buffered bytes are the stream's next bytes, in order, none lost or repeated", IMPL(k < c, HOLDS(buf + G.b.offset + k, G.S_ + G.D + k, 0)));
    CHECK("fill: success exactly when bytes arrived; an error is passed on", G.err ? st == G.err : G.got > 0 ? st == STATUS_SUCCESS : st == ERROR_PSOCK_READ_GENERAL);
    if (G.err) REACH("error"); else if (G.ended) REACH("end"); else REACH("more");
#endif
}
#if !defined(STUB_FILL)
UNITS(U(br_fill))
#endif
#endif
#ifdef STUB_FILL
/* psock_br_fill by its contract (proved above) */
status S(psock_br_fill)(br_t* b)
{
    CHECK("the reader itself is refilled", b == &G.b);
    ++G.fills;
    size_t c = b->current_size - b->offset;
    CHECK("a refill finds the reader well formed", b->offset <= b->current_size && b->current_size <= b->max_size);
    b->offset = 0; b->current_size = c;
#ifdef STUB_MEM
    CHECK("ATTACH refilled only when empty", c == 0);
#else
    CHECK("ATTACH refilled only when empty", c == 0);
    __CPROVER_havoc_object(b->buffer);
#endif
    if (nd_bool()) { G.err = nd_int(); ASSUME(G.err != STATUS_SUCCESS); return G.err; }
    size_t a = nd_size(); ASSUME(a > 0 && a <= b->max_size);
    b->current_size = a;
#ifdef STUB_MEM
    ml_add(b->buffer, G.S_ + G.D, a);
#else
    ASSUME(IMPL(G.W >= G.D && G.W - G.D < a, b->buffer[G.W - G.D] == G.wv));
#endif
    return STATUS_SUCCESS;
}
#endif
#if defined(STUB_FILL) && defined(STUB_MEM)
/* ---- sized reads ---- */
/* in the loop: so many bytes are delivered, the rest is asked for, the reader is well formed */
_Bool v_cut_psock_br_psock_read_0(void* vav, void* vrd, void* vrq, void* vbd)
{
    size_t *av = vav, *rd = vrd, *rq = vrq; uint8_t** bd = vbd;
    if (G.arr++ == 0) {
        CHECK("ATTACH sized read: starts with nothing delivered", *rd == 0 && *rq == G.n && *bd == G.dst && *av == G.b.current_size - G.b.offset);
        if (!G.block) return 1;    /* one pass only */
        size_t c = nd_size(), o = nd_size(); ASSUME(c <= G.b.max_size && o <= c); G.b.current_size = c; G.b.offset = o;
        size_t r = nd_size(); ASSUME(r <= G.n);
        *rd = r; *rq = G.n - r; *bd = G.dst + r; *av = c - o;
        G.D = G.D0 + r; ml_init();
        ml_add(G.dst, G.S_ + G.D0, r); ml_add(G.b.buffer + o, G.S_ + G.D, c - o); G.r0 = r; G.a0 = c - o;
    } else {
        size_t r = *rd;
        CHECK("ATTACH sized read: loop bookkeeping", r <= G.n && *rq == G.n - r && *bd == G.dst + r && *av == G.b.current_size - G.b.offset);
        CHECK("sized read: every round delivers something", r > G.r0);
        CHECK("sized read: the reader stays well formed", G.b.offset <= G.b.current_size && G.b.current_size <= G.b.max_size);
        CHECK("sized read: what is delivered is the stream's, in order", IMPL(G.W < r, HOLDS(G.dst + G.W, G.S_ + G.D0 + G.W, 0)));
        size_t k = nd_size();
        CHECK("sized read: what is delivered is consumed, nothing else", IMPL(k < *av, HOLDS(G.b.buffer + G.b.offset + k, G.S_ + G.D0 + r + k, 0)));
        ASSUME(0);
    }
    return 1;
}
static void c_br_read(unsigned c);
//@ {"props":["C22"],"defs":["STUB_MEM","STUB_FILL"],"split":true,"cuts":{"psock_br_psock_read":[["available_bytes","read_bytes","requested_bytes","bdata"]]},"cover":["psock_br_psock_read"],"assumes":["memcpy meets its C standard contract (stated as a log of moves)"]}
CASEUNIT(2, br_read)
static void c_br_read(unsigned c)
{
#ifndef MODE_N
    r_init(); r_any(); G.block = c;
    size_t m = G.b.max_size; uint8_t* buf = G.b.buffer; size_t av = G.b.current_size - G.b.offset;
    G.S_ = malloc(MAXN * 4); ASSUME(G.S_ != NULL); G.D0 = G.D;
    ml_add(buf + G.b.offset, G.S_ + G.D, av);
    G.n = nd_size(); ASSUME(G.n > 0 && G.n < MAXN); G.dst = malloc(G.n); ASSUME(G.dst != NULL);
    G.W = nd_size();
    size_t sz = G.n, k = nd_size();
    status st = psock_br_vtable.read_fn(&G.b.hdr, NULL, G.dst, &sz, G.block);
    CHECK("sized read: never more than asked for", sz <= G.n);
    CHECK("sized read: the reader stays well formed", G.b.buffer == buf && G.b.max_size == m && G.b.offset <= G.b.current_size && G.b.current_size <= m);
    CHECK("sized read: what is delivered is the stream's, in order", IMPL(G.W < sz, HOLDS(G.dst + G.W, G.S_ + G.D0 + G.W, 0)));
    CHECK("sized read: what is delivered is consumed, nothing else", IMPL(k < G.b.current_size - G.b.offset, HOLDS(buf + G.b.offset + k, G.S_ + G.D0 + sz + k, 0)));
    CHECK("sized read: an error is reported exactly when the stream gave one", G.err ? st == G.err : st == STATUS_SUCCESS);
    if (st == STATUS_SUCCESS) CHECK("sized read: something is delivered, everything if it is to wait", sz > 0 && IMPL(G.block, sz == G.n));
    if (G.err) CHECK("sized read: an error is reported only with the buffered bytes delivered first", G.b.current_size == G.b.offset && IMPL(!G.block, av == 0));
    if (st) REACH("error"); else REACH("success");
#endif
}
UNITS(U(br_read))
#endif
#if defined(STUB_FILL) && !defined(STUB_MEM)
/* ---- lines ---- */
/* G.D: stream position of the next buffered byte; bytes G.D0 .. are those of this call.
 * Outer loop: k = G.c1 bytes have been taken from the stream and written. */
static void line_state(size_t k, size_t rem, size_t av, size_t off_av)
{
    (void)rem; (void)off_av;
    CHECK("line: text written is the stream's, in order", IMPL(G.W >= G.D0 && G.W - G.D0 < k, G.dst[G.W - G.D0] == G.wv));
    CHECK("line: text written holds no line feed", IMPL(G.W >= G.D0 && G.W - G.D0 < k, G.wv != '\n'));
    CHECK("line: what follows is still to be delivered", IMPL(G.W >= G.D0 + k && G.W - G.D0 - k < av, G.b.buffer[G.b.current_size - av + (G.W - G.D0 - k)] == G.wv));
}
static void line_any(size_t k, size_t av)
{
    __CPROVER_havoc_object(G.dst); __CPROVER_havoc_object(G.b.buffer);
    ASSUME(IMPL(G.W >= G.D0 && G.W - G.D0 < k, G.dst[G.W - G.D0] == G.wv && G.wv != '\n'));
    ASSUME(IMPL(G.W >= G.D0 + k && G.W - G.D0 - k < av, G.b.buffer[G.b.current_size - av + (G.W - G.D0 - k)] == G.wv));
}
/* locals: available_input buffer_remaining committed_bytes copied_bytes bbuf inp */
_Bool v_cut_psock_br_read_line_0(void* va, void* vr, void* vcm, void* vcp, void* vb, void* vi)
{
    size_t *av = va, *rem = vr, *cm = vcm, *cp = vcp; uint8_t** bb = vb; const uint8_t** in = vi;
    CHECK("ATTACH line: nothing is pending at the head", *cp == 0 && *rem > 0);
    CHECK("ATTACH line: bookkeeping", *cm + *rem == G.n - 1 && *bb == G.dst + *cm && *in == G.b.buffer + G.b.offset && *av == G.b.current_size - G.b.offset && G.b.offset <= G.b.current_size && G.b.current_size <= G.b.max_size);
    if (G.arr++ == 0) {
        line_state(*cm, *rem, *av, *av);
        size_t c = nd_size(), o = nd_size(), k = nd_size(); ASSUME(c <= G.b.max_size && o <= c && k < G.n - 1);
        G.b.current_size = c; G.b.offset = o; *cm = k; *cp = 0; *rem = G.n - 1 - k; *bb = G.dst + k; *in = G.b.buffer + o; *av = c - o;
        G.D = G.D0 + k; line_any(k, *av); G.r0 = *rem; G.a0 = *av; G.err = 0; G.b.error = nd_bool();
    } else {
        line_state(*cm, *rem, *av, *av);
        CHECK("line: every round gets somewhere", *rem < G.r0 || (*rem == G.r0 && G.a0 == 0 && *av > 0));
        CHECK("line: goes on only while the stream does", G.err == 0);
        ASSUME(0);
    }
    return 1;
}
_Bool v_cut_psock_br_read_line_1(void* va, void* vr, void* vcm, void* vcp, void* vb, void* vi)
{
    size_t *av = va, *rem = vr, *cm = vcm, *cp = vcp; uint8_t** bb = vb; const uint8_t** in = vi;
    size_t k = *cm + *cp;
    CHECK("ATTACH line copy: bookkeeping", *cp <= G.b.current_size - G.b.offset && k + *rem == G.n - 1 && *bb == G.dst + k && *in == G.b.buffer + G.b.offset + *cp && *av == G.b.current_size - G.b.offset - *cp);
    line_state(k, *rem, *av, 0);
    if (G.arr2++ == 0) {
        size_t p = nd_size(); ASSUME(p <= G.b.current_size - G.b.offset && p <= *rem);
        *rem -= p; *av -= p; *cp = p; *bb += p; *in += p; k += p;
        line_any(k, *av); G.c1 = *rem; G.D = G.D0 + k;
    } else { CHECK("line copy: every round copies", *rem < G.c1); ASSUME(0); }
    return 1;
}
//@ {"props":["C22"],"defs":["STUB_FILL"],"split":true,"cuts":{"psock_br_read_line":[["available_input","buffer_remaining","committed_bytes","copied_bytes","bbuf","inp"],["available_input","buffer_remaining","committed_bytes","copied_bytes","bbuf","inp"]]},"cover":["psock_br_read_line"]}
void H_br_line(void)
{
#ifndef MODE_N
    r_init(); r_any(); G.b.error = nd_bool();
    size_t m = G.b.max_size; uint8_t* buf = G.b.buffer; size_t av = G.b.current_size - G.b.offset;
    G.n = nd_size(); ASSUME(G.n < MAXN); G.dst = malloc(G.n); ASSUME(G.dst != NULL);
    G.D0 = G.D; G.W = nd_size(); G.wv = nd_u8(); ASSUME(IMPL(G.W >= G.D && G.W - G.D < av, buf[G.b.offset + (G.W - G.D)] == G.wv));
    size_t sz = G.n;
    status st = S(psock_br_read_line)(G.dst, &sz, &G.b);
    if (G.n <= 1) { CHECK("line: a buffer without room for text is refused, nothing consumed", st == ERROR_PSOCK_BR_READ_LINE_BUFFER_SIZE_TOO_SMALL && sz == G.n && G.b.current_size - G.b.offset == av && G.fills == 0); REACH("too small"); return; }
    CHECK("line: the reader stays well formed", G.b.buffer == buf && G.b.max_size == m && G.b.offset <= G.b.current_size && G.b.current_size <= m);
    CHECK("line: a size given back fits the buffer", sz <= G.n);
    /* text delivered: k bytes; then perhaps a line feed consumed */
    size_t k = st == STATUS_SUCCESS ? sz - 1 : st == ERROR_PSOCK_BR_READ_LINE_TRUNCATED ? sz : 0;
    _Bool here = G.W >= G.D0; size_t i = G.W - G.D0, left = G.b.current_size - G.b.offset;
    if (st == STATUS_SUCCESS || st == ERROR_PSOCK_BR_READ_LINE_TRUNCATED) {
        CHECK("line: the size counts the text", k < G.n && IMPL(st == STATUS_SUCCESS, sz > 0));
        CHECK("line: terminated", G.dst[k] == 0);
        CHECK("line: the text is the stream's, in order", IMPL(here && i < k, G.dst[i] == G.wv));
        CHECK("line: no line feed within the text", IMPL(here && i < k, G.wv != '\n'));
    }
    if (st == ERROR_PSOCK_BR_READ_LINE_TRUNCATED) {
        CHECK("line: cut short only when the buffer is full", k == G.n - 1);
        CHECK("line: the rest is delivered next, from its first byte", IMPL(here && i >= k && i - k < left, buf[G.b.offset + (i - k)] == G.wv));
        REACH("truncated");
    } else if (st == STATUS_SUCCESS) {
        if (G.b.error && left == 0 && (G.err || nd_bool())) { CHECK("line: at the end the text before it is the last line", k > 0 || G.err == 0); REACH("last line"); }
        else {
            CHECK("line: complete only at a line feed or at the end", (G.b.error && left == 0) || IMPL(here && i == k, G.wv == '\n'));
            CHECK("line: what follows the line feed is delivered next", IMPL(here && i > k && i - k - 1 < left, buf[G.b.offset + (i - k - 1)] == G.wv));
            REACH("line");
        }
    } else {
        CHECK("line: fails only at the end or on an error, with no text pending", st == ERROR_PSOCK_READ_GENERAL && G.b.error && left == 0);
        CHECK("line: the size is left alone on failure", sz == G.n);
        REACH("error");
    }
#endif
}
UNITS(U(br_line))
#endif
#if !defined(STUB_MEM) && !defined(STUB_FILL)
/* ---- passing through ---- */
//@ {"props":["C22","C01"],"cover":["psock_br_psock_write","psock_br_psock_accept","psock_br_psock_sendmsg","psock_br_psock_recvmsg","psock_br_psock_adapter"]}
CASEUNIT(2, br_pass)
static void c_br_pass(unsigned c)
{
    r_init(); if (c) G.w.hdr.vtable = &w_vt0.hdr;
    char d; size_t n; int desc; socklen_t l; struct msghdr m; struct sockaddr sa;
    psock* s = S(psock_br_psock_adapter)(&G.b);
    CHECK("the stream view is the reader itself", s == &G.b.hdr);
    const S(psock_vtable)* vt = (const S(psock_vtable)*)s->hdr.vtable;
    G.q1 = &d; G.q2 = &n;
    CHECK("a write is answered by the underlying stream", vt->write_fn(s, NULL, &d, &n) == G.pst && G.wr == 1);
    G.q1 = &desc; G.q2 = &sa; G.q3 = &l;
    CHECK("an accept is answered by the underlying stream, if it can", vt->accept_fn(s, NULL, &desc, &sa, &l) == (c ? ERROR_PSOCK_METHOD_UNDEFINED : G.pst) && G.acc == !c);
    G.q1 = &m; G.q2 = NULL;
    CHECK("a sendmsg is answered by the underlying stream, if it can", vt->sendmsg_fn(s, NULL, &m, G.fl) == (c ? ERROR_PSOCK_METHOD_UNDEFINED : G.pst) && G.snd == !c);
    G.q2 = &n;
    CHECK("a recvmsg is answered by the underlying stream, if it can", vt->recvmsg_fn(s, NULL, &m, &n, G.fl) == (c ? ERROR_PSOCK_METHOD_UNDEFINED : G.pst) && G.rcv == !c);
    CHECK("the handle of a reader is its own", S(psock_br_resource_handle)(&G.b) == &G.b.hdr.hdr && G.reads == 0);
    REACH("done");
}
static void c_br_create(unsigned c);
//@ {"props":["C04","C22"],"cover":["psock_br_create_from_psock"]}
CASEUNIT(3, br_create)
static void c_br_create(unsigned c)
{
    r_init(); g.fail_at = (int)c - 1; br_t* b = NULL; G.w.alloc = &v_other;
    status st = S(psock_br_create_from_psock)(&b, &v_alloc, &G.w);
    CHECK("reader create: fails exactly when memory is refused", (st == STATUS_SUCCESS) == (g.oom == 0));
    if (st == STATUS_SUCCESS) {
        CHECK("reader create: an empty reader over the stream and allocator given", b != NULL && b->wrapped == &G.w && b->hdr.alloc == &v_alloc && b->hdr.type == PSOCK_TYPE_BUFFERED
            && b->offset == b->current_size && b->max_size > 0 && b->buffer == g.last && b->max_size <= g.last_size && !b->error && g.live == 2);
        REACH("created");
    } else { CHECK("reader create: a failure keeps nothing and hands out nothing", g.live == 0 && b == NULL); REACH("refused"); }
}
static void c_br_release(unsigned c);
//@ {"props":["C05","C03"],"cover":["psock_br_release","psock_br_resource_handle"]}
CASEUNIT(3, br_release)
static void c_br_release(unsigned c)
{
    r_init(); g.reclaim_fail_at = (int)c - 1;
    br_t* b = NEW(br_t); *b = G.b; b->max_size = 64; b->buffer = v_new(64); b->current_size = nd_upto(64); b->offset = 0; b->hdr.alloc = &v_alloc;
    status st = S(resource_release)(S(psock_br_resource_handle)(b));
    CHECK("reader release: all its memory goes back, the stream stays", g.live == 0 && g.reclaims == 2);
    CHECK("reader release: a failure is reported", (st == STATUS_SUCCESS) == (g.reclaim_failed == 0));
    REACH("done");
}
/* ---- exhaustive searches: every short stream, chunking and mix of reads ---- */
#ifdef MODE_N
#ifndef NS
#define NS 4
#endif
static uint8_t st_[16]; static int sn, sp, failed; static status fst;
static status x_read(psock* s, void* c, void* d, size_t* n, bool b)
{
    (void)s; (void)c; (void)b; int left = sn - sp, k = *n > (size_t)left ? left : (int)*n;
    if (*n == 0) { return 0; }
    if (k == 0) { if (fst) { ++failed; return fst; } *n = 0; return 0; }
    k -= ex_choose(k); memcpy(d, st_ + sp, k); sp += k; *n = k; return 0;
}
static const S(psock_vtable) x_vt = { .hdr = { &w_release }, .read_fn = &x_read };
static void mix(int line, int max)
{
    r_init(); G.w.hdr.vtable = &x_vt.hdr; sn = ex_choose(NS + 1); sp = 0; failed = 0; fst = ex_choose(2) ? 99 : 0;
    for (int i = 0; i < sn; ++i) st_[i] = line && ex_choose(2) ? '\n' : (uint8_t)('a' + i);
    br_t* b = NULL; status s = S(psock_br_create_from_psock)(&b, &v_alloc, &G.w); CHECK("reader create: succeeds", s == 0 && b);
    if (max) b->max_size = max;
    int pos = 0, calls = 0; psock* v = S(psock_br_psock_adapter)(b);
    for (;;) {
        CHECK("reading comes to the end of the stream", ++calls < 40);
        uint8_t o[12]; memset(o, 0xEE, sizeof o);
        if (line && calls % 2) {
            size_t cap = 2 + ex_choose(3), z = cap; s = S(psock_br_read_line)(o, &z, b);
            for (size_t i = cap; i < sizeof o; ++i) CHECK("line: never beyond the buffer", o[i] == 0xEE);
            if (s != 0 && s != ERROR_PSOCK_BR_READ_LINE_TRUNCATED) { CHECK("line: fails only at the end, with everything delivered", pos == sn && z == cap); break; }
            size_t k = s == 0 ? z - 1 : z; CHECK("line: size in range", z >= (s == 0) && k < cap && o[k] == 0);
            CHECK("line: text is the stream's next", pos + (int)k <= sn && !memcmp(o, st_ + pos, k) && !memchr(o, '\n', k)); pos += k;
            if (s == 0) { if (pos < sn) { CHECK("line: complete at the line feed", st_[pos] == '\n'); ++pos; } else CHECK("line: the last text ends with the stream", k > 0); }
            else CHECK("line: cut short only when full", k == cap - 1);
        } else {
            size_t want = 1 + ex_choose(4), z = want; _Bool blk = ex_choose(2);
            if (blk) { s = ((const S(psock_vtable)*)v->hdr.vtable)->read_fn(v, NULL, o, &z, true); }
            else s = S(psock_read_raw)(v, o, &z);
            for (size_t i = want; i < sizeof o; ++i) CHECK("sized read: never beyond what is asked for", o[i] == 0xEE);
            if (s != 0) { CHECK("sized read: fails only when the stream ended", sp == sn && (blk ? pos + (int)want > sn : pos == sn)); CHECK("sized read: the stream's error is reported", !fst || s == fst); if (!blk || line) break; CHECK("sized read: what arrived before the end is there", !memcmp(o, st_ + pos, sn - pos)); break; }
            CHECK("sized read: all of it, if it is to wait", z <= want && z > 0 && (!blk || z == want)); CHECK("sized read: the stream's next bytes", pos + (int)z <= sn && !memcmp(o, st_ + pos, z)); pos += z;
        }
    }
    s = S(resource_release)(S(psock_br_resource_handle)(b)); CHECK("reader release: all memory goes back", s == 0 && g.live == 0);
}
#endif
//@ {"props":["C22"],"native":true,"companion":true,"bound":"streams of at most 4 bytes, every chunking and mix of line reads and sized reads, buffers of 2 to 4 bytes"}
void H_all_lines(void) { EXHAUST(mix(1, 0)); EXHAUST(mix(1, 2)); }
//@ {"props":["C22"],"native":true,"companion":true,"bound":"streams of at most 4 bytes, every chunking and sequence of sized reads"}
void H_all_sized(void) { EXHAUST(mix(0, 0)); EXHAUST(mix(0, 2)); }
UNITS(U(br_pass) U(br_create) U(br_release) U(all_lines) U(all_sized))
#endif
