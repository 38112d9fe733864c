/* Contracts of the buffer-backed stream (src/psock/psock_*from_buffer*). */
#ifdef STUB_MEM
#define V_SYMALLOC
#endif
#include "common.h"
#include "enum.h"
#include <rcpr/psock.h>
#include <rcpr/slist.h>
#include "psock/psock_internal.h"
#include "slist/slist_internal.h"
#include "psock/psock_create_from_buffer.c"   /* the real constructor and its method table */
typedef S(psock) psock; typedef S(slist) slist; typedef S(resource) resource; typedef S(allocator) allocator;
typedef S(psock_from_buffer) pfb;
typedef S(psock_output_buffer_node) obn;
typedef S(slist_node) slist_node;
#define MAXN ((size_t)1 << 40)
#ifndef NWRITES
#define NWRITES 3
#endif
/* a write through the stream's own method table */
static status v_write_real(psock* s, const void* d, size_t* n) { return ((const S(psock_vtable)*)s->hdr.vtable)->write_fn(s, s->context, d, n); }
#define v_alloc_reclaim_(p) (void)v_reclaim(&v_alloc, p)
struct {
    pfb b; size_t n, W; uint8_t wv;
    const uint8_t* src;
    slist* list; int apps; obn* app[4]; int app_fail, crf, app_at, app_calls;
    size_t V; uint8_t vv; size_t wo; char* cur; size_t tot; size_t acc0;
    int arr; uint8_t* out; size_t P, Q, s0; slist_node nd; obn ob; slist_node* pn;
} B;
#ifdef MODE_N
#define __CPROVER_r_ok(p, n) 1
#define __CPROVER_w_ok(p, n) 1
#define __CPROVER_havoc_slice(p, n) ((void)0)
#define __CPROVER_same_object(p, q) 1
#define __CPROVER_POINTER_OFFSET(p) 0
#endif
#ifdef STUB_MEM
#define ML_NO_MEMSET
#include "memlog.h"
#else
#define ml_init() ((void)0)
#define ml_add(d, s, n) __CPROVER_havoc_slice(d, n)
#endif
#if !defined(MODE_N) && (defined(STUB_MEM) || defined(STUB_LC))
void* memset(void* p, int c, size_t n)
{
    CHECK("memset: in bounds", __CPROVER_w_ok(p, n));
    if (c == 0 && n == sizeof(pfb)) { static const pfb z; *(pfb*)p = z; }
    else if (c == 0 && n == sizeof(obn)) { static const obn z; *(obn*)p = z; }
    else if (n > 0) ml_add(p, NULL, n);
    return p;
}
#endif
static void b_init(void)
{
    v_init(ANY, NONE);
    B.apps = 0; B.app_fail = 0; B.app_at = NONE; B.app_calls = 0; B.arr = 0; B.n = B.W = 0; B.src = NULL; B.list = NULL; B.cur = NULL; B.out = NULL; B.pn = NULL;
    B.app[0] = B.app[1] = B.app[2] = B.app[3] = NULL;
    S(resource_init)(&B.b.hdr.hdr, &psock_from_buffer_vtable.hdr);
    B.b.hdr.context = NULL; B.b.hdr.type = PSOCK_TYPE_BUFFER; B.b.hdr.socktype = PSOCK_SOCKET_TYPE_OTHER; B.b.hdr.alloc = &v_alloc;
    B.b.input_buffer = NULL; B.b.input_buffer_size = 0; B.b.output_curr_buffer = NULL; B.b.output_queue = NULL;
    B.b.output_buffer_size = B.b.output_buffer_total_size = B.b.buffer_read_offset = B.b.buffer_write_offset = 0;
    ml_init();
}
#if defined(STUB_MEM)
/* ---- reading ---- */
//@ {"props":["C21"],"defs":["STUB_MEM"],"cover":["psock_from_buffer_read"],"assumes":["memcpy meets its C standard contract (stated as a log of moves)","buffers smaller than 2^40 bytes"]}
void H_buffer_read(void)
{
    b_init();
    B.n = nd_size(); ASSUME(B.n < MAXN);
#ifdef MODE_N
    ASSUME(B.n < 4096);
#endif
    B.b.input_buffer = malloc(B.n); ASSUME(B.b.input_buffer != NULL || B.n == 0);
#ifdef MODE_N
    for (size_t i = 0; i < B.n; ++i) B.b.input_buffer[i] = (char)(i * 13 + 5);
#endif
    B.b.input_buffer_size = B.n;
    size_t o = nd_size(); ASSUME(o <= B.n); B.b.buffer_read_offset = o;
    size_t k = nd_size(); ASSUME(k < MAXN);
#ifdef MODE_N
    ASSUME(k < 4096);
#endif
    uint8_t* d = malloc(k + 1); ASSUME(d != NULL);
    size_t exp = k < B.n - o ? k : B.n - o;
    size_t W = nd_size(); ASSUME(W < exp || exp == 0);
    uint8_t wv = exp ? B.b.input_buffer[o + W] : 0, gv = 0x5a; d[k] = gv;
    size_t sz = k; const char* ib = B.b.input_buffer;
    status st = S(psock_read_raw)(&B.b.hdr, d, &sz);
    CHECK("buffer read: never beyond the destination", HOLDS(d + k, d + k, gv));
    CHECK("buffer read: the buffer stays the stream's", B.b.input_buffer == ib && B.b.input_buffer_size == B.n);
    if (o >= B.n) {
        CHECK("buffer read: the end is reported as such", st == ERROR_PSOCK_READ_EOF);
        CHECK("buffer read: the end moves nothing", B.b.buffer_read_offset == o);
        REACH("end");
    } else {
        CHECK("buffer read: succeeds before the end", st == STATUS_SUCCESS);
        CHECK("buffer read: delivers as much as is asked for and there is", sz == exp);
        CHECK("buffer read: every byte is the buffer's, in order", IMPL(exp > 0, HOLDS(d + W, ib + o + W, wv) && HOLDS(ib + o + W, ib + o + W, wv)));
        CHECK("buffer read: the next read goes on behind", B.b.buffer_read_offset == o + exp);
        if (exp < k) REACH("short"); else REACH("full");
    }
    free(d); free(B.b.input_buffer);
}
#endif
#if !defined(STUB_LIST) && !defined(STUB_WALK) && defined(STUB_MEM)
UNITS(U(buffer_read))
#endif
#ifdef STUB_LIST
/* the output queue, by the contract of slist_append_tail (proved in slist.c) */
status S(slist_append_tail)(slist* l, resource* r)
{
    CHECK("the output queue is appended to", l == B.list);
    if (B.app_at >= 0 && B.app_calls++ == B.app_at) { ++B.app_fail; return ERROR_GENERAL_OUT_OF_MEMORY; }
    CHECK("ATTACH at most four appends per write", B.apps < 4);
    B.app[B.apps++] = (obn*)r;
    return STATUS_SUCCESS;
}
/* byte at logical position p behind the queue as it was */
static void* byte_at(size_t p)
{
    for (int i = 0; i < 4; ++i) if (i < B.apps) {
        if (p < B.app[i]->size) return (uint8_t*)B.app[i]->buffer + p;
        p -= B.app[i]->size;
    }
    if (p < B.b.buffer_write_offset) return B.b.output_curr_buffer + p;
    return NULL;
}
static size_t behind(void)
{
    size_t t = B.b.buffer_write_offset;
    for (int i = 0; i < 4; ++i) if (i < B.apps) t += B.app[i]->size;
    return t;
}
/* ---- writing: any earlier content, any amount, any refusal of memory ---- */
/* cases: 0 the write fits; 1-5 it fills the buffer; 6-12 it needs a buffer of its own;
 * with no refusal, the k-th allocation or the k-th append refused */
static void c_buffer_write(unsigned cc)
{
    static const int FA[13] = { NONE, NONE, 0, 1, 2, NONE, NONE, 0, 1, 2, 3, NONE, NONE }, AP[13] = { NONE, NONE, NONE, NONE, NONE, 0, NONE, NONE, NONE, NONE, NONE, 0, 1 };
    unsigned c = cc == 0 ? 0 : cc <= 5 ? 1 : 2;
    b_init(); g.fail_at = FA[cc]; B.app_at = AP[cc];
    B.list = malloc(sizeof(slist)); ASSUME(B.list != NULL);
    B.b.output_queue = B.list; B.b.output_buffer_size = PSOCK_BUFFER_SIZE;
    B.b.output_curr_buffer = v_new(PSOCK_BUFFER_SIZE); B.cur = B.b.output_curr_buffer;
    B.wo = nd_size(); ASSUME(B.wo < PSOCK_BUFFER_SIZE); B.b.buffer_write_offset = B.wo;
    B.tot = nd_size(); ASSUME(B.tot < MAXN && B.tot >= B.wo); B.b.output_buffer_total_size = B.tot;
    B.n = nd_size(); ASSUME(B.n < MAXN);
    { size_t room = PSOCK_BUFFER_SIZE - B.wo; ASSUME(c == 0 ? B.n < room : c == 1 ? B.n >= room && B.n - room < PSOCK_BUFFER_SIZE : B.n >= room && B.n - room >= PSOCK_BUFFER_SIZE); }
    uint8_t* d = malloc(B.n + 1); ASSUME(d != NULL);
    B.W = nd_size(); ASSUME(B.W < B.n || B.n == 0); B.wv = d[B.n ? B.W : 0];
    B.V = nd_size(); ASSUME(B.V < B.wo || B.wo == 0); B.vv = B.wo ? ((uint8_t*)B.cur)[B.V] : 0;
    size_t sz = B.n; char* cur0 = B.cur;
    status st = v_write_real(&B.b.hdr, d, &sz);
    size_t acc = st == STATUS_SUCCESS ? sz : 0;
    CHECK("buffer write: never more accepted than given", acc <= B.n);
    CHECK("buffer write: the stream holds the old bytes and the accepted ones, nothing else", behind() == B.wo + acc);
    CHECK("buffer write: the total counts exactly the accepted bytes", B.b.output_buffer_total_size == B.tot + acc);
    CHECK("buffer write: bytes accepted before stay, in place", IMPL(B.wo > 0, byte_at(B.V) != NULL && HOLDS(byte_at(B.V), cur0 + B.V, B.vv)));
    CHECK("buffer write: every accepted byte is stored, in order", IMPL(B.n > 0 && B.W < acc, byte_at(B.wo + B.W) != NULL && HOLDS(byte_at(B.wo + B.W), d + B.W, B.wv)));
    CHECK("buffer write: all is accepted unless memory runs out", IMPL(g.oom == 0 && B.app_fail == 0, st == STATUS_SUCCESS && acc == B.n));
    CHECK("buffer write: the stream stays usable", B.b.output_curr_buffer != NULL && B.b.output_queue == B.list && B.b.output_buffer_size == PSOCK_BUFFER_SIZE && B.b.buffer_write_offset < PSOCK_BUFFER_SIZE
        && __CPROVER_w_ok(B.b.output_curr_buffer, PSOCK_BUFFER_SIZE));
    CHECK("buffer write: appended pieces own their memory and release it to the stream's allocator", IMPL(B.apps > 0, B.app[0]->alloc == &v_alloc && B.app[0]->hdr.vtable != NULL && __CPROVER_r_ok(B.app[0]->buffer, B.app[0]->size)));
    CHECK("buffer write: no memory is lost or given back twice", g.live == 1 + 2 * B.apps);
    CHECK("buffer write: the data given is not changed", IMPL(B.n > 0, HOLDS(d + B.W, d + B.W, B.wv)));
    REACH("done");
}
//@ {"props":["C21"],"defs":["STUB_MEM","STUB_LIST"],"cover":["psock_from_buffer_write"],"unwind":12,"timeout":300,"assumes":["the output queue meets the contract of slist_append_tail (proved under C07)"]}
CASEUNIT(13, buffer_write)
UNITS(U(buffer_write))
#endif
#ifdef STUB_WALK
/* ---- copying out: the queue, node by node ---- */
status S(slist_head)(slist_node** n, slist* l) { CHECK("the output queue is walked", l == B.list); *n = B.pn; return STATUS_SUCCESS; }
status S(slist_node_child)(resource** r, slist_node* n) { CHECK("the current node is asked for its piece", n == &B.nd); *r = &B.ob.hdr; return STATUS_SUCCESS; }
status S(slist_node_next)(slist_node** nx, slist_node* n) { CHECK("the current node is asked for the next", n == &B.nd); *nx = B.pn; return STATUS_SUCCESS; }
/* at the loop head: P bytes of the queue's Q lie before node (node == NULL: P == Q) */
_Bool v_cut_copy_output_buffer_0(void* vnode, void* vbuf, void* vsize)
{
    slist_node** node = (slist_node**)vnode; uint8_t** buf = (uint8_t**)vbuf; size_t* size = (size_t*)vsize;
    if (B.arr++ == 0) {
        B.out = g.last;
        CHECK("copy loop: starts at the beginning", *buf == B.out && *size == B.tot && *node == B.pn);
        /* any position of the walk */
        B.P = nd_size(); ASSUME(B.P <= B.Q);
        ml_add(B.out, B.src, B.P);
        *buf = B.out + B.P; *size = B.tot - B.P;
        if (B.P == B.Q && nd_bool()) { *node = NULL; B.pn = NULL; }
        else {
            B.s0 = nd_size(); ASSUME(B.s0 <= B.Q - B.P); B.ob.size = B.s0; B.ob.buffer = (void*)(B.src + B.P);
            *node = &B.nd; B.pn = nd_bool() ? &B.nd : NULL; ASSUME(IMPL(B.pn == NULL, B.P + B.s0 == B.Q));
        }
    } else {
        CHECK("copy loop: a piece is copied whole, to its place", *buf == B.out + (B.P + B.s0) && *size == B.tot - (B.P + B.s0));
        CHECK("copy loop: what has been copied stays, in order", IMPL(B.W < B.P + B.s0, HOLDS(B.out + B.W, B.src + B.W, B.wv)));
        CHECK("copy loop: goes on to the next node", *node == B.pn);
        ASSUME(0);
    }
    return 1;
}
static void c_buffer_output(unsigned c);
//@ {"props":["C21"],"defs":["STUB_MEM","STUB_WALK"],"cuts":{"src/psock/psock_from_buffer_get_output_buffer.c:copy_output_buffer":[["node","buffer","buffer_size"]]},"cover":["psock_from_buffer_get_output_buffer"],
//@  "assumes":["the output queue meets the contracts of slist_head, slist_node_child and slist_node_next (proved under C07)"]}
CASEUNIT(2, buffer_output)
static void c_buffer_output(unsigned c)
{
    b_init(); g.fail_at = c ? 0 : NONE;
    B.list = malloc(sizeof(slist)); ASSUME(B.list != NULL);
    B.b.output_queue = B.list; B.b.output_buffer_size = PSOCK_BUFFER_SIZE;
    B.b.output_curr_buffer = v_new(PSOCK_BUFFER_SIZE); B.cur = B.b.output_curr_buffer;
    B.wo = nd_size(); ASSUME(B.wo < PSOCK_BUFFER_SIZE); B.b.buffer_write_offset = B.wo;
    B.Q = nd_size(); ASSUME(B.Q < MAXN); B.tot = B.Q + B.wo; B.b.output_buffer_total_size = B.tot;
    B.pn = nd_bool() ? &B.nd : NULL; ASSUME(IMPL(B.pn == NULL, B.Q == 0));
    B.W = nd_size(); ASSUME(B.W < B.tot || B.tot == 0);
    B.src = malloc(B.Q); ASSUME(B.src != NULL);   /* the queued pieces, one behind the other */
    char dm; void* buf = &dm; size_t sz = 0;
    status st = S(psock_from_buffer_get_output_buffer)(&B.b.hdr, &v_alloc, &buf, &sz);
    CHECK("output: the stream's own content is untouched", B.b.output_buffer_total_size == B.tot && B.b.output_curr_buffer == B.cur && B.b.buffer_write_offset == B.wo);
    if (st == STATUS_SUCCESS) {
        CHECK("output: the count is that of the bytes written", sz == B.tot);
        CHECK("output: a fresh buffer of that size", buf == g.last && g.last_size >= sz && g.live == 2);
        CHECK("output: every byte written is there, in order", IMPL(B.tot > 0, HOLDS((uint8_t*)buf + B.W, B.W < B.Q ? (const char*)B.src + B.W : B.cur + (B.W - B.Q), 0)));
        REACH("done");
    } else { CHECK("output: fails only for lack of memory, and keeps none", g.oom > 0 && g.live == 1); REACH("refused"); }
}
UNITS(U(buffer_output))
#endif
#ifdef STUB_LC
/* a queue, known by the contracts of slist_create and of the slist's release */
static status v_list_release(resource* r)
{
    CHECK("release: the queue is released once", r == &B.list->hdr && B.apps == 0); ++B.apps;
    if (B.n) { free(r); --g.live; }
    return v_c[0].st;
}
static const S(resource_vtable) v_list_vt = { &v_list_release };
status S(slist_create)(slist** l, allocator* a)
{
    CHECK("create: the queue is made with the allocator given", a == &v_alloc);
    if (g.fail_at == g.alloc_calls++) { ++g.oom; return ERROR_GENERAL_OUT_OF_MEMORY; }
    slist* q = NEW(slist); q->alloc = a; q->head = q->tail = NULL; q->count = 0; S(resource_init)(&q->hdr, &v_list_vt);
    B.list = q; *l = q; return STATUS_SUCCESS;
}
/* ---- life cycle ---- */
static void c_buffer_create(unsigned c);
//@ {"props":["C04","C21"],"defs":["STUB_LC"],"assumes":["the output queue meets the contracts of slist_create and of its release (proved under C04 and C05)"],"cover":["psock_create_from_buffer"],"unwind":6}
CASEUNIT(8, buffer_create)
static void c_buffer_create(unsigned c)
{
    b_init(); B.n = 1; g.fail_at = (int)(c >> 1) - 1; B.crf = g.fail_at;
    _Bool in = c & 1; char data[3] = { (char)nd_u8(), (char)nd_u8(), (char)nd_u8() };
    size_t n = in ? nd_upto(3) : 0; psock* s = NULL;
    status st = S(psock_create_from_buffer)(&s, &v_alloc, in ? data : NULL, n);
    CHECK("create: fails exactly when memory is refused", (st == STATUS_SUCCESS) == (g.oom == 0));
    if (st == STATUS_SUCCESS) {
        pfb* b = (pfb*)s;
        CHECK("create: the object is a buffer stream over the allocator given", s != NULL && s->type == PSOCK_TYPE_BUFFER && s->alloc == &v_alloc);
        CHECK("create: input holds a copy, from its beginning", IMPL(in, b->input_buffer != NULL && b->input_buffer != data && b->input_buffer_size == n && b->buffer_read_offset == 0 && b->output_queue == NULL && b->output_curr_buffer == NULL && g.live == 2));
        for (size_t i = 0; i < 3; ++i) CHECK("create: the copy is faithful", IMPL(in && i < n, b->input_buffer[i] == data[i]));
        CHECK("create: output starts empty", IMPL(!in, b->input_buffer == NULL && b->output_curr_buffer != NULL && b->output_buffer_size == PSOCK_BUFFER_SIZE && b->buffer_write_offset == 0 && b->output_buffer_total_size == 0
            && b->output_queue != NULL && b->output_queue->count == 0 && g.live == 3));
        REACH("created");
        status rs = S(resource_release)(&s->hdr);
        CHECK("release: a created stream is released without a trace", rs == STATUS_SUCCESS && g.live == 0 && g.alloc_released == 0);
    } else {
        CHECK("create: nothing is kept and nothing handed out", g.live == 0 && s == NULL);
        REACH("refused");
    }
}
/* an output stream with queued content, every return of memory possibly failing */
//@ {"props":["C05"],"defs":["STUB_LC"],"cover":["psock_from_buffer_release"],"unwind":6,"assumes":["the output queue's own release is the slist release (proved under C05)"]}
void H_buffer_release(void)
{
    b_init(); g.reclaim_fail_at = ANY; v_c[0].st = nd_int();
    pfb* b = NEW(pfb); *b = B.b;
    _Bool in = nd_bool(), out = nd_bool();
    if (in) { b->input_buffer = v_new(2); b->input_buffer_size = 2; }
    if (out) {
        b->output_curr_buffer = v_new(8); b->output_buffer_size = 8;
        B.list = malloc(sizeof(slist)); ASSUME(B.list != NULL); S(resource_init)(&B.list->hdr, &v_list_vt); b->output_queue = B.list;
    }
    status st = S(resource_release)(&b->hdr.hdr);
    CHECK("release: every block is returned exactly once", g.live == 0 && g.reclaims == 1 + in + out);
    CHECK("release: the queue is released", B.apps == (out ? 1 : 0));
    CHECK("release: a failure inside is reported", (st == STATUS_SUCCESS) == (g.reclaim_failed == 0 && !(out && v_c[0].st != STATUS_SUCCESS)));
    if (st == STATUS_SUCCESS) REACH("ok"); else REACH("failed");
    if (out) free(B.list);
}
UNITS(U(buffer_create) U(buffer_release))
#endif
#ifndef STUB_LC
#ifndef STUB_MEM
/* ---- exhaustive native companions on the real code ---- */
#ifdef MODE_N
static const size_t SZ[] = { 0, 1, 4095, 4096, 4097, 8192, 9000 };
#define NSZ (sizeof SZ / sizeof *SZ)
static uint8_t exp_[64000], dat[10000]; static size_t expn;
static void one_history(void)
{
    v_init(NONE, NONE); psock* s = NULL; expn = 0;
    if (S(psock_create_from_buffer)(&s, &v_alloc, NULL, 0)) v_fail("create: succeeds when memory is granted");
    int nw = NWRITES; int fail = ex_choose(6) - 1; g.fail_at = fail < 0 ? NONE : g.alloc_calls + fail;
    for (int i = 0; i < nw; ++i) {
        size_t n = SZ[ex_choose(NSZ)], sz = n; int before = g.oom;
        for (size_t j = 0; j < n; ++j) dat[j] = (uint8_t)(expn + j * 31 + i * 7);
        const S(psock_vtable)* vt = (const S(psock_vtable)*)s->hdr.vtable;
        status st = vt->write_fn(s, s->context, dat, &sz);
        if (st == 0) { CHECK("buffer write: never more accepted than given", sz <= n); memcpy(exp_ + expn, dat, sz); expn += sz; }
        CHECK("buffer write: all is accepted unless memory runs out", g.oom > before || (st == 0 && sz == n));
    }
    g.fail_at = NONE; void* out = NULL; size_t on = 0;
    CHECK("output: succeeds when memory is granted", S(psock_from_buffer_get_output_buffer)(s, &v_alloc, &out, &on) == 0);
    CHECK("output: the count is that of the bytes written", on == expn);
    CHECK("output: every byte written is there, in order", !memcmp(out, exp_, on));
    v_alloc_reclaim_(out);
    CHECK("release: a stream is released without a trace", S(resource_release)(&s->hdr) == 0 && g.live == 0);
}
static void one_input(void)
{
    v_init(NONE, NONE); psock* s = NULL; size_t n = ex_choose(6), pos = 0; char b[8]; for (size_t i = 0; i < 8; ++i) b[i] = 'a' + i;
    char* ex = malloc(n ? n : 1); memcpy(ex, b, n);
    CHECK("create: succeeds when memory is granted", S(psock_create_from_buffer)(&s, &v_alloc, ex, n) == 0); free(ex);
    for (int i = 0; i < 4; ++i) {
        size_t k = ex_choose(5), sz = k; char* d = malloc(k + 1); d[k] = 'Z';
        status st = S(psock_read_raw)(s, d, &sz);
        if (pos >= n) CHECK("buffer read: the end is reported as such", st == ERROR_PSOCK_READ_EOF);
        else { size_t e = k < n - pos ? k : n - pos; CHECK("buffer read: delivers as much as is asked for and there is, in order", st == 0 && sz == e && !memcmp(d, b + pos, e) && d[k] == 'Z'); pos += e; }
        free(d);
    }
    CHECK("release: a stream is released without a trace", S(resource_release)(&s->hdr) == 0 && g.live == 0);
}
#endif
//@ {"props":["C21"],"native":true,"companion":true,"bound":"every history of NWRITES (quick 3, thorough 4) writes of 0, 1, 4095, 4096, 4097, 8192 or 9000 bytes, each allocation refused in turn","tdefs":["NWRITES=4"],"cover":["psock_from_buffer_write","psock_from_buffer_get_output_buffer"]}
void H_all_buffer_write(void) { EXHAUST(one_history()); }
//@ {"props":["C21"],"native":true,"companion":true,"bound":"every history of 4 reads of at most 4 bytes from buffers of at most 5 bytes","cover":["psock_from_buffer_read"]}
void H_all_buffer_read(void) { EXHAUST(one_input()); }
UNITS(U(all_buffer_write) U(all_buffer_read))
#endif
#endif
