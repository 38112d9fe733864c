/* Contracts of the raw and boxed stream functions, over any stream.
 *
 * The stream is a user of the psock interface known only by its contract: a
 * read or write moves some number of bytes between 1 and what was asked, in
 * order, or reports the end (0 bytes) or an error.  The first HL bytes of the
 * stream are concrete (in/out), the payload behind them is of any length and
 * observed at an arbitrary witness position W. */
#include "common.h"
#include <rcpr/psock.h>
#include <rcpr/socket_utilities.h>
#include "psock/psock_internal.h"
typedef S(psock) psock;
struct {
    uint8_t in[16], out[16]; size_t hl;     /* concrete part */
    size_t rpos, wpos;                      /* bytes moved so far */
    size_t n;                               /* payload length */
    size_t W; uint8_t wv;                   /* payload witness: position and byte */
    _Bool wseen; uint8_t wout;              /* byte written at W */
    const uint8_t* src;                     /* payload storage of the writer under test */
    int calls, errs, shorts; status err; _Bool any_short, may_err, block_all;
    int arr;
    uint8_t* wbuf; size_t k0;
} T;
psock v_ps; int v_ctx;
#ifdef MODE_N
#define __CPROVER_r_ok(p, n) 1
#define __CPROVER_w_ok(p, n) 1
#define __CPROVER_havoc_slice(p, n) memset(p, 0x5a, n)
#define __CPROVER_same_object(p, q) 1
#define __CPROVER_POINTER_OFFSET(p) 0
#endif
static size_t amount(size_t k)
{
    size_t a = k;
    if (T.any_short) { a = nd_upto(k); if (a < k) ++T.shorts; }
    return a;
}
static status v_ps_read(psock* s, void* ctx, void* data, size_t* size, bool block)
{
    CHECK("the stream is asked to read on itself with its own context", s == &v_ps && ctx == &v_ctx);
    size_t k = *size;
    CHECK("the destination can hold what is asked for", __CPROVER_w_ok(data, k));
    ++T.calls; if (!block) T.block_all = 0;
    if (T.may_err && nd_bool()) {
        T.err = nd_int(); ASSUME(T.err != STATUS_SUCCESS); ++T.errs;
        if (k > 0) __CPROVER_havoc_slice(data, k);
        return T.err;
    }
    size_t a = amount(k);
    if (a > 0) {
        if (T.hl == 0 || T.rpos >= T.hl || a > 16) __CPROVER_havoc_slice(data, a);
        if (T.rpos < T.hl) for (size_t i = 0; i < 16; ++i) if (i < a && T.rpos + i < T.hl) ((uint8_t*)data)[i] = T.in[T.rpos + i];
        if (T.hl + T.W >= T.rpos && T.hl + T.W - T.rpos < a) {
#ifdef MODE_N
            ((uint8_t*)data)[T.hl + T.W - T.rpos] = T.wv;
#else
            ASSUME(IMPL(T.rpos >= T.hl, ((uint8_t*)data)[T.hl + T.W - T.rpos] == T.wv));
#endif
        }
    }
    T.rpos += a; *size = a;
    return STATUS_SUCCESS;
}
static status v_ps_write(psock* s, void* ctx, const void* data, size_t* size)
{
    CHECK("the stream is asked to write on itself with its own context", s == &v_ps && ctx == &v_ctx);
    size_t k = *size;
    CHECK("the source holds what is to be written", __CPROVER_r_ok(data, k));
    ++T.calls;
    if (T.may_err && nd_bool()) { T.err = nd_int(); ASSUME(T.err != STATUS_SUCCESS); ++T.errs; return T.err; }
    size_t a = amount(k);
    if (T.wpos < T.hl) for (size_t i = 0; i < 16; ++i) if (i < a && T.wpos + i < T.hl) T.out[T.wpos + i] = ((const uint8_t*)data)[i];
    if (T.hl + T.W >= T.wpos && T.hl + T.W - T.wpos < a) {
        CHECK("every byte is written once", !T.wseen);
        T.wseen = 1; T.wout = ((const uint8_t*)data)[T.hl + T.W - T.wpos];
    }
    T.wpos += a; *size = a;
    return STATUS_SUCCESS;
}
static status v_ps_release(S(resource)* r) { (void)r; return 0; }
static const S(psock_vtable) v_ps_vt = { .hdr = { &v_ps_release }, .read_fn = &v_ps_read, .write_fn = &v_ps_write };
static void t_init(size_t hl, _Bool any_short, _Bool may_err)
{
    v_init(ANY, NONE);
    for (int i = 0; i < 16; ++i) { T.in[i] = nd_u8(); T.out[i] = 0xEE; }
    T.hl = hl; T.rpos = T.wpos = 0; T.n = 0; T.W = SIZE_MAX - 64; T.wv = 0; T.wseen = 0; T.wout = 0;
    T.calls = T.errs = T.shorts = 0; T.err = 0; T.any_short = any_short; T.may_err = may_err; T.block_all = 1; T.arr = 0; T.src = NULL; T.wbuf = NULL; T.k0 = 0;
    S(resource_init)(&v_ps.hdr, &v_ps_vt.hdr);
    v_ps.context = &v_ctx; v_ps.type = PSOCK_TYPE_USER; v_ps.socktype = 0; v_ps.alloc = &v_alloc;
}
static uint64_t be(const uint8_t* p, unsigned w)
{
    uint64_t v = 0;
    for (unsigned i = 0; i < 8; ++i) if (i < w) v = v << 8 | p[i];
    return v;
}
static unsigned width(unsigned c) { return c == 8 ? 1 : 1u << (c >> 1); }   /* int8 uint8 int16 uint16 int32 uint32 int64 uint64 bool */
static uint64_t trunc_(uint64_t v, unsigned c) { return c == 8 ? (v & 1) : width(c) == 8 ? v : v & ((1ull << 8 * width(c)) - 1); }
static const uint32_t TAG[9] = { PSOCK_BOXED_TYPE_INT8, PSOCK_BOXED_TYPE_UINT8, PSOCK_BOXED_TYPE_INT16, PSOCK_BOXED_TYPE_UINT16, PSOCK_BOXED_TYPE_INT32,
    PSOCK_BOXED_TYPE_UINT32, PSOCK_BOXED_TYPE_INT64, PSOCK_BOXED_TYPE_UINT64, PSOCK_BOXED_TYPE_BOOL };
#define WR(kind) \
static status w_##kind(unsigned c, uint64_t v) \
{ \
    switch (c) { \
    case 0: return S(psock_write_##kind##_int8)(&v_ps, (int8_t)v);   case 1: return S(psock_write_##kind##_uint8)(&v_ps, (uint8_t)v); \
    case 2: return S(psock_write_##kind##_int16)(&v_ps, (int16_t)v); case 3: return S(psock_write_##kind##_uint16)(&v_ps, (uint16_t)v); \
    case 4: return S(psock_write_##kind##_int32)(&v_ps, (int32_t)v); case 5: return S(psock_write_##kind##_uint32)(&v_ps, (uint32_t)v); \
    case 6: return S(psock_write_##kind##_int64)(&v_ps, (int64_t)v); case 7: return S(psock_write_##kind##_uint64)(&v_ps, (uint64_t)v); \
    default: return S(psock_write_##kind##_bool)(&v_ps, (v & 1) != 0); } \
} \
/* reads into *v; *same tells whether the caller's variable kept its old value */ \
static status r_##kind(unsigned c, uint64_t old, uint64_t* v, _Bool* same) \
{ \
    status st; \
    switch (c) { \
    case 0: { int8_t x = (int8_t)old, o = x; st = S(psock_read_##kind##_int8)(&v_ps, &x); *v = (uint8_t)x; *same = x == o; break; } \
    case 1: { uint8_t x = (uint8_t)old, o = x; st = S(psock_read_##kind##_uint8)(&v_ps, &x); *v = x; *same = x == o; break; } \
    case 2: { int16_t x = (int16_t)old, o = x; st = S(psock_read_##kind##_int16)(&v_ps, &x); *v = (uint16_t)x; *same = x == o; break; } \
    case 3: { uint16_t x = (uint16_t)old, o = x; st = S(psock_read_##kind##_uint16)(&v_ps, &x); *v = x; *same = x == o; break; } \
    case 4: { int32_t x = (int32_t)old, o = x; st = S(psock_read_##kind##_int32)(&v_ps, &x); *v = (uint32_t)x; *same = x == o; break; } \
    case 5: { uint32_t x = (uint32_t)old, o = x; st = S(psock_read_##kind##_uint32)(&v_ps, &x); *v = x; *same = x == o; break; } \
    case 6: { int64_t x = (int64_t)old, o = x; st = S(psock_read_##kind##_int64)(&v_ps, &x); *v = (uint64_t)x; *same = x == o; break; } \
    case 7: { uint64_t x = old, o = x; st = S(psock_read_##kind##_uint64)(&v_ps, &x); *v = x; *same = x == o; break; } \
    default: { bool x = old & 1, o = x; st = S(psock_read_##kind##_bool)(&v_ps, &x); *v = x; *same = x == o; break; } } \
    return st; \
}
WR(raw)
WR(boxed)

/* ---- byte order ---- */
//@ {"props":["C18"],"cover":["socket_utility_hton16","socket_utility_hton32","socket_utility_hton64","socket_utility_ntoh16","socket_utility_ntoh32","socket_utility_ntoh64"]}
void H_byte_order(void)
{
    uint64_t v = nd_u64();
    { int16_t x = S(socket_utility_hton16)((int16_t)v); uint8_t b[2]; memcpy(b, &x, 2);
      CHECK("hton16: most significant byte first", be(b, 2) == (v & 0xffff)); CHECK("ntoh16 undoes hton16", S(socket_utility_ntoh16)(x) == (int16_t)v); }
    { int32_t x = S(socket_utility_hton32)((int32_t)v); uint8_t b[4]; memcpy(b, &x, 4);
      CHECK("hton32: most significant byte first", be(b, 4) == (v & 0xffffffff)); CHECK("ntoh32 undoes hton32", S(socket_utility_ntoh32)(x) == (int32_t)v); }
    { int64_t x = S(socket_utility_hton64)((int64_t)v); uint8_t b[8]; memcpy(b, &x, 8);
      CHECK("hton64: most significant byte first", be(b, 8) == v); CHECK("ntoh64 undoes hton64", S(socket_utility_ntoh64)(x) == (int64_t)v); }
    REACH("done");
}
/* ---- raw values ---- */
static void c_raw_write(unsigned c)
{
    t_init(16, 1, 1);
    uint64_t v = nd_u64(); unsigned w = width(c);
    status st = w_raw(c, v);
    CHECK("raw write: never more bytes than the type is wide", T.wpos <= w);
    if (st == STATUS_SUCCESS) {
        CHECK("raw write: success means every byte was accepted", T.wpos == w && T.errs == 0);
        CHECK("raw write: the bytes are the value, most significant first", c == 8 ? (T.out[0] != 0) == (_Bool)(v & 1) : be(T.out, w) == trunc_(v, c));
        REACH("written");
    } else {
        CHECK("raw write: fails only when the stream failed or took less than all", T.errs > 0 || T.shorts > 0);
        CHECK("raw write: the stream's error is reported", IMPL(T.errs > 0, st == T.err));
        REACH("failed");
    }
}
//@ {"props":["C18"],"cover":["psock_write_raw_int8","psock_write_raw_uint8","psock_write_raw_int16","psock_write_raw_uint16","psock_write_raw_int32","psock_write_raw_uint32","psock_write_raw_int64","psock_write_raw_uint64","psock_write_raw_bool"],"unwind":20,
//@  "assumes":["a stream moves at most what it is asked to move"]}
CASEUNIT(9, raw_write)
static void c_raw_read(unsigned c)
{
    t_init(16, 1, 1);
    uint64_t old = nd_u64(), v; unsigned w = width(c); _Bool same;
    status st = r_raw(c, old, &v, &same);
    CHECK("raw read: never more bytes than the type is wide", T.rpos <= w);
    if (st == STATUS_SUCCESS) {
        CHECK("raw read: success means every byte arrived", T.rpos == w && T.errs == 0);
        CHECK("raw read: the value is the bytes, most significant first", v == (c == 8 ? (uint64_t)(T.in[0] != 0) : be(T.in, w)));
        REACH("read");
    } else {
        CHECK("raw read: a failed read delivers no value", same);
        CHECK("raw read: fails only when the stream failed or gave less than all", T.errs > 0 || T.shorts > 0);
        CHECK("raw read: the stream's error is reported", IMPL(T.errs > 0, st == T.err));
        REACH("failed");
    }
}
//@ {"props":["C18"],"cover":["psock_read_raw_int8","psock_read_raw_uint8","psock_read_raw_int16","psock_read_raw_uint16","psock_read_raw_int32","psock_read_raw_uint32","psock_read_raw_int64","psock_read_raw_uint64","psock_read_raw_bool"],"unwind":20}
CASEUNIT(9, raw_read)
/* what is written reads back equal */
static void c_raw_trip(unsigned c)
{
    t_init(16, 0, 0);
    uint64_t v = nd_u64(), got; _Bool same;
    CHECK("raw round trip: write succeeds", w_raw(c, v) == STATUS_SUCCESS);
    for (int i = 0; i < 16; ++i) T.in[i] = T.out[i];
    CHECK("raw round trip: read succeeds", r_raw(c, nd_u64(), &got, &same) == STATUS_SUCCESS);
    CHECK("raw round trip: the value reads back equal, and all of it is consumed", got == trunc_(v, c) && T.rpos == T.wpos);
    REACH("done");
}
//@ {"props":["C18"],"unwind":20}
CASEUNIT(9, raw_trip)
/* ---- boxed values ---- */
static void c_boxed_write(unsigned c)
{
    t_init(16, 1, 1);
    uint64_t v = nd_u64(); unsigned w = width(c);
    status st = w_boxed(c, v);
    CHECK("boxed write: never more than tag and value", T.wpos <= 4 + w);
    if (st == STATUS_SUCCESS) {
        CHECK("boxed write: success means every byte was accepted", T.wpos == 4 + w && T.errs == 0);
        CHECK("boxed write: the packet starts with the tag of its type", be(T.out, 4) == TAG[c]);
        CHECK("boxed write: the value follows, most significant byte first", c == 8 ? (T.out[4] != 0) == (_Bool)(v & 1) : be(T.out + 4, w) == trunc_(v, c));
        REACH("written");
    } else {
        CHECK("boxed write: fails only when the stream failed or took less than all", T.errs > 0 || T.shorts > 0);
        CHECK("boxed write: the stream's error is reported", IMPL(T.errs > 0, st == T.err));
        REACH("failed");
    }
}
//@ {"props":["C19"],"cover":["psock_write_boxed_int8","psock_write_boxed_uint8","psock_write_boxed_int16","psock_write_boxed_uint16","psock_write_boxed_int32","psock_write_boxed_uint32","psock_write_boxed_int64","psock_write_boxed_uint64","psock_write_boxed_bool"],"unwind":20}
CASEUNIT(9, boxed_write)
static void c_boxed_read(unsigned c)
{
    t_init(16, 1, 1);
    uint64_t old = nd_u64(), v; unsigned w = width(c); _Bool same;
    status st = r_boxed(c, old, &v, &same);
    for (unsigned d = 0; d < 9; ++d) CHECK("boxed types have distinct tags", d == c || TAG[d] != TAG[c]);
    CHECK("boxed types have distinct tags", TAG[c] != PSOCK_BOXED_TYPE_STRING && TAG[c] != PSOCK_BOXED_TYPE_DATA && PSOCK_BOXED_TYPE_STRING != PSOCK_BOXED_TYPE_DATA);
    if (st == STATUS_SUCCESS) {
        CHECK("boxed read: success means the tag is that of the type", be(T.in, 4) == TAG[c]);
        CHECK("boxed read: success means every byte arrived", T.rpos == 4 + w && T.errs == 0);
        CHECK("boxed read: the value is the bytes after the tag, most significant first", v == (c == 8 ? (uint64_t)(T.in[4] != 0) : be(T.in + 4, w)));
        REACH("read");
    } else {
        CHECK("boxed read: a rejected packet yields no value", same);
        CHECK("boxed read: fails only for a wrong tag, a failing stream or a short packet", T.errs > 0 || T.shorts > 0 || be(T.in, 4) != TAG[c]);
        CHECK("boxed read: the stream's error is reported", IMPL(T.errs > 0, st == T.err));
        if (T.errs == 0 && T.shorts == 0) { CHECK("boxed read: a wrong tag is reported as such", st == ERROR_PSOCK_READ_BOXED_INVALID_TYPE); REACH("wrong tag"); }
        REACH("failed");
    }
}
//@ {"props":["C19"],"cover":["psock_read_boxed_int8","psock_read_boxed_uint8","psock_read_boxed_int16","psock_read_boxed_uint16","psock_read_boxed_int32","psock_read_boxed_uint32","psock_read_boxed_int64","psock_read_boxed_uint64","psock_read_boxed_bool"],"unwind":20}
CASEUNIT(9, boxed_read)
static void c_boxed_trip(unsigned c)
{
    t_init(16, 0, 0);
    uint64_t v = nd_u64(), got; _Bool same;
    CHECK("boxed round trip: write succeeds", w_boxed(c, v) == STATUS_SUCCESS);
    for (int i = 0; i < 16; ++i) T.in[i] = T.out[i];
    CHECK("boxed round trip: read succeeds", r_boxed(c, nd_u64(), &got, &same) == STATUS_SUCCESS);
    CHECK("boxed round trip: the value reads back equal, and all of it is consumed", got == trunc_(v, c) && T.rpos == T.wpos);
    REACH("done");
}
//@ {"props":["C19"],"unwind":20}
CASEUNIT(9, boxed_trip)
#define PAYMAX ((size_t)0xffffffff)
#ifdef MODE_N
#define PAYN(n) ASSUME((n) < 4096)
#else
#define PAYN(n) ((void)0)
#endif
/* ---- boxed strings and data: packet of tag, length, payload ---- */
static void c_boxed_blob_read(unsigned c)
{
    _Bool str = c == 0;
    t_init(8, 1, 1);
    g.fail_at = nd_bool() ? 0 : NONE;
    T.W = nd_size(); T.wv = nd_u8();
    size_t size = (uint32_t)be(T.in + 4, 4); PAYN(size);
    ASSUME(T.W < PAYMAX);
    char d1, d2; void* data = &d1; size_t len = 4711; status st;
    st = str ? S(psock_read_boxed_string)(&v_ps, &v_alloc, (char**)&data, &len) : S(psock_read_boxed_data)(&v_ps, &v_alloc, &data, &len);
    uint32_t tag = str ? PSOCK_BOXED_TYPE_STRING : PSOCK_BOXED_TYPE_DATA;
    if (st == STATUS_SUCCESS) {
        CHECK("boxed blob: success means the tag is that of the type", be(T.in, 4) == tag);
        CHECK("boxed blob: success means every byte arrived", T.rpos == 8 + size && T.errs == 0);
        CHECK("boxed blob: the length is the packet's", len == size);
        CHECK("boxed blob: the value is fresh memory from the given allocator", data == g.last && g.live == 1 && g.allocs == 1);
        CHECK("boxed blob: the memory holds the whole value", g.last_size >= size + (str ? 1 : 0));
        if (T.W < size) CHECK("boxed blob: every byte is the packet's", ((uint8_t*)data)[T.W] == T.wv);
        if (str) CHECK("boxed string: the string is terminated", ((char*)data)[size] == 0);
        REACH("read");
    } else {
        CHECK("boxed blob: a rejected packet yields no value", data == &d1 && len == 4711);
        CHECK("boxed blob: memory obtained for it is given back", g.live == 0);
        CHECK("boxed blob: fails only for a wrong tag, an impossible length, a failing stream, a short packet or lack of memory",
            T.errs > 0 || T.shorts > 0 || g.oom > 0 || be(T.in, 4) != tag || (str && size == UINT32_MAX));
        CHECK("boxed blob: the stream's error is reported", IMPL(T.errs > 0, st == T.err));
        REACH("failed");
    }
    if (data != &d1) free(data);
    (void)d2;
}
//@ {"props":["C19"],"cover":["psock_read_boxed_string","psock_read_boxed_data"],"unwind":20}
CASEUNIT(2, boxed_blob_read)
#if !defined(MODE_N)
size_t v_slen;
size_t strlen(const char* s) { CHECK("ATTACH strlen of the string given", s == (const char*)T.src); return v_slen; }
#endif
static void c_boxed_blob_write(unsigned c)
{
    _Bool str = c == 0;
    t_init(8, 1, 1);
    size_t n = nd_size();
    ASSUME(n <= PAYMAX + 16); PAYN(n);
    uint8_t* d = malloc(n + 1); ASSUME(d != NULL);
#ifdef MODE_N
    memset(d, 'x', n);
#else
    v_slen = n;
#endif
    d[n] = 0;
    T.src = d; T.W = nd_size(); ASSUME(T.W < n || n == 0); T.wv = d[T.W < n ? T.W : n];
    status st = str ? S(psock_write_boxed_string)(&v_ps, (char*)d) : S(psock_write_boxed_data)(&v_ps, d, n);
    uint32_t tag = str ? PSOCK_BOXED_TYPE_STRING : PSOCK_BOXED_TYPE_DATA;
    if (st == STATUS_SUCCESS) {
        CHECK("boxed blob: success means all of tag, length and payload was accepted", T.wpos == 8 + n && T.errs == 0);
        CHECK("boxed blob: the packet starts with the tag of its type", be(T.out, 4) == tag);
        CHECK("boxed blob: the packet's length field is the payload's length", be(T.out + 4, 4) == n);
        if (n > 0) CHECK("boxed blob: every byte is the value's", T.wseen && T.wout == T.wv);
        REACH("written");
    } else {
        CHECK("boxed blob: fails only when the stream failed, took less than all, or the length does not fit its field",
            T.errs > 0 || T.shorts > 0 || n > PAYMAX || (str && n == PAYMAX));
        CHECK("boxed blob: the stream's error is reported", IMPL(T.errs > 0, st == T.err));
        REACH("failed");
    }
    free(d);
}
//@ {"props":["C19"],"cover":["psock_write_boxed_string","psock_write_boxed_data"],"unwind":20}
CASEUNIT(2, boxed_blob_write)

/* ---- raw data of any length ---- */
/* loop head of psock_read_raw_data: ptr, data_size, buffer */
_Bool v_cut_psock_read_raw_data_0(void* vptr, void* vsize, void* vbuf)
{
    uint8_t** ptr = (uint8_t**)vptr; size_t* size = (size_t*)vsize; uint8_t* buf = *(uint8_t**)vbuf;
#define INV_R (*ptr == buf + (T.n - *size) && *size <= T.n && T.rpos == T.n - *size && T.errs == 0 && IMPL(T.W < T.rpos, buf[T.W] == T.wv))
    if (T.arr++ == 0) {
        CHECK("read_raw_data loop: invariant holds on entry", INV_R);
        if (T.n > 0) __CPROVER_havoc_slice(buf, T.n);
        *size = nd_size(); ASSUME(*size <= T.n); *ptr = buf + (T.n - *size); T.rpos = T.n - *size; T.shorts = nd_int(); T.calls = nd_int(); T.k0 = *size;
        ASSUME(T.shorts >= 0 && T.shorts < 1000 && T.calls >= 0 && T.calls < 1000);
        ASSUME(INV_R);
    } else {
        CHECK("read_raw_data loop: invariant is preserved", INV_R);
        CHECK("read_raw_data loop: makes progress", *size < T.k0);
        ASSUME(0);
    }
    return 1;
}
#if !defined(MODE_N)
#ifdef STUB_MEMSET
void* memset(void* p, int c, size_t n) { CHECK("memset: in bounds", __CPROVER_w_ok(p, n)); if (n > 0) __CPROVER_havoc_slice(p, n); return p; }
#endif
#endif
static void check_read_data(status st, void* data, void* d1)
{
    if (st == STATUS_SUCCESS) {
        CHECK("read_raw_data: success means exactly the bytes asked for arrived", T.rpos == T.n && T.errs == 0);
        CHECK("read_raw_data: the value is fresh memory from the given allocator, large enough", data == g.last && g.live == 1 && g.allocs == 1 && g.last_size >= T.n);
        if (T.W < T.n) CHECK("read_raw_data: every byte is the stream's, in order", ((uint8_t*)data)[T.W] == T.wv);
        REACH("read"); if (T.shorts > 0) REACH("read in pieces");
    } else {
        CHECK("read_raw_data: a failed read yields no value", data == d1);
        CHECK("read_raw_data: memory obtained for it is given back", g.live == 0);
        CHECK("read_raw_data: fails only when the stream failed or ended early, or memory ran out", T.errs > 0 || g.oom > 0 || T.rpos < T.n);
        CHECK("read_raw_data: the stream's error is reported", IMPL(T.errs > 0, st == T.err));
        REACH("failed");
    }
}
#ifdef STUB_MEMSET
//@ {"uncut":true,"props":["C18","C20"],"cuts":{"psock_read_raw_data":[["ptr","data_size","buffer"]]},"defs":["STUB_MEMSET"],"cover":["psock_read_raw_data"],"unwind":20,
//@  "assumes":["memset meets its C standard contract"]}
void H_read_raw_data(void)
{
    t_init(0, 1, 1); g.fail_at = nd_bool() ? 0 : NONE;
    T.n = nd_size(); ASSUME(T.n <= (size_t)1 << 40); PAYN(T.n);
    T.W = nd_size(); T.wv = nd_u8();
    char d1; void* data = &d1;
    status st = S(psock_read_raw_data)(&v_ps, &v_alloc, &data, T.n);
    check_read_data(st, data, &d1);
}
#endif
_Bool v_cut_psock_write_raw_data_0(void* vptr, void* vsize)
{
    const uint8_t** ptr = (const uint8_t**)vptr; size_t* size = (size_t*)vsize;
#define INV_W (*ptr == T.src + (T.n - *size) && *size <= T.n && T.wpos == T.n - *size && T.errs == 0 && IMPL(T.wseen, T.wout == T.wv) && T.wseen == (T.W < T.wpos))
    if (T.arr++ == 0) {
        CHECK("write_raw_data loop: invariant holds on entry", INV_W);
        *size = nd_size(); ASSUME(*size <= T.n); *ptr = T.src + (T.n - *size); T.wpos = T.n - *size; T.wseen = nd_bool(); T.wout = nd_u8(); T.shorts = nd_int(); T.calls = nd_int(); T.k0 = *size;
        ASSUME(T.shorts >= 0 && T.shorts < 1000 && T.calls >= 0 && T.calls < 1000);
        ASSUME(INV_W);
    } else {
        CHECK("write_raw_data loop: invariant is preserved", INV_W);
        CHECK("write_raw_data loop: makes progress", *size < T.k0);
        ASSUME(0);
    }
    return 1;
}
static void write_data(size_t max)
{
    t_init(0, 1, 1);
    T.n = nd_upto(max); PAYN(T.n);
    uint8_t* d = malloc(T.n + 1); ASSUME(d != NULL);
#ifdef MODE_N
    for (size_t i = 0; i <= T.n; ++i) d[i] = (uint8_t)(i * 7 + 1);
#endif
    T.W = nd_size(); ASSUME(T.W < T.n || T.n == 0); T.wv = d[T.n ? T.W : 0]; T.src = d;
    status st = S(psock_write_raw_data)(&v_ps, d, T.n);
    if (st == STATUS_SUCCESS) {
        CHECK("write_raw_data: success means exactly the bytes given were accepted", T.wpos == T.n && T.errs == 0);
        if (T.n > 0) CHECK("write_raw_data: every byte was written once, in order", T.wseen && T.wout == T.wv);
        REACH("written");
    } else {
        CHECK("write_raw_data: fails only when the stream failed or accepted nothing", T.errs > 0 || T.wpos < T.n);
        CHECK("write_raw_data: the stream's error is reported", IMPL(T.errs > 0, st == T.err));
        REACH("failed");
    }
    if (T.n > 0) CHECK("write_raw_data: the data is not changed", d[T.W] == T.wv);
    free(d);
}
//@ {"uncut":true,"props":["C18","C20"],"cuts":{"psock_write_raw_data":[["dptr","data_size"]]},"cover":["psock_write_raw_data"],"unwind":20}
void H_write_raw_data(void) { write_data((size_t)1 << 40); }
//@ {"props":["C20"],"cover":["psock_read_raw"],"unwind":20}
void H_read_raw(void)
{
    t_init(0, 1, 1);
    T.n = nd_size(); ASSUME(T.n > 0 && T.n <= (size_t)1 << 40); PAYN(T.n);
    T.W = nd_size(); T.wv = nd_u8();
    uint8_t* d = malloc(T.n); ASSUME(d != NULL);
    size_t n = T.n;
    status st = S(psock_read_raw)(&v_ps, d, &n);
    CHECK("read_raw: never more than asked for", T.rpos <= T.n);
    if (st == STATUS_SUCCESS) {
        CHECK("read_raw: reports exactly the bytes that arrived", n == T.rpos && T.errs == 0);
        if (T.W < n) CHECK("read_raw: the bytes are the stream's, in order", d[T.W] == T.wv);
        REACH("read");
    } else {
        CHECK("read_raw: fails only when the stream failed, with its error", T.errs > 0 && st == T.err);
        REACH("failed");
    }
    free(d);
}
#ifdef STUB_MEMSET
UNITS(U(read_raw_data))
#else
UNITS(U(byte_order) U(raw_write) U(raw_read) U(raw_trip) U(boxed_write) U(boxed_read) U(boxed_trip) U(boxed_blob_read) U(boxed_blob_write) U(write_raw_data) U(read_raw))
#endif
