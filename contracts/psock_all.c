/* Exhaustive native searches beside the proofs of psock_raw.c: every way a
 * scripted stream can split, end or fail a small transfer. */
#include "common.h"
#include "enum.h"
#include <rcpr/psock.h>
#include "psock/psock_internal.h"
#ifndef NB
#define NB 5
#endif
typedef S(psock) psock;
#ifdef MODE_N
static psock ps; static int ctx; static uint8_t in[64], out[64]; static size_t rp, wp, inlen; static int errs, zeros, shorts, err; static long calls;
static status s_read(psock* s, void* c, void* d, size_t* n, bool b)
{
    (void)b; CHECK("the stream is asked to read on itself with its own context", s == &ps && c == &ctx);
    CHECK("a transfer makes progress", ++calls < 100);
    int k = *n > 8 ? 8 : (int)*n, x = ex_choose(k + 2);
    if (x == k + 1) { ++errs; return err; }
    size_t a = k - x; if (a > inlen - rp) a = inlen - rp;   /* first choice: as much as asked for */
    if (a == 0 && *n) ++zeros; if (a < *n) ++shorts;
    memcpy(d, in + rp, a); rp += a; *n = a; return 0;
}
static status s_write(psock* s, void* c, const void* d, size_t* n)
{
    CHECK("the stream is asked to write on itself with its own context", s == &ps && c == &ctx);
    CHECK("a transfer makes progress", ++calls < 100);
    int k = *n > 8 ? 8 : (int)*n, x = ex_choose(k + 2);
    if (x == k + 1) { ++errs; return err; }
    size_t a = k - x; if (a > sizeof out - wp) a = sizeof out - wp; if (a == 0 && *n) ++zeros; if (a < *n) ++shorts;
    memcpy(out + wp, d, a); wp += a; *n = a; return 0;
}
static status s_rel(S(resource)* r) { (void)r; return 0; }
static const S(psock_vtable) vt = { .hdr = { &s_rel }, .read_fn = &s_read, .write_fn = &s_write };
static void start(void)
{
    v_init(NONE, NONE); rp = wp = 0; inlen = sizeof in; errs = zeros = shorts = 0; calls = 0; err = 4242; memset(out, 0xEE, sizeof out);
    for (size_t i = 0; i < sizeof in; ++i) in[i] = (uint8_t)(i * 37 + 11);
    S(resource_init)(&ps.hdr, &vt.hdr); ps.context = &ctx; ps.type = PSOCK_TYPE_USER; ps.socktype = 0; ps.alloc = &v_alloc;
}
static void read_data(void)
{
    start(); size_t n = ex_choose(NB + 1); g.fail_at = ex_choose(2) - 1; inlen = ex_choose(NB + 1); char d1; void* d = &d1;
    status st = S(psock_read_raw_data)(&ps, &v_alloc, &d, n);
    if (st == 0) {
        CHECK("read_raw_data: success means exactly the bytes asked for arrived, once and in order", rp == n && errs == 0 && (n == 0 || !memcmp(d, in, n)));
        CHECK("read_raw_data: the value is fresh memory from the given allocator, large enough", g.live == 1 && g.last_size >= n); v_reclaim(&v_alloc, d);
    } else {
        CHECK("read_raw_data: fails only when the stream failed or ended early, or memory ran out", errs || g.oom || rp < n);
        CHECK("read_raw_data: the stream's error is reported", !errs || st == err);
        CHECK("read_raw_data: a failed read yields no value and keeps no memory", d == &d1 && g.live == 0);
    }
    if (errs == 0 && zeros == 0 && g.oom == 0 && inlen >= n) CHECK("read_raw_data: short reads alone do not fail it", st == 0);
}
static void write_data(void)
{
    start(); size_t n = ex_choose(NB + 1); uint8_t d[NB + 1]; for (size_t i = 0; i < sizeof d; ++i) d[i] = (uint8_t)(i * 29 + 3);
    status st = S(psock_write_raw_data)(&ps, d, n);
    if (st == 0) CHECK("write_raw_data: success means exactly the bytes given were accepted, once and in order", wp == n && errs == 0 && !memcmp(out, d, n));
    else { CHECK("write_raw_data: fails only when the stream failed or accepted nothing", errs || zeros); CHECK("write_raw_data: the stream's error is reported", !errs || st == err); }
    if (errs == 0 && zeros == 0) CHECK("write_raw_data: short writes alone do not fail it", st == 0);
}
static void boxed_blob(int str)
{
    start(); size_t n = ex_choose(4); char d[5] = "xyz"; d[n] = 0;
    /* written without a fault, then read back through every split and fault */
    ps.hdr.vtable = &vt.hdr; uint8_t pk[64];
    size_t pn = 8 + n; uint32_t tag = str ? PSOCK_BOXED_TYPE_STRING : PSOCK_BOXED_TYPE_DATA;
    int bad = ex_choose(5);   /* 0: intact, 1: another tag, 2: longer length than sent, 3, 4: huge lengths */
    for (int i = 0; i < 4; ++i) { pk[i] = (uint8_t)(tag >> (24 - 8 * i)); pk[4 + i] = (uint8_t)((uint32_t)(n + (bad == 2)) >> (24 - 8 * i)); }
    if (bad == 1) pk[ex_choose(4)] ^= 0x10;
    if (bad >= 3) { pk[4] = pk[5] = pk[6] = 0xff; pk[7] = bad == 3 ? 0xff : 0xfe; }
    memcpy(pk + 8, d, n); memcpy(in, pk, pn); inlen = pn; g.fail_at = ex_choose(2) - 1;
    char d1; void* v = &d1; size_t len = 777;
    status st = str ? S(psock_read_boxed_string)(&ps, &v_alloc, (char**)&v, &len) : S(psock_read_boxed_data)(&ps, &v_alloc, &v, &len);
    if (st == 0) {
        CHECK("boxed blob: success means an intact packet of the right type", bad == 0 && errs == 0 && rp == pn);
        CHECK("boxed blob: the value reads back equal", len == n && !memcmp(v, d, n + (str ? 1 : 0))); v_reclaim(&v_alloc, v); CHECK("boxed blob: one block of memory", g.live == 0);
    } else {
        CHECK("boxed blob: a rejected packet yields no value and keeps no memory", v == &d1 && len == 777 && g.live == 0);
        CHECK("boxed blob: fails only for cause", bad || errs || shorts || g.oom || rp < pn);
    }
}
static void boxed_trip(int str)
{
    start(); size_t n = ex_choose(4); char d[5] = "xyz"; d[n] = 0; uint32_t tag = str ? PSOCK_BOXED_TYPE_STRING : PSOCK_BOXED_TYPE_DATA;
    status st = str ? S(psock_write_boxed_string)(&ps, d) : S(psock_write_boxed_data)(&ps, d, n);
    if (st == 0) {
        CHECK("boxed blob: the packet is tag, length, payload", wp == 8 + n && out[0] == (uint8_t)(tag >> 24) && out[1] == (uint8_t)(tag >> 16) && out[2] == (uint8_t)(tag >> 8) && out[3] == (uint8_t)tag
            && out[4] == 0 && out[5] == 0 && out[6] == 0 && out[7] == n && !memcmp(out + 8, d, n) && errs == 0);
    } else CHECK("boxed blob: a write fails only for cause", errs || shorts);
}
#endif
//@ {"props":["C18","C20"],"native":true,"companion":true,"bound":"reads of at most 5 bytes, every split, end and failure","cover":["psock_read_raw_data"]}
void H_all_read_raw_data(void) { EXHAUST(read_data()); }
//@ {"props":["C18","C20"],"native":true,"companion":true,"bound":"writes of at most 5 bytes, every split and failure","cover":["psock_write_raw_data"]}
void H_all_write_raw_data(void) { EXHAUST(write_data()); }
//@ {"props":["C19"],"native":true,"companion":true,"bound":"strings and data of at most 3 bytes, every split, end and failure, damaged tag or length","cover":["psock_read_boxed_string","psock_read_boxed_data","psock_write_boxed_string","psock_write_boxed_data"]}
void H_all_boxed_blob(void) { EXHAUST(boxed_blob(1)); EXHAUST(boxed_blob(0)); EXHAUST(boxed_trip(1)); EXHAUST(boxed_trip(0)); }
UNITS(U(all_read_raw_data) U(all_write_raw_data) U(all_boxed_blob))
