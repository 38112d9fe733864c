/* Contracts for the big integers (src/bigint), for every size and every digit (at a witness digit W). */
#include "common.h"
#include <rcpr/bigint.h>
#include "bigint/bigint_internal.h"
typedef S(bigint) bigint;
struct { bigint* b; bigint* c; size_t bits, W, B; uint64_t ow; size_t ol; _Bool os; void *p0, *p1; } G;
#ifndef MODE_N
/* structures are moved exactly, digit arrays through the log */
static _Bool special(void* d, const void* s, int c, size_t n)
{
    if (n != sizeof(bigint)) return 0;
    if (s) *(bigint*)d = *(const bigint*)s; else { static const bigint z; if (c != 0) return 0; *(bigint*)d = z; }
    return 0;   /* logged as well: it may be a digit array of that size */
}
#define ML_SPECIAL(d, s, c, n) special(d, s, c, n)
#endif
#include "memlog.h"
/* the arithmetic of the contract: digits needed for a bit size (no overflow) */
static size_t need(size_t bits) { return bits / 64 + (bits % 64 != 0); }
static _Bool readable(const bigint* b, size_t W) { return
#ifdef MODE_N
    1;
#else
    __CPROVER_w_ok(b->array, b->length * 8);
#endif
}
//@ {"props":["C17","C04"],"cover":["bigint_create_zero"],"unwind":70,"assumes":["memset and memcpy meet their C standard contracts (stated at a witness digit)","big integers below 2^40 bits (an allocation of more than CBMC's object size is not modelled)"]}
void H_bigint_create_zero(void)
{
    v_init(ANY, NONE);
    ml_init(); G.B = nd_below(8); G.b = NULL; G.bits = nd_size();
#ifdef MODE_N
    G.bits %= 5000;
#endif
    ASSUME(G.bits < ((size_t)1 << 40));
    G.W = nd_size();
#ifdef MODE_N
    if (G.bits) G.W %= (G.bits + 63) / 64;
#endif
    ASSUME(G.W < need(G.bits) || G.bits == 0);
    status r = S(bigint_create_zero)(&G.b, &v_alloc, G.bits);
    CHECK("create: fails exactly when memory is refused", (r == 0) == (g.oom == 0));
    if (r == 0) {
        CHECK("create: two blocks from the given allocator", g.live == 2 && G.b->a == &v_alloc);
        CHECK("create: room for at least the bits asked for, no sign", G.b->length >= need(G.bits) && G.b->sign == false);
        CHECK("create: the digits are all there", readable(G.b, 0));
        CHECK("create: every digit reads zero", IMPL(G.W < G.b->length, IS_BYTE((uint8_t*)(G.b->array + G.W) + G.B, 0)));
        CHECK("create: the handle is the integer's own", S(bigint_resource_handle)(G.b) == &G.b->hdr);
        REACH("created");
    } else { CHECK("create: nothing is leaked", g.live == 0 && g.reclaims == g.allocs); CHECK("create: nothing is handed out", G.b == NULL); REACH("refused"); }
}
static void some(S(allocator)* own)
{
    /* an arbitrary big integer, as create or clone leave it (digits and sign then set by anyone) */
    bigint* b = NEW(bigint);
    S(resource_init)(&b->hdr, &v_child_vt);
    /* the release behaviour of a real one */
    bigint* z = NULL; int f = g.fail_at; g.fail_at = NONE;
    status r = S(bigint_create_zero)(&z, &v_alloc, 0); ASSUME(r == 0);
    b->hdr = z->hdr;
    free(z->array); free(z); g.live -= 2; g.allocs = 0; g.alloc_calls = 0; g.fail_at = f;
    if (own == &v_other) { g.live -= 1; g.other_live = 1; }
    b->a = own; b->sign = nd_bool(); b->length = nd_size();
#ifdef MODE_N
    b->length %= 70;
#endif
    ASSUME(b->length < ((size_t)1 << 34));
    b->array = v_new(b->length * 8); if (own == &v_other) { g.live -= 1; g.other_live = 2; }
    ml_init(); G.B = nd_below(8);
#ifdef MODE_N
    nd_bytes(b->array, b->length * 8, 64);
#endif
    G.W = nd_size();
#ifdef MODE_N
    if (b->length) G.W %= b->length;
#endif
    ASSUME(G.W < b->length || b->length == 0);
    G.ow = b->length ? b->array[G.W] : 0; G.ol = b->length; G.os = b->sign;
    G.b = b; G.p0 = b->array;
}
static _Bool unchanged(void) { return G.b->length == G.ol && G.b->sign == G.os && G.b->array == G.p0 && IMPL(G.ol > 0, HOLDS((uint8_t*)(G.b->array + G.W) + G.B, (uint8_t*)((uint64_t*)G.p0 + G.W) + G.B, G.ow >> 8 * G.B)); }
//@ {"props":["C17","C04"],"unwind":70,"cover":["bigint_clone"]}
void H_bigint_clone(void)
{
    v_init(ANY, NONE);
    some(&v_other);
    int live = g.live; G.c = NULL;
    status r = S(bigint_clone)(&G.c, &v_alloc, G.b);
    CHECK("clone: fails exactly when memory is refused", (r == 0) == (g.oom == 0));
    CHECK("clone: the original is unchanged", unchanged());
    if (r == 0) {
        CHECK("clone: memory of its own", g.live == live + 2 && G.c != G.b && G.c->array != G.b->array && G.c->a == &v_alloc);
        CHECK("clone: same size and sign", G.c->length == G.ol && G.c->sign == G.os);
        CHECK("clone: the digits are all there", readable(G.c, 0));
        CHECK("clone: same digits", IMPL(G.ol > 0, HOLDS((uint8_t*)(G.c->array + G.W) + G.B, (uint8_t*)((uint64_t*)G.p0 + G.W) + G.B, G.ow >> 8 * G.B)));
        CHECK("clone: released like the original", G.c->hdr.vtable == G.b->hdr.vtable);
        /* independence */
        G.c->sign = !G.c->sign;
#ifdef MODE_N
        if (G.ol > 0) G.c->array[G.W] = ~G.ow;
#endif
        CHECK("clone: changing the clone leaves the original alone", unchanged());
        REACH("cloned");
    } else { CHECK("clone: nothing is leaked", g.live == live && g.reclaims == g.allocs); CHECK("clone: nothing is handed out", G.c == NULL); REACH("refused"); }
}
//@ {"props":["C17","C05","C03"],"unwind":70,"cover":["bigint_release","bigint_resource_handle"]}
void H_bigint_release(void)
{
    v_init(NONE, ANY);
    some(&v_alloc);
    status r = S(resource_release)(S(bigint_resource_handle)(G.b));
    CHECK("release: both blocks are given back exactly once", g.live == 0 && g.reclaims == 2);
    CHECK("release: a failure is reported", (r == 0) == (g.reclaim_failed == 0));
    if (r == 0) REACH("released"); else REACH("failed");
}
//@ {"props":["C17"],"unwind":70,"cover":["bigint_clone","bigint_release"]}
void H_bigint_release_clone(void)
{
    v_init(NONE, NONE);
    some(&v_other);
    G.c = NULL;
    status r = S(bigint_clone)(&G.c, &v_alloc, G.b);
    CHECK("clone succeeds", r == 0);
    if (nd_bool()) {
        r = S(resource_release)(S(bigint_resource_handle)(G.c));
        CHECK("releasing the clone succeeds and leaves the original alone", r == 0 && g.live == 0 && g.other_live == 2 && unchanged());
        REACH("clone first");
    } else {
        r = S(resource_release)(S(bigint_resource_handle)(G.b));
        CHECK("releasing the original succeeds and leaves the clone alone", r == 0 && g.live == 2 && g.other_live == 0 && G.c->length == G.ol && G.c->sign == G.os && IMPL(G.ol > 0, HOLDS((uint8_t*)(G.c->array + G.W) + G.B, (uint8_t*)((uint64_t*)G.p0 + G.W) + G.B, G.ow >> 8 * G.B)));
        REACH("original first");
    }
}
UNITS(U(bigint_create_zero) U(bigint_clone) U(bigint_release) U(bigint_release_clone))
