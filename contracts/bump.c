/* Contracts for the bump allocator, reached through its own interface (src/allocator/bump_allocator_create.c).
 * The real source is included so that its private bookkeeping can be named. */
#include "allocator/bump_allocator_create.c"
#include "common.h"
typedef struct BG { uint8_t* mem; size_t n; unsigned k; S(allocator)* a; void* slot; void* oslot; size_t off; size_t wi; uint8_t wv; } BG;
BG b;
#define BUMP ((bump_allocator*)b.a)
#define HDR sizeof(bump_allocator)
#define INV (BUMP->region == b.mem && BUMP->max_size == b.n && BUMP->offset >= HDR && BUMP->offset <= b.n)
/* any region of any size (at least the bookkeeping), at any alignment the structure allows */
static void region(void)
{
    v_init(NONE, NONE);
    b.n = nd_size(); b.k = nd_below(2) * 8;
#ifdef MODE_N
    { extern int v_random; if (v_random) b.n %= 4096; }
    ASSUME(b.n < (1u << 20));
#endif
    ASSUME(b.n < ((size_t)1 << 54));
    uint8_t* m = malloc(b.n + 16); ASSUME(m != NULL);
    b.mem = m + b.k; b.a = NULL; b.slot = b.oslot = NULL;
}
static void state(void)
{
    region(); ASSUME(b.n >= HDR);
    /* the bookkeeping is kept in an object of its own here (bump_create shows that the real one
     * occupies the first HDR bytes of the pool): the verifier then need not view bytes as a struct */
    bump_allocator* x = malloc(HDR); ASSUME(x != NULL);
    S(resource_init)(&x->hdr.hdr, &bump_allocator_vtable.hdr);
    x->region = b.mem; x->max_size = b.n; b.a = &x->hdr;
    /* after any history: anything consistent with the invariant */
    b.off = nd_size();
#ifdef MODE_N
    { extern int v_random; if (v_random) b.off = HDR + b.off % (b.n - HDR + 1); }
#endif
    ASSUME(b.off >= HDR && b.off <= b.n);
    BUMP->offset = b.off;
    b.wi = nd_upto(b.n ? b.n - 1 : 0); ASSUME(b.wi < b.n); ASSUME(b.wi >= HDR);
    b.wv = b.mem[b.wi];
}
static size_t at(const void* p) { return (size_t)((const uint8_t*)p - b.mem); }
#define SPEC_bump_allocator_create(E) \
 E("create: refused exactly when the bookkeeping does not fit", (RET == 0) == (b.n >= HDR)) \
 E("create: the allocator lives in the region and its invariant holds", IMPL(RET == 0, (void*)b.a == (void*)b.mem && INV)) \
 E("create: failure hands out nothing", IMPL(RET != 0, b.a == NULL))
status S(bump_allocator_create)(S(allocator)** a, void* region, size_t n)
 REQ(a == &b.a && region == b.mem && n == b.n) CONTRACT(bump_allocator_create) FRAME(b.a; b.n >= HDR: __CPROVER_object_upto(b.mem, HDR));
//@ {"fn":"bump_allocator_create","props":["C02","C04"]}
void H_bump_create(void)
{
    region();
    status RET = S(bump_allocator_create)(&b.a, b.mem, b.n);
    CHECKSPEC(bump_allocator_create)
    if (RET == 0) REACH("ok"); else REACH("refused");
}
#define SPEC_allocator_allocate(E) \
 E("allocate: a request that cannot fit is refused", IMPL(size > b.n - b.off, RET != 0)) \
 E("allocate: one that fits with room to spare is granted", IMPL(b.n - b.off >= 16 && size < b.n - b.off - 15, RET == 0)) \
 E("allocate: the region is inside the pool", IMPL(RET == 0, at(b.slot) <= b.n && size <= b.n - at(b.slot))) \
 E("allocate: it overlaps nothing handed out earlier, nor the bookkeeping", IMPL(RET == 0, (uint8_t*)b.slot >= b.mem && at(b.slot) >= b.off)) \
 E("allocate: later regions will not overlap it", IMPL(RET == 0, BUMP->offset >= at(b.slot) + size && BUMP->offset >= b.off)) \
 E("allocate: it is suitably aligned", IMPL(RET == 0, (size_t)b.slot % 16 == 0)) \
 E("allocate: a refusal is reported as out of memory and changes nothing", IMPL(RET != 0, RET == ERROR_GENERAL_OUT_OF_MEMORY && b.slot == NULL && BUMP->offset == b.off)) \
 E("allocate: the invariant is kept", INV) E("allocate: no other byte of the pool changes", b.mem[b.wi] == b.wv)
status S(allocator_allocate)(S(allocator)* a, void** p, size_t size)
 REQ(a == b.a && p == &b.slot) CONTRACT(allocator_allocate) FRAME(b.slot, BUMP->offset);
//@ {"fn":"allocator_allocate","props":["C02"],"assumes":["bump pool smaller than 2^54 bytes (CBMC address space)"]}
void H_bump_allocate(void)
{
    state(); b.slot = nd_bool() ? (void*)&b : NULL;
    size_t size = nd_size();
    status RET = S(allocator_allocate)(b.a, &b.slot, size);
    CHECKSPEC(allocator_allocate)
    if (RET == 0) REACH("ok"); else REACH("refused");
    if (RET != 0 && size > SIZE_MAX / 2) REACH("huge request");
}
#define SPEC_allocator_reclaim(E) \
 E("reclaim: succeeds and disturbs nothing", RET == 0 && INV && BUMP->offset == b.off && b.mem[b.wi] == b.wv)
status S(allocator_reclaim)(S(allocator)* a, void* p) REQ(a == b.a) CONTRACT(allocator_reclaim) FRAME();
//@ {"fn":"allocator_reclaim","props":["C02"]}
void H_bump_reclaim(void)
{
    state();
    status RET = S(allocator_reclaim)(b.a, b.mem + b.wi);
    CHECKSPEC(allocator_reclaim)
    REACH("done");
}
#define SPEC_allocator_reallocate(E) \
 E("reallocate: refused, leaving the region valid and in place", RET != 0 && b.slot == b.oslot && INV && BUMP->offset == b.off && b.mem[b.wi] == b.wv)
status S(allocator_reallocate)(S(allocator)* a, void** p, size_t n) REQ(a == b.a && p == &b.slot) CONTRACT(allocator_reallocate) FRAME();
//@ {"fn":"allocator_reallocate","props":["C02"]}
void H_bump_reallocate(void)
{
    state(); b.slot = b.oslot = b.mem + b.wi;
    status RET = S(allocator_reallocate)(b.a, &b.slot, nd_size());
    CHECKSPEC(allocator_reallocate)
    REACH("done");
}
#define SPEC_allocator_control(E) \
 E("control: reset gives the whole pool back and nothing else does anything", IMPL(key == RCPR_ALLOCATOR_CONTROL_BUMP_ALLOCATOR_RESET, RET == 0 && BUMP->offset == HDR) && IMPL(key != RCPR_ALLOCATOR_CONTROL_BUMP_ALLOCATOR_RESET, RET != 0 && BUMP->offset == b.off)) \
 E("control: the invariant is kept", INV)
status S(allocator_control)(S(allocator)* a, int key, void* v, size_t n) REQ(a == b.a) CONTRACT(allocator_control) FRAME(BUMP->offset);
//@ {"fn":"allocator_control","props":["C02"]}
void H_bump_control(void)
{
    state(); int key = nd_int();
    status RET = S(allocator_control)(b.a, key, NULL, 0);
    CHECKSPEC(allocator_control)
    if (RET == 0) REACH("reset"); else REACH("unknown key");
}
//@ {"props":["C02","C03","C05"],"cover":["bump_allocator_create"]}
void H_bump_release(void)
{
    state();
    status s = S(resource_release)(S(allocator_resource_handle)(b.a));
    CHECK("releasing a bump allocator succeeds and leaves the region to its owner", s == 0 && b.mem[b.wi] == b.wv);
    REACH("done");
}
UNITS(U(bump_create) U(bump_allocate) U(bump_reclaim) U(bump_reallocate) U(bump_control) U(bump_release))
