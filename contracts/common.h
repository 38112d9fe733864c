/* Common vocabulary of the contract files.
 *
 * MODE_P  deductive mode: clauses become CBMC code contracts.
 * MODE_B  bounded mode: clauses become assertions after the call (gives traces).
 * MODE_N  native mode: the same harness compiled with gcc and sanitizers, fed
 *         with the verifier's counterexample (or random values) against the
 *         real object code.
 */
#ifndef V_COMMON_H
#define V_COMMON_H
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdbool.h>
#include <limits.h>
#include <rcpr/allocator.h>
#include <rcpr/resource.h>
#include <rcpr/status.h>
#include <rcpr/uuid.h>
#include <rcpr/vtable.h>
#include "resource/resource_internal.h"
#include "allocator/allocator_internal.h"

#define S(x) RCPR_SYM(x)
#define RET __CPROVER_return_value
#define IMPL(a, b) (!(a) || (b))

#ifdef MODE_N
#include <stdio.h>
#include <setjmp.h>
#include <unistd.h>
extern jmp_buf v_jb;
void v_fail(const char* l); void v_diverge(const char* c); uint64_t v_next(void);
#define ASSUME(c) do { if (!(c)) v_diverge(#c); } while (0)
#define CHECK(l, c) do { if (!(c)) v_fail(l); } while (0)
#define REACH(l) ((void)0)
#define NDFN(T, n) static T nd_##n(void) { return (T)v_next(); }
#else
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(l, c) __CPROVER_assert(c, l)
#define REACH(l) __CPROVER_assert(0, "REACH " l)
extern uint64_t v_feed;
#define NDFN(T, n) T nondet_##n(void); static T nd_##n(void) { T nd_v = nondet_##n(); v_feed = (uint64_t)nd_v; return nd_v; }
#endif

#ifdef MODE_P
#define REQ(e) __CPROVER_requires(e)
#define ENS(l, e) __CPROVER_ensures(e)
#define FRAME(...) __CPROVER_assigns(__VA_ARGS__)
#define FREES(...) __CPROVER_frees(__VA_ARGS__)
#define OLD(e) __CPROVER_old(e)
#define PB(p, b) (p)
#define CHK(l, e)
#define IFP(...) __VA_ARGS__
#else
#define REQ(e)
#define ENS(l, e)
#define FRAME(...)
#define FREES(...)
#define PB(p, b) (b)
#define CHK(l, e) CHECK(l, e);
#define IFP(...)
#endif
/* put the clauses of F after its declaration / check them after a call */
#define CONTRACT(F) SPEC_##F(ENS)
#define CHECKSPEC(F) SPEC_##F(CHK)

/* stand-ins for system functions: the real name under CBMC, --wrap natively */
#ifdef MODE_N
#define SYSFN(x) __wrap_##x
#else
#define SYSFN(x) x
#endif

NDFN(_Bool, bool)
NDFN(uint8_t, u8)
NDFN(uint16_t, u16)
NDFN(uint32_t, u32)
NDFN(uint64_t, u64)
NDFN(size_t, size)
NDFN(int, int)

/* a value in [0,n) */
static unsigned nd_below(unsigned n)
{
#ifdef MODE_N
    extern int v_random; unsigned v = nd_u32(); if (v_random) v %= n;
#else
    unsigned v = nd_u32();
#endif
    ASSUME(v < n); return v;
}
static size_t nd_upto(size_t n)
{
#ifdef MODE_N
    extern int v_random; size_t v = nd_size(); if (v_random) v = (n == SIZE_MAX) ? v : v % (n + 1);
#else
    size_t v = nd_size();
#endif
    ASSUME(v <= n); return v;
}
/* A unit split into cases 0..n-1, each with the case a constant (one verifier
 * run per case): keeps heap shapes and dispatch targets concrete for the
 * verifier; together the cases are all there are. */
#ifdef MODE_N
extern int v_case;
#define CASEUNIT(n, x) static void c_##x(unsigned); void H_##x(void) { c_##x(v_case >= 0 ? (unsigned)v_case : nd_below(n)); }
#else
#define CASEUNIT(n, x) static void c_##x(unsigned); CU_##n(x)
#endif
#define CU_1(x) void H_##x##__0(void) { c_##x(0); }
#define CU_2(x) CU_1(x) void H_##x##__1(void) { c_##x(1); }
#define CU_3(x) CU_2(x) void H_##x##__2(void) { c_##x(2); }
#define CU_4(x) CU_3(x) void H_##x##__3(void) { c_##x(3); }
#define CU_5(x) CU_4(x) void H_##x##__4(void) { c_##x(4); }
#define CU_6(x) CU_5(x) void H_##x##__5(void) { c_##x(5); }
#define CU_7(x) CU_6(x) void H_##x##__6(void) { c_##x(6); }
#define CU_8(x) CU_7(x) void H_##x##__7(void) { c_##x(7); }
#define CU_9(x) CU_8(x) void H_##x##__8(void) { c_##x(8); }
#define CU_10(x) CU_9(x) void H_##x##__9(void) { c_##x(9); }
#define CU_11(x) CU_10(x) void H_##x##__10(void) { c_##x(10); }
#define CU_12(x) CU_11(x) void H_##x##__11(void) { c_##x(11); }
#define CU_13(x) CU_12(x) void H_##x##__12(void) { c_##x(12); }
#define CU_14(x) CU_13(x) void H_##x##__13(void) { c_##x(13); }
#define CU_15(x) CU_14(x) void H_##x##__14(void) { c_##x(14); }
#define CU_16(x) CU_15(x) void H_##x##__15(void) { c_##x(15); }
#define CU_17(x) CU_16(x) void H_##x##__16(void) { c_##x(16); }
#define CU_18(x) CU_17(x) void H_##x##__17(void) { c_##x(17); }
#define CU_19(x) CU_18(x) void H_##x##__18(void) { c_##x(18); }
#define CU_20(x) CU_19(x) void H_##x##__19(void) { c_##x(19); }
#define CU_21(x) CU_20(x) void H_##x##__20(void) { c_##x(20); }
#define CU_22(x) CU_21(x) void H_##x##__21(void) { c_##x(21); }
#define CU_23(x) CU_22(x) void H_##x##__22(void) { c_##x(22); }
#define CU_24(x) CU_23(x) void H_##x##__23(void) { c_##x(23); }
#define CU_25(x) CU_24(x) void H_##x##__24(void) { c_##x(24); }
#define CU_26(x) CU_25(x) void H_##x##__25(void) { c_##x(25); }
#define CU_27(x) CU_26(x) void H_##x##__26(void) { c_##x(26); }
#define CU_28(x) CU_27(x) void H_##x##__27(void) { c_##x(27); }
#define CU_29(x) CU_28(x) void H_##x##__28(void) { c_##x(28); }
#define CU_30(x) CU_29(x) void H_##x##__29(void) { c_##x(29); }
#define CU_31(x) CU_30(x) void H_##x##__30(void) { c_##x(30); }
#define CU_32(x) CU_31(x) void H_##x##__31(void) { c_##x(31); }
#define CU_33(x) CU_32(x) void H_##x##__32(void) { c_##x(32); }
#define CU_34(x) CU_33(x) void H_##x##__33(void) { c_##x(33); }
#define CU_35(x) CU_34(x) void H_##x##__34(void) { c_##x(34); }
#define CU_36(x) CU_35(x) void H_##x##__35(void) { c_##x(35); }
/* arbitrary bytes */
static void nd_bytes(void* p, size_t n, size_t max)
{
#ifdef MODE_P
    (void)p; (void)n; (void)max;   /* freshly allocated memory already has arbitrary content */
#else
    for (size_t i = 0; i < max; ++i) if (i < n) ((uint8_t*)p)[i] = nd_u8();
#endif
}

#define V_NCHILD 4
#define V_NBLOCK 24
typedef struct v_child { S(resource) hdr; unsigned released; int st; _Bool freed_; } v_child;
/* all ghost state, in one object */
typedef struct v_ghost {
    int live;                 /* blocks obtained from the stub allocator and not returned */
    int allocs;               /* successful allocations */
    int oom;                  /* refused allocations */
    int alloc_calls;
    int reclaims;
    int reclaim_failed;
    int alloc_released;
    int fail_at;              /* this allocation is refused (-1: none, -2: any may be) */
    int reclaim_fail_at;      /* this return of memory reports failure */
    size_t last_size;
    void* last;
    int child_fail;           /* some child's release reported failure */
    int child_rel;            /* child releases seen */
    int other_live;           /* blocks of the other allocator */
    _Bool watch_on; size_t watch;   /* reallocation keeps contents: an arbitrary word of them */
} v_ghost;
extern v_ghost g;
extern v_child v_c[V_NCHILD];
extern S(allocator) v_alloc, v_other;   /* v_other: an allocator nothing may be requested from */

#if defined(V_SYMALLOC) && !defined(MODE_N)
/* a size the verifier treats as symbolic: keeps large fixed-size blocks as arrays */
static size_t v_sym(size_t n) { if (n < 512) return n; size_t m = nd_size(); ASSUME(m >= n && m <= n); return m; }
#else
#define v_sym(n) (n)
#endif
static status v_allocate(S(allocator)* a, void** p, size_t n)
{
    CHECK("memory is requested from the given allocator", a == &v_alloc);
    ++g.alloc_calls;
    if (g.fail_at == -2 ? nd_bool() : g.fail_at >= 0 && g.fail_at == g.alloc_calls - 1) { ++g.oom; return ERROR_GENERAL_OUT_OF_MEMORY; }
    void* q = malloc(v_sym(n));
    ASSUME(q != NULL);
    ++g.live; ++g.allocs; g.last_size = n; g.last = q;
    *p = q;
    return STATUS_SUCCESS;
}
static status v_reclaim(S(allocator)* a, void* p)
{
    CHECK("memory is returned to the allocator it came from", a == &v_alloc);
    CHECK("memory returned is non-null and live", p != NULL && g.live > 0);
    free(p);
    --g.live; ++g.reclaims;
    if (g.reclaim_fail_at == -2 ? nd_bool() : g.reclaim_fail_at >= 0 && g.reclaim_fail_at == g.reclaims - 1) { ++g.reclaim_failed; return 1234; }
    return STATUS_SUCCESS;
}
static status v_reallocate(S(allocator)* a, void** p, size_t n)
{
    CHECK("memory is resized by the allocator it came from", a == &v_alloc);
    ++g.alloc_calls;
    if (g.fail_at == -2 ? nd_bool() : g.fail_at >= 0 && g.fail_at == g.alloc_calls - 1) { ++g.oom; return ERROR_GENERAL_OUT_OF_MEMORY; }
    void* q;
#if !defined(MODE_N)
    if (g.watch_on) {   /* the contents are kept: stated for an arbitrary word */
        q = malloc(n); ASSUME(q != NULL);
        if (g.watch < __CPROVER_OBJECT_SIZE(*p) / sizeof(void*) && g.watch < n / sizeof(void*)) ASSUME(((void**)q)[g.watch] == ((void**)*p)[g.watch]);
        free(*p);
    } else
#endif
    { q = realloc(*p, n); ASSUME(q != NULL); }
    g.last_size = n; g.last = q;
    *p = q;
    return STATUS_SUCCESS;
}
static status v_o_allocate(S(allocator)* a, void** p, size_t n) { (void)a; (void)p; (void)n; CHECK("memory is requested from the allocator given, not from another's", 0); return ERROR_GENERAL_OUT_OF_MEMORY; }
static status v_o_reclaim(S(allocator)* a, void* p)
{
    CHECK("memory is returned to the allocator it came from", a == &v_other && p != NULL && g.other_live > 0);
    free(p); --g.other_live; return STATUS_SUCCESS;
}
static status v_o_reallocate(S(allocator)* a, void** p, size_t n) { return v_o_allocate(a, p, n); }
static status v_alloc_release(S(resource)* r) { (void)r; ++g.alloc_released; return STATUS_SUCCESS; }
static status v_child_release(S(resource)* r)
{
    v_child* c = (v_child*)r;
    CHECK("an owned resource is released at most once", c->released == 0);
    ++c->released; ++g.child_rel;
    if (c->st != STATUS_SUCCESS) ++g.child_fail;
    return c->st;
}
#ifndef V_NO_COMMON_DEFS
static const S(allocator_vtable) v_alloc_vt = { .hdr = { &v_alloc_release }, .allocate_fn = &v_allocate, .reclaim_fn = &v_reclaim, .reallocate_fn = &v_reallocate };
static const S(allocator_vtable) v_other_vt = { .hdr = { &v_alloc_release }, .allocate_fn = &v_o_allocate, .reclaim_fn = &v_o_reclaim, .reallocate_fn = &v_o_reallocate };
static const S(resource_vtable) v_child_vt = { &v_child_release };
v_ghost g;
v_child v_c[V_NCHILD];
S(allocator) v_alloc, v_other;
#ifndef MODE_N
uint64_t v_feed;
#endif
#endif

#define ANY (-2)
#define NONE (-1)
static void v_init(int fail_at, int reclaim_fail_at)
{
    g.live = g.allocs = g.oom = g.alloc_calls = g.reclaims = g.reclaim_failed = g.alloc_released = 0;
    g.last_size = 0; g.last = NULL; g.child_fail = g.child_rel = 0; g.other_live = 0; g.watch_on = 0; g.watch = 0;
    g.fail_at = fail_at; g.reclaim_fail_at = reclaim_fail_at;
    S(resource_init)(&v_alloc.hdr, &v_alloc_vt.hdr); S(resource_init)(&v_other.hdr, &v_other_vt.hdr);
    for (int i = 0; i < V_NCHILD; ++i) {
        S(resource_init)(&v_c[i].hdr, &v_child_vt);
        v_c[i].released = 0; v_c[i].st = STATUS_SUCCESS;
    }
}
/* a block that looks as if it came from the stub allocator */
static void* v_new(size_t n)
{
    void* q = malloc(v_sym(n));
    ASSUME(q != NULL);
    ++g.live;
    return q;
}
#define NEW(T) ((T*)v_new(sizeof(T)))

/* native driver */
#ifdef MODE_N
jmp_buf v_jb;
int v_random, v_case = -1;
static uint64_t v_feedv[65536]; static size_t v_feedn, v_feedi; static uint64_t v_rng;
uint64_t v_next(void)
{
    uint64_t v;
    if (!v_random) return v_feedi < v_feedn ? v_feedv[v_feedi++] : 0;
    v_rng ^= v_rng << 13; v_rng ^= v_rng >> 7; v_rng ^= v_rng << 17;
    v = v_rng * 0x2545F4914F6CDD1DULL;
    switch ((v >> 60) & 7) { case 0: v &= 1; break; case 1: v &= 3; break; case 2: v &= 15; break; case 3: v &= 0xff; break;
        case 4: { static const uint8_t sp[] = { ' ', '\n', '\r', '\t', 'a', 0, 0xff, 'F' }; v = sp[v & 7]; break; }
        default: v >>= (v >> 40) & 15; break; }
    if (v_feedn < 65536) v_feedv[v_feedn++] = v;
    return v;
}
static void v_dump(void)
{
    fprintf(stderr, "V_FEED=");
    for (size_t i = 0; i < v_feedn; ++i) fprintf(stderr, "%s%llx", i ? "," : "", (unsigned long long)v_feedv[i]);
    fprintf(stderr, "\n");
}
void v_fail(const char* l)
{
    /* a label '[C05,C06] text' belongs to those properties only */
    const char* pr = getenv("V_PROP");
    if (pr && l[0] == '[' && l[1] == 'C') { const char* e = strchr(l, ']'); const char* q = strstr(l, pr); if (e && (!q || q > e)) return; }
    fprintf(stderr, "CHECK FAILED: %s\n", l); v_dump(); fflush(stderr); _exit(3);
}
void v_diverge(const char* c) { (void)c; longjmp(v_jb, 1); }
#include <dlfcn.h>
void __asan_on_error(void) { v_dump(); }
typedef void (*v_fn)(void);
extern const struct v_ent { const char* n; v_fn f; } v_units[];
int main(void)
{
    const char* u = getenv("V_UNIT"); const char* f = getenv("V_FEED"); const char* s = getenv("V_SEED"); const char* cn = getenv("V_COUNT");
    v_fn fn = 0; if (getenv("V_CASE")) v_case = atoi(getenv("V_CASE"));
    for (int i = 0; v_units[i].n; ++i) if (!strcmp(v_units[i].n, u)) fn = v_units[i].f;
    if (!fn) { fprintf(stderr, "no such unit\n"); return 77; }
    if (f) {
        char* d = strdup(f);
        for (char* t = strtok(d, ","); t; t = strtok(0, ",")) v_feedv[v_feedn++] = strtoull(t, 0, 16);
        if (setjmp(v_jb)) { fprintf(stderr, "replay left the assumed input space\n"); return 77; }
        fn(); return 0;
    }
    v_random = 1;
    long n = cn ? atol(cn) : 1; volatile long done = 0;
    volatile uint64_t seed = strtoull(s, 0, 10) * 0x9E3779B97F4A7C15ULL + 1;
    for (volatile long i = 0; i < n; ++i) {
        v_rng = (seed + (uint64_t)i * 0xD1342543DE82EF95ULL) | 1; v_feedn = 0;
        if (setjmp(v_jb)) continue;
        fn(); ++done;
    }
    printf("native cases %ld of %ld\n", (long)done, n);
    return 0;
}
#define UNITS(...) const struct v_ent v_units[] = { __VA_ARGS__ { 0, 0 } };
#else
#define UNITS(...)
#endif
#define U(n) { #n, &H_##n },
void v_entry(void) {}
#endif
