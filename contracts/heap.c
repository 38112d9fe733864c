/* Contracts for the heap allocator, reached through its own interface (src/allocator/malloc_allocator_create.c). */
#include "common.h"
#include <rcpr/allocator.h>
typedef S(allocator) allocator;
allocator* A; void* slot; uint8_t* old; size_t oldn; uint8_t oldw; size_t wi;
#ifdef MODE_N
#define RW(p, n) ((p) != NULL && touch(p, n))
#define FREE_(p) 1
static _Bool touch(volatile uint8_t* p, size_t n) { if (n) { p[0] = p[0]; p[n - 1] = p[n - 1]; } return 1; }
#define SIZECAP(n) ASSUME((n) < (1u << 20) || (n) > ((size_t)1 << 48))
#else
#define RW(p, n) ((p) != NULL && __CPROVER_rw_ok(p, n))
#define SIZECAP(n)
#endif
static void mk(void)
{
    v_init(NONE, NONE);
    A = NULL;
    status s = S(malloc_allocator_create)(&A); ASSUME(s == 0);
    slot = NULL; old = NULL;
}
static void fin(void) {
#ifdef MODE_N
    free(A); free(slot);
#endif
}
#define SPEC_allocator_allocate(E) \
 E("allocate: succeeds with memory or reports out of memory", RET == 0 || RET == ERROR_GENERAL_OUT_OF_MEMORY) \
 E("allocate: the memory is writable and as large as asked", IMPL(RET == 0, RW(slot, size))) \
 E("allocate: it is a block of its own", IMPL(RET == 0, slot != (void*)old && slot != (void*)A)) \
 E("allocate: failure yields no memory", IMPL(RET != 0, slot == NULL)) \
 E("allocate: other blocks are untouched", old[wi] == oldw)
status S(allocator_allocate)(allocator* a, void** p, size_t size)
 REQ(a == A && p == &slot) CONTRACT(allocator_allocate) FRAME(slot);
static void mkold(void)
{
    oldn = nd_size(); SIZECAP(oldn); ASSUME(oldn > 0); IFP() 
#ifdef MODE_N
    ASSUME(oldn < (1u << 20));
#endif
    old = malloc(oldn); ASSUME(old != NULL);
    wi = nd_size(); 
#ifdef MODE_N
    { extern int v_random; if (v_random) wi %= oldn; }
    for (size_t i = 0; i < oldn; ++i) old[i] = (uint8_t)(i * 7);
#endif
    ASSUME(wi < oldn); oldw = nd_u8(); old[wi] = oldw;
}
//@ {"fn":"allocator_allocate","props":["C01"],"flags":["--malloc-may-fail","--malloc-fail-null"]}
void H_heap_allocate(void)
{
    mk(); mkold();
    size_t size = nd_size(); SIZECAP(size);
    status RET = S(allocator_allocate)(A, &slot, size);
    CHECKSPEC(allocator_allocate)
    if (RET == 0) REACH("ok"); else REACH("refused");
#ifdef MODE_N
    free(old);
#endif
    fin();
}
#define SPEC_allocator_reallocate(E) \
 E("reallocate: succeeds with memory or reports out of memory", RET == 0 || RET == ERROR_GENERAL_OUT_OF_MEMORY) \
 E("reallocate: the memory is writable and as large as asked", IMPL(RET == 0, RW(slot, size))) \
 E("reallocate: leading contents are kept", IMPL(RET == 0 && wi < size, ((uint8_t*)slot)[wi] == oldw)) \
 E("reallocate: failure leaves the block valid and unchanged", IMPL(RET != 0, slot == (void*)old && RW(old, oldn) && old[wi] == oldw))
status S(allocator_reallocate)(allocator* a, void** p, size_t size)
 REQ(a == A && p == &slot) CONTRACT(allocator_reallocate) FRAME(slot, __CPROVER_object_whole(slot)) FREES(slot);
//@ {"fn":"allocator_reallocate","props":["C01"],"flags":["--malloc-may-fail","--malloc-fail-null"]}
void H_heap_reallocate(void)
{
    mk(); mkold(); slot = old;
    size_t size = nd_size(); SIZECAP(size);
    status RET = S(allocator_reallocate)(A, &slot, size);
    CHECKSPEC(allocator_reallocate)
    if (RET == 0 && size > oldn) REACH("grown"); else if (RET == 0 && size < oldn) REACH("shrunk"); else REACH("refused");
    if (RET != 0 && size == 0) REACH("nothing");
    fin();
}
#define SPEC_allocator_reclaim(E) E("reclaim: succeeds", RET == 0) E("reclaim: the block is given back", gone)
_Bool gone;
status S(allocator_reclaim)(allocator* a, void* p)
 REQ(a == A && p == slot)
 IFP(__CPROVER_ensures(__CPROVER_return_value == 0) __CPROVER_ensures(__CPROVER_was_freed(slot)))
 FRAME(__CPROVER_object_whole(slot)) FREES(slot);
//@ {"fn":"allocator_reclaim","props":["C01"]}
void H_heap_reclaim(void)
{
    mk(); mkold(); slot = old;
    status RET = S(allocator_reclaim)(A, slot);
    CHECK("reclaim: succeeds", RET == 0);
    REACH("done");
    slot = NULL; fin();
}
#define SPEC_malloc_allocator_create(E) \
 E("create: a heap allocator or out of memory", RET == 0 || RET == ERROR_GENERAL_OUT_OF_MEMORY) \
 E("create: failure hands out nothing", (RET == 0) == (A != NULL))
status S(malloc_allocator_create)(allocator** a) REQ(a == &A) CONTRACT(malloc_allocator_create) FRAME(A);
//@ {"fn":"malloc_allocator_create","props":["C01","C04"],"flags":["--malloc-may-fail","--malloc-fail-null"]}
void H_heap_create(void)
{
    A = NULL; slot = NULL;
    status RET = S(malloc_allocator_create)(&A);
    CHECKSPEC(malloc_allocator_create)
    if (RET == 0) REACH("ok"); else REACH("refused");
    fin();
}
/* a heap allocator released through its handle gives its own memory back, once */
//@ {"props":["C03","C05"],"flags":["--memory-leak-check"],"cover":["malloc_allocator_create","allocator_resource_handle"]}
void H_heap_life(void)
{
    A = NULL; slot = NULL;
    status s = S(malloc_allocator_create)(&A); ASSUME(s == 0);
    s = S(resource_release)(S(allocator_resource_handle)(A));
    CHECK("[C03,C05] releasing a heap allocator succeeds", s == 0);
    REACH("done");
    A = NULL; fin();
}
UNITS(U(heap_allocate) U(heap_reallocate) U(heap_reclaim) U(heap_create) U(heap_life))
