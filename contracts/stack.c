/* Contracts of fiber stacks (memory mapped from the system). */
#include "common.h"
#include <rcpr/stack.h>
#include <sys/mman.h>
#include "stack/stack_create.c"
static struct { int maps, unmaps, map_fail, unmap_fail; void* region; size_t rsz; } K;
static void k_init(void) { v_init(NONE, NONE); K.maps = K.unmaps = K.map_fail = K.unmap_fail = 0; K.region = NULL; K.rsz = 0; }
void* SYSFN(mmap)(void* a, size_t n, int prot, int fl, int fd, off_t o)
{
    CHECK("a stack is private anonymous readable and writable memory", a == NULL && prot == (PROT_READ | PROT_WRITE) && (fl & MAP_PRIVATE) && (fl & MAP_ANONYMOUS) && !(fl & MAP_FIXED) && fd == -1 && o == 0);
    if (K.map_fail) return MAP_FAILED;
    ++K.maps; K.rsz = n; K.region = (void*)(uintptr_t)0x100000; return K.region;
}
int SYSFN(munmap)(void* a, size_t n)
{
    CHECK("[C05] a stack's memory is given back once, all of it, to the system", K.maps == 1 && K.unmaps == 0 && a == K.region && n == K.rsz); ++K.unmaps;
    return K.unmap_fail ? -1 : 0;
}
/* cases: 0 well; 1 memory; 2 mapping; 3 mapping, then memory cannot be returned */
//@ {"props":["C04","C03"],"cover":["stack_create","stack_resource_handle"]}
CASEUNIT(4, create)
static void c_create(unsigned c)
{
    k_init(); S(stack)* s = NULL; size_t n = nd_size(); K.map_fail = c >= 2; g.fail_at = c == 1 ? 0 : NONE; g.reclaim_fail_at = c == 3 ? 0 : NONE;
    status st = S(stack_create)(&s, &v_alloc, n);
    CHECK("stack create: succeeds exactly when every step does", (st == STATUS_SUCCESS) == (c == 0));
    if (st != STATUS_SUCCESS) { CHECK("stack create: a failure keeps nothing", g.live == 0 && s == NULL && K.maps == 0); REACH("refused"); return; }
    CHECK("stack create: a region of the size asked for", s->region == K.region && s->size == n && K.rsz == n && g.live == 1 && s->alloc == &v_alloc);
    CHECK("stack create: it is released by its own release", s->hdr.vtable == &stack_vtable);
    CHECK("the handle of a stack is its own", S(stack_resource_handle)(s) == &s->hdr); REACH("created");
}
/* cases: unmapping fails x memory return fails */
//@ {"props":["C05","C03"],"cover":["stack_release"]}
CASEUNIT(4, release)
static void c_release(unsigned c)
{
    k_init(); S(stack)* s = NEW(S(stack)); S(resource_init)(&s->hdr, &stack_vtable); K.maps = 1; K.region = (void*)(uintptr_t)0x100000; K.rsz = nd_size(); s->region = K.region; s->size = K.rsz; s->alloc = &v_alloc;
    K.unmap_fail = c & 1; g.reclaim_fail_at = c & 2 ? 0 : NONE;
    status st = S(resource_release)(S(stack_resource_handle)(s));
    CHECK("stack release: its region is given back once", K.unmaps == 1);
    CHECK("stack release: a success leaks nothing, a failure is reported", IMPL(st == STATUS_SUCCESS, g.live == 0) && (st != STATUS_SUCCESS) == (K.unmap_fail || g.reclaim_failed) && g.reclaims <= 1 && IMPL(!K.unmap_fail, g.live == 0)); REACH("released");
}
UNITS(U(create) U(release))
