/* Contracts for the generic allocator interface (src/allocator/allocator_*.c):
 * every request reaches the instance's own method, once, arguments and result unchanged. */
#include "common.h"
#include <rcpr/allocator.h>
typedef S(allocator) allocator;
typedef struct D { allocator a; int which; int calls; allocator* alloc; void** pp; void* ptr; size_t size; int key; void* value; size_t vsize;
    status st; void* res; _Bool sets; void* slot; void* oslot; char c1, c2; } D;
D d;
static status d_allocate(allocator* a, void** p, size_t n) { d.which = 1; ++d.calls; d.alloc = a; d.pp = p; d.size = n; if (d.sets) *p = d.res; return d.st; }
static status d_reclaim(allocator* a, void* p) { d.which = 2; ++d.calls; d.alloc = a; d.ptr = p; return d.st; }
static status d_reallocate(allocator* a, void** p, size_t n) { d.which = 3; ++d.calls; d.alloc = a; d.pp = p; d.size = n; if (d.sets) *p = d.res; return d.st; }
static status d_control(allocator* a, int k, void* v, size_t n) { d.which = 4; ++d.calls; d.alloc = a; d.key = k; d.value = v; d.vsize = n; return d.st; }
static status d_release(S(resource)* r) { (void)r; d.which = 5; ++d.calls; return 0; }
static const S(allocator_vtable) d_vt = { .hdr = { &d_release }, .allocate_fn = &d_allocate, .reclaim_fn = &d_reclaim, .reallocate_fn = &d_reallocate, .control_fn = &d_control };
static const S(allocator_vtable) d_vt0 = { .hdr = { &d_release }, .allocate_fn = &d_allocate, .reclaim_fn = &d_reclaim, .reallocate_fn = &d_reallocate, .control_fn = NULL };
static void setup(_Bool ctl)
{
    v_init(NONE, NONE);
    S(resource_init)(&d.a.hdr, ctl ? &d_vt.hdr : &d_vt0.hdr);
    d.which = 0; d.calls = 0; d.alloc = NULL; d.pp = NULL; d.ptr = NULL; d.size = 0; d.key = 0; d.value = NULL; d.vsize = 0;
    d.st = nd_int(); d.sets = nd_bool(); d.res = &d.c1; d.oslot = d.slot = nd_bool() ? &d.c2 : NULL;
}
#define SPEC_allocator_allocate(E) \
 E("allocate: reaches the allocator's own method, once", d.which == 1 && d.calls == 1 && d.alloc == &d.a) \
 E("allocate: arguments are passed on", d.pp == &d.slot && d.size == size) \
 E("allocate: status comes back", RET == d.st) \
 E("allocate: the pointer is the method's", IMPL(d.sets, d.slot == &d.c1) && IMPL(!d.sets, d.slot == d.oslot))
status S(allocator_allocate)(allocator* a, void** p, size_t size)
 REQ(a == &d.a && p == &d.slot) CONTRACT(allocator_allocate) FRAME(d);
static void c_disp_allocate(unsigned c)
{
    setup(c); size_t size = nd_size();
    status RET = S(allocator_allocate)(&d.a, &d.slot, size);
    CHECKSPEC(allocator_allocate)
    if (RET == 0) REACH("ok"); else REACH("failed");
}
//@ {"fn":"allocator_allocate","props":["C01"]}
CASEUNIT(2, disp_allocate)
#define SPEC_allocator_reallocate(E) \
 E("reallocate: reaches the allocator's own method, once", d.which == 3 && d.calls == 1 && d.alloc == &d.a) \
 E("reallocate: arguments are passed on", d.pp == &d.slot && d.size == size) \
 E("reallocate: status comes back", RET == d.st) \
 E("reallocate: the pointer is the method's", IMPL(d.sets, d.slot == &d.c1) && IMPL(!d.sets, d.slot == d.oslot))
status S(allocator_reallocate)(allocator* a, void** p, size_t size)
 REQ(a == &d.a && p == &d.slot) CONTRACT(allocator_reallocate) FRAME(d);
static void c_disp_reallocate(unsigned c)
{
    setup(c); size_t size = nd_size();
    status RET = S(allocator_reallocate)(&d.a, &d.slot, size);
    CHECKSPEC(allocator_reallocate)
    if (RET == 0) REACH("ok"); else REACH("failed");
}
//@ {"fn":"allocator_reallocate","props":["C01"]}
CASEUNIT(2, disp_reallocate)
#define SPEC_allocator_reclaim(E) \
 E("reclaim: reaches the allocator's own method, once", d.which == 2 && d.calls == 1 && d.alloc == &d.a) \
 E("reclaim: argument is passed on", d.ptr == ptr) E("reclaim: status comes back", RET == d.st) E("reclaim: nothing else is touched", d.slot == d.oslot)
status S(allocator_reclaim)(allocator* a, void* ptr)
 REQ(a == &d.a) CONTRACT(allocator_reclaim) FRAME(d);
static void c_disp_reclaim(unsigned c)
{
    setup(c); void* ptr = nd_bool() ? &d.c1 : &d.c2;
    status RET = S(allocator_reclaim)(&d.a, ptr);
    CHECKSPEC(allocator_reclaim)
    if (RET == 0) REACH("ok"); else REACH("failed");
}
//@ {"fn":"allocator_reclaim","props":["C01"]}
CASEUNIT(2, disp_reclaim)
#define SPEC_allocator_control(E) \
 E("control: reaches the allocator's own method, once", IMPL(d.a.hdr.vtable == &d_vt.hdr, d.which == 4 && d.calls == 1 && d.alloc == &d.a && RET == d.st)) \
 E("control: arguments are passed on", IMPL(d.a.hdr.vtable == &d_vt.hdr, d.key == key && d.value == value && d.vsize == value_size)) \
 E("control: an allocator without controls refuses every key", IMPL(d.a.hdr.vtable != &d_vt.hdr, d.calls == 0 && RET != 0))
status S(allocator_control)(allocator* a, int key, void* value, size_t value_size)
 REQ(a == &d.a) CONTRACT(allocator_control) FRAME(d);
static void c_disp_control(unsigned c)
{
    setup(c); int key = nd_int(); void* value = nd_bool() ? &d.c1 : NULL; size_t value_size = nd_size();
    status RET = S(allocator_control)(&d.a, key, value, value_size);
    CHECKSPEC(allocator_control)
    if (RET == 0) REACH("ok"); else REACH("failed");
}
//@ {"fn":"allocator_control","props":["C01"]}
CASEUNIT(2, disp_control)
/* ---------------------------------------------------------------- resources */
#define SPEC_allocator_resource_handle(E) E("allocator_resource_handle: designates the allocator", (void*)RET == (void*)&d.a)
S(resource)* S(allocator_resource_handle)(allocator* a) REQ(a == &d.a) CONTRACT(allocator_resource_handle) FRAME();
//@ {"fn":"allocator_resource_handle","props":["C03"]}
void H_allocator_resource_handle(void)
{
    setup(1);
    S(resource)* RET = S(allocator_resource_handle)(&d.a);
    CHECKSPEC(allocator_resource_handle)
    REACH("done");
}
typedef struct R { S(resource) r; int called; S(resource)* arg; status st; int called2; S(resource_vtable)* out; } R;
R rr;
static status r_release(S(resource)* r) { ++rr.called; rr.arg = r; return rr.st; }
static status r_release2(S(resource)* r) { (void)r; ++rr.called2; return 0; }
static const S(resource_vtable) r_vt = { &r_release };
static const S(resource_vtable) r_vt2 = { &r_release2 };
#define SPEC_resource_release(E) \
 E("release: runs the resource's own release exactly once", rr.called == 1 && rr.called2 == 0) \
 E("release: with that resource", rr.arg == &rr.r) E("release: returns its status", RET == rr.st)
status S(resource_release)(S(resource)* r) REQ(r == &rr.r) CONTRACT(resource_release) FRAME(rr);
//@ {"fn":"resource_release","props":["C03"]}
void H_resource_release(void)
{
    v_init(NONE, NONE);
    rr.called = rr.called2 = 0; rr.arg = NULL; rr.st = nd_int();
    S(resource_init)(&rr.r, &r_vt2); S(resource_init)(&rr.r, &r_vt);
    status RET = S(resource_release)(&rr.r);
    CHECKSPEC(resource_release)
    if (RET == 0) REACH("ok"); else REACH("failed");
}
#define SPEC_resource_init(E) E("init: the resource has the given release behaviour", rr.r.vtable == &r_vt)
void S(resource_init)(S(resource)* r, const S(resource_vtable)* v) REQ(r == &rr.r && v == &r_vt) CONTRACT(resource_init) FRAME(rr.r);
//@ {"fn":"resource_init","props":["C03"]}
void H_resource_init(void)
{
    S(resource_init)(&rr.r, &r_vt);
    CHECKSPEC(resource_init)
    REACH("done");
}
const S(resource_vtable)* rvout;
#define SPEC_resource_vtable_read(E) E("vtable_read: the behaviour the resource was created with", RET == 0 && rvout == &r_vt)
status S(resource_vtable_read)(const S(resource_vtable)** v, const S(resource)* r) REQ(v == &rvout && r == &rr.r) CONTRACT(resource_vtable_read) FRAME(rvout);
//@ {"fn":"resource_vtable_read","props":["C03"]}
void H_resource_vtable_read(void)
{
    rr.r.vtable = &r_vt; rvout = NULL;
    status RET = S(resource_vtable_read)(&rvout, &rr.r);
    CHECKSPEC(resource_vtable_read)
    REACH("done");
}
UNITS(U(disp_allocate) U(disp_reallocate) U(disp_reclaim) U(disp_control) U(allocator_resource_handle) U(resource_release) U(resource_init) U(resource_vtable_read))
