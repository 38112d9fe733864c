/* Contracts of the auto-reset trigger (src/auto_reset_trigger). */
#include "common.h"
#include "enum.h"
#include <rcpr/auto_reset_trigger.h>
#include "auto_reset_trigger/auto_reset_trigger_internal.h"
typedef S(auto_reset_trigger) art; typedef S(resource) resource;
static struct { art t; int calls, c2; void* ctx; int what, other; status rst; _Bool t0; } K;
static void v_second(void* c) { CHECK("a listener gets its own context", c == (void*)&K.other); ++K.c2; }
static void v_listener(void* c)
{
    ++K.calls;
    CHECK("a listener gets its own context", c == K.ctx);
    CHECK("the trigger is reset before its listener hears of it", !K.t.triggered && K.t.callback == NULL && K.t.context == NULL);
    /* anything may be done from within: 1 register again, 2 signal, 3 both, 4 step */
    if (K.what & 1) K.rst = S(auto_reset_trigger_register)(&K.t, &v_second, &K.other);
    if (K.what & 2) S(auto_reset_trigger_signal)(&K.t);
    if (K.what & 4) S(auto_reset_trigger_step)(&K.t);
}
static void k_init(void)
{
    v_init(NONE, NONE); K.calls = K.c2 = K.what = 0; K.ctx = &v_c[1]; K.rst = 0;
    S(resource_init)(&K.t.hdr, &v_child_vt); K.t.alloc = &v_alloc; K.t.triggered = nd_bool(); K.t.callback = NULL; K.t.context = NULL; K.t0 = K.t.triggered;
}
//@ {"props":["C24"],"cover":["auto_reset_trigger_step"]}
CASEUNIT(16, trig_step)
static void c_trig_step(unsigned c)
{
    k_init(); K.what = c & 7; if (c & 8) { K.t.callback = &v_listener; K.t.context = K.ctx; }
    S(auto_reset_trigger_step)(&K.t);
    _Bool fire = K.t0 && (c & 8);
    CHECK("step: notifies exactly when signalled and listened to, once", K.calls == fire);
    if (!fire) CHECK("step: otherwise changes nothing", K.t.triggered == K.t0 && K.t.callback == ((c & 8) ? &v_listener : NULL) && K.t.context == ((c & 8) ? K.ctx : NULL));
    else {
        CHECK("step: a registration made from within the notification is accepted", IMPL(c & 1, K.rst == STATUS_SUCCESS));
        _Bool again = (c & 7) == 7;
        CHECK("step: it is notified in its turn, not before it is signalled", K.c2 == again);
        CHECK("step: what the notification did is what remains", K.t.triggered == ((c & 2) && !again) && K.t.callback == ((c & 1) && !again ? &v_second : NULL) && K.t.context == ((c & 1) && !again ? (void*)&K.other : NULL));
    }
    REACH("done");
}
//@ {"props":["C24"],"cover":["auto_reset_trigger_register"]}
CASEUNIT(2, trig_register)
static void c_trig_register(unsigned c)
{
    k_init(); if (c) { K.t.callback = &v_listener; K.t.context = K.ctx; }
    status st = S(auto_reset_trigger_register)(&K.t, &v_second, &K.other);
    if (c) CHECK("register: a second listener is refused without disturbing the first", st == ERROR_AUTO_RESET_TRIGGER_LISTENER_ALREADY_REGISTERED && K.t.callback == &v_listener && K.t.context == K.ctx);
    else CHECK("register: the listener and its context are kept", st == STATUS_SUCCESS && K.t.callback == &v_second && K.t.context == (void*)&K.other);
    CHECK("register: neither notifies nor loses a signal", K.calls == 0 && K.c2 == 0 && K.t.triggered == K.t0);
    REACH("done");
}
//@ {"props":["C24"],"cover":["auto_reset_trigger_signal"]}
CASEUNIT(2, trig_signal)
static void c_trig_signal(unsigned c)
{
    k_init(); if (c) { K.t.callback = &v_listener; K.t.context = K.ctx; }
    S(auto_reset_trigger_signal)(&K.t);
    CHECK("signal: is kept until a step, the listener too", K.t.triggered && K.calls == 0 && K.t.callback == (c ? &v_listener : NULL) && K.t.context == (c ? K.ctx : NULL));
    REACH("done");
}
//@ {"props":["C24","C04"],"cover":["auto_reset_trigger_create"]}
CASEUNIT(2, trig_create)
static void c_trig_create(unsigned c)
{
    v_init(c ? 0 : NONE, NONE); art* t = NULL;
    status st = S(auto_reset_trigger_create)(&t, &v_alloc);
    CHECK("trigger create: fails exactly when memory is refused", (st == STATUS_SUCCESS) == (g.oom == 0));
    if (st == STATUS_SUCCESS) { CHECK("trigger create: not signalled, no listener", t != NULL && !t->triggered && t->callback == NULL && t->alloc == &v_alloc && g.live == 1 && g.last == t); REACH("created"); }
    else { CHECK("trigger create: a failure keeps nothing", g.live == 0); REACH("refused"); }
}
static void c_trig_release(unsigned c);
//@ {"props":["C05","C03"],"cover":["auto_reset_trigger_resource_handle"]}
CASEUNIT(2, trig_release)
static void c_trig_release(unsigned c)
{
    v_init(NONE, NONE); art* t = NULL; status st = S(auto_reset_trigger_create)(&t, &v_alloc); ASSUME(st == STATUS_SUCCESS);
    t->triggered = nd_bool(); if (nd_bool()) { t->callback = &v_listener; t->context = &v_c[1]; }
    K.calls = 0; g.reclaim_fail_at = (int)c - 1;
    CHECK("the handle of a trigger is its own", S(auto_reset_trigger_resource_handle)(t) == &t->hdr);
    st = S(resource_release)(S(auto_reset_trigger_resource_handle)(t));
    CHECK("trigger release: its memory goes back, once; a failure is reported", g.live == 0 && g.reclaims == 1 && (st == STATUS_SUCCESS) == (g.reclaim_failed == 0) && K.calls == 0);
    REACH("done");
}
/* ---- every short history against the obvious model ---- */
#ifdef MODE_N
static art* ht; static int hsig, hreg, hid[64], hnote[64], nreg, inner, depth;
static void h_op(void);
static void h_listen(void* c)
{
    int id = *(int*)c; CHECK("history: the listener pending is the one notified", hreg == id && hsig);
    ++hnote[id]; CHECK("history: once per registration", hnote[id] == 1);
    hreg = -1; hsig = 0; ++depth;
    for (int n = ex_choose(3); n > 0; --n) h_op();
    --depth;
}
static void h_op(void)
{
    switch (ex_choose(3)) {
    case 0: S(auto_reset_trigger_signal)(ht); hsig = 1; break;
    case 1: { if (nreg >= 60) return; int id = nreg; hid[id] = id; status st = S(auto_reset_trigger_register)(ht, &h_listen, &hid[id]);
        if (hreg >= 0) CHECK("history: a second listener is refused", st == ERROR_AUTO_RESET_TRIGGER_LISTENER_ALREADY_REGISTERED); else { CHECK("history: a listener is accepted", st == 0); hreg = id; ++nreg; } break; }
    default: { if (depth > 1) return; int r = hreg, f = hreg >= 0 && hsig; S(auto_reset_trigger_step)(ht); CHECK("history: a step notifies exactly the listener waiting for a signal given", r < 0 || hnote[r] == f); break; } }
}
static void history(void)
{
    v_init(NONE, NONE); ht = NULL; status st = S(auto_reset_trigger_create)(&ht, &v_alloc); CHECK("trigger create: succeeds", st == 0);
    hsig = 0; hreg = -1; nreg = 0; depth = 0; memset(hnote, 0, sizeof hnote);
    for (int i = 0; i < 5; ++i) h_op();
    st = S(resource_release)(S(auto_reset_trigger_resource_handle)(ht)); CHECK("trigger release: succeeds", st == 0 && g.live == 0);
}
#endif
//@ {"props":["C24"],"native":true,"companion":true,"bound":"histories of five operations, each notification making up to two more"}
void H_all_trigger(void) { EXHAUST(history()); }
UNITS(U(trig_step) U(trig_register) U(trig_signal) U(trig_create) U(trig_release) U(all_trigger))
