/* Contracts of mailboxes and messages.  Handlers are reached as the scheduler
 * reaches them, by their position in the registered discipline. */
#include "common.h"
#include <rcpr/message.h>
#include <rcpr/fiber/disciplines/message.h>
#include "message/message_internal.h"
#include "disc.h"
typedef S(message) msg_t; typedef S(mailbox) mb_t; typedef S(message_discipline_context) mx_t; typedef S(mailbox_address) ad_t;
#define ID (&FIBER_SCHEDULER_MESSAGE_DISCIPLINE)
static mx_t* mx; static mb_t* mb[2]; static gq* mq[2]; static gt* mt;
static status req(int e, fib_t* y, void* p) { return dd->callback_vector[e](dd->context, y, e, p); }
static void mkd(void)
{
    pre(); E.want = ID; status st = S(message_discipline_get_or_create)(&dd, &v_alloc, s); ASSUME(st == STATUS_SUCCESS);
    mx = (mx_t*)dd->context; mt = G.t[0]; mx->index = nd_u64(); ASSUME(mx->index < UINT64_MAX); others(); zero();
}
static mb_t* mkbox(int i, ad_t a)
{
    mb_t* m = NULL; status st = S(mailbox_resource_create)(&m, &v_alloc, a); ASSUME(st == STATUS_SUCCESS);
    mq[i] = G.q[i + 1]; mt->el[mt->n++] = &m->hdr; mb[i] = m; return m;
}
/* two open mailboxes of arbitrary different addresses among those given out so far; mailbox 0 has a waiting receiver */
static void mk(void)
{
    mkd(); ad_t a = nd_u64(), b = nd_u64(); ASSUME(a >= 1 && a <= mx->index && b >= 1 && b <= mx->index && a != b);
    mkbox(0, a); mkbox(1, b); mb[0]->blocked_fiber = &f[3]; zero();
}
static msg_t* mkmsg(ad_t ret, S(resource)* pay) { msg_t* m = NULL; status st = S(message_create)(&m, &v_alloc, ret, pay); ASSUME(st == STATUS_SUCCESS); return m; }
/* the other mailbox is as it was */
#define OTHERBOX (mb[0]->blocked_fiber == &f[3] && ASLEEP(&f[3]) && mq[0]->live && mq[0]->lo == mq[0]->hi && mq[0]->rest == 0)
#define NOWAITERWITHMAIL(i) (mb[i]->blocked_fiber == NULL || (mq[i]->lo == mq[i]->hi && mq[i]->rest == 0))
static ad_t unknown(void) { ad_t u = nd_u64(); ASSUME(u != mb[0]->address && u != mb[1]->address); return u; }

/* 0 it exists; 1 created; 2-7 the n-th step refused */
//@ {"unwind":18,"props":["C28","C04","C05","C27"],"cover":["message_discipline_get_or_create","message_discipline_context_create","message_discipline_set_resource_release","mailbox_resource_create"]}
CASEUNIT(8, goc)
static void c_goc(unsigned c)
{
    pre(); E.want = ID; disc_t ex; if (c == 0) E.existing = &ex; g.fail_at = c >= 2 ? (int)c - 2 : NONE; disc_t* d = NULL;
    status st = S(message_discipline_get_or_create)(&d, &v_alloc, s);
    if (c == 0) { CHECK("the message discipline of a scheduler that has one is that one", st == STATUS_SUCCESS && d == &ex && g.live == 0 && E.adds == 0); REACH("found"); return; }
    CHECK("message discipline: created exactly when every step succeeds", (st == STATUS_SUCCESS) == (g.oom == 0));
    if (st) { CHECK("message discipline: a failure keeps nothing and hands out nothing", g.live == 0 && d == NULL && E.added == NULL); REACH("refused"); return; }
    CHECK("message discipline: created once and registered, with no mailbox", E.added == d && d->sched == s && d->callback_vector_size == 4 && mt == mt && G.nt == 1 && G.t[0]->n == 0 && G.t[0]->live && g.live == 5);
    st = S(resource_release)(S(fiber_scheduler_discipline_resource_handle)(d));
    CHECK("[C05,C28] message discipline release: everything it owns is given back once", st == STATUS_SUCCESS && g.live == 0); REACH("created");
}
/* 0 well; 1-5 the n-th return of memory fails */
//@ {"unwind":18,"props":["C05","C03","C28"],"cover":["message_discipline_set_resource_release","message_discipline_context_create","mailbox_resource_create","message_create"]}
CASEUNIT(12, disc_release)
static void c_disc_release(unsigned c)
{
    mk(); msg_t* m0 = mkmsg(nd_u64(), &v_c[0].hdr); msg_t* m1 = mkmsg(nd_u64(), &v_c[1].hdr); mq[1]->el[mq[1]->hi++] = &m0->hdr; mq[1]->el[mq[1]->hi++] = &m1->hdr;
    zero(); v_c[0].st = c == 11 ? 77 : STATUS_SUCCESS; g.reclaim_fail_at = c >= 1 && c <= 10 ? (int)c - 1 : NONE;
    status st = S(resource_release)(S(fiber_scheduler_discipline_resource_handle)(dd));
    CHECK("message discipline release: mailboxes, undelivered messages and their payloads are released once", g.live == 0 && g.reclaims == 11 && v_c[0].released == 1 && v_c[1].released == 1);
    CHECK("message discipline release: failures are reported", (st == STATUS_SUCCESS) == (c == 0)); REACH("done");
}
/* 0 well; 1-3 memory; 4 the requester cannot be queued */
//@ {"unwind":18,"props":["C28","C04"],"assumes":["fewer than 2^64 mailboxes are ever created"],"cover":["message_discipline_mailbox_create_callback_handler","mailbox_resource_create"]}
CASEUNIT(5, create)
static void c_create(unsigned c)
{
    mk(); int live0 = g.live; g.fail_at = c == 0 ? NONE : (int)c - 1; ad_t i0 = mx->index;
    status st = req(FIBER_SCHEDULER_MESSAGE_YIELD_EVENT_MAILBOX_CREATE, &f[0], PTR);
    if (c == 4) { CHECK("mailbox create: a scheduling failure is reported", st != STATUS_SUCCESS && NOBODY); REACH("unscheduled"); return; }
    CHECK("mailbox create: the requester goes on next, and nobody else is resumed", st == STATUS_SUCCESS && FIRST(&f[0]) && OTHERBOX && mt->el[0] == &mb[0]->hdr && mt->el[1] == &mb[1]->hdr);
    if (c) { CHECK("mailbox create: a failure is reported, opens no mailbox and keeps nothing", SETST(&f[0], ID, FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CREATE_FAILURE, ERROR_GENERAL_OUT_OF_MEMORY) && g.live == live0 && mt->n == 2); REACH("refused"); return; }
    ad_t a = (ad_t)f[0].restore_param;
    CHECK("mailbox create: a new, empty mailbox is open under the address given to the requester", SET(&f[0], ID, FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CREATE_SUCCESS, (void*)a) && mt->n == 3 && ((mb_t*)mt->el[2])->address == a && ((mb_t*)mt->el[2])->blocked_fiber == NULL && G.nq == 4 && g.live == live0 + 2);
    CHECK("mailbox create: the address is that of no open mailbox, nor the null address, nor one to be given out later", a != mb[0]->address && a != mb[1]->address && a != MESSAGE_ADDRESS_NONE && a <= mx->index && mx->index > i0); REACH("created");
}
/* 0 unknown address; 1 a waiting receiver; 2 undelivered messages; 3 the receiver cannot be queued; 4 the requester cannot be queued;
 * 5 unknown, requester cannot be queued; 6 a payload's release fails */
//@ {"unwind":18,"props":["C28","C05"],"cover":["message_discipline_mailbox_close_callback_handler","mailbox_resource_create","message_create"]}
CASEUNIT(7, close)
static void c_close(unsigned c)
{
    mk(); _Bool waiter = c == 1 || c == 3; ad_t a = c == 0 || c == 5 ? unknown() : mb[1]->address; if (waiter) mb[1]->blocked_fiber = &f[1];
    if (!waiter) { msg_t* m0 = mkmsg(nd_u64(), &v_c[0].hdr); msg_t* m1 = mkmsg(nd_u64(), &v_c[1].hdr); mq[1]->el[mq[1]->hi++] = &m0->hdr; mq[1]->el[mq[1]->hi++] = &m1->hdr; }
    zero(); g.fail_at = c >= 3 && c <= 5 ? 0 : NONE; if (c == 6) v_c[0].st = 77; int live0 = g.live; G.known = 1; G.at = c == 0 || c == 5 ? -1 : 1;
    status st = req(FIBER_SCHEDULER_MESSAGE_YIELD_EVENT_MAILBOX_CLOSE, &f[0], (void*)a);
    CHECK("mailbox close: no other mailbox or receiver is touched", OTHERBOX && mt->n >= 1 && mt->el[0] == &mb[0]->hdr && ASLEEP(&f[2]));
    if (c == 5) { CHECK("mailbox close: a scheduling failure is reported", st != STATUS_SUCCESS && NOBODY && mt->n == 2); REACH("unscheduled"); return; }
    if (c == 0) { CHECK("mailbox close: closing an unknown mailbox is an error, and closes nothing", st == STATUS_SUCCESS && FIRST(&f[0]) && SETST(&f[0], ID, FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CLOSE, ERROR_RBTREE_NOT_FOUND) && mt->n == 2 && g.live == live0 && g.child_rel == 0); REACH("unknown"); return; }
    if (c == 3) { CHECK("mailbox close: when the waiting receiver cannot be woken, the mailbox stays open and it goes on waiting", st == STATUS_SUCCESS && FIRST(&f[0]) && SETST(&f[0], ID, FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CLOSE, ERROR_GENERAL_OUT_OF_MEMORY) && mt->n == 2 && mb[1]->blocked_fiber == &f[1] && !f[1].queued && g.live == live0); REACH("stays"); return; }
    CHECK("mailbox close: the mailbox is open no more, and it and its undelivered messages are released once", mt->n == 1 && g.live == live0 - (waiter ? 2 : 4) && IMPL(!waiter, v_c[0].released == 1 && v_c[1].released == 1));
    if (c == 4) { CHECK("mailbox close: a scheduling failure is reported", st != STATUS_SUCCESS && NOBODY); REACH("unscheduled"); return; }
    CHECK("mailbox close: the requester goes on next with the outcome", st == STATUS_SUCCESS && HEADIS(&f[0]) && SETST(&f[0], ID, FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CLOSE, c == 6 ? 77 : STATUS_SUCCESS));
    if (waiter) CHECK("mailbox close: its waiting receiver is woken once, with an error", QTAIL(1) && q->el[q->restpos] == &f[1].hdr && f[1].queued && SETST(&f[1], ID, FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE, ERROR_MESSAGE_UNKNOWN_ERROR));
    else CHECK("mailbox close: with no receiver, nobody else is resumed", QTAIL(0) && ASLEEP(&f[1]));
    REACH("closed");
}
/* 0 unknown address; 1 a waiting receiver; 2 any number of messages wait; 3 no memory for the message; 4 the receiver cannot be queued;
 * 5 the sender cannot be queued; 6 unknown, the sender cannot be queued */
//@ {"unwind":18,"props":["C28","C05"],"cover":["message_discipline_message_send_callback_handler"]}
CASEUNIT(7, send)
static void c_send(unsigned c)
{
    mk(); _Bool waiter = c == 1 || c == 4; if (waiter) mb[1]->blocked_fiber = &f[1]; size_t r0 = 0; v_child other;
    if (!waiter) { r0 = nd_size(); ASSUME(r0 <= SIZE_MAX / 2); mq[1]->rest = r0; mq[1]->restel = &other.hdr; if (c == 5 && nd_bool()) { mb[1]->blocked_fiber = &f[1]; mq[1]->rest = r0 = 0; } }
    ad_t ret = nd_u64(); msg_t* m = mkmsg(ret, &v_c[0].hdr); m->sendaddr = c == 0 || c == 6 ? unknown() : mb[1]->address; zero(); fib_t* w0 = mb[1]->blocked_fiber;
    g.fail_at = c == 3 || c == 4 ? 1 : c >= 5 ? 0 : NONE; int live0 = g.live;
    status st = req(FIBER_SCHEDULER_MESSAGE_YIELD_EVENT_MESSAGE_SEND, &f[0], m);
    CHECK("message send: no other mailbox or receiver is touched", OTHERBOX && mt->n == 2 && ASLEEP(&f[2]) && NOWAITERWITHMAIL(1));
    CHECK("message send: the message keeps its payload and return address, and nothing is released", m->payload == &v_c[0].hdr && m->returnaddr == ret && v_c[0].released == 0 && g.live == live0);
    if (c >= 5) { CHECK("message send: when the sender cannot be queued it gets the error, and the message is not sent", st != STATUS_SUCCESS && NOBODY && mq[1]->lo == mq[1]->hi && mq[1]->rest == r0 && mb[1]->blocked_fiber == w0 && ASLEEP(&f[1])); REACH("unscheduled"); return; }
    CHECK("message send: the sender resumes once", st == STATUS_SUCCESS && f[0].queued && QTAIL(0));
    if (c == 0 || c == 3 || c == 4) {
        CHECK("message send: a failure is reported and the message stays with the sender", SETST(&f[0], ID, FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_SEND_FAILURE, c ? ERROR_GENERAL_OUT_OF_MEMORY : ERROR_RBTREE_NOT_FOUND) && FIRST(&f[0]) && mq[1]->lo == mq[1]->hi && mq[1]->rest == r0 && mb[1]->blocked_fiber == w0 && !f[1].queued); REACH("failed"); return;
    }
    CHECK("message send: success is reported", SET(&f[0], ID, FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_SEND_SUCCESS, NULL));
    if (waiter) {
        CHECK("message send: the waiting receiver gets the message, is woken once, and waits no longer", mb[1]->blocked_fiber == NULL && f[1].queued && SET(&f[1], ID, FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS, (void*)m) && QHEAD(2) && ((q->el[q->lo] == &f[1].hdr && q->el[q->lo + 1] == &f[0].hdr) || (q->el[q->lo] == &f[0].hdr && q->el[q->lo + 1] == &f[1].hdr)));
        CHECK("message send: a message given to a receiver is not kept in the mailbox", mq[1]->lo == mq[1]->hi && mq[1]->rest == 0); REACH("given");
    } else { CHECK("message send: the message is kept, behind all others", FIRST(&f[0]) && QHEAD(1) && mb[1]->blocked_fiber == NULL && mq[1]->restpos == mq[1]->lo && mq[1]->rest == r0 && mq[1]->hi - mq[1]->lo == 1 && mq[1]->el[mq[1]->lo] == &m->hdr && ASLEEP(&f[1])); REACH("kept"); }
}
/* 0 unknown; 1 empty; 2 empty, another waits; 3 messages; 4 messages, the receiver cannot be queued; 5 unknown, it cannot be queued */
//@ {"unwind":18,"props":["C28","C05"],"cover":["message_discipline_message_receive_callback_handler"]}
CASEUNIT(6, receive)
static void c_receive(unsigned c)
{
    mk(); _Bool mail = c == 3 || c == 4; size_t r0 = 0; msg_t* m = mkmsg(nd_u64(), &v_c[0].hdr); ad_t a = c == 0 || c == 5 ? unknown() : mb[1]->address;
    if (mail) { r0 = nd_size(); ASSUME(r0 >= 1 && r0 <= SIZE_MAX / 2); mq[1]->rest = r0; mq[1]->restel = &m->hdr; } if (c == 2) mb[1]->blocked_fiber = &f[1]; fib_t* w0 = mb[1]->blocked_fiber;
    zero(); g.fail_at = c >= 4 ? 0 : NONE; int live0 = g.live;
    status st = req(FIBER_SCHEDULER_MESSAGE_YIELD_EVENT_MESSAGE_RECEIVE, &f[0], (void*)a);
    CHECK("message receive: no other mailbox or receiver is touched, and nothing is released", OTHERBOX && mt->n == 2 && ASLEEP(&f[1]) && ASLEEP(&f[2]) && g.live == live0 && v_c[0].released == 0 && NOWAITERWITHMAIL(1) && QTAIL(0));
    if (c >= 4) { CHECK("message receive: when the receiver cannot be queued it gets the error, and no message is lost", st != STATUS_SUCCESS && NOBODY && mq[1]->rest == r0 && mb[1]->blocked_fiber == w0); REACH("unscheduled"); return; }
    CHECK("message receive: succeeds", st == STATUS_SUCCESS);
    if (c == 1) { CHECK("message receive: with no message, the receiver waits for one, and does not run", mb[1]->blocked_fiber == &f[0] && NOBODY && ASLEEP(&f[0])); REACH("waits"); return; }
    CHECK("message receive: the receiver resumes once", FIRST(&f[0]) && mb[1]->blocked_fiber == w0);
    if (mail) CHECK("message receive: the receiver gets the message sent first, which leaves the mailbox", SET(&f[0], ID, FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS, (void*)m) && mq[1]->rest == r0 - 1 && mq[1]->lo == mq[1]->hi);
    else CHECK("message receive: an unknown mailbox, or one with a receiver waiting, is an error", SETST(&f[0], ID, FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE, c == 0 ? ERROR_RBTREE_NOT_FOUND : ERROR_MESSAGE_ALREADY_BLOCKED));
    REACH("resumed");
}
/* the order of mailbox addresses, which the tree relies on */
//@ {"unwind":18,"props":["C28"],"cover":["message_discipline_context_create"]}
void H_order(void)
{
    mk(); const void* k0 = mt->key(mt->ctx, &mb[0]->hdr); const void* k1 = mt->key(mt->ctx, &mb[1]->hdr); S(rcpr_comparison_result) r = mt->cmp(mt->ctx, k0, k1);
    CHECK("mailboxes are ordered by address", r == (mb[0]->address < mb[1]->address ? RCPR_COMPARE_LT : RCPR_COMPARE_GT) && mt->cmp(mt->ctx, k1, k1) == RCPR_COMPARE_EQ && mt->cmp(mt->ctx, &mb[1]->address, k0) == (mb[0]->address < mb[1]->address ? RCPR_COMPARE_GT : RCPR_COMPARE_LT)); REACH("done");
}
/* 0 well, payload kept; 1 payload taken; 2 no payload; 3 its release fails; 4 memory cannot be returned; 5 no memory */
//@ {"unwind":18,"props":["C28","C03","C04","C05"],"cover":["message_create","message_payload","message_return_address","message_resource_handle"]}
CASEUNIT(6, message)
static void c_message(unsigned c)
{
    pre(); ad_t ret = nd_u64(); msg_t* m = NULL; v_c[0].st = c == 3 ? 77 : STATUS_SUCCESS; g.fail_at = c == 5 ? 0 : NONE; S(resource)* pay = c == 2 ? NULL : &v_c[0].hdr;
    status st = S(message_create)(&m, &v_alloc, ret, pay);
    if (c == 5) { CHECK("message create: a failure keeps nothing, and the payload stays with the caller", st != STATUS_SUCCESS && g.live == 0 && m == NULL && v_c[0].released == 0); REACH("refused"); return; }
    CHECK("message create: a message with this return address and payload", st == STATUS_SUCCESS && S(message_return_address)(m) == ret && S(message_payload)(m, 0) == pay && S(message_payload)(m, 0) == pay && g.live == 1);
    if (c == 1) CHECK("message payload: taken, it belongs to the caller and is in the message no more", S(message_payload)(m, 1) == pay && S(message_payload)(m, 0) == NULL);
    zero(); g.reclaim_fail_at = c == 4 ? 0 : NONE; st = S(resource_release)(S(message_resource_handle)(m));
    CHECK("message release: it and the payload it still has are released once", g.live == 0 && g.reclaims == 1 && v_c[0].released == (c != 1 && c != 2));
    CHECK("message release: failures are reported", (st == STATUS_SUCCESS) == (c < 3)); REACH("done");
}
/* 0 well; 1-2 no memory; 3-5 the return of memory fails */
//@ {"unwind":18,"props":["C04","C05","C28"],"cover":["mailbox_resource_create"]}
CASEUNIT(5, mailbox)
static void c_mailbox(unsigned c)
{
    pre(); mb_t* m = NULL; g.fail_at = c == 1 || c == 2 ? (int)c - 1 : NONE; ad_t a = nd_u64();
    status st = S(mailbox_resource_create)(&m, &v_alloc, a);
    if (c == 1 || c == 2) { CHECK("mailbox: a failed creation keeps nothing", st != STATUS_SUCCESS && g.live == 0 && m == NULL); REACH("refused"); return; }
    CHECK("mailbox: created empty, with nobody waiting", st == STATUS_SUCCESS && m->address == a && m->blocked_fiber == NULL && g.live == 2 && m->message_queue == (S(queue)*)G.q[1]);
    zero(); g.reclaim_fail_at = c >= 3 ? (int)c - 3 : NONE; st = S(resource_release)(&m->hdr);
    CHECK("mailbox release: all it owns is given back once, and failures are reported", g.live == 0 && g.reclaims == 2 && (st == STATUS_SUCCESS) == (c == 0)); REACH("done");
}
#define NOT(a) ASSUME(E.rev != FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_##a)
#define AS(a) (E.rev = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_##a)
//@ {"unwind":18,"props":["C28"],"cover":["mailbox_create"]}
CASEUNIT(4, f_create)
static void c_f_create(unsigned c)
{
    answer(c); if (c == 1) { NOT(MAILBOX_CREATE_SUCCESS); NOT(MAILBOX_CREATE_FAILURE); } else if (c == 2) AS(MAILBOX_CREATE_SUCCESS); else if (c == 3) AS(MAILBOX_CREATE_FAILURE); if (c == 3) ASSUME((status)(intptr_t)E.rp != STATUS_SUCCESS);
    ad_t a0 = nd_u64(), a = a0; status st = S(mailbox_create)(&a, dd);
    CHECK("a mailbox is asked for once", E.yields == 1 && E.yd == dd && E.ye == FIBER_SCHEDULER_MESSAGE_YIELD_EVENT_MAILBOX_CREATE);
    CHECK("mailbox create: the caller gets the address, or the error", c == 2 ? st == STATUS_SUCCESS && a == (ad_t)E.rp : a == a0 && st == (c == 0 ? E.yst : c == 1 ? ERROR_MESSAGE_UNKNOWN_ERROR : (status)(intptr_t)E.rp)); REACH("done");
}
//@ {"unwind":18,"props":["C28"],"cover":["mailbox_close"]}
CASEUNIT(3, f_close)
static void c_f_close(unsigned c)
{
    answer(c); if (c == 1) NOT(MAILBOX_CLOSE); else if (c == 2) AS(MAILBOX_CLOSE); ad_t a = nd_u64(); status st = S(mailbox_close)(a, dd);
    CHECK("closing a mailbox is asked for once, by its address", ASKED(FIBER_SCHEDULER_MESSAGE_YIELD_EVENT_MAILBOX_CLOSE, a));
    CHECK("mailbox close: the caller gets the outcome", st == (c == 0 ? E.yst : c == 1 ? ERROR_MESSAGE_UNKNOWN_ERROR : (status)(intptr_t)E.rp)); REACH("done");
}
static msg_t* sent; static ad_t sent_at; static void at_send(void) { sent_at = sent->sendaddr; }
//@ {"unwind":18,"props":["C28"],"cover":["message_send"]}
CASEUNIT(4, f_send)
static void c_f_send(unsigned c)
{
    answer(c); if (c == 1) { NOT(MESSAGE_SEND_SUCCESS); NOT(MESSAGE_SEND_FAILURE); } else if (c == 2) AS(MESSAGE_SEND_SUCCESS); else if (c == 3) AS(MESSAGE_SEND_FAILURE);
    ad_t ret = nd_u64(), a = nd_u64(); sent = mkmsg(ret, &v_c[0].hdr); E.during = &at_send; status st = S(message_send)(a, sent, dd);
    CHECK("sending a message is asked for once, with the message, addressed to the mailbox given", ASKED(FIBER_SCHEDULER_MESSAGE_YIELD_EVENT_MESSAGE_SEND, sent) && sent_at == a);
    CHECK("message send: the sender gets the outcome", st == (c == 0 ? E.yst : c == 1 ? ERROR_MESSAGE_UNKNOWN_ERROR : c == 2 ? STATUS_SUCCESS : (status)(intptr_t)E.rp));
    CHECK("message send: the message is not released, and keeps its payload and return address", v_c[0].released == 0 && sent->payload == &v_c[0].hdr && sent->returnaddr == ret && g.live == 2); REACH("done");
}
//@ {"unwind":18,"props":["C28"],"cover":["message_receive"]}
CASEUNIT(4, f_receive)
static void c_f_receive(unsigned c)
{
    answer(c); if (c == 1) { NOT(MESSAGE_RECEIVE_SUCCESS); NOT(MESSAGE_RECEIVE_FAILURE); } else if (c == 2) AS(MESSAGE_RECEIVE_SUCCESS); else if (c == 3) AS(MESSAGE_RECEIVE_FAILURE); if (c == 3) ASSUME((status)(intptr_t)E.rp != STATUS_SUCCESS);
    ad_t a = nd_u64(); msg_t* m0 = mkmsg(nd_u64(), &v_c[0].hdr); msg_t* m = m0; status st = S(message_receive)(a, &m, dd);
    CHECK("receiving is asked for once, by the address of the mailbox", ASKED(FIBER_SCHEDULER_MESSAGE_YIELD_EVENT_MESSAGE_RECEIVE, a));
    CHECK("message receive: the receiver gets the message, or the error", c == 2 ? st == STATUS_SUCCESS && m == (msg_t*)E.rp : m == m0 && st == (c == 0 ? E.yst : c == 1 ? ERROR_MESSAGE_UNKNOWN_ERROR : (status)(intptr_t)E.rp)); REACH("done");
}
UNITS(U(goc) U(disc_release) U(create) U(close) U(send) U(receive) U(order) U(message) U(mailbox) U(f_create) U(f_close) U(f_send) U(f_receive))
