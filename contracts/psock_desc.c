/* Contracts of descriptor-backed and user-defined streams: each method is one
 * system call (or one call of the user's method), on the right object, with
 * the caller's arguments, and its outcome reported faithfully. */
#include "common.h"
#include "enum.h"
#include <errno.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>
#include <rcpr/psock.h>
#include "psock/psock_internal.h"
#include "psock/psock_create_from_descriptor.c"
typedef S(psock) psock_t; typedef S(resource) resource_t; typedef S(psock_from_descriptor) pfd_t;
static struct {
    pfd_t p; int fd, rw, calls, err; ssize_t r; const void* data; size_t n; const void *a1, *a2; int i1, i2, i3; socklen_t sl; int closed, lastclosed, gso, sotype;
    int socks, sockfam, socktype_, binds, listens, conns, lookups, fail; const void* addr; socklen_t al; struct sockaddr_in a4; struct sockaddr_in6 a6; int port; int openfd;
    int arr; int ov, wst; _Bool has; int u_calls, u_rel; status u_st; psock_t* self; void* uctx; _Bool blk;
} K;
/* the result of a system call: any count up to n, or failure with any errno */
static ssize_t sys_out(ssize_t n)
{
    ++K.calls;
    if (nd_bool()) { K.err = nd_bool() ? EAGAIN : nd_int(); ASSUME(K.err > 0); errno = K.err; K.r = -1; return -1; }
    K.err = 0;
    ssize_t r = (ssize_t)nd_upto((size_t)n); K.r = r; return r;
}
ssize_t SYSFN(read)(int fd, void* d, size_t n) { CHECK("read: one system call, on the descriptor, as asked", K.rw == 'r' && fd == K.fd && d == K.data && n == K.n && K.calls == 0); return sys_out(n > SSIZE_MAX ? SSIZE_MAX : (ssize_t)n); }
ssize_t SYSFN(write)(int fd, const void* d, size_t n) { CHECK("write: one system call, on the descriptor, as asked", K.rw == 'w' && fd == K.fd && d == K.data && n == K.n && K.calls == 0); return sys_out(n > SSIZE_MAX ? SSIZE_MAX : (ssize_t)n); }
int SYSFN(accept)(int fd, struct sockaddr* a, socklen_t* l) { CHECK("accept: one system call, on the descriptor, as asked", K.rw == 'a' && fd == K.fd && a == K.a1 && l == K.a2 && K.calls == 0); return (int)sys_out(1000); }
ssize_t SYSFN(sendmsg)(int fd, const struct msghdr* m, int fl) { CHECK("sendmsg: one system call, on the descriptor, as asked", K.rw == 's' && fd == K.fd && m == K.a1 && fl == K.i1 && K.calls == 0); return sys_out(1000); }
ssize_t SYSFN(recvmsg)(int fd, struct msghdr* m, int fl) { CHECK("recvmsg: one system call, on the descriptor, as asked", K.rw == 'm' && fd == K.fd && m == K.a1 && fl == K.i1 && K.calls == 0); return sys_out(1000); }
int SYSFN(setsockopt)(int fd, int lv, int op, const void* v, socklen_t l) { CHECK("setsockopt: one system call, on the descriptor, as asked", K.rw == 'o' && fd == K.fd && lv == K.i1 && op == K.i2 && v == K.a1 && l == K.sl && K.calls == 0); ssize_t r = sys_out(0); return (int)r; }
int SYSFN(close)(int fd) { ++K.closed; K.lastclosed = fd; CHECK("[C04,C05] the descriptor owned is closed, no other", fd == K.openfd && K.closed == 1); K.openfd = -1; return K.fail == 9 ? -1 : 0; }
int SYSFN(getsockopt)(int fd, int lv, int op, void* v, socklen_t* l)
{
    CHECK("[C04] the kind of the very descriptor is asked", fd == K.fd && lv == SOL_SOCKET && op == SO_TYPE && *l >= sizeof(int)); ++K.gso;
    if (K.sotype < 0) { errno = EBADF; return -1; }
    *(int*)v = K.sotype; *l = sizeof(int); return 0;
}
/* sockets */
int SYSFN(socket)(int f, int t, int p) { (void)p; ++K.socks; K.sockfam = f; K.socktype_ = t; if (K.fail == 1) { errno = EMFILE; return -1; } K.openfd = K.fd; return K.fd; }
int SYSFN(bind)(int fd, const struct sockaddr* a, socklen_t l) { ++K.binds; CHECK("[C04] the new socket is bound to the address given", fd == K.fd && a == K.addr && l == K.al && K.openfd == fd); return K.fail == 2 ? -1 : 0; }
int SYSFN(listen)(int fd, int n) { ++K.listens; CHECK("[C04] the bound socket listens", fd == K.fd && K.binds == 1 && n > 0 && K.openfd == fd); return K.fail == 3 ? -1 : 0; }
static void addr_in(const struct sockaddr* a)
{
    if (K.sockfam == AF_INET) { const struct sockaddr_in* s = (const struct sockaddr_in*)a; CHECK("[C04] connects to the port and address looked up", s->sin_family == AF_INET && s->sin_port == (in_port_t)(((K.port & 255) << 8) | ((K.port >> 8) & 255)) && s->sin_addr.s_addr == K.a4.sin_addr.s_addr); }
    else { const struct sockaddr_in6* s = (const struct sockaddr_in6*)a; CHECK("[C04] connects to the port and address looked up", s->sin6_family == AF_INET6 && s->sin6_port == (in_port_t)(((K.port & 255) << 8) | ((K.port >> 8) & 255)) && s->sin6_addr.s6_addr[0] == K.a6.sin6_addr.s6_addr[0] && s->sin6_addr.s6_addr[15] == K.a6.sin6_addr.s6_addr[15]); }
}
int SYSFN(connect)(int fd, const struct sockaddr* a, socklen_t l) { (void)l; ++K.conns; CHECK("[C04] the new socket is connected", fd == K.fd && K.openfd == fd); addr_in(a); return K.fail == 4 ? -1 : 0; }
static char* hl4[2]; static char* hl6[2]; static struct hostent he4, he6;
struct hostent* SYSFN(gethostbyname2)(const char* n, int af)
{
    ++K.lookups; CHECK("[C04] the name given is looked up", n == K.addr);
    if (af == AF_INET) { if (K.fail >= 5 && K.fail <= 8 || K.has) return NULL; hl4[0] = (char*)&K.a4.sin_addr; hl4[1] = NULL; he4.h_addr_list = hl4; he4.h_length = 4; he4.h_addrtype = AF_INET; return &he4; }
    if (K.fail == 5) return NULL;
    hl6[0] = (char*)&K.a6.sin6_addr; hl6[1] = NULL; he6.h_addr_list = hl6; he6.h_length = 16; he6.h_addrtype = AF_INET6; return &he6;
}
static void k_init(int rw)
{
    v_init(NONE, NONE); K.rw = rw; K.calls = K.err = 0; K.r = 0; K.fd = nd_int(); K.data = NULL; K.n = 0; K.a1 = K.a2 = NULL; K.i1 = nd_int(); K.i2 = nd_int(); K.sl = 4; K.closed = 0; K.lastclosed = -1; K.gso = 0; K.sotype = nd_int();
    K.socks = K.binds = K.listens = K.conns = K.lookups = 0; K.fail = 0; K.addr = NULL; K.al = 16; K.openfd = K.fd; K.has = 0; K.u_calls = K.u_rel = 0; K.u_st = 0; K.self = NULL; K.uctx = NULL;
    ASSUME(K.fd >= 0);
    S(resource_init)(&K.p.hdr.hdr, &psock_from_descriptor_vtable.hdr); K.p.hdr.context = NULL; K.p.hdr.type = PSOCK_TYPE_DESCRIPTOR; K.p.hdr.socktype = PSOCK_SOCKET_TYPE_STREAM; K.p.hdr.alloc = &v_alloc; K.p.descriptor = K.fd;
}
#define VT ((const S(psock_vtable)*)K.p.hdr.hdr.vtable)
//@ {"props":["C20"],"cover":["psock_from_descriptor_read"],"assumes":["read and write meet their POSIX contracts"]}
void H_desc_read(void)
{
    k_init('r'); char b[8]; K.data = b; K.n = nd_size(); size_t sz = K.n;
    status st = VT->read_fn(&K.p.hdr, NULL, b, &sz, nd_bool());
    CHECK("descriptor read: asks the system once", K.calls == 1);
    CHECK("descriptor read: the count is the system's", IMPL(K.r >= 0, st == STATUS_SUCCESS && sz == (size_t)K.r));
    CHECK("descriptor read: would-block and failure are told apart", IMPL(K.r < 0, st == (K.err == EAGAIN || K.err == EWOULDBLOCK ? ERROR_PSOCK_READ_WOULD_BLOCK : ERROR_PSOCK_READ_GENERAL)));
    REACH("done");
}
//@ {"props":["C20"],"cover":["psock_from_descriptor_write"],"assumes":["read and write meet their POSIX contracts"]}
void H_desc_write(void)
{
    k_init('w'); char b[8]; K.data = b; K.n = nd_size(); size_t sz = K.n;
    status st = VT->write_fn(&K.p.hdr, NULL, b, &sz);
    CHECK("descriptor write: asks the system once", K.calls == 1);
    CHECK("descriptor write: the count is the system's", IMPL(K.r >= 0, st == STATUS_SUCCESS && sz == (size_t)K.r));
    CHECK("descriptor write: would-block and failure are told apart", IMPL(K.r < 0, st == (K.err == EAGAIN || K.err == EWOULDBLOCK ? ERROR_PSOCK_WRITE_WOULD_BLOCK : ERROR_PSOCK_WRITE_GENERAL)));
    REACH("done");
}
//@ {"props":["C20"],"cover":["psock_from_descriptor_accept","psock_accept"]}
void H_desc_accept(void)
{
    k_init('a'); struct sockaddr sa; socklen_t l = 16; int d = -5; K.a1 = &sa; K.a2 = &l;
    status st = S(psock_accept)(&K.p.hdr, &d, &sa, &l);
    CHECK("accept: asks the system once", K.calls == 1);
    CHECK("accept: the descriptor is the system's", IMPL(K.r >= 0, st == STATUS_SUCCESS && d == (int)K.r));
    CHECK("accept: would-block and failure are told apart, no descriptor handed out", IMPL(K.r < 0, d == -5 && st == (K.err == EAGAIN || K.err == EWOULDBLOCK ? ERROR_PSOCK_ACCEPT_WOULD_BLOCK : ERROR_PSOCK_ACCEPT_GENERAL)));
    REACH("done");
}
//@ {"props":["C20"],"cover":["psock_from_descriptor_sendmsg","psock_from_descriptor_recvmsg"]}
CASEUNIT(2, desc_msg)
static void c_desc_msg(unsigned c)
{
    k_init(c ? 'm' : 's'); struct msghdr m; K.a1 = &m; size_t n = 77; int fl = K.i1;
    status st = c ? VT->recvmsg_fn(&K.p.hdr, NULL, &m, &n, fl) : VT->sendmsg_fn(&K.p.hdr, NULL, &m, fl);
    CHECK("message: asks the system once", K.calls == 1);
    CHECK("message: success is the system's, and the length", IMPL(K.r >= 0, st == STATUS_SUCCESS && (!c || n == (size_t)K.r)));
    CHECK("message: would-block and failure are told apart", IMPL(K.r < 0, n == 77 && st == (K.err == EAGAIN || K.err == EWOULDBLOCK ? (c ? ERROR_PSOCK_READ_WOULD_BLOCK : ERROR_PSOCK_WRITE_WOULD_BLOCK) : (c ? ERROR_PSOCK_RECVMSG_FAILED : ERROR_PSOCK_SENDMSG_FAILED))));
    REACH("done");
}
//@ {"props":["C20"],"cover":["psock_from_descriptor_setsockopt","psock_setsockopt"]}
void H_desc_sockopt(void)
{
    k_init('o'); int v = 1; K.a1 = &v;
    status st = S(psock_setsockopt)(&K.p.hdr, K.i1, K.i2, &v, K.sl);
    CHECK("setsockopt: asks the system once and reports its answer", K.calls == 1 && st == (K.r < 0 ? ERROR_PSOCK_SETSOCKOPT : STATUS_SUCCESS));
    REACH("done");
}
static void chk_stream(psock_t* s, int fd)
{
    pfd_t* p = (pfd_t*)s;
    CHECK("create: a stream over the descriptor and allocator given", s != NULL && p->descriptor == fd && s->alloc == &v_alloc && s->type == PSOCK_TYPE_DESCRIPTOR);
    CHECK("create: knows what kind of socket it is over", S(psock_socket_type)(s) == (K.sotype == SOCK_STREAM ? PSOCK_SOCKET_TYPE_STREAM : K.sotype == SOCK_DGRAM ? PSOCK_SOCKET_TYPE_DATAGRAM : PSOCK_SOCKET_TYPE_OTHER));
    CHECK("the handle of a stream is its own", S(psock_resource_handle)(s) == &s->hdr && S(psock_resource_handle_to_psock)(&s->hdr) == s);
}
static void c_desc_create(unsigned c);
//@ {"props":["C04","C20"],"cover":["psock_create_from_descriptor"]}
CASEUNIT(2, desc_create)
static void c_desc_create(unsigned c)
{
    k_init(0); g.fail_at = c ? 0 : NONE; psock_t* s = NULL;
    status st = S(psock_create_from_descriptor)(&s, &v_alloc, K.fd);
    CHECK("descriptor stream create: fails exactly when memory is refused; the descriptor stays open", (st == STATUS_SUCCESS) == (g.oom == 0) && K.closed == 0);
    if (st == STATUS_SUCCESS) { chk_stream(s, K.fd); CHECK("descriptor stream create: one block", g.live == 1); REACH("created"); } else { CHECK("descriptor stream create: a failure keeps nothing", g.live == 0 && s == NULL); REACH("refused"); }
}
static void c_desc_release(unsigned c);
//@ {"props":["C05","C03"],"cover":["psock_from_descriptor_release"]}
CASEUNIT(2, desc_release)
static void c_desc_release(unsigned c)
{
    k_init(0); psock_t* s = NULL; status st = S(psock_create_from_descriptor)(&s, &v_alloc, K.fd); ASSUME(st == STATUS_SUCCESS);
    g.reclaim_fail_at = (int)c - 1;
    st = S(resource_release)(S(psock_resource_handle)(s));
    CHECK("descriptor stream release: descriptor closed and memory returned, once each", K.closed == 1 && K.lastclosed == K.fd && g.live == 0 && g.reclaims == 1);
    CHECK("descriptor stream release: a failure is reported", (st == STATUS_SUCCESS) == (g.reclaim_failed == 0));
    REACH("done");
}
/* ---- creating by address: every step may fail ---- */
/* cases: 0 nothing fails; 1 socket; 2 bind; 3 listen; 4 memory; 5 memory, then close fails; 6 bind, then close fails */
static void c_listen_create(unsigned c);
//@ {"props":["C04"],"cover":["psock_create_from_listen_address"]}
CASEUNIT(5, listen_create)
static void c_listen_create(unsigned c)
{
    k_init(0); K.openfd = -1; struct sockaddr_in a; K.addr = &a; K.al = sizeof a; K.fail = c < 4 ? (int)c : 0; g.fail_at = c == 4 ? 0 : NONE; psock_t* s = NULL;
    status st = S(psock_create_from_listen_address)(&s, &v_alloc, (struct sockaddr*)&a, sizeof a);
    CHECK("listener create: succeeds exactly when every step does", (st == STATUS_SUCCESS) == (c == 0));
    if (st == STATUS_SUCCESS) { chk_stream(s, K.fd); CHECK("listener create: bound and listening", K.socks == 1 && K.binds == 1 && K.listens == 1 && K.closed == 0 && K.openfd == K.fd && g.live == 1); }
    else CHECK("listener create: a failure leaves no descriptor open and keeps no memory", K.openfd == -1 && K.closed == (c != 1) && g.live == 0 && s == NULL);
    REACH("done");
}
/* cases: 0 IPv4 all well; 1 socket; 2 connect; 3 memory; 4.. the same over IPv6; 8 no such name */
static void c_host_create(unsigned c);
//@ {"props":["C04"],"cover":["psock_create_from_hostname_and_port"]}
CASEUNIT(9, host_create)
static void c_host_create(unsigned c)
{
    static const int F[4] = { 0, 1, 4, 0 };
    k_init(0); K.openfd = -1; char name[4] = "abc"; K.addr = name; K.port = (int)nd_below(65536); K.a4.sin_addr.s_addr = nd_u32(); K.a6.sin6_addr.s6_addr[0] = nd_u8(); K.a6.sin6_addr.s6_addr[15] = nd_u8();
    K.fail = c == 8 ? 5 : F[c & 3]; K.has = c >= 4; g.fail_at = (c & 3) == 3 ? 0 : NONE; psock_t* s = NULL;
    status st = S(psock_create_from_hostname_and_port)(&s, &v_alloc, name, (unsigned)K.port);
    CHECK("connection create: succeeds exactly when every step does", (st == STATUS_SUCCESS) == (c != 8 && (c & 3) == 0));
    if (st == STATUS_SUCCESS) { chk_stream(s, K.fd); CHECK("connection create: connected", K.socks == 1 && K.conns == 1 && K.closed == 0 && K.openfd == K.fd && g.live == 1); }
    else CHECK("connection create: a failure leaves no descriptor open and keeps no memory", K.openfd == -1 && g.live == 0 && s == NULL);
    REACH("done");
}
/* ---- user-defined streams ---- */
#define UREC() do { CHECK("user stream: its method is called on it with its own context", s == K.self && c == K.uctx); ++K.u_calls; } while (0)
static status u_read(psock_t* s, void* c, void* d, size_t* n, bool b) { UREC(); CHECK("user stream: arguments as given", d == K.data && n == K.a1 && b == K.blk); return K.u_st; }
static status u_write(psock_t* s, void* c, const void* d, size_t* n) { UREC(); CHECK("user stream: arguments as given", d == K.data && n == K.a1); return K.u_st; }
static status u_accept(psock_t* s, void* c, int* d, struct sockaddr* a, socklen_t* l) { UREC(); CHECK("user stream: arguments as given", d == K.data && a == K.a1 && l == K.a2); return K.u_st; }
static status u_send(psock_t* s, void* c, const struct msghdr* m, int f) { UREC(); CHECK("user stream: arguments as given", m == K.a1 && f == K.i1); return K.u_st; }
static status u_recv(psock_t* s, void* c, struct msghdr* m, size_t* n, int f) { UREC(); CHECK("user stream: arguments as given", m == K.a1 && n == K.a2 && f == K.i1); return K.u_st; }
static status u_release(psock_t* s, void* c) { CHECK("user stream: released with its own context", s == K.self && c == K.uctx); ++K.u_rel; return K.u_st; }
static const S(psock_vtable) u_full = { .read_fn = &u_read, .write_fn = &u_write, .accept_fn = &u_accept, .sendmsg_fn = &u_send, .recvmsg_fn = &u_recv, .release_fn = &u_release };
static const S(psock_vtable) u_bare = { .read_fn = &u_read, .write_fn = &u_write };
static psock_t* u_make(unsigned bare)
{
    k_init(0); K.u_st = nd_int(); K.uctx = &K.sotype; K.self = NULL; psock_t* s = NULL;
    status st = S(psock_create_from_user_methods)(&s, &v_alloc, K.uctx, bare ? &u_bare : &u_full);
    ASSUME(st == STATUS_SUCCESS); K.self = s; return s;
}
static void c_user_calls(unsigned bare);
//@ {"props":["C20","C03"],"cover":["psock_create_from_user_methods"]}
CASEUNIT(2, user_calls)
static void c_user_calls(unsigned bare)
{
    psock_t* s = u_make(bare); const S(psock_vtable)* vt = (const S(psock_vtable)*)s->hdr.vtable;
    char b[4]; size_t n = 4; int d; struct sockaddr sa; socklen_t l; struct msghdr m; K.blk = nd_bool();
    K.data = b; K.a1 = &n;
    CHECK("user stream: a read is the user's, with its outcome", vt->read_fn(s, s->context, b, &n, K.blk) == K.u_st && K.u_calls == 1);
    CHECK("user stream: a write is the user's, with its outcome", vt->write_fn(s, s->context, b, &n) == K.u_st && K.u_calls == 2);
    K.data = &d; K.a1 = &sa; K.a2 = &l; status no = ERROR_PSOCK_METHOD_UNDEFINED; status want = bare ? no : K.u_st;
    CHECK("user stream: an accept is the user's, or undefined", S(psock_accept)(s, &d, &sa, &l) == want);
    K.a1 = &m; K.a2 = &n;
    CHECK("user stream: a sendmsg is the user's, or undefined", vt->sendmsg_fn(s, s->context, &m, K.i1) == want);
    CHECK("user stream: a recvmsg is the user's, or undefined", vt->recvmsg_fn(s, s->context, &m, &n, K.i1) == want);
    CHECK("user stream: socket options are undefined", S(psock_setsockopt)(s, 1, 2, &d, 4) == no && K.u_calls == (bare ? 2 : 5) && K.u_rel == 0);
    REACH("done");
}
static void c_user_create(unsigned c);
//@ {"props":["C04"],"cover":["psock_create_from_user_methods"]}
CASEUNIT(2, user_create)
static void c_user_create(unsigned c)
{
    k_init(0); g.fail_at = c ? 0 : NONE; psock_t* s = NULL; int ctx;
    status st = S(psock_create_from_user_methods)(&s, &v_alloc, &ctx, &u_full);
    CHECK("user stream create: fails exactly when memory is refused", (st == STATUS_SUCCESS) == (g.oom == 0) && K.u_rel == 0);
    if (st == STATUS_SUCCESS) { CHECK("user stream create: over the context and allocator given", s != NULL && s->context == &ctx && s->alloc == &v_alloc && s->type == PSOCK_TYPE_USER && g.live == 1); REACH("created"); }
    else { CHECK("user stream create: a failure keeps nothing", g.live == 0 && s == NULL); REACH("refused"); }
}
static void c_user_release(unsigned c);
//@ {"props":["C05","C03"],"cover":["psock_create_from_user_methods"]}
CASEUNIT(4, user_release)
static void c_user_release(unsigned c)
{
    psock_t* s = u_make(c & 1); g.reclaim_fail_at = (int)(c >> 1) - 1;
    status st = S(resource_release)(S(psock_resource_handle)(s));
    CHECK("user stream release: the user's release runs once, the memory goes back", K.u_rel == !(c & 1) && g.live == 0 && g.reclaims == 1 && K.u_calls == 0);
    CHECK("user stream release: a failure is reported", (st == STATUS_SUCCESS) == (g.reclaim_failed == 0 && ((c & 1) || K.u_st == STATUS_SUCCESS)));
    REACH("done");
}
/* ---- passing descriptors ---- */
#ifndef MODE_N
/* the next control message, when the buffer has room for its header (RFC 3542) */
struct cmsghdr* __cmsg_nxthdr(struct msghdr* m, struct cmsghdr* c)
{
    size_t off = (size_t)((char*)c - (char*)m->msg_control) + CMSG_ALIGN(c->cmsg_len);
    if (c->cmsg_len < sizeof(struct cmsghdr) || off + sizeof(struct cmsghdr) > m->msg_controllen) return NULL;
    return (struct cmsghdr*)((char*)m->msg_control + off);
}
#endif
static psock_t P;
static status d_send(psock_t* s, void* c, const struct msghdr* m, int f)
{
    (void)f; ++K.calls; CHECK("descriptor sent: on the stream itself", s == &P && c == &K);
    const struct cmsghdr* cm = CMSG_FIRSTHDR(m); int d; CHECK("descriptor sent: in one rights message", cm != NULL && cm->cmsg_level == SOL_SOCKET && cm->cmsg_type == SCM_RIGHTS && cm->cmsg_len == CMSG_LEN(sizeof(int)) && m->msg_controllen >= cm->cmsg_len);
    memcpy(&d, CMSG_DATA(cm), sizeof d); CHECK("descriptor sent: the one given, with some data", d == K.ov && m->msg_iovlen == 1 && m->msg_iov->iov_len >= 1);
    return K.u_st;
}
static status d_recv(psock_t* s, void* c, struct msghdr* m, size_t* n, int f)
{
    (void)f; ++K.calls; CHECK("descriptor received: on the stream itself", s == &P && c == &K && m->msg_control != NULL && m->msg_controllen >= CMSG_SPACE(sizeof(int)) && m->msg_iovlen == 1);
    if (K.u_st != STATUS_SUCCESS) return K.u_st;
    *n = 1;
    if (!K.has) { m->msg_controllen = 0; return STATUS_SUCCESS; }
    m->msg_controllen = CMSG_SPACE(sizeof(int)); struct cmsghdr* cm = CMSG_FIRSTHDR(m);
    cm->cmsg_level = K.i1; cm->cmsg_type = K.i2; cm->cmsg_len = CMSG_LEN(sizeof(int)); memcpy(CMSG_DATA(cm), &K.ov, sizeof(int));
    return STATUS_SUCCESS;
}
static const S(psock_vtable) d_vt = { .hdr = { &v_child_release }, .sendmsg_fn = &d_send, .recvmsg_fn = &d_recv };
static const S(psock_vtable) d_vt0 = { .hdr = { &v_child_release } };
static void d_init(unsigned c) { k_init(0); S(resource_init)(&P.hdr, c & 1 ? &d_vt0.hdr : &d_vt.hdr); P.context = &K; P.type = PSOCK_TYPE_USER; P.socktype = c & 2 ? PSOCK_SOCKET_TYPE_STREAM : PSOCK_SOCKET_TYPE_DATAGRAM; P.alloc = &v_alloc; K.u_st = nd_int(); K.ov = nd_int(); ASSUME(K.ov >= 0); }
static void c_desc_pass(unsigned c);
//@ {"props":["C20"],"cover":["psock_write_raw_descriptor"]}
CASEUNIT(4, desc_pass)
static void c_desc_pass(unsigned c)
{
    d_init(c);
    status st = S(psock_write_raw_descriptor)(&P, K.ov);
    CHECK("descriptor sent: only over a datagram stream that can", IMPL(c, st == ERROR_PSOCK_UNSUPPORTED_TYPE && K.calls == 0));
    CHECK("descriptor sent: in one message, its outcome reported", IMPL(!c, K.calls == 1 && st == K.u_st)); REACH("done");
}
static void c_desc_get(unsigned c);
//@ {"props":["C20"],"cover":["psock_read_raw_descriptor"],"unwind":6}
CASEUNIT(6, desc_get)
static void c_desc_get(unsigned c)
{
    d_init(c < 4 ? c : 0); K.has = c != 4; int d = -9; _Bool rights = nd_bool(); if (rights) { K.i1 = SOL_SOCKET; K.i2 = SCM_RIGHTS; } rights = K.i1 == SOL_SOCKET && K.i2 == SCM_RIGHTS;
    status st = S(psock_read_raw_descriptor)(&P, &d);
    if (c >= 1 && c <= 3) CHECK("descriptor received: only over a datagram stream that can", st == ERROR_PSOCK_UNSUPPORTED_TYPE && K.calls == 0);
    else {
        CHECK("descriptor received: the one in the message", IMPL(st == STATUS_SUCCESS, d == K.ov && K.has && rights));
        CHECK("descriptor received: fails exactly when none came", (st == STATUS_SUCCESS) == (K.u_st == STATUS_SUCCESS && K.has && rights) && IMPL(K.u_st != STATUS_SUCCESS, st == K.u_st));
    }
    REACH("done");
}
/* ---- the same natively, every outcome ---- */
UNITS(U(desc_read) U(desc_write) U(desc_accept) U(desc_msg) U(desc_sockopt) U(desc_create) U(desc_release) U(listen_create) U(host_create) U(user_calls) U(user_create) U(user_release) U(desc_pass) U(desc_get))
