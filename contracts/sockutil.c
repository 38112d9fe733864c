/* Contracts of the socket and descriptor utilities (src/socket_utilities).
 *
 * The operating system's descriptor table is F[]: which open file (0: none)
 * each descriptor number refers to.  System calls may fail at any time. */
#include "common.h"
#include "enum.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <unistd.h>
#include <rcpr/socket_utilities.h>
#ifdef MODE_N
#define NFD 10
#define pick(n) ex_choose(n)
#else
#define NFD 24
#endif
static struct { int f[NFD]; int fails, closes, moves, may_fail, arr, w, w0, hi; int dom, ty, pr, sd0, sd1; int lc, fl, gets, sets, fl2; } K;
static _Bool sys_fails(void)
{
#ifdef MODE_N
    if (!K.may_fail || ex_choose(2) == 0) return 0;
#else
    if (!K.may_fail || !nd_bool()) return 0;
#endif
    ++K.fails; errno = EIO; return 1;
}
int SYSFN(close)(int fd)
{
    CHECK("[C23] only open descriptors the caller named are closed", K.w == -2 ? 1 : fd >= 0 && fd < NFD && K.f[fd] != 0);
    ++K.closes; K.lc = fd;
    if (fd >= 0 && fd < NFD) K.f[fd] = 0;
    if (K.w == -2 && K.hi >= 0) { CHECK("close others: nothing but the others is closed", fd > K.hi); }
    return 0;
}
int SYSFN(dup2)(int a, int b)
{
    CHECK("[C23] a descriptor is put on its target from an open one", a >= 0 && a < NFD && b >= 0 && b < NFD && K.f[a] != 0);
    if (sys_fails()) return -1;
    K.f[b] = K.f[a]; ++K.moves; return b;
}
int SYSFN(fcntl)(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); int arg = cmd == F_GETFL || cmd == F_GETFD ? 0 : va_arg(ap, int); va_end(ap);
    if (cmd == F_GETFL) { CHECK("[C23] the flags read are the descriptor's", fd == K.w); ++K.gets; return sys_fails() ? -1 : K.fl; }
    if (cmd == F_SETFL) { CHECK("[C23] the flags set are the descriptor's", fd == K.w); ++K.sets; if (sys_fails()) return -1; K.fl2 = arg; return 0; }
    if (cmd != F_DUPFD && cmd != F_DUPFD_CLOEXEC) return -1;
    CHECK("[C23] an open descriptor is duplicated", fd >= 0 && fd < NFD && K.f[fd] != 0 && arg >= 0);
    if (sys_fails()) return -1;
#ifdef MODE_N
    int r = arg; while (r < NFD && K.f[r] != 0) ++r;
    ASSUME(r < NFD);
#else
    int r = nd_int(); ASSUME(r >= arg && r < NFD && K.f[r] == 0);
#endif
    K.f[r] = K.f[fd]; ++K.moves; return r;
}
int SYSFN(socketpair)(int d, int t, int p, int sd[2])
{
    CHECK("[C23] the pair is of the kind asked for", d == K.dom && t == K.ty && p == K.pr);
    if (sys_fails()) { return -1; }
    sd[0] = K.sd0; sd[1] = K.sd1; return 0;
}
static void k_init(void)
{
#ifndef MODE_N
    __CPROVER_havoc_object(&K);
#endif
    v_init(NONE, NONE); K.fails = K.closes = K.moves = 0; K.may_fail = 1; K.arr = 0; K.w = -1; K.hi = -1; K.gets = K.sets = 0; K.fl = K.fl2 = 0;
#ifdef MODE_N
    for (int i = 0; i < NFD; ++i) K.f[i] = 0;
#endif
}
static int movev(int t, int* d, ...) { va_list ap; va_start(ap, d); status s = S(vsocket_utility_move_descriptors)(t, d, ap); va_end(ap); return s; }
static int setv(int c, int m, ...) { va_list ap; va_start(ap, m); status s = S(vsocket_utility_setfds)(c, m, ap); va_end(ap); return s; }
/* ---- moving out of the way: any table, any numbers, at most three descriptors ---- */
static void chk_move(unsigned n, int t, status st, const int* o, const int* d, const int* file, int w, int wfile)
{
    CHECK("move: succeeds unless the system refuses", (st == STATUS_SUCCESS) == (K.fails == 0));
    for (unsigned i = 0; i < 3; ++i) if (i < n) {
        CHECK("move: each variable names a descriptor of its own file", d[i] >= 0 && d[i] < NFD && K.f[d[i]] == file[i]);
        CHECK("move: after success every descriptor is at or above the threshold", IMPL(st == STATUS_SUCCESS, d[i] >= t));
        for (unsigned j = 0; j < 3; ++j) CHECK("move: descriptors stay distinct", IMPL(j < i, d[i] != d[j]));
    }
    _Bool mine = 0, was = 0; for (unsigned i = 0; i < 3; ++i) if (i < n) { if (d[i] == w) mine = 1; if (o[i] == w) was = 1; }
    CHECK("move: no other descriptor is touched", IMPL(!mine && !was, K.f[w] == wfile));
    CHECK("move: a number given up is closed", IMPL(was && !mine, K.f[w] == 0));
}
static void c_move(unsigned c);
//@ {"props":["C23"],"bound":"at most three descriptors of any numbers below 24","unwind":6,"cover":["vsocket_utility_move_descriptors","socket_utility_move_descriptors"]}
CASEUNIT(4, move)
static void c_move(unsigned c)
{
#ifndef MODE_N
    k_init(); int t = nd_int(), d[3], o[3], file[3]; ASSUME(t < NFD);
    for (int i = 0; i < 3; ++i) { o[i] = d[i] = nd_int(); ASSUME(d[i] >= 0 && d[i] < NFD && K.f[d[i]] != 0); file[i] = K.f[d[i]]; for (int j = 0; j < i; ++j) ASSUME(d[j] != d[i]); }
    int w = nd_int(); ASSUME(w >= 0 && w < NFD); int wf = K.f[w];
    status st = c == 0 ? movev(t, NULL) : c == 1 ? movev(t, &d[0], (int*)NULL) : c == 2 ? movev(t, &d[0], &d[1], (int*)NULL) : S(socket_utility_move_descriptors)(t, &d[0], &d[1], &d[2], (int*)NULL);
    if (t < 0) { CHECK("move: a negative threshold is refused, nothing moves", st == ERROR_GENERAL_INVALID_ARGUMENTS && K.moves == 0 && K.closes == 0); REACH("negative"); return; }
    chk_move(c, t, st, o, d, file, w, wf);
    REACH("done");
#endif
}
//@ {"props":["C23"],"cover":["vsocket_utility_move_descriptors"],"unwind":6}
void H_move_bad(void)
{
#ifndef MODE_N
    k_init(); int d = nd_int(), t = nd_int(); ASSUME(d < 0); int o = d;
    status st = movev(t, &d, (int*)NULL);
    CHECK("move: an invalid descriptor is refused", st == ERROR_GENERAL_INVALID_ARGUMENTS && d == o && K.moves == 0 && K.closes == 0); REACH("done");
#endif
}
/* ---- onto the targets ---- */
static void chk_set(unsigned n, status st, const int* c, const int* m, const int* file, int w, int wfile)
{
    CHECK("set: succeeds unless the system refuses", (st == STATUS_SUCCESS) == (K.fails == 0));
    _Bool tgt = 0, src = 0;
    for (unsigned i = 0; i < 3; ++i) if (i < n) {
        CHECK("set: each target refers to the file requested for it", IMPL(st == STATUS_SUCCESS, K.f[m[i]] == file[i]));
        if (m[i] == w) tgt = 1; if (c[i] == w) src = 1;
    }
    CHECK("set: no other descriptor is touched", IMPL(!tgt && !src, K.f[w] == wfile));
    CHECK("set: the originals that were moved are closed", IMPL(st == STATUS_SUCCESS && src && !tgt, K.f[w] == 0));
}
static void c_set(unsigned c);
//@ {"props":["C23"],"bound":"at most three pairs of any numbers below 24","unwind":6,"cover":["vsocket_utility_setfds","socket_utility_setfds"]}
CASEUNIT(3, set)
static void c_set(unsigned c)
{
#ifndef MODE_N
    k_init(); unsigned n = c + 1; int s[3], m[3], file[3];
    for (int i = 0; i < 3; ++i) { s[i] = nd_int(); m[i] = nd_int(); ASSUME(s[i] >= 0 && s[i] < NFD && m[i] >= 0 && m[i] < NFD && K.f[s[i]] != 0); file[i] = K.f[s[i]]; }
    /* as documented, the sources were moved out of the way: none is another pair's target */
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) ASSUME(s[i] != s[j] && m[i] != m[j] && s[i] != m[j]);
    int w = nd_int(); ASSUME(w >= 0 && w < NFD); int wf = K.f[w];
    status st = n == 1 ? setv(s[0], m[0], -1) : n == 2 ? setv(s[0], m[0], s[1], m[1], -1) : S(socket_utility_setfds)(s[0], m[0], s[1], m[1], s[2], m[2], -1);
    chk_set(n, st, s, m, file, w, wf);
    REACH("done");
#endif
}
//@ {"props":["C23"],"cover":["vsocket_utility_setfds"],"unwind":6}
void H_set_bad(void)
{
#ifndef MODE_N
    k_init(); int a = nd_int(), b = nd_int(); ASSUME(a < 0 || b < 0);
    CHECK("set: an incomplete pair is refused", setv(a, b, -1) == ERROR_GENERAL_INVALID_ARGUMENTS && K.moves == 0 && K.closes == 0); REACH("done");
#endif
}
/* ---- closing ---- */
#ifndef MODE_N
_Bool v_cut_socket_utility_close_other_fds_0(void* vi)
{
    int* i = vi;
    if (K.arr++ == 0) { CHECK("close others: begins right above", *i == K.hi + 1); *i = nd_int(); ASSUME(*i > K.hi && (*i <= FD_SETSIZE || *i == K.hi + 1)); K.w0 = *i; }
    else { CHECK("close others: each one is closed, none skipped", *i == K.w0 + 1 && K.closes == 1 && K.lc == K.w0); ASSUME(0); }
    return 1;
}
#endif
//@ {"uncut":true,"props":["C23"],"cuts":{"socket_utility_close_other_fds":[["i"]]},"cover":["socket_utility_close_other_fds"]}
void H_close_others(void)
{
#ifndef MODE_N
    k_init(); K.w = -2; K.hi = nd_int(); ASSUME(K.hi >= 0 && K.hi < FD_SETSIZE);
    status st = S(socket_utility_close_other_fds)(K.hi);
    CHECK("close others: done when the last possible one is closed", st == STATUS_SUCCESS && K.w0 >= FD_SETSIZE && K.closes == 0); REACH("done");
#endif
}
//@ {"props":["C23"],"cover":["socket_utility_close_standard_fds"]}
void H_close_standard(void)
{
    k_init(); K.w = -2; K.f[0] = K.f[1] = K.f[2] = 1; K.f[3] = 7;
    status st = S(socket_utility_close_standard_fds)();
    CHECK("close standard: input, output and error are closed, nothing else", st == STATUS_SUCCESS && K.closes == 3 && !K.f[0] && !K.f[1] && !K.f[2] && K.f[3] == 7); REACH("done");
}
/* ---- single calls ---- */
//@ {"props":["C23"],"cover":["socket_utility_socketpair"]}
void H_pair(void)
{
#ifndef MODE_N
    k_init(); K.dom = nd_int(); K.ty = nd_int(); K.pr = nd_int(); K.sd0 = nd_int(); K.sd1 = nd_int(); int l = -7, r = -8;
    status st = S(socket_utility_socketpair)(K.dom, K.ty, K.pr, &l, &r);
    CHECK("pair: a failure is reported, and only then", (st != STATUS_SUCCESS) == (K.fails > 0));
    CHECK("pair: left and right are the two ends", IMPL(st == STATUS_SUCCESS, l == K.sd0 && r == K.sd1));
    CHECK("pair: nothing is handed out on failure", IMPL(st != STATUS_SUCCESS, l == -7 && r == -8)); REACH("done");
#endif
}
//@ {"props":["C23"],"cover":["socket_utility_set_nonblock"]}
void H_nonblock(void)
{
#ifndef MODE_N
    k_init(); K.w = nd_int(); K.fl = nd_int(); ASSUME(K.fl >= 0);
    status st = S(socket_utility_set_nonblock)(K.w);
    CHECK("nonblock: a failure is reported, and only then", (st != STATUS_SUCCESS) == (K.fails > 0));
    CHECK("nonblock: the flag is added to the flags there are", IMPL(st == STATUS_SUCCESS, K.sets == 1 && K.fl2 == (K.fl | O_NONBLOCK))); REACH("done");
#endif
}
/* ---- exhaustive searches ---- */
#ifdef MODE_N
static int perm(int* v, int n, int hi) { for (int i = 0; i < n; ++i) { v[i] = ex_choose(hi); for (int j = 0; j < i; ++j) if (v[j] == v[i]) return 0; } return 1; }
static void moves(void)
{
    k_init(); int n = 1 + ex_choose(3), d[3], o[3], file[3], T0[NFD]; if (!perm(d, n, 5)) return;
    for (int i = 0; i < n; ++i) { o[i] = d[i]; file[i] = 10 + i; K.f[d[i]] = file[i]; }
    int w = ex_choose(6); if (K.f[w] == 0) K.f[w] = 50;     /* a bystander */
    int t = ex_choose(5); int wf = K.f[w];
    status st = n == 1 ? movev(t, d, (int*)NULL) : n == 2 ? movev(t, d, d + 1, (int*)NULL) : S(socket_utility_move_descriptors)(t, d, d + 1, d + 2, (int*)NULL);
    for (int x = 0; x < 6; ++x) chk_move(n, t, st, o, d, file, w, wf);
}
/* move out of the way, then map: every assignment */
static void both(void)
{
    k_init(); K.may_fail = 0; int n = 1 + ex_choose(3), d[3], m[3], file[3]; if (!perm(d, n, 5) || !perm(m, n, 4)) return;
    for (int i = 0; i < n; ++i) { file[i] = 10 + i; K.f[d[i]] = file[i]; }
    K.f[5] = 50;
    status st = n == 1 ? movev(4, d, (int*)NULL) : n == 2 ? movev(4, d, d + 1, (int*)NULL) : movev(4, d, d + 1, d + 2, (int*)NULL);
    CHECK("move: succeeds", st == 0);
    st = n == 1 ? setv(d[0], m[0], -1) : n == 2 ? setv(d[0], m[0], d[1], m[1], -1) : setv(d[0], m[0], d[1], m[1], d[2], m[2], -1);
    CHECK("set: succeeds", st == 0);
    for (int i = 0; i < n; ++i) CHECK("set-up: each target refers to the file requested for it", K.f[m[i]] == file[i]);
    int open = 0; for (int i = 0; i < NFD; ++i) open += K.f[i] != 0;
    CHECK("set-up: nothing else is closed or left open", K.f[5] == 50 && open == n + 1);
}
static void sets(void)
{
    k_init(); int n = 1 + ex_choose(3), s[3], m[3], file[3]; if (!perm(s, n, 5) || !perm(m, n, 5)) return;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && s[i] == m[j]) return;
    for (int i = 0; i < n; ++i) { file[i] = 10 + i; K.f[s[i]] = file[i]; }
    int w = ex_choose(6); if (K.f[w] == 0) K.f[w] = 50; int wf = K.f[w];
    status st = n == 1 ? setv(s[0], m[0], -1) : n == 2 ? setv(s[0], m[0], s[1], m[1], -1) : S(socket_utility_setfds)(s[0], m[0], s[1], m[1], s[2], m[2], -1);
    chk_set(n, st, s, m, file, w, wf);
}
static unsigned char closed[4096];
static void singles(void)
{
    k_init(); K.dom = AF_UNIX; K.ty = SOCK_DGRAM; K.pr = 0; K.sd0 = 6; K.sd1 = 9; int l = -7, r = -8;
    status st = S(socket_utility_socketpair)(K.dom, K.ty, K.pr, &l, &r);
    CHECK("pair: a failure is reported, and only then", (st != STATUS_SUCCESS) == (K.fails > 0));
    CHECK("pair: left and right are the two ends", st ? l == -7 && r == -8 : l == 6 && r == 9);
    k_init(); K.w = 3; K.fl = O_RDWR | O_APPEND;
    st = S(socket_utility_set_nonblock)(3);
    CHECK("nonblock: a failure is reported, and only then", (st != STATUS_SUCCESS) == (K.fails > 0));
    CHECK("nonblock: the flag is added to the flags there are", st || K.fl2 == (K.fl | O_NONBLOCK));
    k_init(); K.w = -2; K.hi = 2; st = S(socket_utility_close_other_fds)(2);
    CHECK("close others: all of them", st == 0 && K.closes == FD_SETSIZE - 3);
}
#endif
//@ {"props":["C23"],"native":true,"companion":true,"bound":"at most three descriptors below 5, any threshold below 5, every failure"}
void H_all_moves(void) { EXHAUST(moves()); }
//@ {"props":["C23"],"native":true,"companion":true,"bound":"at most three pairs below 5, every failure"}
void H_all_sets(void) { EXHAUST(sets()); EXHAUST(both()); EXHAUST(singles()); }
UNITS(U(move) U(move_bad) U(set) U(set_bad) U(close_others) U(close_standard) U(pair) U(nonblock) U(all_moves) U(all_sets))
