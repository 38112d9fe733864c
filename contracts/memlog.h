/* memcpy, memmove and memset by contract, as a log of moves.
 *
 * The stubs check that a move is in bounds and remember it; memory itself is
 * left alone.  mv_from(p) follows the log backwards and yields the location
 * whose original content byte p now has (ml_const + c: the constant c).  As contents are
 * arbitrary, "byte p holds what q held" for every content is mv_from(p) == q.
 * Natively the real functions run and the bytes are compared. */
#ifndef V_MEMLOG_H
#define V_MEMLOG_H
#if !defined(MODE_N)
#ifndef NLOG
#define NLOG 6
#endif
static struct { char* d; const char* s; size_t n; } ML[NLOG];
static unsigned mln; static const char ml_const[256];
/* ML_SPECIAL(d, s, c, n): moves done exactly instead of logged (structures); s == NULL: fill with c */
#ifndef ML_SPECIAL
#define ML_SPECIAL(d, s, c, n) 0
#endif
static void ml_init(void) { mln = 0; for (int i = 0; i < NLOG; ++i) { ML[i].d = NULL; ML[i].s = NULL; ML[i].n = 0; } }
static void ml_add(const void* d, const void* s, size_t n)
{
    CHECK("ATTACH few moves", mln < NLOG);
    if (mln < NLOG) { ML[mln].d = (char*)d; ML[mln].s = (const char*)s; ML[mln].n = n; ++mln; }
}
static const void* mv_from(const void* p_)
{
    const char* p = p_;
    for (int i = NLOG - 1; i >= 0; --i) if (i < (int)mln && p != NULL && ML[i].d != NULL && __CPROVER_same_object(p, ML[i].d)) {
        size_t o = __CPROVER_POINTER_OFFSET(p), b = __CPROVER_POINTER_OFFSET(ML[i].d);
        if (o >= b && o - b < ML[i].n) p = ML[i].s == NULL ? NULL : __CPROVER_same_object(ML[i].s, ml_const) ? ML[i].s : ML[i].s + (o - b);
    }
    return p;
}
void* memcpy(void* d, const void* s, size_t k)
{
    CHECK("memcpy: source in bounds", k == 0 || __CPROVER_r_ok(s, k));
    CHECK("memcpy: destination in bounds", k == 0 || __CPROVER_w_ok(d, k));
    CHECK("memcpy: no overlap", !__CPROVER_same_object(d, s) || k == 0 || __CPROVER_POINTER_OFFSET(d) + k <= __CPROVER_POINTER_OFFSET(s) || __CPROVER_POINTER_OFFSET(s) + k <= __CPROVER_POINTER_OFFSET(d));
    if (!ML_SPECIAL(d, s, 0, k)) ml_add(d, s, k); return d;
}
void* memmove(void* d, const void* s, size_t k)
{
    CHECK("memmove: source in bounds", k == 0 || __CPROVER_r_ok(s, k));
    CHECK("memmove: destination in bounds", k == 0 || __CPROVER_w_ok(d, k));
    if (!ML_SPECIAL(d, s, 0, k)) ml_add(d, s, k); return d;
}
#ifndef ML_NO_MEMSET
void* memset(void* d, int c, size_t k)
{
    CHECK("memset: destination in bounds", k == 0 || __CPROVER_w_ok(d, k));
    if (!ML_SPECIAL(d, NULL, c, k)) ml_add(d, ml_const + (unsigned char)c, k);
    return d;
}
#endif
/* byte p now holds what byte q held at first (natively: value v) */
#define HOLDS(p, q, v) (mv_from(p) == (const void*)(q))
#define IS_BYTE(p, c) (mv_from(p) == ml_const + (unsigned char)(c))
#else
#define IS_BYTE(p, c) (*(const uint8_t*)(p) == (uint8_t)(c))
#define ml_init() ((void)0)
#define ml_add(d, s, n) ((void)0)
#define HOLDS(p, q, v) (*(const uint8_t*)(p) == (uint8_t)(v))
#endif
#endif
