/* Contracts for the string functions (src/string), for strings of any length.
 *
 * The string is an object of n+1 bytes (n arbitrary) with arbitrary content and
 * a terminator at its last byte at the latest.  "for all positions" facts are
 * stated at an arbitrary witness position W; the universally quantified
 * hypotheses that define E, A, B, D are instantiated where a loop head needs
 * them (INST).  Loops are cut at their head: invariant checked on entry,
 * everything the loop changes made arbitrary, invariant assumed, and checked
 * again (with a strictly decreasing measure) when the head is reached again. */
#include "common.h"
#include <rcpr/string.h>
#include <stdarg.h>
RCPR_IMPORT_string_as(rs);
typedef S(string_iterator) string_iterator;
#define MAXN ((size_t)1 << 40)
struct {
    char* s;            /* the string's storage, n+1 bytes */
    size_t n;
    size_t E;           /* index of the first zero */
    size_t A, B;        /* see each function */
    size_t W; char ow;  /* witness position and its original content */
    int arr[4]; size_t off[4];
    int mv;             /* memmove calls */
    int delim; uint8_t tok[256]; int fn;
    char* t; size_t tn, tE, D;
    size_t vs, ve; _Bool touched;
} G;
static inline _Bool WS(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static _Bool TOK(int c) { return (G.tok[(uint8_t)c >> 3] >> (c & 7)) & 1; }
static bool tok_fn(int c)
{
    CHECK("the token function is asked about characters of the string", c >= CHAR_MIN && c <= CHAR_MAX);
    return TOK(c);
}
static _Bool SEP(int c) { return G.fn ? TOK(c) : WS(c); }

#ifdef MODE_N
#define OFF(p) ((size_t)((char*)(p) - G.s))
#define IN(p) 1
#define __CPROVER_r_ok(p, n) 1
#define __CPROVER_w_ok(p, n) 1
#define __CPROVER_havoc_slice(p, n) ((void)0)
#define __CPROVER_same_object(p, q) 0
#else
#define OFF(p) ((size_t)__CPROVER_POINTER_OFFSET(p))
#define IN(p) __CPROVER_same_object(p, G.s)
#endif
static void str_init(void)
{
    v_init(NONE, NONE);
    G.n = nd_size(); ASSUME(G.n < MAXN);
    G.s = malloc(G.n + 1); ASSUME(G.s != NULL);
    G.E = nd_size(); ASSUME(G.E <= G.n && G.s[G.E] == 0 && G.s[G.n] == 0);
    G.W = nd_size(); ASSUME(G.W <= G.n && IMPL(G.W < G.E, G.s[G.W] != 0));
    ASSUME(IMPL(G.E > 0, G.s[0] != 0));
    G.ow = G.s[G.W];
    G.arr[0] = G.arr[1] = G.arr[2] = G.arr[3] = 0; G.mv = 0; G.A = G.B = 0; G.touched = 0;
}
/* first zero at E, at position k */
#define INST_E(k) ASSUME(IMPL((k) < G.E, G.s[k] != 0))
/* loop head: inv is an expression over `o`, the offset of the pointer in *v */
#define SCAN(i, v, INV, STEP, INSTS) \
    char** pp = (char**)v; \
    CHECK("loop " #i ": the position stays in the string", IN(*pp)); \
    if (G.arr[i]++ == 0) { \
        { size_t o = OFF(*pp); CHECK("loop " #i ": invariant holds on entry", INV); } \
        size_t o = nd_size(); ASSUME(o <= G.n); ASSUME(INV); *pp = G.s + o; G.off[i] = o; INSTS; \
    } else { \
        size_t o = OFF(*pp); CHECK("loop " #i ": invariant is preserved", INV); CHECK("loop " #i ": makes progress", STEP); \
        CHECK("loop " #i ": the scan changes nothing in the string", G.s[G.W] == G.ow); \
        ASSUME(0); \
    } \
    return 1;

/* ---- libc, by contract ---- */
#if defined(STUB_MEM) && !defined(MODE_N)
void* memmove(void* d, const void* s, size_t k)
{
    CHECK("memmove: source in bounds", __CPROVER_r_ok(s, k));
    CHECK("memmove: destination in bounds", __CPROVER_w_ok(d, k));
    CHECK("ATTACH memmove is used within the string", IN(d) && IN(s));
    size_t so = OFF(s), do_ = OFF(d);
    _Bool has = k > 0 && so <= G.W && G.W - so < k;
    char c = G.s[G.W];
    if (k > 0) __CPROVER_havoc_slice(d, k);
    if (has) ASSUME(G.s[do_ + (G.W - so)] == c);
    ++G.mv;
    return d;
}
void* memcpy(void* d, const void* s, size_t k)
{
    CHECK("memcpy: source in bounds", __CPROVER_r_ok(s, k));
    CHECK("memcpy: destination in bounds", __CPROVER_w_ok(d, k));
    CHECK("memcpy: no overlap", !__CPROVER_same_object(d, s));
    CHECK("ATTACH memcpy copies from the string", IN(s));
    size_t so = OFF(s);
    _Bool has = k > 0 && so <= G.W && G.W - so < k;
    char c = G.s[G.W];
    if (k > 0) __CPROVER_havoc_slice(d, k);
    if (has) ASSUME(((char*)d)[G.W - so] == c);
    ++G.mv;
    return d;
}
size_t strlen(const char* p)
{
    if (G.t && p == G.t) return G.tE;
    CHECK("ATTACH strlen of the string", IN(p) && OFF(p) <= G.E);
    return G.E - OFF(p);
}
int memcmp(const void* a, const void* b, size_t k)
{
    CHECK("memcmp: operands in bounds", __CPROVER_r_ok(a, k) && __CPROVER_r_ok(b, k));
    CHECK("ATTACH memcmp compares the two strings", (a == G.s && b == G.t) || (a == G.t && b == G.s));
    int r = nd_int();
    ASSUME((r == 0) == (k <= G.D));
    return r;
}
#endif

/* ---- is_whitespace ---- */
//@ {"props":["C13","C14"],"cover":["is_whitespace"]}
void H_is_whitespace(void)
{
    int c = nd_int();
    bool r = S(is_whitespace)(c);
    CHECK("is_whitespace: exactly the six ASCII whitespace characters", r == WS(c));
    if (r) REACH("yes"); else REACH("no");
}
/* ---- left_trim: A is the first position holding no whitespace ---- */
_Bool v_cut_left_trim_0(void* v) { SCAN(0, v, o <= G.A, o > G.off[0], ASSUME(IMPL(o < G.A, WS(G.s[o])))) }
_Bool v_cut_left_trim_1(void* v) { SCAN(1, v, o >= G.A && o <= G.E, o > G.off[1], INST_E(o)) }
#ifdef STUB_MEM
//@ {"props":["C13"],"cuts":{"left_trim":[["tmp"],["eos"]]},"defs":["STUB_MEM"],"cover":["left_trim"],
//@  "assumes":["strings shorter than 2^40 bytes","memmove, memcpy, strlen and memcmp meet their C standard contracts (stated at a witness position)"]}
void H_left_trim(void)
{
    str_init();
    G.A = nd_size(); ASSUME(G.A <= G.E && !WS(G.s[G.A]));
    ASSUME(IMPL(G.W < G.A, WS(G.s[G.W])));
    S(left_trim)(G.s);
    if (G.W >= G.A && G.W <= G.E) CHECK("left_trim: the rest of the text moves to the front, unchanged and terminated", G.s[G.W - G.A] == G.ow);
    if (G.W > G.E) CHECK("left_trim: nothing beyond the string is written", G.s[G.W] == G.ow);
    if (G.A == 0) REACH("nothing to trim"); else if (G.A == G.E) REACH("blank"); else REACH("trimmed");
}
#endif
/* ---- right_trim: B follows the last position holding no whitespace ---- */
_Bool v_cut_right_trim_0(void* v) { SCAN(0, v, o <= G.E, o > G.off[0], INST_E(o)) }
_Bool v_cut_right_trim_1(void* v) { SCAN(1, v, (o < G.E || (G.E == 0 && o == 0)) && o + 1 >= G.B, o < G.off[1], ASSUME(IMPL(o >= G.B && o < G.E, WS(G.s[o])))) }
//@ {"props":["C13"],"cuts":{"right_trim":[["tmp"],["tmp"]]},"cover":["right_trim"]}
void H_right_trim(void)
{
    str_init();
    G.B = nd_size(); ASSUME(G.B <= G.E && (G.B == 0 || !WS(G.s[G.B - 1])));
    ASSUME(IMPL(G.W >= G.B && G.W < G.E, WS(G.s[G.W])));
    ASSUME(IMPL(G.E > 0, IMPL(G.B == 0, WS(G.s[0]))));
    S(right_trim)(G.s);
    CHECK("right_trim: the text ends after its last character that is no whitespace", G.s[G.B] == 0);
    if (G.W < G.B) CHECK("right_trim: the text before is unchanged", G.s[G.W] == G.ow);
    if (G.W > G.E) CHECK("right_trim: nothing beyond the string is written", G.s[G.W] == G.ow);
    if (G.E == 0) REACH("empty"); else if (G.B == 0) REACH("blank"); else if (G.B == G.E) REACH("nothing to trim"); else REACH("trimmed");
}
/* ---- trim, over the contracts of its two halves ---- */
#ifdef STUB_TRIM
/* the current string is positions [vs,ve) of the original, moved to the front */
void S(right_trim)(char* str)
{
    CHECK("right_trim: called on the string", str == G.s); G.touched = 1;
    if (G.ve > G.B) G.ve = G.vs > G.B ? G.vs : G.B;
}
void S(left_trim)(char* str)
{
    CHECK("left_trim: called on the string", str == G.s); G.touched = 1;
    if (G.vs < G.A) G.vs = G.A < G.ve ? G.A : G.ve;
}
//@ {"props":["C13"],"defs":["STUB_TRIM"],"cover":["trim"],"assumes":["trim is checked over the contracts of right_trim and left_trim, which are proved separately"]}
void H_trim(void)
{
    str_init();
    /* non-blank: A is the first and B-1 the last position with no whitespace; blank: A == E and B == 0 */
    G.A = nd_size(); G.B = nd_size();
    ASSUME(G.A <= G.E && G.B <= G.E && (G.A < G.B || (G.A == G.E && G.B == 0)));
    G.vs = 0; G.ve = G.E;
    S(trim)(G.s);
    CHECK("ATTACH trim is made of its two halves", G.touched);
    if (G.A < G.B) CHECK("trim: exactly the text between the outer whitespace remains", G.vs == G.A && G.ve == G.B);
    else CHECK("trim: a blank string becomes empty", G.vs == G.ve);
    if (G.A < G.B) REACH("text"); else REACH("blank");
}
#endif
/* ---- chomp ---- */
_Bool v_cut_chomp_0(void* v) { SCAN(0, v, o <= G.E, o > G.off[0], INST_E(o)) }
//@ {"props":["C13"],"cuts":{"chomp":[["str"]]},"cover":["chomp"]}
void H_chomp(void)
{
    str_init();
    S(chomp)(G.s);
    CHECK("chomp: the last character is gone, or the string was empty", G.s[G.E ? G.E - 1 : 0] == 0);
    if (G.W != G.E - 1) CHECK("chomp: everything else is unchanged", G.s[G.W] == G.ow);
    if (G.E == 0) REACH("empty"); else REACH("chomped");
}
/* ---- ends_with ---- */
_Bool v_cut_ends_with_0(void* v) { SCAN(0, v, o <= G.E, o > G.off[0], INST_E(o)) }
//@ {"props":["C15"],"cuts":{"ends_with":[["str"]]},"cover":["ends_with"]}
void H_ends_with(void)
{
    str_init();
    int ch = nd_int(); ASSUME(ch > 0 && ch <= 127);
    bool r = S(ends_with)(G.s, ch);
    CHECK("ends_with: yes exactly when the last character is the given one", r == (G.E > 0 && G.s[G.E - 1] == ch));
    CHECK("ends_with: the string is unchanged", G.s[G.W] == G.ow);
    if (r) REACH("yes"); else REACH("no");
}
/* ---- split: D is the first position holding the delimiter or the end ---- */
_Bool v_cut_split_0(void* v, void* c)
{
    char** pp = (char**)v; int* ch = (int*)c;
    CHECK("loop: the position stays in the string", IN(*pp));
    CHECK("loop: the scan changes nothing in the string", G.s[G.W] == G.ow);
    size_t o = OFF(*pp);
    CHECK("loop: the position is at most the first delimiter", o <= G.D);
    CHECK("loop: ch is the character there", *ch == G.s[o]);
    if (G.arr[0]++ == 0) {
        o = nd_size(); ASSUME(o <= G.D); *pp = G.s + o; *ch = G.s[o]; G.off[0] = o;
        ASSUME(IMPL(o < G.D, G.s[o] != 0 && G.s[o] != G.delim));
    } else {
        CHECK("loop: makes progress", o > G.off[0]);
        ASSUME(0);
    }
    return 1;
}
//@ {"props":["C14"],"cuts":{"split":[["str","ch"]]},"cover":["split"]}
void H_split(void)
{
    str_init();
    G.delim = nd_int(); ASSUME(G.delim > 0 && G.delim <= 127);
    G.D = nd_size(); ASSUME(G.D <= G.E && (G.D == G.E || G.s[G.D] == G.delim));
    ASSUME(IMPL(G.D > 0, G.s[0] != 0 && G.s[0] != G.delim));
    const char *l = G.s, *r = G.s;
    status rv = S(split)(&l, &r, G.s, G.delim);
    CHECK("split: succeeds exactly when the delimiter occurs", (rv == 0) == (G.D < G.E));
    if (rv == 0) {
        CHECK("split: the left part is the text before the first delimiter", l == G.s && G.s[G.D] == 0);
        CHECK("split: the right part is the text after it", r == G.s + G.D + 1);
        if (G.W != G.D) CHECK("split: the text is otherwise unchanged", G.s[G.W] == G.ow);
        REACH("split");
    } else {
        CHECK("split: reports the end of input", rv == ERROR_STRING_END_OF_INPUT && l == NULL && r == NULL);
        CHECK("split: the string is unchanged", G.s[G.W] == G.ow);
        REACH("no delimiter");
    }
}
/* ---- words and multisplit: one step from position P of the iteration.
 * A is the first position >= P that is no separator, B the first separator after A (or E). ---- */
static string_iterator it;
#define STEPLOOP(i, LO, HI, INSTS) \
    int* ch = (int*)c; \
    CHECK("loop " #i ": the position stays in the string", IN(it.startpos)); \
    CHECK("loop " #i ": the scan changes nothing in the string", G.s[G.W] == G.ow); \
    CHECK("loop " #i ": the iterator keeps its token function", it.token_fn == (G.fn ? &tok_fn : NULL)); \
    size_t o = OFF(it.startpos); \
    CHECK("loop " #i ": invariant", o >= (LO) && o <= (HI)); \
    CHECK("loop " #i ": ch is the character there", *ch == G.s[o]); \
    if (G.arr[i]++ == 0) { \
        o = nd_size(); ASSUME(o >= (LO) && o <= (HI)); it.startpos = G.s + o; *ch = G.s[o]; G.off[i] = o; \
        INSTS; \
    } else { \
        CHECK("loop " #i ": makes progress", o > G.off[i]); \
        ASSUME(0); \
    } \
    return 1;
#define HYP0(o) ASSUME(IMPL((o) < G.A && (o) >= G.vs, G.s[o] != 0 && SEP(G.s[o])))
#define HYP1(o) ASSUME(IMPL((o) < G.B && (o) > G.A, G.s[o] != 0 && !SEP(G.s[o])))
_Bool v_cut_words_0(void* c) { STEPLOOP(0, G.vs, G.A, HYP0(o)) }
_Bool v_cut_words_1(void* c) { STEPLOOP(1, G.A + 1, G.B, HYP1(o)) }
_Bool v_cut_multisplit_0(void* c) { STEPLOOP(0, G.vs, G.A, HYP0(o)) }
_Bool v_cut_multisplit_1(void* c) { STEPLOOP(1, G.A + 1, G.B, HYP1(o)) }
static char* step_init(int fn)
{
    str_init();
    G.fn = fn;
    _Bool first = nd_bool();
    G.vs = first ? 0 : nd_size(); ASSUME(G.vs <= G.E);
    G.A = nd_size(); ASSUME(G.vs <= G.A && G.A <= G.E && (G.A == G.E || (G.s[G.A] != 0 && !SEP(G.s[G.A]))));
    G.B = nd_size(); ASSUME(IMPL(G.A < G.E, G.A < G.B && G.B <= G.E && (G.B == G.E || SEP(G.s[G.B]))));
    if (!first) { it.startpos = G.s + G.vs; it.token_fn = fn ? &tok_fn : NULL; it.endpos = NULL; }
    else { it.startpos = (char*)&G; it.token_fn = NULL; }
    ASSUME(IMPL(G.vs < G.A, G.s[G.vs] != 0 && SEP(G.s[G.vs])));
    ASSUME(IMPL(G.A < G.E && G.A + 1 < G.B, G.s[G.A + 1] != 0 && !SEP(G.s[G.A + 1])));
    return first ? G.s : NULL;
}
static void step_check(status rv, const char* q, char* arg)
{
    CHECK("step: yields a word exactly when one is left", (rv == 0) == (G.A < G.E));
    if (rv == 0) {
        CHECK("step: the word starts at the next character that is no separator", q == G.s + G.A);
        CHECK("step: the word ends at the next separator or the end", G.s[G.B] == 0);
        CHECK("step: the iteration goes on right after the word", it.startpos == G.s + (G.B < G.E ? G.B + 1 : G.E));
        if (G.W != G.B) CHECK("step: the text is otherwise unchanged", G.s[G.W] == G.ow);
        if (arg) REACH("first word"); else REACH("next word");
    } else {
        CHECK("step: reports the end of input", rv == ERROR_STRING_END_OF_INPUT && q == NULL);
        CHECK("step: the iteration stays at the end", it.startpos == G.s + G.E);
        CHECK("step: the string is unchanged", G.s[G.W] == G.ow);
        REACH("end");
    }
    CHECK("step: the iterator keeps its token function", it.token_fn == (G.fn ? &tok_fn : NULL));
}
//@ {"props":["C14"],"cuts":{"words":[["ch"],["ch"]]},"cover":["words"]}
void H_words(void)
{
    char* arg = step_init(0);
    const char* q = G.s;
    status rv = S(words)(&q, &it, arg);
    step_check(rv, q, arg);
}
//@ {"props":["C14"],"cuts":{"multisplit":[["ch"],["ch"]]},"cover":["multisplit"]}
void H_multisplit(void)
{
    char* arg = step_init(1);
    const char* q = G.s;
    status rv = S(multisplit)(&q, &it, arg, arg ? &tok_fn : NULL);
    step_check(rv, q, arg);
}
/* ---- strdup ---- */
#ifdef STUB_MEM
//@ {"props":["C15","C04"],"defs":["STUB_MEM"],"cover":["strdup"]}
void H_strdup(void)
{
    str_init(); v_init(ANY, NONE);
    G.t = NULL;
    char* out = G.s;
    status rv = S(strdup)(&out, &v_alloc, G.s);
    CHECK("strdup: fails exactly when memory is refused", (rv == 0) == (g.oom == 0));
    CHECK("strdup: the input is unchanged", G.s[G.W] == G.ow);
    if (rv == 0) {
        CHECK("strdup: a fresh block of the right size", g.live == 1 && out == g.last && g.last_size >= G.E + 1);
        if (G.W <= G.E) CHECK("strdup: an equal, terminated copy", out[G.W] == G.ow);
        REACH("copied");
    } else {
        CHECK("strdup: nothing is leaked and nothing handed out", g.live == 0 && out == NULL);
        REACH("refused");
    }
}
//@ {"props":["C15"],"defs":["STUB_MEM"],"cover":["starts_with"]}
void H_starts_with(void)
{
    str_init();
    G.tn = nd_size(); ASSUME(G.tn < MAXN);
    G.t = malloc(G.tn + 1); ASSUME(G.t != NULL);
    G.tE = nd_size(); ASSUME(G.tE <= G.tn && G.t[G.tE] == 0);
    size_t m = G.E < G.tE ? G.E : G.tE;
    /* D is the length of the common prefix */
    G.D = nd_size(); ASSUME(G.D <= m && (G.D == m || G.s[G.D] != G.t[G.D]));
    bool r = S(starts_with)(G.s, G.t);
    CHECK("starts_with: yes exactly when the second string is a prefix of the first", r == (G.D == G.tE));
    if (r) REACH("yes"); else REACH("no");
    CHECK("starts_with: the strings are unchanged", G.s[G.W] == G.ow);
}
#endif
/* ---- vstrcat, a fixed small number of strings of any length ---- */
#ifdef STUB_CAT
#define NCAT 4
struct { char* s[NCAT]; size_t n[NCAT]; int k; size_t W; char ow[NCAT]; } K;
static int cat_of(const void* p) { for (int i = 0; i < K.k; ++i) if (p == K.s[i]) return i; CHECK("ATTACH strcat works on whole strings", 0); return 0; }
#ifndef MODE_N
size_t strlen(const char* p) { return K.n[cat_of(p)]; }
void* memcpy(void* d, const void* s, size_t k)
{
    CHECK("memcpy: source in bounds", __CPROVER_r_ok(s, k));
    CHECK("memcpy: destination in bounds", __CPROVER_w_ok(d, k));
    int i = cat_of(s);
    if (k > 0) __CPROVER_havoc_slice(d, k);
    if (K.W < k) ASSUME(((char*)d)[K.W] == K.ow[i]);
    return d;
}
#endif
static status callcat(char** out, ...)
{
    va_list a; va_start(a, out);
    const char* first = va_arg(a, const char*);
    status r = S(vstrcat)(out, &v_alloc, first, a);
    va_end(a);
    return r;
}
static void c_vstrcat(unsigned c)
{
    v_init(ANY, NONE);
    K.k = (int)c; K.W = nd_size();
    size_t sum = 0;
    for (int i = 0; i < K.k; ++i) {
        K.n[i] = nd_size(); ASSUME(K.n[i] < MAXN);
        K.s[i] = malloc(K.n[i] + 1); ASSUME(K.s[i] != NULL);
        K.s[i][K.n[i]] = 0;
        K.ow[i] = K.W < K.n[i] ? K.s[i][K.W] : 0;
        sum += K.n[i];
    }
    char* out = NULL;
    status rv = c == 0 ? callcat(&out, (char*)NULL) : c == 1 ? callcat(&out, K.s[0], (char*)NULL) : c == 2 ? callcat(&out, K.s[0], K.s[1], (char*)NULL) : callcat(&out, K.s[0], K.s[1], K.s[2], (char*)NULL);
    CHECK("strcat: fails exactly when memory is refused", (rv == 0) == (g.oom == 0));
    if (rv == 0) {
        CHECK("strcat: a fresh block of the right size", g.live == 1 && out == g.last && g.last_size >= sum + 1);
        CHECK("strcat: terminated", out[sum] == 0);
        size_t at = 0;
        for (int i = 0; i < K.k; ++i) {
            if (K.W < K.n[i]) {
                /* the last string written is known exactly; earlier ones may not be overwritten */
                CHECK("strcat: every string in its place", out[at + K.W] == K.ow[i]);
            }
            at += K.n[i];
        }
        REACH("concatenated");
    } else { CHECK("strcat: nothing is leaked", g.live == 0); REACH("refused"); }
}
//@ {"props":["C15","C04"],"defs":["STUB_CAT"],"cover":["vstrcat"],"bound":"up to 3 strings, each of any length","unwind":6}
CASEUNIT(4, vstrcat)
#endif
UNITS({0,0},)
