/* Exhaustive bounded stand-in for the string functions: every string over a small alphabet up to LMAX
 * characters, and every string of at most two arbitrary bytes, on the real code (native, exact-size heap blocks). */
#include "common.h"
#include <rcpr/string.h>
#include <stdarg.h>
RCPR_IMPORT_string_as(rs);
#ifndef LMAX
#define LMAX 7
#endif
#ifdef MODE_N
static long cases;
static bool ws(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static char* heap(const char* t, size_t n) { char* s = malloc(n + 1); memcpy(s, t, n); s[n] = 0; return s; }
typedef void (*sfn)(const char* t, size_t n);
static void each(const char* alpha, int maxlen, sfn f)
{
    char b[32]; int a = (int)strlen(alpha); long tot = 1;
    for (int n = 0; n <= maxlen; ++n, tot *= a) for (long k = 0; k < tot; ++k) {
        long v = k; for (int i = 0; i < n; ++i, v /= a) b[i] = alpha[v % a];
        b[n] = 0; f(b, n); ++cases;
    }
}
static void each2(sfn f)
{
    char b[3] = { 0, 0, 0 };
    for (int c = 1; c < 256; ++c) for (int d = 0; d < 256; ++d) { b[0] = c; b[1] = d; f(b, d ? 2 : 1); ++cases; }
    /* long ones */
    for (int n = 250; n < 520; n += 3) for (int w = 0; w < 4; ++w) {
        char* l = malloc(n + 1); memset(l, ' ', n); l[n] = 0;
        if (w & 1) memset(l + 3, 'x', n - 3); if (w & 2) memset(l, 'y', n - 2);
        f(l, n); free(l); ++cases;
    }
}
static void t_left(const char* t, size_t n)
{
    char* s = heap(t, n); size_t a = 0; while (a < n && ws(t[a])) ++a;
    S(left_trim)(s); CHECK("left_trim: exactly the text without its leading whitespace", !strcmp(s, t + a)); free(s);
}
static void t_right(const char* t, size_t n)
{
    char* s = heap(t, n); size_t b = n; while (b > 0 && ws(t[b - 1])) --b;
    S(right_trim)(s); CHECK("right_trim: exactly the text without its trailing whitespace", strlen(s) == b && !memcmp(s, t, b)); free(s);
}
static void t_trim(const char* t, size_t n)
{
    char* s = heap(t, n); size_t a = 0, b = n; while (b > 0 && ws(t[b - 1])) --b; while (a < b && ws(t[a])) ++a;
    S(trim)(s); CHECK("trim: exactly the text without its surrounding whitespace", strlen(s) == b - a && !memcmp(s, t + a, b - a)); free(s);
}
static void t_chomp(const char* t, size_t n)
{
    char* s = heap(t, n); size_t b = n ? n - 1 : 0;
    S(chomp)(s); CHECK("chomp: exactly the text without its last character", strlen(s) == b && !memcmp(s, t, b)); free(s);
}
static void t_ends(const char* t, size_t n)
{
    char* s = heap(t, n);
    for (int c = 1; c < 128; ++c) CHECK("ends_with: yes exactly when the last character is the given one", S(ends_with)(s, c) == (n > 0 && t[n - 1] == c));
    CHECK("ends_with: the string is unchanged", !strcmp(s, t)); free(s);
}
static void t_split(const char* t, size_t n)
{
    for (const char* d = " ab:,\n"; *d; ++d) {
        char* s = heap(t, n); const char *l = s, *r = s; const char* p = strchr(t, *d);
        status rv = S(split)(&l, &r, s, *d);
        if (!p) CHECK("split: no delimiter is reported and the string is unchanged", rv == ERROR_STRING_END_OF_INPUT && !l && !r && !strcmp(s, t));
        else { CHECK("split: succeeds when the delimiter occurs", rv == 0); CHECK("split: the text before", l == s && strlen(l) == (size_t)(p - t) && !memcmp(l, t, p - t)); CHECK("split: the text after", r == s + (p - t) + 1 && !strcmp(r, p + 1)); }
        free(s);
    }
}
static bool tk_ab(int c) { return c == 'a' || c == ':'; }
static void iter(const char* t, size_t n, bool (*sep)(int), int w)
{
    char* s = heap(t, n); S(string_iterator) it; memset(&it, 0xee, sizeof it); const char* q; size_t i = 0; int first = 1;
    for (;;) {
        q = s;
        status rv = w ? S(words)(&q, &it, first ? s : NULL) : S(multisplit)(&q, &it, first ? s : NULL, first ? sep : NULL);
        first = 0;
        while (i < n && sep(t[i])) ++i;
        if (i == n) { CHECK("iteration: ends after the last field", rv == ERROR_STRING_END_OF_INPUT && q == NULL); break; }
        size_t e = i; while (e < n && !sep(t[e])) ++e;
        CHECK("iteration: yields every field once, in order and complete", rv == 0 && q == s + i && strlen(q) == e - i && !memcmp(q, t + i, e - i));
        i = e;
    }
    for (int k = 0; k < 2; ++k) { q = s; CHECK("iteration: stays at the end", (w ? S(words)(&q, &it, NULL) : S(multisplit)(&q, &it, NULL, NULL)) == ERROR_STRING_END_OF_INPUT && q == NULL); }
    free(s);
}
static void t_words(const char* t, size_t n) { iter(t, n, &ws, 1); }
static void t_multi(const char* t, size_t n) { iter(t, n, &tk_ab, 0); iter(t, n, &ws, 0); }
static void t_dup(const char* t, size_t n)
{
    for (int f = NONE; f <= 0; ++f) {
        v_init(f, NONE); char* s = heap(t, n); char* o = s;
        status rv = S(strdup)(&o, &v_alloc, s);
        CHECK("strdup: fails exactly when memory is refused", (rv == 0) == (f == NONE));
        CHECK("strdup: the input is unchanged", !strcmp(s, t));
        if (rv == 0) { CHECK("strdup: a fresh, equal, terminated copy", g.live == 1 && o == g.last && o != s && g.last_size >= n + 1 && !memcmp(o, t, n + 1)); free(o); }
        else CHECK("strdup: nothing handed out", o == NULL && g.live == 0);
        free(s);
    }
}
static const char* U2; static size_t N2;
static status cat(char** out, ...)
{
    va_list a; va_start(a, out); const char* f = va_arg(a, const char*);
    status r = S(vstrcat)(out, &v_alloc, f, a); va_end(a); return r;
}
static void t_pair(const char* t, size_t n)
{
    char *s = heap(t, n), *u = heap(U2, N2);
    bool pre = n >= N2 && !memcmp(t, U2, N2);
    CHECK("starts_with: yes exactly when the second string is a prefix of the first", S(starts_with)(s, u) == pre);
    for (int f = NONE; f <= 0; ++f) for (int k = 0; k <= 5; ++k) {
        v_init(f, NONE); char* o = NULL; char e[128]; e[0] = 0;
        status rv = k == 0 ? cat(&o, NULL) : k == 1 ? cat(&o, s, NULL) : k == 2 ? cat(&o, s, u, NULL) : k == 3 ? cat(&o, u, s, u, NULL) : k == 4 ? cat(&o, s, s, u, "", NULL) : rs_strcatv(&o, &v_alloc, "", u, s, u, s, NULL);
        CHECK("strcat: fails exactly when memory is refused", (rv == 0) == (f == NONE));
        if (rv) { CHECK("strcat: nothing is leaked", g.live == 0); continue; }
        if (k == 1) strcat(e, t); if (k == 2) strcat(strcat(e, t), U2); if (k == 3) strcat(strcat(strcat(e, U2), t), U2); if (k == 4) strcat(strcat(strcat(e, t), t), U2);
        if (k == 5) strcat(strcat(strcat(strcat(e, U2), t), U2), t);
        CHECK("strcat: a fresh terminated string of all the texts in order", g.live == 1 && o == g.last && !strcmp(o, e));
        free(o);
    }
    free(s); free(u);
}
static void t_first(const char* t, size_t n) { char b[16]; strcpy(b, t); U2 = b; N2 = n; each("ab ", 4, &t_pair); }
static void long_cat(void)
{
    static const size_t L[] = { 0, 1, 127, 128, 255, 256, 257, 1000, 32768, 65535, 65536, 70001 };
    static char b[3][70002], e[220000]; int n = (int)(sizeof L / sizeof *L);
    for (int k = 0; k < n * n * n; ++k) {
        size_t l[3] = { L[k % n], L[k / n % n], L[k / n / n] }, at = 0; v_init(NONE, NONE); char* o = NULL;
        for (int i = 0; i < 3; ++i) { memset(b[i], 'a' + i, l[i]); b[i][l[i]] = 0; memset(e + at, 'a' + i, l[i]); at += l[i]; }
        e[at] = 0;
        CHECK("strcat: succeeds when memory is granted", cat(&o, b[0], b[1], b[2], NULL) == 0);
        CHECK("strcat: all the texts in order, terminated", g.last_size >= at + 1 && !memcmp(o, e, at + 1));
        free(o); ++cases;
    }
}
#define RUN(f, al) cases = 0; each(al, LMAX, f); each2(f); printf("exhaustive cases %ld\n", cases)
#else
#define RUN(f, al)
#endif
//@ {"props":["C13"],"native":true,"companion":true,"bound":"every string of at most LMAX (quick 7, thorough 9) characters over { space, newline, tab, 'a' }, every string of at most 2 bytes, long runs up to 520","tdefs":["LMAX=9"],"cover":["left_trim"]}
void H_all_left_trim(void) { RUN(&t_left, " \n\ta"); }
//@ {"props":["C13"],"native":true,"companion":true,"bound":"every string of at most LMAX (quick 7, thorough 9) characters over { space, newline, tab, 'a' }, every string of at most 2 bytes, long runs up to 520","tdefs":["LMAX=9"],"cover":["right_trim"]}
void H_all_right_trim(void) { RUN(&t_right, " \n\ta"); }
//@ {"props":["C13"],"native":true,"companion":true,"bound":"every string of at most LMAX (quick 7, thorough 9) characters over { space, newline, tab, 'a' }, every string of at most 2 bytes, long runs up to 520","tdefs":["LMAX=9"],"cover":["trim"]}
void H_all_trim(void) { RUN(&t_trim, " \n\ta"); }
//@ {"props":["C13"],"native":true,"companion":true,"bound":"every string of at most LMAX (quick 7, thorough 9) characters over { space, newline, tab, 'a' }, every string of at most 2 bytes, long runs up to 520","tdefs":["LMAX=9"],"cover":["chomp"]}
void H_all_chomp(void) { RUN(&t_chomp, " \n\ta"); }
//@ {"props":["C15"],"native":true,"companion":true,"bound":"every string of at most LMAX (quick 7, thorough 9) characters over { 'a', 'b' }, every string of at most 2 bytes, every ASCII character","tdefs":["LMAX=9"],"cover":["ends_with"]}
void H_all_ends_with(void) { RUN(&t_ends, "ab"); }
//@ {"props":["C14"],"native":true,"companion":true,"bound":"every string of at most LMAX (quick 7, thorough 9) characters over { space, 'a', 'b', ':' }, every string of at most 2 bytes, long runs up to 520","tdefs":["LMAX=9"],"cover":["split"]}
void H_all_split(void) { RUN(&t_split, " ab:"); }
//@ {"props":["C14"],"native":true,"companion":true,"bound":"complete iterations over every string of at most LMAX (quick 7, thorough 9) characters over { space, 'a', tab, ':' }, every string of at most 2 bytes, long runs up to 520","tdefs":["LMAX=9"],"cover":["words"]}
void H_all_words(void) { RUN(&t_words, " a\t:"); }
//@ {"props":["C14"],"native":true,"companion":true,"bound":"complete iterations over every string of at most LMAX (quick 7, thorough 9) characters over { space, 'a', tab, ':' }, every string of at most 2 bytes, long runs up to 520","tdefs":["LMAX=9"],"cover":["multisplit"]}
void H_all_multisplit(void) { RUN(&t_multi, " a\t:"); }
//@ {"props":["C15","C04"],"native":true,"companion":true,"bound":"every string of at most LMAX (quick 7, thorough 9) characters over { space, 'a', 'b' }, every string of at most 2 bytes, long runs up to 520","tdefs":["LMAX=9"],"cover":["strdup"]}
void H_all_strdup(void) { RUN(&t_dup, " ab"); }
//@ {"props":["C15","C04"],"native":true,"bound":"every pair of strings of at most 4 characters over { 'a', 'b', space }, up to 5 arguments; three strings of lengths around 128, 256, 32768 and 65536","cover":["starts_with","vstrcat"]}
void H_all_pairs(void)
{
#ifdef MODE_N
    cases = 0; long_cat(); each("ab ", 4, &t_first); printf("exhaustive cases %ld\n", cases);
#endif
}
UNITS(U(all_left_trim) U(all_right_trim) U(all_trim) U(all_chomp) U(all_ends_with) U(all_split) U(all_words) U(all_multisplit) U(all_strdup) U(all_pairs))
