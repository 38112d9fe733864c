/* Exhaustive enumeration of bounded choice sequences (native runs only): the
 * body is run once for every possible sequence of answers of ex_choose(). */
#ifndef V_ENUM_H
#define V_ENUM_H
#ifdef MODE_N
static int ex_c[512], ex_n[512], ex_len, ex_i; static long ex_cases, ex_limit;
static int ex_choose(int n)
{
    if (n <= 1) return 0;
    if (ex_i == ex_len) { if (ex_len >= 512) { fprintf(stderr, "choice sequence too long\n"); exit(78); } ex_c[ex_len] = 0; ex_n[ex_len] = n; ++ex_len; }
    return ex_c[ex_i++];
}
static int ex_next(void)
{
    while (ex_len && ex_c[ex_len - 1] + 1 >= ex_n[ex_len - 1]) --ex_len;
    if (!ex_len) return 0;
    ++ex_c[ex_len - 1];
    return 1;
}
static void ex_show(void)
{
    fprintf(stderr, "case: choices");
    for (int i = 0; i < ex_i; ++i) fprintf(stderr, " %d/%d", ex_c[i], ex_n[i]);
    fprintf(stderr, "\n");
}
#undef CHECK
#define CHECK(l, c) do { if (!(c)) { ex_show(); v_fail(l); } } while (0)
#define EXHAUST(f) do { ex_len = 0; ex_cases = 0; do { ex_i = 0; f; ++ex_cases; } while (ex_next()); printf("exhaustive cases %ld\n", ex_cases); } while (0)
#else
#define EXHAUST(f)
#endif
#endif
