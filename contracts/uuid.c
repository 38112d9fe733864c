/* Contracts for the UUID functions (src/uuid): complete over all 2^128 values and all texts. */
#include "common.h"
#include <rcpr/uuid.h>
typedef S(rcpr_uuid) uuid;
struct { uuid u, ou; char t[48]; size_t n; char* out; size_t last; } G;
/* the format, written independently: position of the two digits of byte i */
static const uint8_t POS[16] = { 0, 2, 4, 6, 9, 11, 14, 16, 19, 21, 24, 26, 28, 30, 32, 34 };
static inline int hexval(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static _Bool wellformed(const char* t)
{
    _Bool ok = t[8] == '-' && t[13] == '-' && t[18] == '-' && t[23] == '-';
    for (int i = 0; i < 16; ++i) if (hexval(t[POS[i]]) < 0 || hexval(t[POS[i] + 1]) < 0) ok = 0;
    return ok;
}
static _Bool denotes(const char* t, const uuid* u)
{
    for (int i = 0; i < 16; ++i) if (hexval(t[POS[i]]) * 16 + hexval(t[POS[i] + 1]) != u->data[i]) return 0;
    return 1;
}
static _Bool same(const uuid* a, const uuid* b) { for (int i = 0; i < 16; ++i) if (a->data[i] != b->data[i]) return 0; return 1; }
static void uinit(void)
{
    v_init(ANY, NONE);
    for (int i = 0; i < 16; ++i) G.ou.data[i] = G.u.data[i] = nd_u8();
#ifdef MODE_N
    extern int v_random; int wf = v_random ? nd_below(4) : 0;
#endif
    for (int i = 0; i < 37; ++i) {
        G.t[i] = (char)nd_u8();
#ifdef MODE_N
        if (wf && i < 36) G.t[i] = (i == 8 || i == 13 || i == 18 || i == 23) ? '-' : "0123456789abcdefABCDEF"[(uint8_t)G.t[i] % 22];
        if (wf == 2 && i == 36) G.t[i] = 0;
#endif
    }
    G.t[37] = 0;
}
#define SPEC_rcpr_uuid_parse_string(E) \
 E("parse: accepts exactly the well-formed texts", (RET == 0) == (wellformed(G.t) && G.t[36] == 0)) \
 E("parse: reports a parsing failure", IMPL(RET != 0, RET == ERROR_UUID_PARSING_FAILED)) \
 E("parse: yields the bytes the text denotes", IMPL(RET == 0, denotes(G.t, &G.u))) \
 E("parse: a rejected text leaves the UUID unchanged", IMPL(RET != 0, same(&G.u, &G.ou)))
status S(rcpr_uuid_parse_string)(uuid* u, const char* s) REQ(u == &G.u && s == G.t) CONTRACT(rcpr_uuid_parse_string) FRAME(G.u);
//@ {"fn":"rcpr_uuid_parse_string","props":["C16"],"unwind":40}
void H_uuid_parse_string(void)
{
    uinit();
    status RET = S(rcpr_uuid_parse_string)(&G.u, G.t);
    CHECKSPEC(rcpr_uuid_parse_string)
    if (RET == 0) REACH("accepted"); else REACH("rejected");
}
#define SPEC_rcpr_uuid_parse_raw_string(E) \
 E("parse raw: accepts exactly the well-formed texts of 36 characters", (RET == 0) == (G.n == 36 && wellformed(G.t))) \
 E("parse raw: reports a parsing failure", IMPL(RET != 0, RET == ERROR_UUID_PARSING_FAILED)) \
 E("parse raw: yields the bytes the text denotes", IMPL(RET == 0, denotes(G.t, &G.u))) \
 E("parse raw: a rejected text leaves the UUID unchanged", IMPL(RET != 0, same(&G.u, &G.ou)))
status S(rcpr_uuid_parse_raw_string)(uuid* u, const char* s, size_t n) REQ(u == &G.u && s == G.t) REQ(n == G.n) CONTRACT(rcpr_uuid_parse_raw_string) FRAME(G.u);
//@ {"fn":"rcpr_uuid_parse_raw_string","props":["C16"],"unwind":40}
void H_uuid_parse_raw_string(void)
{
    uinit();
    G.n = nd_bool() ? 36 : nd_size();
    status RET = S(rcpr_uuid_parse_raw_string)(&G.u, G.t, G.n);
    CHECKSPEC(rcpr_uuid_parse_raw_string)
    if (RET == 0) REACH("accepted"); else REACH("rejected");
}
//@ {"props":["C16"],"unwind":40,"cover":["rcpr_uuid_parse_raw_string"]}
void H_uuid_parse_raw_bounds(void)
{
    /* a text of n bytes, without terminator, at the very end of an object: nothing beyond it is read */
    uinit();
    G.n = nd_upto(38); char* o = malloc(38); ASSUME(o != NULL);
    char* p = o + (38 - G.n);
    for (size_t i = 0; i < 38; ++i) o[i] = i >= 38 - G.n ? G.t[i - (38 - G.n)] : 'a';
    status RET = S(rcpr_uuid_parse_raw_string)(&G.u, p, G.n);
    CHECK("parse raw: a text shorter or longer than 36 is rejected", IMPL(RET == 0, G.n == 36));
    if (RET == 0) REACH("accepted"); else REACH("rejected");
    free(o);
}
//@ {"props":["C16"],"unwind":40,"cover":["rcpr_uuid_parse_string"]}
void H_uuid_parse_string_bounds(void)
{
    /* a terminated text of n characters at the very end of an object: nothing beyond the terminator is read */
    uinit();
    G.n = nd_upto(37); char* o = malloc(38); ASSUME(o != NULL);
    char* p = o + (37 - G.n);
    for (size_t i = 0; i < 37; ++i) { o[i] = i >= 37 - G.n ? G.t[i - (37 - G.n)] : 'a'; ASSUME(o[i] != 0); }
    o[37] = 0;
    status RET = S(rcpr_uuid_parse_string)(&G.u, p);
    CHECK("parse: a text shorter or longer than 36 is rejected", IMPL(RET == 0, G.n == 36));
    if (RET == 0) REACH("accepted"); else REACH("rejected");
    free(o);
}
static _Bool lower(const char* t) { for (int i = 0; i < 36; ++i) if (t[i] >= 'A' && t[i] <= 'F') return 0; return 1; }
#define SPEC_rcpr_uuid_to_string(E) \
 E("format: fails exactly when memory is refused", (RET == 0) == (g.oom == 0)) \
 E("format: reports out of memory and yields NULL", IMPL(RET != 0, RET == ERROR_GENERAL_OUT_OF_MEMORY && G.out == NULL && g.live == 0)) \
 E("format: a fresh block of at least 37 bytes", IMPL(RET == 0, G.out == g.last && g.live == 1 && g.last_size >= 37)) \
 E("format: well-formed, lower case, terminated", IMPL(RET == 0, wellformed(G.out) && lower(G.out) && G.out[36] == 0)) \
 E("format: the text denotes exactly the UUID", IMPL(RET == 0, denotes(G.out, &G.u))) \
 E("format: the UUID is unchanged", same(&G.u, &G.ou))
status S(rcpr_uuid_to_string)(char** s, S(allocator)* a, const uuid* u) REQ(s == &G.out && a == &v_alloc && u == &G.u) CONTRACT(rcpr_uuid_to_string) FRAME(G.out, g, v_feed);
//@ {"fn":"rcpr_uuid_to_string","props":["C16","C04"],"unwind":40}
void H_uuid_to_string(void)
{
    uinit(); G.out = G.t;
    status RET = S(rcpr_uuid_to_string)(&G.out, &v_alloc, &G.u);
    CHECKSPEC(rcpr_uuid_to_string)
    if (RET == 0) REACH("formatted"); else REACH("refused");
}
/* lemma over the contracts: the text of a UUID parses back to it, and a well-formed text formats back in lower case */
//@ {"props":["C16"],"unwind":40,"cover":["rcpr_uuid_to_string","rcpr_uuid_parse_string","rcpr_uuid_parse_raw_string"]}
void H_uuid_roundtrip(void)
{
    uinit(); v_init(NONE, NONE);
    status r1 = S(rcpr_uuid_to_string)(&G.out, &v_alloc, &G.ou);
    CHECK("round trip: formats", r1 == 0);
    CHECK("round trip: parses", S(rcpr_uuid_parse_string)(&G.u, G.out) == 0);
    CHECK("round trip: same UUID", same(&G.u, &G.ou));
    G.u.data[0] ^= 1;
    CHECK("round trip: parses raw", S(rcpr_uuid_parse_raw_string)(&G.u, G.out, 36) == 0);
    CHECK("round trip: same UUID raw", same(&G.u, &G.ou));
    REACH("done");
}
//@ {"props":["C16"],"unwind":40,"cover":["rcpr_uuid_to_string","rcpr_uuid_parse_string"]}
void H_uuid_roundtrip_text(void)
{
    uinit(); v_init(NONE, NONE); G.t[36] = 0;
    ASSUME(wellformed(G.t));
    CHECK("round trip: parses", S(rcpr_uuid_parse_string)(&G.u, G.t) == 0);
    CHECK("round trip: formats", S(rcpr_uuid_to_string)(&G.out, &v_alloc, &G.u) == 0);
    for (int i = 0; i < 37; ++i) CHECK("round trip: same text in lower case", G.out[i] == (G.t[i] >= 'A' && G.t[i] <= 'F' ? G.t[i] + 32 : G.t[i]));
    REACH("done");
}
UNITS(U(uuid_parse_string) U(uuid_parse_raw_string) U(uuid_parse_raw_bounds) U(uuid_parse_string_bounds) U(uuid_to_string) U(uuid_roundtrip) U(uuid_roundtrip_text))
