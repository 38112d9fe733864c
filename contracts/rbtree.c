/* Contracts of the ordered tree's inner functions, on local pieces of trees of any size (rbsh.h). */
#include "common.h"
#include "rbsh.h"
/* ---- rotations: 0-2 parent, 3 bits of absent subtrees */
//@ {"unwind":16,"props":["C10","C11"],"cover":["rbtree_left_rotate","rbtree_right_rotate"]}
CASEUNIT(36, rotate)
static void c_rotate(unsigned c)
{
    tree_init(); unsigned s = c % 3, who = c / 3 % 2, rest = c / 6;
    for (unsigned m = 0; m < 2; ++m) if (nd_bool()) {
        unsigned bits = rest | m << 2; if (rest >= 4) bits = rest == 4 ? 3 + 4 * m : 7 * m;
        node* x = mk(0, 0, nd_bool(), 0), *y = mk(1, 0, nd_bool(), 0); node* a = bits & 1 ? nil : mk(2, 1, nd_bool(), 0), *b = bits & 2 ? nil : mk(3, 1, nd_bool(), 0), *d = bits & 4 ? nil : mk(4, 1, nd_bool(), 0);
        node* top; if (who == 0) { hang(x, a, y); hang(y, b, d); top = x; } else { hang(y, x, d); hang(x, a, b); top = y; }
        below(s, top, 5, 0); if (s) T.root = mk(6, 1, 0, 0); node* root = T.root; _Bool c0[7]; for (int i = 0; i < 5; ++i) c0[i] = N[i].n.color;
        (void)look(top_of(), up, NULL, 0); note(0); T.count = 20;
        if (who == 0) S(rbtree_left_rotate)(&T, x); else S(rbtree_right_rotate)(&T, y);
        (void)look(top_of(), up, NULL, 0);
        CHECK("rotate: the order of the nodes and the links between them are kept", sameseq() && W.links && W.atoms);
        CHECK("rotate: the lower node takes the place of the upper, which becomes its child", top_of() == (who == 0 ? y : x) && (who == 0 ? y->left == x && y->right == d && x->left == a && x->right == b : x->right == y && x->left == a && y->left == b && y->right == d));
        _Bool same = 1; for (int i = 0; i < 5; ++i) if (N[i].n.color != c0[i]) same = 0;
        CHECK("rotate: no colour, count or other node changes", same && T.count == 20 && IMPL(s != 0, T.root == root && root->left == NULL && root->right == NULL));
        REACH("done"); return;
    }
}
/* ---- after an insertion.  INV(z): the tree is as it should be, but z may be a red child of a red parent, and may be a red root */
static struct { _Bool on, upred; int hit; node* z; node* g_; _Bool last; } F;
static void inv_ins(node* z)
{
    unsigned b = look(top_of(), up, z, 0);
    CHECK("insertion fix-up: order and links are kept", sameseq() && W.links && W.atoms);
    CHECK("insertion fix-up: only the node being fixed may be red under red", W.red && outside(z, F.upred) && z->color == RBTREE_RED);
    CHECK("insertion fix-up: black heights stay equal", W.bh && b == bh0);
}
_Bool v_cut_rbtree_insert_fixup_0(void* zp)
{
    node* z = *(node**)zp; if (!F.on) { CHECK("ATTACH the loop is met unprepared", 0); ASSUME(0); }
    if (F.hit++ == 0) { CHECK("ATTACH the loop starts with the node given", z == F.z); return 1; }
    inv_ins(z);
    CHECK("insertion fix-up: it comes to an end: the trouble moves up or is over", z == F.g_ || z->parent->color == RBTREE_BLACK);
    REACH("second arrival"); ASSUME(0); return 0;
}
/* the parent is black or there is none: 0 z is the root, 1-2 its parent is elsewhere, the root another node, 3-4 its parent is the root */
//@ {"unwind":16,"props":["C10","C11"],"cover":["rbtree_insert_fixup"]}
CASEUNIT(5, ins_end)
static void c_ins_end(unsigned c)
{
    tree_init(); unsigned h = nd_u32(); ASSUME(h < 1u << 30); for (unsigned m = 0; m < 2; ++m) if (nd_bool()) {
        if (m) ASSUME(h == 0); else ASSUME(h > 0);
        node* z = mk(0, 0, 1, 0); hang(z, blk(1, h, m), blk(2, h, m)); below(c == 0 ? 0 : c % 2 ? 1 : 2, z, 3, 0); if (c == 1 || c == 2) T.root = mk(4, 1, 0, 0); if (c > 2) T.root = up;
        note(look(top_of(), up, z, 0)); F.on = 1; F.hit = 0; F.upred = 0; F.z = z; F.g_ = NULL; size_t n = T.count; node* r = T.root;
        S(rbtree_insert_fixup)(&T, z);
        unsigned b = look(top_of(), up, NULL, 0);
        CHECK("insertion fix-up: ends with a valid tree: its root black, no red under red, equal black heights", W.red && W.bh && outside(NULL, 0) && IMPL(c != 0, b == bh0) && T.root == r && r->color == RBTREE_BLACK);
        CHECK("insertion fix-up: order and links are kept", sameseq() && W.links && W.atoms && T.count == n);
        REACH("done"); return;
    }
}
/* z and its parent are red: parent's side, z's side, what is above the grandparent */
//@ {"unwind":18,"props":["C10","C11"],"cuts":{"rbtree_insert_fixup":[["z"]]},"cover":["rbtree_insert_fixup"]}
CASEUNIT(12, ins_red)
static void c_ins_red(unsigned c)
{
    tree_init(); unsigned h = nd_u32(); ASSUME(h < 1u << 30); unsigned ps = c & 1, zs = c >> 1 & 1, s = c >> 2;
    for (unsigned m = 0; m < 8; ++m) if (nd_bool()) {
        _Bool none = m & 1, ured = m >> 1 & 1, upred = m >> 2 & 1; if (none) ASSUME(h == 0); else ASSUME(h > 0); if (s == 0) upred = 0;
        node* z = mk(0, 0, 1, 0), *p = mk(1, 0, 1, 0), *g_ = mk(2, 0, 0, 0); hang(z, blk(3, h, none), blk(4, h, none)); node* sb = blk(5, h, none);
        if (zs) hang(p, sb, z); else hang(p, z, sb);
        node* u; if (ured) { u = mk(6, 0, 1, 0); hang(u, blk(7, h, none), blk(8, h, none)); } else u = blk(6, h, none);
        if (ps) hang(g_, u, p); else hang(g_, p, u);
        below(s, g_, 9, upred); if (s) T.root = nd_bool() && !upred ? up : mk(10, 1, 0, 0);
        note(look(top_of(), up, z, 0)); CHECK("ATTACH the piece is as described", W.links && W.red && W.bh && W.atoms);
        F.on = 1; F.hit = 0; F.upred = upred; F.z = z; F.g_ = g_;
        S(rbtree_insert_fixup)(&T, z);
        CHECK("insertion fix-up: does not stop at a red node under a red one", 0); return;
    }
}
/* ---- after a removal.  INV(x): the tree is as it should be, but x lacks one black, and may be red next to red (or nil, its place then being below its recorded parent) */
static struct { _Bool on, upred; int hit; node* x; node* p; } D;
_Bool v_cut_rbtree_delete_fixup_0(void* xp)
{
    node* x = *(node**)xp; if (!D.on) { CHECK("ATTACH the loop is met unprepared", 0); ASSUME(0); }
    if (D.hit++ == 0) { CHECK("ATTACH the loop starts with the node given", x == D.x); return 1; }
    _Bool out = x == T.root && (side != 0 || x != top_of()); unsigned b = look(top_of(), up, out ? NULL : x, 1);
    CHECK("removal fix-up: order and links are kept", sameseq() && W.links && W.atoms);
    CHECK("removal fix-up: only the node being fixed may be red under red", W.red && outside(out ? NULL : x, D.upred));
    CHECK("removal fix-up: black heights stay equal but for the black that is missing", W.bh && (out || W.xseen) && (b == bh0 || x == T.root && side == 0));
    CHECK("removal fix-up: it comes to an end: the trouble moves up or is over", x == D.p || x == T.root);
    REACH("second arrival"); ASSUME(0); return 0;
}
/* nothing to do but colour it: 0-2 red below nothing, left, right; 3-4 the root, black; 5 an empty tree */
//@ {"unwind":18,"props":["C10","C11"],"cover":["rbtree_delete_fixup"]}
CASEUNIT(6, del_end)
static void c_del_end(unsigned c)
{
    tree_init(); unsigned h = nd_u32(); ASSUME(h < 1u << 30);
    if (c == 5) { side = 0; up = nil; T.root = nil; S(rbtree_delete_fixup)(&T, nil); CHECK("removal fix-up: an empty tree stays empty", T.root == nil && nil->color == RBTREE_BLACK && nil->left == nil && nil->right == nil); REACH("done"); return; }
    for (unsigned m = 0; m < 16; ++m) if (nd_bool()) {
        _Bool none = m & 1, upred = m >> 1 & 1, lr = m >> 2 & 1, rr = m >> 3; if (none) ASSUME(h == 0); else ASSUME(h > 0); if (c % 3 == 0 || c > 2) upred = 0;
        node* x = mk(0, 0, c < 3, 0); hang(x, any(1, lr, h, none), any(2, rr, h, none)); below(c < 3 ? c : 0, x, 3, upred); if (c == 1 || c == 2) T.root = mk(4, 1, 0, 0);
        note(look(top_of(), up, x, 1)); D.on = 1; D.hit = 0; D.x = x; D.p = NULL; D.upred = upred; node* r = T.root; size_t n = T.count;
        S(rbtree_delete_fixup)(&T, x);
        unsigned b = look(top_of(), up, NULL, 0);
        CHECK("removal fix-up: ends with a valid tree: its root black, no red under red, equal black heights", W.red && W.bh && outside(NULL, upred) && IMPL(side != 0, b == bh0) && T.root == r);
        CHECK("removal fix-up: order and links are kept", sameseq() && W.links && W.atoms && T.count == n);
        REACH("done"); return;
    }
}
/* x is black and not the root: its side, what is above its parent, its sibling's colour, whether it is nil */
//@ {"unwind":34,"props":["C10","C11"],"cuts":{"rbtree_delete_fixup":[["x"]]},"cover":["rbtree_delete_fixup"]}
CASEUNIT(24, del_black)
static void c_del_black(unsigned c)
{
    tree_init(); unsigned k = nd_u32(); ASSUME(k < 1u << 30); _Bool xs = c & 1, wred = c >> 1 & 1, none = c >> 2 & 1; unsigned s = c >> 3; if (none) ASSUME(k == 0); else ASSUME(k > 0);
    for (unsigned m = 0; m < 16; ++m) if (nd_bool()) {
        _Bool nred = m & 1, fred = m >> 1 & 1, pred = m >> 2 & 1, upred = m >> 3 & 1; if (wred || s == 0) pred = 0; if (pred || s == 0) upred = 0;
        node* x = blk(0, k, none), *p = mk(1, 0, pred, 0), *w = mk(2, 0, wred, 0); node* n, *f = any(3, fred, k, none);
        if (nred) { n = mk(4, 0, 1, 0); hang(n, blk(5, k, none), blk(6, k, none)); } else n = blk(4, k, none);
        if (!wred) { if (xs) hang(w, f, n); else hang(w, n, f); }
        else { node* q = mk(7, 0, 0, 0), *d = blk(8, k + 1, 0); if (xs) { hang(q, f, n); hang(w, d, q); } else { hang(q, n, f); hang(w, q, d); } }
        if (xs) hang(p, w, x); else hang(p, x, w); x->parent = p;
        below(s, p, 9, upred); if (s) T.root = nd_bool() && !upred ? up : mk(10, 1, 0, 0);
        note(look(top_of(), up, x, 1)); CHECK("ATTACH the piece is as described", W.links && W.red && W.bh && W.atoms && W.xseen);
        D.on = 1; D.hit = 0; D.upred = upred; D.x = x; D.p = p;
        S(rbtree_delete_fixup)(&T, x);
        CHECK("removal fix-up: does not stop while a black is missing", 0); return;
    }
}
/* ---- the lowest and the highest node of a subtree: x is on the way straight down that side */
static struct { _Bool on, max; int hit; node* x; node* start; node l; } E;
static _Bool down(node** x)
{
    if (!E.on) { CHECK("ATTACH the loop is met unprepared", 0); ASSUME(0); }
    if (E.hit++ == 0) { CHECK("ATTACH the descent starts where it was told to", *x == E.start); *x = E.x; return 1; }
    CHECK("extreme: goes straight down on one side, and not past the end", *x == (E.max ? E.l.right : E.l.left) && *x != nil);
    CHECK("extreme: changes nothing", E.x->left == E.l.left && E.x->right == E.l.right && E.x->parent == E.l.parent && E.x->color == E.l.color && nil->left == nil && nil->parent == nil);
    REACH("second arrival"); ASSUME(0); return 0;
}
_Bool v_cut_rbtree_minimum_node_0(void* x) { return down(x); }
_Bool v_cut_rbtree_maximum_node_0(void* x) { return down(x); }
static void extreme(unsigned c, _Bool max)
{
    tree_init(); E.on = 1; E.hit = 0; E.max = max; E.start = mk(5, 1, 0, 0); node* x = mk(0, 0, nd_bool(), 0); T.root = mk(6, 1, 0, 0);
    hang(x, c & 1 ? mk(1, 1, nd_bool(), 0) : nil, c & 2 ? mk(2, 1, nd_bool(), 0) : nil); x->parent = mk(3, 1, 0, 0); E.x = x; E.l = *x; size_t n = T.count;
    node* r = max ? S(rbtree_maximum_node)(&T, E.start) : S(rbtree_minimum_node)(&T, E.start);
    CHECK("extreme: a node with nothing further on that side", r == x && (max ? r->right : r->left) == nil);
    CHECK("extreme: changes nothing", x->left == E.l.left && x->right == E.l.right && x->parent == E.l.parent && x->color == E.l.color && T.count == n && T.root == &N[6].n);
}
//@ {"unwind":16,"props":["C12"],"cuts":{"rbtree_minimum_node":[["x"]]},"cover":["rbtree_minimum_node"]}
CASEUNIT(4, minimum)
static void c_minimum(unsigned c) { extreme(c, 0); }
//@ {"unwind":16,"props":["C12"],"cuts":{"rbtree_maximum_node":[["x"]]},"cover":["rbtree_maximum_node"]}
CASEUNIT(4, maximum)
static void c_maximum(unsigned c) { extreme(c, 1); }
