/* Contracts of insertion, removal, search and succession in the ordered tree, on local pieces of trees of any size
 * (rbsh.h).  The fix-ups and the search for the lowest or highest node of a subtree are used by their contracts,
 * which contracts/rbtree.c proves. */
#include "common.h"
#include "rbsh.h"
/* keys: any values in any order the tree's own comparison gives */
static int K[NN + 1];
#define ZK K[NN]
static const void* keyf(void* c, const resource* r) { CHECK("the tree's own context is passed to key", c == &vctx); return &K[(const v_child*)r - VV]; }
static S(rcpr_comparison_result) cmpf(void* c, const void* a, const void* b)
{
    CHECK("the tree's own context is passed to compare", c == &vctx); int x = *(const int*)a, y = *(const int*)b;
    return x < y ? RCPR_COMPARE_LT : x > y ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ;
}
static void keys(void) { T.compare = &cmpf; T.key = &keyf; for (int i = 0; i <= NN; ++i) K[i] = nd_int(); }
static _Bool nil_clean(void) { return T.nil == nil && nil->parent == nil && nil->left == nil && nil->right == nil && nil->color == RBTREE_BLACK; }
static gn N0[NN]; static void snap(void) { for (int i = 0; i < NN; ++i) N0[i] = N[i]; }
static _Bool same(int i) { return N[i].n.parent == N0[i].n.parent && N[i].n.left == N0[i].n.left && N[i].n.right == N0[i].n.right && N[i].n.value == N0[i].n.value && N[i].n.color == N0[i].n.color && N[i].n.alloc == N0[i].n.alloc; }
static _Bool same_to(int n) { _Bool ok = 1; for (int i = 0; i < n; ++i) if (!same(i)) ok = 0; return ok; }
/* the callees' contracts */
static struct { int ins, del, min, max; node* z; node* x; node* xp; node* from; node* res; node* root; } R;
static void after_ins(node* z); static void after_del(node* x);
static void moved(void) { nil->parent = nd_bool() ? &N[0].n : nil; nil->left = nd_bool() ? &N[0].n : nil; nil->color = nd_bool(); T.root = R.root; }
void S(rbtree_insert_fixup)(rbtree* t, node* z) { CHECK("insertion: the fix-up is called once, for the new node", t == &T && R.ins++ == 0 && z == R.z); after_ins(z); moved(); }
void S(rbtree_delete_fixup)(rbtree* t, node* x) { CHECK("removal: the fix-up is called once, where a black is missing", t == &T && R.del++ == 0 && x == R.x && x->parent == R.xp); after_del(x); moved(); }
node* S(rbtree_minimum_node)(rbtree* t, node* x) { CHECK("the lowest node is sought in the right subtree", t == &T && x == R.from); ++R.min; return R.res; }
node* S(rbtree_maximum_node)(rbtree* t, node* x) { CHECK("the highest node is sought in the left subtree", t == &T && x == R.from); ++R.max; return R.res; }
/* ---- insertion.  The descent: the new key's place is below x; y is x's parent; at x it goes left exactly when its key is less */
static struct { _Bool on, empty; int hit, state; node* x; node* y; node* z; } I;
_Bool v_cut_rbtree_insert_node_0(void* xp, void* yp)
{
    node** x = xp, **y = yp; if (!I.on) { CHECK("ATTACH the loop is met unprepared", 0); ASSUME(0); }
    if (I.hit++ == 0) { CHECK("ATTACH the descent starts at the root", *x == T.root && *y == nil); *x = I.x; *y = I.y; return 1; }
    CHECK("[C10] insertion: the descent goes left when the new key is less and right otherwise", *y == I.x && I.x != nil && *x == (ZK < K[0] ? I.x->left : I.x->right));
    CHECK("[C10,C11] insertion: the descent changes nothing", same_to(8) && R.ins == 0);
    REACH("second arrival"); ASSUME(0); return 0;
}
static void after_ins(node* z)
{
    CHECK("[C10,C11] insertion: the new node is red and has no children", z->color == RBTREE_RED && z->left == nil && z->right == nil && z->value == &VV[13].hdr && z->alloc == &v_alloc);
    CHECK("[C10,C11] insertion: it is below the node the descent ended at", z->parent == I.y);
    if (I.y == nil) { CHECK("[C10,C11] insertion: in an empty tree it is the root", T.root == z); return; }
    CHECK("[C10] insertion: it is the left child when its key is less and the right one otherwise", (ZK < K[0] ? I.y->left : I.y->right) == z && (ZK < K[0] ? I.y->right == N0[0].n.right : I.y->left == N0[0].n.left));
    CHECK("[C10,C11] insertion: nothing else changes", I.y->parent == N0[0].n.parent && I.y->color == N0[0].n.color && I.y->value == N0[0].n.value && same(1) && same(2) && same(3) && T.root == R.root);
}
/* 0-8: at a node: two children absent, black or red each; 9: past the end in an empty tree; 10-15 past the end below a node */
//@ {"unwind":18,"props":["C10","C11"],"cuts":{"rbtree_insert_node":[["x","y"]]},"cover":["rbtree_insert_node"]}
CASEUNIT(16, ins_node)
static void c_ins_node(unsigned c)
{
    tree_init(); keys(); node* z = mk(13, 0, nd_bool(), 0); ZK = nd_int(); K[13] = ZK; z->parent = z->left = z->right = nil; N[0].n.parent = NULL;
    I.on = 1; I.hit = 0; R.ins = R.del = 0; R.z = z; I.z = z; I.y = nil;
    if (c < 9) {
        unsigned l = c % 3, r = c / 3; node* x = mk(0, 0, nd_bool(), 0); hang(x, l == 0 ? nil : mk(1, 1, l == 1, 0), r == 0 ? nil : mk(2, 1, r == 1, 0));
        x->parent = mk(3, 1, nd_bool(), 0); I.x = x; I.y = x->parent; T.root = mk(4, 1, 0, 0);
    } else if (c == 9) { I.x = nil; T.root = nil; }
    else {
        unsigned side_ = (c - 10) % 2, o = (c - 10) / 2; node* y = mk(0, 0, nd_bool(), 0); node* ot = o == 0 ? nil : mk(1, 1, o == 1, 0);
        if (side_ == 0) { hang(y, nil, ot); ASSUME(ZK < K[0]); } else { hang(y, ot, nil); ASSUME(ZK >= K[0]); }
        y->parent = mk(3, 1, nd_bool(), 0); I.x = nil; I.y = y; T.root = nd_bool() ? y : mk(4, 1, 0, 0);
    }
    snap(); R.root = T.root; size_t n = T.count;
    S(rbtree_insert_node)(&T, z);
    CHECK("[C10,C11] insertion: the tree is fixed up", R.ins == 1 && R.del == 0 && T.root == R.root);
    CHECK("[C10] insertion: the count grows by one", T.count == n + 1);
    CHECK("[C10,C11,C12] insertion: the nil node is left clean", nil_clean());
}
/* ---- search: a member with the key, if there is one, is in the subtree of x */
static struct { _Bool on; int hit; node* x; int where; } Q;    /* where the member is: -1 left, 0 here, 1 right, 2 there is none */
_Bool v_cut_rbtree_find_node_0(void* xp)
{
    node** x = xp; if (!Q.on) { CHECK("ATTACH the loop is met unprepared", 0); ASSUME(0); }
    if (Q.hit++ == 0) { CHECK("ATTACH the search starts at the root", *x == T.root); *x = Q.x; return 1; }
    CHECK("[C10] search: it stays with the member that has the key", Q.x != nil && (*x == Q.x->left || *x == Q.x->right) && IMPL(Q.where == -1, *x == Q.x->left) && IMPL(Q.where == 1, *x == Q.x->right) && Q.where != 0);
    CHECK("[C10,C11] search: changes nothing", same_to(5) && nil_clean());
    REACH("second arrival"); ASSUME(0); return 0;
}
//@ {"unwind":18,"props":["C10"],"cuts":{"rbtree_find_node":[["x"]]},"cover":["rbtree_find_node"]}
CASEUNIT(5, find_node)
static void c_find_node(unsigned c)
{
    tree_init(); keys(); Q.on = 1; Q.hit = 0; Q.where = 2; T.root = mk(4, 1, 0, 0); node* out = NULL; size_t n = T.count;
    if (c == 4) Q.x = nil;
    else {
        node* x = mk(0, 0, nd_bool(), 0); hang(x, c & 1 ? mk(1, 1, 0, 0) : nil, c & 2 ? mk(2, 1, 0, 0) : nil); x->parent = mk(3, 1, 0, 0); Q.x = x;
        /* nothing on the left is greater than x, nothing on the right is less */
        Q.where = (int)nd_below(4) - 1; if (Q.where == -1) ASSUME(c & 1 && K[1] <= K[0] && ZK == K[1]); if (Q.where == 1) ASSUME(c & 2 && K[2] >= K[0] && ZK == K[2]);
        if (Q.where == 0) ASSUME(ZK == K[0]); if (Q.where == 2) ASSUME(ZK != K[0]);
    }
    snap(); status st = S(rbtree_find_node)(&T, &ZK, &out);
    CHECK("[C10] search: what is found has the key", IMPL(st == STATUS_SUCCESS, out == Q.x && out != nil && K[0] == ZK));
    CHECK("[C10] search: not found is said only past the end, and otherwise the search goes on", IMPL(st != STATUS_SUCCESS, st == ERROR_RBTREE_NOT_FOUND && Q.x == nil));
    CHECK("[C10,C11] search: changes nothing", same_to(5) && nil_clean() && T.count == n && T.root == &N[4].n);
}
/* ---- the next and the previous node */
static struct { _Bool on; int hit; node* x; node* y; _Bool pred; } U;
static _Bool climb(node** x, node** y)
{
    if (!U.on) { CHECK("ATTACH the loop is met unprepared", 0); ASSUME(0); }
    if (U.hit++ == 0) { CHECK("ATTACH the climb starts at the node and its parent", *x == R.z && *y == R.z->parent); *x = U.x; *y = U.y; return 1; }
    CHECK("[C12] climb: only from a child on the side of the node", *x == U.y && U.y != nil && (U.pred ? U.y->left : U.y->right) == U.x && *y == U.y->parent);
    CHECK("[C10,C11,C12] climb: changes nothing", same_to(6) && nil_clean());
    REACH("second arrival"); ASSUME(0); return 0;
}
_Bool v_cut_rbtree_successor_node_0(void* x, void* y) { return climb(x, y); }
_Bool v_cut_rbtree_predecessor_node_0(void* x, void* y) { return climb(x, y); }
/* 0 the climb reaches the top; 1-2 x is the left or right child of y, which is below something; 3-4 y is the root */
static void next(unsigned c, _Bool pred)
{
    tree_init(); keys(); U.on = 1; U.hit = 0; U.pred = pred; R.min = R.max = 0; R.from = NULL; T.root = mk(5, 1, 0, 0);
    node* z = mk(0, 0, nd_bool(), 0); z->parent = mk(1, 1, nd_bool(), 0); z->left = z->right = nil; R.z = z;
    if (c >= 5) {   /* there is a subtree on that side */
        node* s = mk(2, 1, nd_bool(), 0); if (pred) z->left = s; else z->right = s; if (c == 6) { node* o = mk(3, 1, nd_bool(), 0); if (pred) z->right = o; else z->left = o; }
        R.from = s; R.res = mk(4, 1, nd_bool(), 0); snap();
        node* y = pred ? S(rbtree_predecessor_node)(&T, z) : S(rbtree_successor_node)(&T, z);
        CHECK("[C12] next: the nearest node of the subtree on that side", y == R.res && R.min == !pred && R.max == pred && U.hit == 0 && same_to(6) && nil_clean()); return;
    }
    if (c == 0 && nd_bool()) z->parent = nil;
    if (nd_bool()) { if (pred) z->right = mk(4, 1, nd_bool(), 0); else z->left = mk(4, 1, nd_bool(), 0); }
    U.x = mk(2, 0, nd_bool(), 0); if (c == 0) { U.y = nil; U.x->parent = nil; }
    else { U.y = mk(3, 0, nd_bool(), 0); U.x->parent = U.y; U.y->left = c % 2 ? U.x : nil; U.y->right = c % 2 ? nil : U.x; U.y->parent = c > 2 ? nil : &N[1].n; }
    snap(); node* y = pred ? S(rbtree_predecessor_node)(&T, z) : S(rbtree_successor_node)(&T, z);
    CHECK("[C12] next: the climb ends at the first node left by the other side, or at the top", y == U.y && R.min == 0 && R.max == 0 && (y == nil || U.x == (pred ? y->right : y->left)));
    CHECK("[C10,C11,C12] next: changes nothing", same_to(6) && nil_clean());
}
//@ {"unwind":18,"props":["C12"],"cuts":{"rbtree_successor_node":[["x","y"]]},"cover":["rbtree_successor_node"]}
CASEUNIT(7, successor)
static void c_successor(unsigned c) { next(c, 0); }
//@ {"unwind":18,"props":["C12"],"cuts":{"rbtree_predecessor_node":[["x","y"]]},"cover":["rbtree_predecessor_node"]}
CASEUNIT(7, predecessor)
static void c_predecessor(unsigned c) { next(c, 1); }
/* ---- removal.  Shapes of z: fewer than two children, the next node is its right child, or is further down; what is above z */
static struct { node* z; node* x; node* y; node* q; _Bool yblack, upred, deep; node ql; } M;
static void after_del(node* x)
{
    node* fx = M.yblack ? x : NULL; unsigned b = look(top_of(), up, M.deep ? NULL : fx, 1);
    CHECK("[C10,C11,C12] removal: the other nodes keep their order and links", lessseq(M.z) && W.links && W.atoms);
    CHECK("[C11] removal: black heights stay equal, but for one black where the fix-up is to start", W.bh && b == bh0 && IMPL(fx && !M.deep, W.xseen));
    CHECK("[C11] removal: no red under red arises but at the node to be fixed", W.red && (!M.deep ? outside(fx, M.upred) : outside(NULL, M.upred)));
    if (!M.deep) return;
    CHECK("[C10,C11,C12] removal: the next node's right subtree takes its place", M.q->left == x && (x->parent == M.q || !M.yblack && x == nil) && M.q->right == M.ql.right && M.q->parent == M.ql.parent && M.q->color == M.ql.color && M.q->value == M.ql.value);
}
/* kinds 0 no child, 1 one, 2 the next node is the right child, 3 it is a child of that, 4 further down; what is above z; z's colour; whether a red node is above */
//@ {"unwind":66,"props":["C10","C11"],"cover":["rbtree_remove_node","rbtree_transplant"]}
CASEUNIT(30, remove)
static void c_remove(unsigned c)
{
    tree_init(); unsigned s = c % 3, kind = c / 3 % 5; _Bool zred = kind != 1 && s != 0 && c / 15; R.del = R.ins = 0; M.deep = 0; R.from = R.res = NULL; R.min = 0; unsigned h = nd_u32(); ASSUME(h > 0 && h < 1u << 30);
    for (unsigned m = 0; m < 64; ++m) {
        _Bool upred = m & 1, rred = m >> 1 & 1, kid_ = m >> 2 & 1, yred = m >> 3 & 1, lred = m >> 4 & 1, ored = m >> 5 & 1;
        if (upred && (s == 0 || zred)) continue;
        if (kind == 0 && m > 1) continue;
        if (kind == 1 && (zred || rred || yred || lred || ored)) continue;   /* the child of a node with one child is red */
        if (kind >= 2 && (zred && (rred || lred))) continue;
        if (kind == 2 && (yred || ored || (rred && kid_) || (rred && !lred))) continue;
        if (kind >= 3 && yred && kid_) continue;
        if (kind == 3 && rred && (yred || ored)) continue;
        if (kind == 4 && ored) continue;
        if (!nd_bool()) continue;
        node* z = mk(0, 0, zred, 0); M.z = z; R.xp = NULL;
        if (kind == 0) { hang(z, nil, nil); M.y = z; M.x = nil; }
        else if (kind == 1) { node* k = mk(1, 1, 1, 0); M.x = k; M.y = z; if (kid_) hang(z, k, nil); else hang(z, nil, k); }
        else if (kind == 2) {
            node* r = mk(1, 0, rred, 0), *kid = kid_ ? mk(2, 1, 1, 0) : nil; hang(r, nil, kid);
            hang(z, mk(3, 1, lred, lred ? !rred : 0), r); M.y = r; M.x = kid; R.xp = r; R.from = R.res = r;
        } else {
            node* y = mk(2, 0, yred, 0), *kid = kid_ ? mk(4, 1, 1, 0) : nil, *r; unsigned th = !yred;
            if (kind == 3) { r = mk(1, 0, rred, 0); node* o = ored ? mk(5, 1, 1, th) : yred ? nil : mk(5, 1, 0, 0); hang(r, y, o); M.q = r; }
            else { th = h; r = mk(1, 1, rred, h); M.q = mk(6, 1, nd_bool(), 0); M.q->left = y; y->parent = M.q; M.deep = 1; }
            th += !rred; if (th == 0 && !lred) { ASSUME(0); }    /* a left subtree of height nothing would be nil, or a red node */
            y->left = nil; y->right = kid; if (kid != nil) kid->parent = y;
            hang(z, mk(3, 1, lred, lred ? th : th - 1), r); M.y = y; M.x = kid; R.xp = M.q; R.from = r; R.res = y;
        }
        below(s, z, 9, upred); if (s) T.root = !upred && ((m >> 1 ^ m >> 2 ^ m >> 3 ^ m >> 4) & 1) ? up : mk(10, 1, 0, 0); if (R.xp == NULL) R.xp = up;
        M.yblack = M.y->color == RBTREE_BLACK; M.upred = upred; R.x = M.x; if (M.deep) M.ql = *M.q;
        unsigned bh = look(top_of(), up, NULL, 0); CHECK("ATTACH the piece is as described", W.links && W.red && W.bh && W.atoms);
        /* the next node, when it is further down, is where the right subtree's part of the order begins */
        if (M.deep) { W.seq[0] = z->left; W.seq[1] = z; W.seq[2] = M.y; W.seq[3] = z->right; W.n = 4; }
        note(bh);
        size_t cnt = T.count; node* root = T.root; R.root = s == 0 ? mk(11, 1, 0, 0) : root;
        S(rbtree_remove_node)(&T, z);
        CHECK("[C11] removal: the fix-up runs exactly when a black node went", R.del == M.yblack);
        if (!R.del) after_del(M.x);
        CHECK("[C10,C12] removal: the tree keeps the root the fix-up gave it", !R.del || T.root == R.root);
        CHECK("[C10,C12] removal: outside the piece the root stays", IMPL(s != 0, T.root == root));
        CHECK("[C10] removal: the count falls by one, and the node still has its value", T.count == cnt - 1 && z->value == &VV[0].hdr && z->alloc == &v_alloc);
        CHECK("[C10,C11,C12] removal: the nil node is left clean", nil_clean());
        REACH("done"); return;
    }
}
/* ---- all nodes of a subtree, by induction: its own contract stands for the inner calls */
static struct { int n, of[2]; node* kid[2]; status st[2]; _Bool self; node* new_; node* root; } DN;
static status dn_rel(resource* r)
{
    CHECK("[C05] a node is released once, after its subtrees", r == &N[0].n.hdr && !DN.self && (DN.kid[0] == nil || DN.of[0] == 1) && (DN.kid[1] == nil || DN.of[1] == 1)); DN.self = 1;
    N[0].n.left = N[0].n.right = N[0].n.parent = NULL; return VV[0].st;   /* the memory is no longer there */
}
static const S(resource_vtable) dn_vt = { &dn_rel };
int v_rec_rbtree_delete_nodes(rbtree* t, node* n)
{
    CHECK("[C05] a subtree is released once", t == &T && n != nil && (n == DN.kid[0] || n == DN.kid[1])); int i = n != DN.kid[0]; CHECK("[C05] a subtree is released once", DN.of[i]++ == 0); return DN.st[i];
}
//@ {"unwind":18,"props":["C05","C10"],"recs":["rbtree_delete_nodes"],"cover":["rbtree_delete_nodes"]}
CASEUNIT(4, delete_nodes)
static void c_delete_nodes(unsigned c)
{
    tree_init(); node* n = mk(0, 0, nd_bool(), 0); S(resource_init)(&n->hdr, &dn_vt); DN.self = 0; VV[0].st = nd_int(); T.root = n;
    for (int i = 0; i < 2; ++i) { DN.of[i] = 0; DN.st[i] = nd_int(); DN.kid[i] = c >> i & 1 ? mk(1 + i, 1, nd_bool(), 0) : nil; } hang(n, DN.kid[0], DN.kid[1]); n->parent = nd_bool() ? nil : mk(5, 1, 0, 0);
    status st = S(rbtree_delete_nodes)(&T, n);
    CHECK("[C05] every node of the subtree is released, whatever the outcome of the others", DN.self && DN.of[0] == (c & 1) && DN.of[1] == c >> 1);
    status l = c & 1 ? DN.st[0] : 0, r = c >> 1 ? DN.st[1] : 0;
    CHECK("[C05] a failure is reported", IMPL(l == 0 && r == 0 && VV[0].st == 0, st == 0) && IMPL(l != 0 || r != 0 || VV[0].st != 0, st != 0 && (st == l || st == r || st == VV[0].st))); REACH("done");
}
/* ---- swap: the nodes of a tree refer to the nil node of the tree that holds them, by induction */
static rbtree T2; static struct { int n[2][2]; } SW; static node* sw_kid[2][2]; static node* sw_old[2]; static node* sw_new[2];
int v_rec_nil_replace(node* n, node* o, node* w)
{
    int k = -1; for (int i = 0; i < 4; ++i) if (n == sw_kid[i / 2][i % 2]) k = i;
    CHECK("[C09] swap: a subtree is gone through once, from one nil node to the other", k >= 0 && SW.n[k / 2][k % 2]++ == 0 && o == sw_old[k / 2] && w == sw_new[k / 2]); return 0;
}
static node* sw_tree(rbtree* t, int i, unsigned shape, _Bool top)
{
    sw_kid[i][0] = sw_kid[i][1] = NULL; SW.n[i][0] = SW.n[i][1] = 0; if (shape == 4) return t->nil;
    node* n = mk(6 * i, 0, nd_bool(), 0); n->parent = top ? t->nil : mk(6 * i + 3, 1, 0, 0);
    for (int k = 0; k < 2; ++k) { node* c = t->nil; if (shape >> k & 1) { c = mk(6 * i + 1 + k, 1, nd_bool(), 0); c->parent = n; sw_kid[i][k] = c; } if (k) n->right = c; else n->left = c; }
    return n;
}
static _Bool sw_ok(rbtree* t, int i, unsigned shape, _Bool top)
{
    if (shape == 4) return t->root == t->nil; node* n = &N[6 * i].n;
    return t->root == n && n->parent == (top ? t->nil : &N[6 * i + 3].n) && n->left == (shape & 1 ? sw_kid[i][0] : t->nil) && n->right == (shape & 2 ? sw_kid[i][1] : t->nil) && n->value == &VV[6 * i].hdr && n->alloc == &v_alloc
        && SW.n[i][0] == (shape & 1) && SW.n[i][1] == (shape >> 1 & 1);
}
//@ {"unwind":18,"props":["C09"],"recs":["src/rbtree/rbtree_swap.c:nil_replace"],"cover":["rbtree_swap"]}
CASEUNIT(25, swap)
static void c_swap(unsigned c)
{
    tree_init(); unsigned a = c % 5, b = c / 5; _Bool ta = nd_bool(), tb = nd_bool(); int ctx2; node* nil2 = &T2.nil_impl;
    S(resource_init)(&T2.hdr, &rb_vt); T2.alloc = &v_other; T2.context = &ctx2; T2.compare = &cmpf; T2.key = NULL; T.compare = NULL; T.key = &keyf; T2.nil = nil2; T2.count = nd_size();
    S(resource_init)(&nil2->hdr, &rb_vt); nil2->alloc = NULL; nil2->parent = nil2->left = nil2->right = nil2; nil2->value = &nil2->hdr; nil2->color = RBTREE_BLACK;
    T.root = sw_tree(&T, 0, a, ta); T2.root = sw_tree(&T2, 1, b, tb); size_t n = T.count, m = T2.count; sw_old[0] = nil; sw_new[0] = nil2; sw_old[1] = nil2; sw_new[1] = nil;
    S(rbtree_swap)(&T, &T2);
    CHECK("[C09] swap: each holds what the other held", sw_ok(&T2, 0, a, ta) && sw_ok(&T, 1, b, tb) && T.count == m && T2.count == n);
    CHECK("[C09] swap: and orders it in the same way", T.context == &ctx2 && T2.context == &vctx && T.compare == &cmpf && T2.compare == NULL && T.key == NULL && T2.key == &keyf);
    CHECK("[C09] swap: each stays itself", T.alloc == &v_alloc && T2.alloc == &v_other && T.nil == nil && T2.nil == nil2 && nil_clean() && nil2->parent == nil2 && nil2->left == nil2 && nil2->right == nil2 && nil2->color == RBTREE_BLACK); REACH("done");
}
/* ---- a node of its own */
//@ {"unwind":18,"props":["C04","C05","C10"],"cover":["rbtree_node_create","rbtree_node_release"]}
CASEUNIT(6, node)
static void c_node(unsigned c)
{
    tree_init(); v_init(c == 0 ? 0 : NONE, c == 2 ? 0 : NONE); S(resource_init)(&VV[1].hdr, &v_child_vt); VV[1].released = 0; VV[1].st = c == 3 ? 55 : 0; size_t n = T.count; node* x = NULL;
    status st = S(rbtree_node_create)(&x, &T, &VV[1].hdr);
    if (c == 0) { CHECK("[C04,C10] a node: refused memory is reported and leaves nothing behind", st != STATUS_SUCCESS && g.live == 0 && VV[1].released == 0 && T.count == n); REACH("refused"); return; }
    CHECK("[C10] a node: holds the value, and is not in the tree", st == STATUS_SUCCESS && x != NULL && x->value == &VV[1].hdr && x->alloc == &v_alloc && T.count == n && T.root == nil && nil_clean() && VV[1].released == 0 && g.live == 1);
    if (c == 4) x->value = NULL;
    st = S(resource_release)(S(rbtree_node_resource_handle)(x));
    CHECK("[C05] a node's release: releases the value it holds, once", VV[1].released == (c != 4));
    CHECK("[C05] a node's release: reports a failure", (st == STATUS_SUCCESS) == (c != 2 && c != 3));
    CHECK("[C04,C05] a node's release: returns its memory", IMPL(c != 3, g.live == 0 && g.reclaims == 1)); REACH("done");
}
