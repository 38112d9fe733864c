/* Local pieces of a red-black tree, of any size.
 * A piece is a few inner nodes and, below them, frontier subtrees.  Of a frontier
 * subtree only its top node exists: its children are the null pointer, so that reading
 * beyond it fails; ghosts say its black height under that node (base), and
 * whether its top was red at first (then the nodes below it are black).  Above the piece is
 * a parent, or none.  An operation that meets its contract on every piece meets it on
 * every tree: what is outside the piece is not reached, and sees the piece only
 * through its place, the black height there and the colour on top. */
#include <rcpr/rbtree.h>
#include "rbtree/rbtree_internal.h"
typedef S(rbtree) rbtree; typedef S(rbtree_node) node; typedef S(resource) resource;
typedef struct gn { node n; unsigned base; _Bool atom, red0; resource* v0; } gn;
#define NN 14
static rbtree T; static gn N[NN]; static v_child VV[NN]; static node* const nil = &T.nil_impl;
static int vctx;
static const S(resource_vtable) rb_vt = { &v_child_release };
static void tree_init(void)
{
    v_init(NONE, NONE);
    S(resource_init)(&T.hdr, &rb_vt); T.alloc = &v_alloc; T.context = &vctx; T.compare = NULL; T.key = NULL; T.nil = nil; T.root = nil; T.count = nd_size(); ASSUME(T.count > 16 && T.count < SIZE_MAX - 16);
    S(resource_init)(&nil->hdr, &rb_vt); nil->alloc = NULL; nil->parent = nil->left = nil->right = nil; nil->value = &nil->hdr; nil->color = RBTREE_BLACK;
}
/* node i; inner nodes get their children by hang() */
static node* mk(int i, _Bool atom, _Bool red, unsigned base)
{
    gn* g_ = &N[i]; S(resource_init)(&g_->n.hdr, &rb_vt); g_->n.alloc = &v_alloc; g_->n.parent = g_->n.left = g_->n.right = NULL; g_->n.color = red ? RBTREE_RED : RBTREE_BLACK;
    S(resource_init)(&VV[i].hdr, &rb_vt); VV[i].released = 0; VV[i].st = 0; VV[i].freed_ = 0; g_->n.value = &VV[i].hdr; g_->v0 = g_->n.value; g_->atom = atom; g_->red0 = red; g_->base = base; return &g_->n;
}
/* a black frontier subtree of black height h, which is nil when h is 0 */
static node* blk(int i, unsigned h, _Bool none) { return none ? nil : mk(i, 1, 0, h - 1); }
static node* any(int i, _Bool red, unsigned h, _Bool none) { return red ? mk(i, 1, 1, h) : blk(i, h, none); }
static void hang(node* p, node* l, node* r) { p->left = l; p->right = r; if (l != nil) l->parent = p; if (r != nil) r->parent = p; }
/* the piece hangs below: 0 nothing (it is the whole tree), 1 the left, 2 the right of a node */
static node* up; static int side;
static void below(int s, node* top, int i, _Bool red)
{
    side = s; if (s == 0) { up = nil; top->parent = nil; T.root = top; return; }
    up = mk(i, 1, red, 0); if (s == 1) up->left = top; else up->right = top; top->parent = up;
}
static node* top_of(void) { return side == 0 ? T.root : side == 1 ? up->left : up->right; }
/* what a piece comes to */
static struct { int n; node* seq[NN]; _Bool links, red, bh, atoms, xseen; } W;
/* x may be red below red; with extra (a removal) it stands for one more black, and may be red above red, as it is turned black */
static unsigned walk(node* t, node* par, node* x, unsigned extra)
{
    unsigned e = 0;
    if (t == nil) { if (x == nil && nil->parent == par && !W.xseen) { e = extra; W.xseen = 1; } return e; }
    if (W.n >= NN) { W.links = 0; return 0; }
    gn* g_ = (gn*)t; if (t == x) { e = extra; W.xseen = 1; }
    if (t->parent != par) W.links = 0;
    if (t->value != g_->v0 || t->alloc != &v_alloc) W.atoms = 0;
    _Bool b = t->color == RBTREE_BLACK;
    if (g_->atom) { if (t->left != NULL || t->right != NULL) W.atoms = 0; if (!b && !g_->red0) W.red = 0; W.seq[W.n++] = t; return g_->base + b + e; }
    unsigned l = walk(t->left, t, x, extra); if (W.n >= NN) { W.links = 0; return 0; }
    W.seq[W.n++] = t; unsigned r = walk(t->right, t, x, extra);
    if (l != r) W.bh = 0;
    if (!b && !(t == x && extra)) { if (t->left != nil && t->left->color == RBTREE_RED && t->left != x) W.red = 0; if (t->right != nil && t->right->color == RBTREE_RED && t->right != x) W.red = 0; }
    return l + b + e;
}
static unsigned look(node* t, node* par, node* x, unsigned extra) { W.n = 0; W.links = W.red = W.bh = W.atoms = 1; W.xseen = 0; return walk(t, par, x, extra); }
static int ns0; static node* seq0[NN]; static unsigned bh0;
static void note(unsigned b) { bh0 = b; ns0 = W.n; for (int i = 0; i < NN; ++i) seq0[i] = i < W.n ? W.seq[i] : NULL; }
static _Bool sameseq(void) { _Bool ok = W.n == ns0; for (int i = 0; i < NN; ++i) if (i < ns0 && i < W.n && W.seq[i] != seq0[i]) ok = 0; return ok; }
/* the same without node z */
static _Bool lessseq(node* z) { _Bool ok = W.n == ns0 - 1; int j = 0; for (int i = 0; i < NN; ++i) if (i < ns0 && seq0[i] != z) { if (j >= W.n || W.seq[j] != seq0[i]) ok = 0; ++j; } return ok; }
/* what the outside sees of the piece; x as in walk */
static _Bool outside(node* x, _Bool up_red)
{
    node* t = top_of(); _Bool red = t != nil && t->color == RBTREE_RED;
    if (side == 0) return t == nil || !red || t == x;
    return up->color == (up_red ? RBTREE_RED : RBTREE_BLACK) && (side == 1 ? up->right : up->left) == NULL && up->parent == NULL && (!(red && up_red) || t == x);
}
