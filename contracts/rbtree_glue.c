/* Contracts of the ordered tree's public functions, over the contracts of the inner ones (contracts/rbtree_mod.c, rbtree.c). */
#include "common.h"
#include <rcpr/rbtree.h>
#include "rbtree/rbtree_internal.h"
typedef S(rbtree) rbtree; typedef S(rbtree_node) node; typedef S(resource) resource;
static rbtree T; static node ND; static v_child VAL; static int vctx; static node* const nil = &T.nil_impl;
static struct { int find, ins, rem, all, rel; node* z; status st; const void* key; resource* val; rbtree* t; unsigned relval; status relst; _Bool given; } R;
/* the node's own release: the value goes with it, when it still has one */
static status node_rel(resource* r)
{
    node* n = (node*)r; CHECK("[C05,C10] a node is released once, after it left the tree", n == &ND && R.rel++ == 0 && R.rem == 1);
    R.val = n->value; if (n->value != NULL) ++R.relval; return R.relst;
}
static const S(resource_vtable) node_vt = { &node_rel }; static const S(resource_vtable) rb_vt = { &v_child_release };
static void init(void)
{
    v_init(NONE, NONE); R.find = R.ins = R.rem = R.all = R.rel = 0; R.relval = 0; R.relst = nd_bool() ? STATUS_SUCCESS : 77; R.key = &vctx; R.z = NULL; R.t = &T;
    S(resource_init)(&T.hdr, &rb_vt); T.alloc = &v_alloc; T.context = &vctx; T.compare = NULL; T.key = NULL; T.nil = nil; T.root = &ND; T.count = nd_size();
    S(resource_init)(&nil->hdr, &rb_vt); nil->alloc = NULL; nil->parent = nil->left = nil->right = nil; nil->value = &nil->hdr; nil->color = RBTREE_BLACK;
    S(resource_init)(&VAL.hdr, &v_child_vt); VAL.released = 0; VAL.st = 0; S(resource_init)(&ND.hdr, &node_vt); ND.alloc = &v_alloc; ND.parent = ND.left = ND.right = nil; ND.value = &VAL.hdr; ND.color = RBTREE_BLACK;
}
status S(rbtree_node_create)(node** n, rbtree* t, resource* r)
{
    CHECK("[C10] insert: a node is made for the value given", t == &T && r == &VAL.hdr && R.find++ == 0);
    if (R.st != STATUS_SUCCESS) return R.st; *n = R.z = &ND; return STATUS_SUCCESS;
}
void S(rbtree_insert_node)(rbtree* t, node* z) { CHECK("[C10] insert: the node that was made is inserted, once", t == &T && z == R.z && z != NULL && R.ins++ == 0); ++t->count; }
status S(rbtree_find_node)(rbtree* t, const void* key, node** n)
{
    CHECK("[C10] the node is sought by the key given", t == &T && key == R.key && R.find++ == 0);
    if (R.st != STATUS_SUCCESS) return R.st; *n = &ND; return STATUS_SUCCESS;
}
void S(rbtree_remove_node)(rbtree* t, node* z) { CHECK("[C10] the node that was found is removed, once", t == &T && z == &ND && R.rem++ == 0 && R.rel == 0 && z->value == &VAL.hdr); --t->count; }
status S(rbtree_delete_nodes)(rbtree* t, node* n)
{
    CHECK("[C05] all nodes are released, from the root", t == R.t && n == &ND && R.all++ == 0 && n != nil);
    t->nil->parent = &ND; return R.st;
}
static void st_any(void) { R.st = nd_int(); }
//@ {"props":["C10","C05"],"cover":["rbtree_insert"]}
void H_glue_insert(void)
{
    init(); st_any(); size_t n = T.count; status st = S(rbtree_insert)(&T, &VAL.hdr);
    CHECK("[C10] insert: succeeds when a node can be had, and says so", st == R.st && R.ins == (R.st == STATUS_SUCCESS) && T.count == n + (R.st == STATUS_SUCCESS));
    CHECK("[C05,C10] insert: does not release the value", VAL.released == 0 && R.rel == 0); REACH("done");
}
//@ {"props":["C10"],"cover":["rbtree_find"]}
void H_glue_find(void)
{
    init(); st_any(); if (R.st != STATUS_SUCCESS) ASSUME(R.st == ERROR_RBTREE_NOT_FOUND); resource* r = &v_c[0].hdr; status st = S(rbtree_find)(&r, &T, R.key);
    CHECK("[C10] find: gives the member found, still the tree's own, or nothing", st == R.st && r == (R.st == STATUS_SUCCESS ? &VAL.hdr : NULL) && R.rem == 0 && R.rel == 0 && ND.value == &VAL.hdr && VAL.released == 0); REACH("done");
}
static void del(_Bool by_node, _Bool keep)
{
    init(); R.st = STATUS_SUCCESS; if (!by_node && nd_bool()) R.st = ERROR_RBTREE_NOT_FOUND; resource* r = NULL; size_t n = T.count;
    status st = by_node ? S(rbtree_delete_node)(keep ? &r : NULL, &T, &ND) : S(rbtree_delete)(keep ? &r : NULL, &T, R.key);
    if (R.st != STATUS_SUCCESS) { CHECK("[C10] delete: a key that is not there changes nothing", st == R.st && R.rem == 0 && R.rel == 0 && T.count == n && r == NULL); return; }
    CHECK("[C10] delete: the node leaves the tree and is released", R.rem == 1 && R.rel == 1 && T.count == n - 1 && st == R.relst);
    CHECK("[C05,C10] delete: the value is the caller's when asked for, and goes with the node otherwise", keep ? r == &VAL.hdr && R.relval == 0 && VAL.released == 0 : R.relval + VAL.released == 1 && (R.relval == 0 || R.val == &VAL.hdr));
    REACH("done");
}
//@ {"props":["C10","C05"],"cover":["rbtree_delete"]}
CASEUNIT(2, glue_delete)
static void c_glue_delete(unsigned c) { del(0, c); }
//@ {"props":["C10","C05"],"cover":["rbtree_delete_node"]}
void H_glue_delete_node(void) { if (nd_bool()) del(1, 0); else del(1, 1); }
//@ {"props":["C05","C10"],"cover":["rbtree_clear"]}
CASEUNIT(2, glue_clear)
static void c_glue_clear(unsigned c)
{
    init(); st_any(); if (c == 0) { T.root = nil; T.count = 0; } status st = S(rbtree_clear)(&T);
    CHECK("[C05] clear: every node is released, and a failure is reported", R.all == (int)c && st == (c ? R.st : STATUS_SUCCESS));
    CHECK("[C05,C10] clear: the tree is empty, and can be used again", T.root == nil && T.count == 0 && T.nil == nil && nil->parent == nil && nil->left == nil && nil->right == nil && nil->color == RBTREE_BLACK && T.alloc == &v_alloc && T.context == &vctx);
    REACH("done");
}
static S(rcpr_comparison_result) cmpf(void* c, const void* a, const void* b) { (void)c; (void)a; (void)b; return RCPR_COMPARE_EQ; }
static const void* keyf(void* c, const resource* r) { (void)c; return r; }
//@ {"props":["C04","C05","C10"],"cover":["rbtree_create"]}
CASEUNIT(5, glue_create)
static void c_glue_create(unsigned c)
{
    init(); st_any(); v_init(c == 0 ? 0 : NONE, c & 1 ? NONE : 0); rbtree* t = NULL;
    status st = S(rbtree_create)(&t, &v_alloc, &cmpf, &keyf, &vctx);
    if (c == 0) { CHECK("[C04,C10] create: refused memory is reported and leaves nothing behind", st == ERROR_GENERAL_OUT_OF_MEMORY && g.live == 0 && t == NULL); REACH("refused"); return; }
    CHECK("[C10] create: gives an empty tree", st == STATUS_SUCCESS && t != NULL && g.live == 1 && t->alloc == &v_alloc && t->root == t->nil && t->nil == &t->nil_impl && t->count == 0 && t->nil->parent == t->nil && t->nil->left == t->nil && t->nil->right == t->nil && t->nil->color == RBTREE_BLACK && t->context == &vctx);
    CHECK("[C10] create: the functions given are kept", (*t->compare)(NULL, NULL, NULL) == RCPR_COMPARE_EQ && (*t->key)(NULL, &VAL.hdr) == &VAL.hdr);
    CHECK("[C05] the nil node refuses to be released", S(resource_release)(&t->nil->hdr) != STATUS_SUCCESS && g.live == 1);
    R.t = t; if (c > 2) { t->root = &ND; t->count = 5; }
    st = S(resource_release)(S(rbtree_resource_handle)(t));
    CHECK("[C05] release: every node is released", R.all == (c > 2));
    CHECK("[C04,C05] release: the tree's memory is returned once, and a failure is reported", g.live == 0 && g.reclaims == 1 && (st == STATUS_SUCCESS) == (c & 1 && (c < 3 || R.st == STATUS_SUCCESS))); REACH("done");
}
