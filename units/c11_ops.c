//@ prop: C11
//@ main: lib/tree.c
//@ nf: LEN "ltTree:length" lnmTreeLength
//@ nf: CLONE "ltTree:clone" lnmTreeClone
//@ nf: KEYS "ltTree:keys" lnmTreeKeys
//@ nf: VALUES "ltTree:values" lnmTreeValues
//@ nf: HAS "ltTree:has?" lnmTreeHas
//@ cases: OP=1|2|3|4|5
//@ stub: lPairAllocRaw lTreeAllocRaw lTreeRootAllocRaw lValString lValExceptionType lValExceptionArity
//@ rec: lib/tree.c lTreeSize lTreeSize
//@ rec: lib/tree.c lTreeAddKeysToList lTreeAddKeysToList
//@ rec: lib/tree.c lTreeAddValuesToList lTreeAddValuesToList
//@ rec: lib/tree.c lTreeDup lTreeDup
//@ rec: lib/tree.c lnmTreeHas lTreeRef
//@ unwind: 5
//@ unwindset: strlen.0:80
//@ cbmc: --bounds-check --pointer-check
//@ fallback: trees of at most 2 levels
//@ funcs: lTreeSize lTreeAddKeysToList lTreeAddValuesToList lTreeKeysToList lTreeValuesToList lTreeDup lnmTreeLength lnmTreeClone lnmTreeKeys lnmTreeValues lnmTreeHas
//@ assume: a tree has fewer than 2^31 nodes
/* One unfolding of each recursive walk: the recursive calls are answered by the contract (an arbitrary result per
 * subtree, remembered), and the result has to be composed of the results for the two subtrees. */
#include "nujel-private.h"
int stub_lTreeSize(const lTree *t);
lVal stub_lTreeAddKeysToList(const lTree *t, lVal list);
lVal stub_lTreeAddValuesToList(const lTree *t, lVal list);
lTree *stub_lTreeDup(const lTree *t);
lVal stub_lTreeRef(const lTree *t, const lSymbol *s);
#include FW_MAIN
#include "coll.h"
static lTree *T0, *L, *R;
static bool deep;
static const lSymbol *sym(const char *n){ return &lSymbolList[fw_range(n, 0, SYM_MAX - 1)]; }
static int sizeL, sizeR; static bool has_; static lVal ref_;
#if defined FW_LOOPS && !defined FW_NATIVE
int stub_lTreeSize(const lTree *t){ if(!t) return 0; CHECK("the size is taken of the two subtrees", t == L || t == R); return t == L ? sizeL : sizeR; }
static struct { const lTree *t; lVal in, out; } rec[2]; static int nrec;
static lVal walk(const lTree *t, lVal list){
	if(!t) return list;
	CHECK("each subtree is listed once", nrec < 2); lVal o; o.type = ltPair; o.vList = __CPROVER_allocate(sizeof(lPair), 0);
	rec[nrec].t = t; rec[nrec].in = list; rec[nrec].out = o; nrec++; return o; }
lVal stub_lTreeAddKeysToList(const lTree *t, lVal list){ return walk(t, list); }
lVal stub_lTreeAddValuesToList(const lTree *t, lVal list){ return walk(t, list); }
static lTree *dupL, *dupR;
lTree *stub_lTreeDup(const lTree *t){ if(!t) return NULL; CHECK("the subtrees are copied", t == L || t == R); lTree *d = __CPROVER_allocate(sizeof(lTree), 0); if(t == L) dupL = d; else dupR = d; return d; }
lVal stub_lTreeRef(const lTree *t, const lSymbol *s){ CHECK("has? looks at the whole tree", t == T0); return ref_; }
#endif
static bool nexc(lVal v){ return v.type != ltException; }
/* reference walks, used when the recursion is not cut */
static int n_ref(const lTree *t){ return !t ? 0 : 1 + n_ref(t->left) + n_ref(t->right); }
static lVal cur; static bool list_bad;
static void follow(const lTree *t, bool vals){
	if(!t) return;
	follow(t->left, vals);
	if(cur.type != ltPair){ list_bad = true; return; }
	lPair *p = cur.vList; lVal e = p->car; cur = p->cdr;
	if(vals ? !raw_same(e, t->value) : !(e.type == ltKeyword && e.vSymbol == t->key)) list_bad = true;
	follow(t->right, vals); }
static bool dup_ok(const lTree *a, const lTree *b){ if(!a || !b) return a == b; return a != b && a->key == b->key && raw_same(a->value, b->value) && a->height == b->height && b->flags == 0 && dup_ok(a->left, b->left) && dup_ok(a->right, b->right); }
static lTree *mk(const char *n){ lTree *t = FW_ALLOC(sizeof(lTree)); memset(t, 0, sizeof *t); t->key = sym(n); t->value = any_val("nt", n); ASSUME(nexc(t->value)); t->height = fw_range("h", 1, 60); t->flags = fw_range("f", 0, 3); return t; }
void harness(void){
	fw_init();
	lTree *t = NULL;
	if(fw_u64("some") & 1){ t = mk("k"); if(fw_u64("l") & 1) t->left = mk("kl"); if(fw_u64("r") & 1) t->right = mk("kr"); }
	T0 = t; if(t){ L = t->left; R = t->right; }
	lTree old; memset(&old, 0, sizeof old); if(t) old = *t;
	lTreeRoot *root = FW_ALLOC(sizeof(lTreeRoot)); memset(root, 0, sizeof *root); root->root = t;
	lVal self = lValAlloc(ltTree, root);
	has_ = fw_u64("has") & 1; ref_ = any_val("vt", "v"); ASSUME(has_ == nexc(ref_));
#if defined FW_LOOPS && !defined FW_NATIVE
	sizeL = fw_range("sl", 1, 1 << 29); sizeR = fw_range("sr", 1, 1 << 29);
#endif
#if OP == 1
	lVal r = LEN(self);
#if defined FW_LOOPS && !defined FW_NATIVE
	int want = !t ? 0 : 1 + (L ? sizeL : 0) + (R ? sizeR : 0);
#else
	int want = n_ref(t);
#endif
	CHECK("length is the number of associations", r.type == ltInt && r.vInt == want);
#elif OP == 2 || OP == 3
	lVal r = (OP == 2) ? KEYS(self) : VALUES(self);
#if defined FW_LOOPS && !defined FW_NATIVE
	if(!t) CHECK("an empty tree lists nothing", r.type == ltNil);
	else {
		lVal nil = {0}; int il = L == NULL ? -1 : nrec > 0 && rec[0].t == L ? 0 : nrec > 1 && rec[1].t == L ? 1 : 9, ir = R == NULL ? -1 : nrec > 0 && rec[0].t == R ? 0 : nrec > 1 && rec[1].t == R ? 1 : 9;
		CHECK("both subtrees are listed", il != 9 && ir != 9);
		lVal rest = nil; if(ir >= 0){ CHECK("the right subtree comes last", raw_same(rec[ir].in, nil)); rest = rec[ir].out; }
		lVal mid = r; if(il >= 0){ CHECK("the left subtree comes first", raw_same(rec[il].out, r)); mid = rec[il].in; }
		CHECK("the key of the node stands between", mid.type == ltPair && mid.vList != NULL);
		lPair *p = mid.vList; lVal e = p->car, d = p->cdr;
		CHECK("the node lists its own key or value", (OP == 2) ? e.type == ltKeyword && e.vSymbol == t->key : raw_same(e, t->value));
		CHECK("what is greater follows", raw_same(d, rest)); }
#else
	cur = r; follow(t, OP == 3); CHECK("the list has every key or value in order", !list_bad && cur.type == ltNil);
#endif
#elif OP == 4
	lVal r = CLONE(self);
	CHECK("clone returns a new tree", r.type == ltTree && r.vTree != root && r.vTree != NULL);
	lTreeRoot *rr = r.vTree; lTree *c = rr->root;
#if defined FW_LOOPS && !defined FW_NATIVE
	if(!t) CHECK("the clone of an empty tree is empty", c == NULL);
	else {
		CHECK("the clone shares no node", c != NULL && c != t);
		CHECK("the clone has the same associations", c->key == t->key && raw_same(c->value, t->value) && c->height == t->height);
		CHECK("the clone's subtrees are clones", c->left == (L ? dupL : NULL) && c->right == (R ? dupR : NULL));
		CHECK("the clone may be changed", (c->flags & TREE_IMMUTABLE) == 0); }
#else
	CHECK("the clone is a separate equal tree", dup_ok(t, c));
#endif
#else
	lVal k = any_val("kt", "kv");
	if(k.type == ltSymbol || k.type == ltKeyword) k.vSymbol = sym("ks");
	lVal r = HAS(self, k);
	if(k.type == ltSymbol || k.type == ltKeyword){
#if defined FW_LOOPS && !defined FW_NATIVE
		CHECK("has? says whether the key is bound", r.type == ltBool && r.vBool == has_);
		CHECK("has? answers with a truth value", r.type == ltBool);
#else
		CHECK("has? answers with a truth value", r.type == ltBool);
#endif
	} else CHECK("has? wants a symbol", r.type == ltException);
#endif
	if(t){ CHECK("the tree itself is not changed", t->key == old.key && raw_same(t->value, old.value) && t->left == old.left && t->right == old.right && t->height == old.height && t->flags == old.flags); }
	CHECK("the tree keeps its root", root->root == t);
	REACH("end");
}
