//@ prop: C11 C12
//@ main: lib/tree.c
//@ cases: K=0|1|2|3
//@ stub: lPairAllocRaw lTreeAllocRaw lValString lValExceptionType lValExceptionArity
//@ rec: lib/tree.c lTreeInsert lTreeInsert
//@ fallback: trees of at most 2 levels
//@ unwind: 9
//@ cbmc: --bounds-check --pointer-check --signed-overflow-check
//@ timeout: 300
//@ funcs: lTreeInsert lTreeBalance lTreeRotateLeft lTreeRotateRight lTreeGetBalance lTreeCalcHeight lTreeHeight lTreeNew
//@ assume: a tree is not shared with a part of itself (its nodes are distinct)
//@ assume: subtree heights stay below 32000 (a balanced tree that high has more nodes than memory)
/* Inductive contract of lTreeInsert.  The tree is unfolded to depth K0+ below the node under proof; subtrees further
 * down are opaque: a height, bounds of their keys, and whether they contain the witness key W and with which value.
 * The recursive call is replaced by the contract itself (induction over the tree). */
#include "nujel-private.h"
lTree *stub_lTreeInsert(lTree *t, const lSymbol *s, lVal v);
#include FW_MAIN
#define stub_lTreeAllocRaw plain_tree
#include "coll.h"
#undef stub_lTreeAllocRaw
typedef struct { lTree t; bool op, has; i64 min, max; lVal val; } G;   /* a node with its ghost part */
#define g(x) ((const G *)(x))
#ifndef FW_NATIVE
lTree *stub_lTreeAllocRaw(){ return __CPROVER_allocate(sizeof(G), 1); }
#endif
static i64 W;                              /* witness key */
static i64 key_of(const lSymbol *s){ return s - lSymbolList; }
static const lSymbol *sym_of(i64 i){ return &lSymbolList[i]; }
static i64 fw_key(const char *n){ return fw_range(n, 0, SYM_MAX - 1); }
typedef struct { bool ok, has; int h; i64 min, max; lVal val; } S;
/* what a (sub)tree is: is it ordered, balanced and are its heights right; which keys does it span; does it contain W */
#ifndef FW_NATIVE
#define SUM(name, LR) static S name(const lTree *t){ S r = {0}; r.ok = true; r.min = SYM_MAX; r.max = -1; if(!t) return r; \
	if(g(t)->op){ r.has = g(t)->has; r.h = t->height; r.min = g(t)->min; r.max = g(t)->max; r.val = g(t)->val; return r; } \
	LR \
	i64 k = key_of(t->key); \
	r.ok = a.ok && b.ok && a.max < k && k < b.min && t->height == 1 + MAX(a.h, b.h) && a.h - b.h <= 1 && b.h - a.h <= 1; \
	r.h = t->height; r.min = a.h ? a.min : k; r.max = b.h ? b.max : k; \
	r.has = k == W ? true : W < k ? a.has : b.has; r.val = k == W ? t->value : W < k ? a.val : b.val; return r; }
SUM(sum0, S a = {0}; S b = {0}; r.ok = false; return r;)
SUM(sum1, S a = sum0(t->left); S b = sum0(t->right);)
SUM(sum2, S a = sum1(t->left); S b = sum1(t->right);)
SUM(sum3, S a = sum2(t->left); S b = sum2(t->right);)
SUM(sum4, S a = sum3(t->left); S b = sum3(t->right);)
SUM(sum5, S a = sum4(t->left); S b = sum4(t->right);)
#ifdef FW_LOOPS
#define MKT mk1
#else
#define MKT mk2
#endif
#define SUMT sum2
#define SUMR sum4
#else
#define SUMT sum5
#define SUMR sum5
static S sum5(const lTree *t){ S r = {0}; r.ok = true; r.min = SYM_MAX; r.max = -1; if(!t) return r;
	S a = sum5(t->left), b = sum5(t->right); i64 k = key_of(t->key);
	r.ok = a.ok && b.ok && a.max < k && k < b.min && t->height == 1 + MAX(a.h, b.h) && a.h - b.h <= 1 && b.h - a.h <= 1;
	r.h = t->height; r.min = t->left ? a.min : k; r.max = t->right ? b.max : k;
	r.has = k == W ? true : W < k ? a.has : b.has; r.val = k == W ? t->value : W < k ? a.val : b.val; return r; }
#endif
static lVal av(void){ lVal v = {0}; v.type = ltInt; v.vInt = fw_i64("v"); return v; }
#ifndef FW_NATIVE
static lTree *node(void){ return &((G *)__CPROVER_allocate(sizeof(G), 0))->t; }
/* a well-formed tree unfolded d levels */
static lTree *mk0(void){
#ifndef FW_LOOPS
	return NULL;
#endif
	_Bool nil; if(nil) return NULL;
	lTree *t = node(); G *g_ = (G *)t; g_->op = true; _Bool h; g_->has = h; i64 a, b; g_->min = a; g_->max = b; lVal v; v.type = ltInt; g_->val = v;
	ASSUME(0 <= a && a <= b && b < SYM_MAX && t->height >= 1 && t->height < 32000 && IMPLIES(h, a <= W && W <= b) && IMPLIES(a == b, t->height == 1 && IMPLIES(W == a, h))); return t; }
#define MK(n, m) static lTree *n(void){ _Bool nil; if(nil) return NULL; lTree *t = node(); ((G *)t)->op = false; lTree *l = m(), *r = m(); t->left = l; t->right = r; i64 k; ASSUME(0 <= k && k < SYM_MAX); t->key = sym_of(k); return t; }
MK(mk1, mk0) MK(mk2, mk1) MK(mk3, mk2)
static int ncall;
/* the contract */
static bool grown_side(const lTree *r, i64 s, int lh, int rh){ i64 k = key_of(r->key); return k == s ? lh == 0 && rh == 0 : s < k ? lh == rh + 1 : rh == lh + 1; }
lTree *stub_lTreeInsert(lTree *t, const lSymbol *s, lVal v){
	S p = sum1(t); i64 k = key_of(s); ncall++;
	CHECK("the tree handed to the recursive call is well formed", p.ok);
	lTree *r = mk2(); ASSUME(r != NULL);
	S q = sum3(r);
	ASSUME(q.ok && (q.h == p.h || q.h == p.h + 1) && q.min == (k < p.min ? k : p.min) && q.max == (k > p.max ? k : p.max));
	ASSUME(W == k ? q.has && raw_same(q.val, v) : q.has == p.has && IMPLIES(q.has, raw_same(q.val, p.val)));
	if(q.h == p.h + 1) ASSUME(grown_side(r, k, r->left ? r->left->height : 0, r->right ? r->right->height : 0));
	return r; }
#endif
void harness(void){
	fw_init();
	W = fw_key("W"); i64 k = fw_key("k");
#ifdef FW_NATIVE
	lTree *t = NULL; int n = fw_range("n", 0, 40); for(int i = 0; i < n; i++){ t = lTreeInsert(t, sym_of(fw_range("ki", 0, 30)), av()); }
	W = fw_range("Wn", 0, 31); k = fw_range("kn", 0, 31);
#else
#if K == 0
	lTree *t = NULL;
#else
	lTree *t = MKT(); ASSUME(t != NULL);
#endif
#endif
	i64 tk = t ? key_of(t->key) : 0; S p = SUMT(t); ASSUME(p.ok);
#if K == 1
	ASSUME(t != NULL && key_of(t->key) == k);
#elif K == 2
	ASSUME(t != NULL && k < key_of(t->key));
#elif K == 3
	ASSUME(t != NULL && key_of(t->key) < k);
#endif
	lVal v = av();
	lTree *r = lTreeInsert(t, sym_of(k), v);
	CHECK("insert returns a tree", r != NULL);
	S q = SUMR(r);
	CHECK("insert keeps the tree ordered, its heights right and every node balanced", q.ok);
	CHECK("insert makes the tree at most one level higher", q.h == p.h || q.h == p.h + 1);
	CHECK("insert adds the key and no other", q.min == (k < p.min ? k : p.min) && q.max == (k > p.max ? k : p.max));
	if(W == k) CHECK("the inserted value is found", q.has && raw_same(q.val, v));
	else CHECK("every other association stays as it was", q.has == p.has && IMPLIES(q.has, raw_same(q.val, p.val)));
	if(q.h == p.h + 1){ int lh = r->left ? r->left->height : 0, rh = r->right ? r->right->height : 0; i64 rk = key_of(r->key);
		CHECK("a tree that grew is higher on the side of the new key", rk == k ? lh == 0 && rh == 0 : k < rk ? lh == rh + 1 : rh == lh + 1); }
	REACH("end");
#if K >= 2 && defined FW_LOOPS
	if(ncall) REACH("recursion");
	if(q.h == p.h + 1) REACH("grown");
	if(r != t) REACH("rotated");
#if K == 2
	if(key_of(r->key) < tk) REACH("rotated right");
#else
	if(key_of(r->key) > tk) REACH("rotated left");
#endif
#endif
}
