//@ prop: C11
//@ main: lib/tree.c
//@ stub: lPairAllocRaw lValString lValExceptionType lValExceptionArity
//@ unwind: 9
//@ unwindset: strlen.0:80
//@ cbmc: --bounds-check --pointer-check
//@ inv: lib/tree.c lTreeRef 0 @assigns c @havoc c = z_any(); @inv Z_TREE_INV(c) @body Z_TREE_NEXT;
//@ fallback: trees of at most 3 levels
//@ funcs: lTreeRef
#include "nujel-private.h"
#include "lazy.h"
#include FW_MAIN
void harness(void){
	fw_init();
	z_s = &lSymbolList[fw_range("s", 0, SYM_MAX - 1)];
	lTree *t = NULL;
#ifdef FW_LOOPS
	z_in = z_has = fw_u64("has") & 1; z_val = any_val("vt", "v"); ASSUME(z_val.type != ltException);
	if(fw_u64("nil") & 1) { ASSUME(!z_has); t = NULL; } else t = &z_root;
	z_t = t;
#else
	{ int n = fw_range("n", 0, 7); lTree *nd[7]; u64 shape = fw_u64("shape");
	  for(int i = 0; i < 7; i++){ nd[i] = FW_ALLOC(sizeof(lTree)); memset(nd[i], 0, sizeof(lTree)); }
	  i64 prev = -1; const int order[7] = {3, 1, 4, 0, 5, 2, 6};   /* in-order positions of a heap-shaped tree */
	  for(int j = 0; j < 7; j++){ int i = order[j]; i64 k = fw_range("k", 0, SYM_MAX - 1); ASSUME(k > prev); prev = k; nd[i]->key = &lSymbolList[k]; nd[i]->value = any_val("t", "v"); ASSUME(nd[i]->value.type != ltException); }
	  for(int i = 0; i < 3; i++){ if(shape >> i & 1) nd[i]->left = nd[2 * i + 1]; if(shape >> (i + 4) & 1) nd[i]->right = nd[2 * i + 2]; }
	  if(n) t = nd[0];
	  z_has = false; for(int i = 0; i < 7; i++){ bool in = t != NULL; for(int p = i; p > 0; p = (p - 1) / 2) if(!(shape >> ((p - 1) / 2 + (p % 2 ? 0 : 4)) & 1)) in = false;
		if(in && nd[i]->key == z_s){ z_has = true; z_val = nd[i]->value; } } }
#endif
	lVal r = lTreeRef(t, z_s);
	if(z_has) CHECK("a bound key yields its value", raw_same(r, z_val)); else CHECK("a key that is not bound yields nothing", r.type == ltException);
	REACH("ref");
}
