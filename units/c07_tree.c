//@ prop: C07
//@ main: lib/generic.c
//@ stub: lPairAllocRaw lValString lTreeAllocRaw lValExceptionType lValExceptionArity
//@ unwind: 6
//@ cbmc: --bounds-check --pointer-check
//@ funcs: lGenericSet
#include FW_MAIN
#include "coll.h"
void harness(void){
	fw_init();
	lVal key = any_val("kt", "k"), v = any_val("vt", "v");
	lSymbol *s = FW_ALLOC(sizeof *s), *s2 = FW_ALLOC(sizeof *s2);
	if(key.type == ltSymbol || key.type == ltKeyword) key.vSymbol = (fw_u64("same") & 1) ? s : s2;
	lTree *t = FW_ALLOC(sizeof *t); memset(t, 0, sizeof *t); t->key = s; t->value = any_val("ot", "o"); t->height = 1; t->flags = TREE_IMMUTABLE | fw_u64("flags");
	lTreeRoot *root = FW_ALLOC(sizeof *root); root->root = t; lVal old = t->value;
	lVal r = lGenericSet(lValAlloc(ltTree, root), key, v);
	CHECK("set! on an immutable tree raises", r.type == ltException);
	CHECK("immutable tree keeps its contents", root->root == t && t->key == s && raw_same(t->value, old) && !t->left && !t->right);
	REACH("end");
}
