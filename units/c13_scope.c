//@ prop: C13
//@ main: lib/closure.c
//@ cases: OP=1|2|3|4
//@ stub: lPairAllocRaw lValString lTreeInsert lClosureAllocRaw
//@ unwind: 11
//@ unwindset: strlen.0:80
//@ cbmc: --bounds-check --pointer-check
//@ inv: lib/closure.c lGetClosureSym 0 @assigns cc t @havoc cc = z_anyscope(); @inv Z_SCOPE_INV(cc) @body Z_SCOPE_NEXT;
//@ inv: lib/closure.c lGetClosureSym 1 @assigns t @havoc t = z_any(); @inv Z_TREE_INV(t) && z_csame() @body Z_TREE_NEXT;
//@ inv: lib/closure.c lSetClosureSym 0 @assigns cc t t->value @havoc cc = z_anyscope(); @inv Z_SCOPE_INV(cc) @body Z_SCOPE_NEXT;
//@ inv: lib/closure.c lSetClosureSym 1 @assigns t t->value @havoc t = z_any(); @inv Z_TREE_INV(t) && z_csame() @body Z_TREE_NEXT;
//@ fallback: at most 3 scopes with at most 3 variables each
//@ funcs: lGetClosureSym lSetClosureSym lDefineClosureSym lClosureNew
//@ assume: an association whose value is an exception does not exist
/* Variables: looked up in the innermost scope that has the name; assigned there; defined in the scope at hand. */
#include "nujel-private.h"
#include "lazy.h"
#ifndef FW_NATIVE
static lTree ins_r; static lTree *ins_t; static const lSymbol *ins_s; static lVal ins_v; static int ins_n;
lTree *stub_lTreeInsert(lTree *t, const lSymbol *s, lVal v){ ins_t = t; ins_s = s; ins_v = v; ins_n++; return &ins_r; }
#endif
#include FW_MAIN
void harness(void){
	fw_init();
#ifdef FW_NATIVE
	z_s = &lSymbolList[fw_range("s", 0, 30)];
#else
	z_s = z_sym("s");
#endif
#ifdef FW_LOOPS
	z_has = fw_u64("has") & 1; z_val = any_val("vt", "v"); ASSUME(z_val.type != ltException);
#endif
#if OP <= 2
	lClosure *c = z_start();
#endif
#if OP == 1
	lVal r = lGetClosureSym(c, z_s);
	if(z_has) CHECK("a variable has the value of its innermost binding", raw_same(r, z_val));
	else CHECK("a variable without binding raises :unbound-variable", r.type == ltException && excKind(r) == lSymUnboundVariable);
#ifdef FW_LOOPS
	CHECK("looking up a variable changes nothing", z_same() && z_csame());
#else
	CHECK("looking up a variable changes nothing", z_same_but(NULL) && z_csame());
#endif
#elif OP == 2
	lVal v = any_val("nt", "n");
	bool r = lSetClosureSym(c, z_s, v);
	CHECK("assigning tells whether the variable is bound", r == z_has);
	CHECK("no scope changes its variables or its place", z_csame());
#ifdef FW_LOOPS
	if(r){ CHECK("the innermost binding gets the value", z_last && z_last->key == z_s && raw_same(z_last->value, v));
		CHECK("its place in the scope stays", z_last->left == z_copy.left && z_last->right == z_copy.right && z_copy.key == z_s && z_last->height == z_copy.height); REACH("assigned"); }
#else
	if(r) CHECK("the innermost binding gets the value", raw_same(z_bind->value, v));
	CHECK("nothing else is assigned", z_same_but(z_bind));
#endif
#elif OP == 3
	lVal v = any_val("nt", "n");
	lClosure *c = FW_ALLOC(sizeof(lClosure)), *p = FW_ALLOC(sizeof(lClosure)); memset(p, 0, sizeof *p);
#ifdef FW_NATIVE
	memset(c, 0, sizeof *c);
#endif
	c->parent = p; lTree *t = (fw_u64("d") & 1) ? lTreeNew(&lSymbolList[3], any_val("t0", "v0")) : NULL; c->data = t; lClosure o = *c, op = *p;
	lDefineClosureSym(c, z_s, v);
#ifdef FW_NATIVE
	CHECK("the variable is bound in the scope at hand", raw_same(lTreeRef(c->data, z_s), v));
#else
	CHECK("the variable is bound in the scope at hand", ins_n == 1 && ins_t == t && ins_s == z_s && raw_same(ins_v, v) && c->data == &ins_r);
#endif
	CHECK("nothing else about the scope changes", c->parent == o.parent && c->type == o.type && c->text == o.text && c->ip == o.ip);
	CHECK("the scopes around are untouched", p->data == op.data && p->parent == op.parent);
#else
	lClosure *p = FW_ALLOC(sizeof(lClosure)); closureType t = fw_range("type", 0, 5);
	lClosure *c = lClosureNew(p, t);
	CHECK("a new scope has no variables and lies inside its parent", c != NULL && c != p && c->parent == p && c->data == NULL && c->type == t);
#endif
	REACH("end");
}
