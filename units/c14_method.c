//@ prop: C14
//@ main: lib/type-system.c
//@ cases: OP=1|2|3
//@ stub: lPairAllocRaw lValString lValExceptionType lValExceptionArity lTreeRef
//@ rec: lib/type-system.c lMethodLookup lMethodLookup
//@ inv: lib/type-system.c lMethodLookup ;T;T=T->parent#0 @assigns T @havoc T = z_class(0); @inv T == z_k[0] && (T != NULL || !z_hasK[0]) @body z_k[0] = z_kn[0];
//@ inv: lib/type-system.c lMethodLookup lTree*t=T->staticMethods#0 @assigns t @havoc t = z_any(); @inv Z_TREE_INV(t) @body Z_TREE_NEXT;
//@ inv: lib/type-system.c lMethodLookup ;T;T=T->parent#1 @assigns T @havoc T = z_class(1); @inv T == z_k[1] && (T != NULL || !z_hasK[1]) @body z_k[1] = z_kn[1];
//@ inv: lib/type-system.c lMethodLookup lTree*t=T->methods#0 @assigns t @havoc t = z_any(); @inv Z_TREE_INV(t) @body Z_TREE_NEXT;
//@ unwind: 6
//@ unwindset: strlen.0:80
//@ cbmc: --bounds-check --pointer-check
//@ fallback: a class and its parent class with at most 2 methods each, one prototype
//@ noreplay: the class table is made up
//@ nofuzz: the class table is made up
//@ funcs: lMethodLookup
/* A method name finds, in this order: an entry of the object, what its prototype finds (both only for objects), the
 * method of the class (only for types), the method of the innermost class of the receiver's type that has it. */
#include "nujel-private.h"
#include "lazy.h"
lVal stub_lMethodLookup(const lSymbol *method, lVal self); lVal stub_lTreeRef(const lTree *t, const lSymbol *s);
#ifndef FW_NATIVE
static bool z_hasK[2]; static lVal z_valK[2]; static const lClass *z_k[2], *z_kn[2];
#ifdef FW_LOOPS
static lClass z_super;
static const lClass *z_class(int k){ _Bool end; z_last = NULL; if(end){ ASSUME(!z_hasK[k]); z_kn[k] = NULL; return z_k[k] = NULL; }
	lClass *c = __CPROVER_allocate(sizeof(lClass), 0); _Bool p, d, in; c->parent = p ? &z_super : NULL;
	lTree *t = d ? &z_root : NULL; if(k) c->methods = t; else c->staticMethods = t;
	z_in = in; z_val = z_valK[k]; ASSUME(IMPLIES(!d, !in) && IMPLIES(in, z_hasK[k]) && IMPLIES(!in && !p, !z_hasK[k]));
	z_t = t; z_kn[k] = c->parent; return z_k[k] = c; }
#endif
static lTree objRoot, objRoot2; static lTreeRoot obj, obj2; static lVal own2; static lVal own, proto, above; static int n_own, n_proto, n_rec; static lVal rec_self;
lVal stub_lTreeRef(const lTree *t, const lSymbol *s){
	if(t == &objRoot2){ if(s == z_s) return own2; lVal none = {0}; none.type = ltException; return none; }
	CHECK("entries are looked up in the object", t == &objRoot && (s == z_s || s == lSymPrototype));
	if(s == z_s){ n_own++; return own; } n_proto++; return proto; }
lVal stub_lMethodLookup(const lSymbol *method, lVal self){ CHECK("the prototype is asked for the same method", method == z_s); n_rec++; rec_self = self; return above; }
#endif
#include FW_MAIN
static lClass super, cls;
#ifndef FW_LOOPS
/* a tree of at most 2 methods in which z_s is bound to v iff has */
static lTree *methods(bool *has, lVal *val){
	lTree *a = FW_ALLOC(sizeof(lTree)), *b = FW_ALLOC(sizeof(lTree)); memset(a, 0, sizeof *a); memset(b, 0, sizeof *b);
	u64 sh = fw_range("sh", 0, 3); i64 ka = fw_range("ka", 0, 50), kb = fw_range("kb", 0, 50); ASSUME(ka != kb); ASSUME(sh != 2);
	a->key = &lSymbolList[ka]; b->key = &lSymbolList[kb]; a->value = any_val("av", "a"); b->value = any_val("bv", "b"); ASSUME(a->value.type != ltException && b->value.type != ltException);
	if(sh == 3){ if(kb < ka) a->left = b; else a->right = b; }
	if(!*has && (sh & 1) && a->key == z_s){ *has = true; *val = a->value; }
	if(!*has && sh == 3 && b->key == z_s){ *has = true; *val = b->value; }
	return sh & 1 ? a : NULL; }
#endif
void harness(void){
	fw_init();
	z_s = z_sym("s"); ASSUME(z_s != lSymPrototype);
	lVal self; self.type = OP == 1 ? fw_range("type", 0, ltType) : OP == 2 ? ltTree : ltType; ASSUME(OP != 1 || (self.type != ltTree && self.type != ltType && self.type != ltException));
	own = any_val("ot", "o"); proto = any_val("pt", "p"); above = any_val("ut", "u");
	if(fw_u64("noown") & 1) own.type = ltException; if(fw_u64("noproto") & 1) proto.type = ltException; if(fw_u64("noabove") & 1) above.type = ltException;
	obj.root = &objRoot; if(OP == 2) self.vTree = &obj; else self.vType = &cls;
	lClass *mine = &lClassList[self.type];
#ifdef FW_LOOPS
	z_hasK[0] = fw_u64("has0") & 1; z_hasK[1] = fw_u64("has1") & 1;
	z_valK[0] = any_val("v0t", "v0"); z_valK[1] = any_val("v1t", "v1"); ASSUME(z_valK[0].type != ltException && z_valK[1].type != ltException);
	z_k[0] = &cls; z_k[1] = mine;
#else
	bool h0 = false, h1 = false; lVal v0 = {0}, v1 = {0};
	cls.staticMethods = methods(&h0, &v0); cls.parent = fw_range("cp", 0, 1) ? &super : NULL; lVal w = {0}; bool hs = h0; super.staticMethods = methods(&hs, &v0); if(cls.parent) h0 = hs;
	mine->methods = methods(&h1, &v1); mine->parent = fw_range("mp", 0, 1) ? &super : NULL; hs = h1; super.methods = methods(&hs, &v1); if(mine->parent) h1 = hs;
	z_hasK[0] = h0; z_hasK[1] = h1; z_valK[0] = v0; z_valK[1] = v1;
#endif
#ifndef FW_LOOPS
	own2 = any_val("o2t", "o2"); if(fw_u64("noown2") & 1) own2.type = ltException; obj2.root = &objRoot2;
	if(proto.type != ltException){ proto.type = ltTree; proto.vTree = &obj2; }
#endif
	lVal r = lMethodLookup(z_s, self);
	if(OP == 2 && own.type != ltException) CHECK("an object's own entry comes first", raw_same(r, own));
#ifndef FW_LOOPS
	else if(OP == 2 && proto.type != ltException && own2.type != ltException) CHECK("then what the prototype finds", raw_same(r, own2));
#else
	else if(OP == 2 && proto.type != ltException){ CHECK("then what the prototype finds", n_rec == 1 && raw_same(rec_self, proto) && raw_same(r, above)); 
#if OP == 2 && defined FW_LOOPS
		REACH("proto");
#endif
	}
#endif
	else if(OP == 3 && z_hasK[0]){ CHECK("a type's own method comes first", raw_same(r, z_valK[0])); }
	else if(z_hasK[1]){ CHECK("then the method of the innermost class", raw_same(r, z_valK[1])); }
	else CHECK("an unknown method raises :unbound-variable", r.type == ltException && excKind(r) == lSymUnboundVariable);
	REACH("end");
}
