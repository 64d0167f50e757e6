//@ prop: C14
//@ main: lib/vm.c
//@ cases: LEN,FUN=0,ltLambda|1,ltLambda|2,ltLambda|3,ltLambda|5,ltLambda|24,ltLambda|120,ltLambda|2,ltMacro
//@ stub: lPairAllocRaw lValString lGarbageCollect lTreeInsert lClosureAllocRaw lMethodLookup
//@ rec: lib/vm.c lBytecodeEval lCons
//@ unwind: 300
//@ cbmc: --max-field-sensitivity-array-size 1600
//@ timeout: 250
//@ inv: lib/vm.c lBytecodeEval lValn=fun.vClosure->args#0 @assigns n c vsi @havoc n = z_params(); vsi = z_vsi(); c->data = z_root(); @inv z_done == 0 && raw_same(n, z_next) && vsi == z_i && z_i >= 1 - z_len && z_i <= 1 && c->data == z_tok && z_frame(c)
//@ inv: lib/vm.c lBytecodeEval i>=vsi#0 @assigns i rest @havoc i = z_ri(); rest = z_rest_list(); @inv i == z_r && raw_same(rest, z_list) && z_r <= 0 && z_r >= vsi - 1 && (vsi <= 0 || z_r == 0)
//@ fallback: one parameter list per case
//@ funcs: lBytecodeEval
//@ assume: the parameters of a function are symbols
/* Calling a function with n arguments from the stack: parameters are bound in order, missing ones are nil, a rest
 * parameter gets the list of the remaining arguments in order.  Parameters: unbounded list; arguments: 0, 1, 2, 3, 5, 24 or 120. */
#include "nujel-private.h"
lVal stub_lCons(lVal car, lVal cdr);
#ifndef FW_NATIVE
static lVal z_next, z_list; static lTree *z_tok; static int z_done, z_len, z_i, z_r; static lVal z_params(void), z_rest_list(void); static lTree *z_root(void); static _Bool z_frame(const lClosure *c); static int z_vsi(void), z_ri(void);
#endif
#include FW_MAIN
#include "coll.h"
#include "vm.h"
static lVal fun;
#define MAXARGS LEN
static lVal lits[MAXARGS + 1];
#ifdef FW_NATIVE
#define SYM(i) &lSymbolList[k0 + (i)]
#else
static lSymbol syms[4];   /* only their addresses matter */
#define SYM(i) &syms[i]
static lTree tokA, tokB; static lPair z_rest;
static lBytecodeArray text; static lClosure self; static lBytecodeOp code[2];
static lVal argn(int i){ return lits[MAXARGS + i]; }  /* the argument i places below the last one (i <= 0) */
static bool z_frame(const lClosure *c){ return c->parent == &self && c->type == closureCall && c->text == &text && c->ip == code; }
static lTree *z_root(void){ _Bool e; return z_tok = e ? NULL : &tokA; }
static int z_vsi(void){ int i; return z_i = i; }
static int z_ri(void){ int i; return z_r = i; }
static lVal z_rest_list(void){ lVal v; v.type = z_r == 0 ? ltNil : ltPair; v.vList = z_r == 0 ? NULL : FW_ALLOC(sizeof(lPair)); return z_list = v; }
static lVal atom(const char *n){ lVal v; v.type = fw_range(n, 0, ltType); ASSUME(v.type != ltPair); v.vList = &z_rest; return v; }
static lVal z_params(void){ lVal v = {0}; u8 k; ASSUME(k < 3); z_done = 0;
	if(k == 0){ v = atom("et"); ASSUME(v.type != ltSymbol); return z_next = v; }
	if(k == 1){ v.type = ltSymbol; v.vSymbol = FW_ALLOC(sizeof(lSymbol)); return z_next = v; }
	lPair *p = __CPROVER_allocate(sizeof(lPair), 0); p->car.type = ltSymbol; p->car.vSymbol = FW_ALLOC(sizeof(lSymbol));
	u8 d; ASSUME(d < 3); if(d == 0) p->cdr = atom("ct"); else { p->cdr.type = d == 1 ? ltPair : ltSymbol; p->cdr.vList = &z_rest; }
	ASSUME(d != 0 || p->cdr.type != ltSymbol);
	v.type = ltPair; v.vList = p; return z_next = v; }
lVal stub_lCons(lVal car, lVal cdr){
	CHECK("the rest list is built from its end", raw_same(cdr, z_list));
	CHECK("of the arguments in order", z_r <= 0 && z_r >= 1 - z_len && raw_same(car, argn(z_r)));
	lVal v; v.type = ltPair; v.vList = FW_ALLOC(sizeof(lPair)); z_r--; return z_list = v; }
lTree *stub_lTreeInsert(lTree *t, const lSymbol *s, lVal v){
	lVal nil = {0};
	CHECK("a parameter is bound in the scope of the call, on top of the others", t == z_tok);
	CHECK("nothing is bound after the rest parameter", z_done == 0);
	if(z_next.type == ltPair){
		lPair *p = z_next.vList; lVal k = p->car; CHECK("the parameters are bound in order", k.vSymbol == s);
		if(z_i <= 0){ CHECK("a parameter gets its argument", raw_same(v, argn(z_i))); z_i++; }
		else CHECK("a parameter without argument is nil", raw_same(v, nil));
		z_next = p->cdr;
	} else {
		CHECK("only parameters are bound", z_next.type == ltSymbol && z_next.vSymbol == s);
#ifdef FW_LOOPS
		CHECK("the rest parameter gets the remaining arguments", raw_same(v, z_list) && z_r == (z_i > 0 ? 0 : z_i - 1));
#else
		for(int k = z_i; k <= 0; k++){ CHECK("the rest parameter gets the remaining arguments", v.type == ltPair); lPair *q = v.vList; CHECK("in order", raw_same(q->car, argn(k))); v = q->cdr; }
		CHECK("and nothing else", v.type == ltNil);
#endif
		z_done = 1;
	}
	return z_tok = z_tok == &tokB ? &tokA : &tokB; }
#endif
static lPair *cell(lVal car, lVal cdr){ lPair *p = FW_ALLOC(sizeof(lPair)); p->car = car; p->cdr = cdr; return p; }
void harness(void){
	fw_init();
	int len = LEN;
#if defined FW_LOOPS && !defined FW_NATIVE
	self.args = z_params();
#else
#ifdef FW_NATIVE
	int np = fw_range("np", 0, 3); bool rest = fw_range("rest", 0, 1);
#else
	int np = LEN == 0 ? 2 : LEN == 2 && FUN == ltLambda ? 0 : 1; bool rest = true;
#endif
	int k0 = fw_range("k0", 0, 100);
	lVal ps = {0}; if(rest){ ps.type = ltSymbol; ps.vSymbol = SYM(3); }
	for(int i = 2; i >= 0; i--) if(i < np){ lVal s; s.type = ltSymbol; s.vSymbol = SYM(i); ps.vList = cell(s, ps); ps.type = ltPair; }
#ifdef FW_NATIVE
	static lBytecodeArray text; static lClosure self; static lBytecodeOp code[2]; static lArray noLits; text.literals = &noLits;
#endif
	self.args = ps;
#endif
	for(int i = 0; i <= MAXARGS; i++){ lits[i] = any_val("at", "a"); ASSUME(lits[i].type != ltException); }
	code[0] = lopClosurePush; code[1] = lopRet;
	text.data = code; text.dataEnd = code + 2; self.text = &text; fun.type = FUN; fun.vClosure = &self;
#ifndef FW_NATIVE
	static lArray noLits; text.literals = &noLits;
	z_next = self.args; z_tok = NULL; z_len = len; z_i = 1 - len; z_r = 0; z_list = NIL;
#endif
	/* push MAXARGS + 1 values, the one below the len arguments is the function */
	lits[MAXARGS - len] = fun;
	static lBytecodeOp ops[2 * (MAXARGS + 1) + 3]; int n = 0;
	for(int i = 0; i <= MAXARGS; i++){ ops[n++] = lopPushVal; ops[n++] = i; }
	ops[n++] = lopApply; ops[n++] = len; ops[n++] = lopRet;
	lVal r = vm_run(ops, n, lits, MAXARGS + 1);
	CHECK("the call returns what the function returned", r.type == ltEnvironment);
	lClosure *c = r.vClosure;
	CHECK("the call's scope lies in the function's scope", c->parent == &self && c->type == closureCall && c->text == &text);
#ifndef FW_NATIVE
	CHECK("every parameter was bound", z_next.type != ltPair && (z_next.type != ltSymbol || z_done));
	CHECK("and is found in the scope", c->data == z_tok);
#else
	for(int i = 0; i < 3; i++) if(i < np){ lVal nil = {0}, g = lTreeRef(c->data, &lSymbolList[k0 + i]); CHECK("a parameter gets its argument", raw_same(g, i < len ? lits[MAXARGS - len + 1 + i] : nil)); }
	if(rest){ lVal g = lTreeRef(c->data, &lSymbolList[k0 + 3]); for(int i = np; i < len; i++){ CHECK("the rest parameter gets the remaining arguments", g.type == ltPair && raw_same(g.vList->car, lits[MAXARGS - len + 1 + i])); if(g.type != ltPair) break; g = g.vList->cdr; } CHECK("and nothing else", g.type == ltNil); }
#endif
	REACH("end");
}
