//@ prop: C14
//@ main: lib/closure.c
//@ stub: lPairAllocRaw lValString lTreeInsert lClosureAllocRaw
//@ unwind: 6
//@ unwindset: strlen.0:80
//@ cbmc: --bounds-check --pointer-check
//@ inv: lib/closure.c lClosureNewFunCall 0 @assigns n args tmpc @havoc n = z_params(); args = z_args(); tmpc->data = z_root(); @inv z_done == 0 && raw_same(n, z_next) && raw_same(args, z_acur) && tmpc->data == z_tok && z_frame(tmpc)
//@ fallback: at most 3 parameters and 3 arguments
//@ funcs: lClosureNewFunCall
//@ assume: the parameters of a function are symbols
/* Parameters are bound to the arguments in order, missing arguments are nil, a rest parameter gets what is left of the
 * argument list.  Both lists are unbounded: they come into being as the loop walks over them. */
#include "nujel-private.h"
#ifndef FW_NATIVE
static lVal z_next, z_acur; static lTree *z_tok; static int z_done; static lVal z_params(void), z_args(void); static lTree *z_root(void); static _Bool z_frame(const lClosure *c);
#endif
#include FW_MAIN
#include "coll.h"
static lVal fun;
#ifdef FW_NATIVE
#define SYM(i) &lSymbolList[k0 + (i)]
#else
static lSymbol syms[4];   /* only their addresses matter */
#define SYM(i) &syms[i]
#endif
#ifndef FW_NATIVE
static lTree tokA, tokB; static lPair z_rest;
static lBytecodeArray text; static lClosure self; static lBytecodeOp code[4];
static bool z_frame(const lClosure *c){ return c->parent == &self && c->type == closureCall && c->text == &text && c->ip == code; }
static lTree *z_root(void){ _Bool e; return z_tok = e ? NULL : &tokA; }
#ifdef FW_LOOPS
/* something that is no pair */
static lVal atom(const char *n){ lVal v; v.type = fw_range(n, 0, ltType); ASSUME(v.type != ltPair); v.vList = &z_rest; return v; }
static lVal z_params(void){ lVal v = {0}; u8 k; ASSUME(k < 3); z_done = 0;
	if(k == 0){ v = atom("et"); ASSUME(v.type != ltSymbol); return z_next = v; }
	if(k == 1){ v.type = ltSymbol; v.vSymbol = FW_ALLOC(sizeof(lSymbol)); return z_next = v; }
	lPair *p = __CPROVER_allocate(sizeof(lPair), 0); p->car.type = ltSymbol; p->car.vSymbol = FW_ALLOC(sizeof(lSymbol));
	u8 d; ASSUME(d < 3); if(d == 0) p->cdr = atom("ct"); else { p->cdr.type = d == 1 ? ltPair : ltSymbol; p->cdr.vList = &z_rest; }
	ASSUME(d != 0 || p->cdr.type != ltSymbol);
	v.type = ltPair; v.vList = p; return z_next = v; }
static lVal z_args(void){ lVal v; _Bool end; if(end){ v = atom("xt"); return z_acur = v; }
	lPair *p = __CPROVER_allocate(sizeof(lPair), 0); p->car = any_val("at", "a"); _Bool more; p->cdr = atom("bt"); if(more){ p->cdr.type = ltPair; p->cdr.vList = &z_rest; }
	v.type = ltPair; v.vList = p; return z_acur = v; }
#endif
lTree *stub_lTreeInsert(lTree *t, const lSymbol *s, lVal v){
	lVal nil = {0};
	CHECK("a parameter is bound in the scope of the call, on top of the others", t == z_tok);
	CHECK("nothing is bound after the rest parameter", z_done == 0);
	if(z_next.type == ltPair){
		lPair *p = z_next.vList; lVal k = p->car; CHECK("the parameters are bound in order", k.vSymbol == s);
		if(z_acur.type == ltPair){ lPair *q = z_acur.vList; lVal a = q->car; CHECK("a parameter gets its argument", raw_same(v, a)); z_acur = q->cdr; }
		else CHECK("a parameter without argument is nil", raw_same(v, nil));
		z_next = p->cdr;
	} else {
		CHECK("only parameters are bound", z_next.type == ltSymbol && z_next.vSymbol == s);
		CHECK("the rest parameter gets what is left", raw_same(v, z_acur)); z_done = 1;
	}
	return z_tok = z_tok == &tokB ? &tokA : &tokB; }
#endif
static lPair *cell(lVal car, lVal cdr){ lPair *p = FW_ALLOC(sizeof(lPair)); p->car = car; p->cdr = cdr; return p; }
void harness(void){
	fw_init();
#if defined FW_LOOPS && !defined FW_NATIVE
	self.args = z_params(); lVal args = z_args(); z_tok = NULL;
#else
	/* up to 3 parameters and a rest parameter, up to 3 arguments */
	int np = fw_range("np", 0, 3), na = fw_range("na", 0, 3); bool rest = fw_range("rest", 0, 1); int k0 = fw_range("k0", 0, 100);
	lVal ps = {0}, args = {0}, tails[5], av[3]; if(rest){ ps.type = ltSymbol; ps.vSymbol = SYM(3); }
	for(int i = 2; i >= 0; i--) if(i < np){ lVal s; s.type = ltSymbol; s.vSymbol = SYM(i); ps.vList = cell(s, ps); ps.type = ltPair; }
	tails[3] = tails[4] = args; for(int i = 2; i >= 0; i--){ av[i] = any_val("at", "a"); ASSUME(av[i].type != ltException); if(i < na){ args.vList = cell(av[i], args); args.type = ltPair; } tails[i] = args; }
#ifdef FW_NATIVE
	static lBytecodeArray text; static lClosure self; static lBytecodeOp code[4];
#endif
	self.args = ps;
#ifndef FW_NATIVE
	z_next = ps; z_acur = args; z_tok = NULL;
#endif
#endif
	text.data = code; text.dataEnd = code + 4; self.text = &text; fun.type = ltLambda; fun.vClosure = &self;
	lClosure *r = lClosureNewFunCall(args, fun);
	CHECK("the call's scope lies in the function's scope", r->parent == &self && r->type == closureCall);
	CHECK("it starts at the function's first instruction", r->text == &text && r->ip == code);
#ifndef FW_NATIVE
	CHECK("every parameter was bound", z_next.type != ltPair && (z_next.type != ltSymbol || z_done));
	CHECK("and is found in the scope", r->data == z_tok);
#else
	for(int i = 0; i < 3; i++) if(i < np){ lVal nil = {0}, g = lTreeRef(r->data, SYM(i)); CHECK("a parameter gets its argument", raw_same(g, i < na ? av[i] : nil)); }
	if(rest) CHECK("the rest parameter gets what is left", raw_same(lTreeRef(r->data, SYM(3)), tails[np]));
#endif
	REACH("end");
}
