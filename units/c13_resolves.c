//@ prop: C13
//@ main: lib/core-operators.c
//@ nf: RESOLVES "resolves?" lnfResolvesPred
//@ stub: lPairAllocRaw lValString lValExceptionType lValExceptionArity lGetClosureSym
//@ unwind: 6
//@ unwindset: strlen.0:80
//@ cbmc: --bounds-check --pointer-check
//@ nofuzz: the lookup is a contract here
//@ noreplay: the lookup is a contract here
//@ funcs: lnfResolvesPred
/* resolves? asks the lookup about the scope given, or the scope at hand. */
#include "nujel-private.h"
static lClosure here, other; static const lSymbol *sym; static bool has; static lVal val; static int n; static lClosure *asked; static const lSymbol *askeds;
#ifndef FW_NATIVE
lVal stub_lGetClosureSym(lClosure *c, const lSymbol *s){ n++; asked = c; askeds = s; return has ? val : lValException(lSymUnboundVariable, "", lValSymS(s)); }
#endif
#include FW_MAIN
#include "coll.h"
void harness(void){
	fw_init();
	sym = &lSymbolList[fw_range("sym", 0, SYM_MAX - 1)]; has = fw_u64("has") & 1; val = any_val("vt", "v"); ASSUME(val.type != ltException);
	lVal a = any_val("at", "a"), e = any_val("et", "e"); ASSUME(a.type != ltException && e.type != ltException);
	bool scope = e.type == ltLambda || e.type == ltEnvironment; lClosure *want = e.type == ltNil ? &here : &other;
	if(a.type == ltSymbol) a.vSymbol = sym;
	if(scope) e.vClosure = &other;
	lVal r = RESOLVES(&here, a, e);
	if(a.type != ltSymbol) CHECK("only symbols resolve", r.type == ltBool && !r.vBool);
	else if(!scope && e.type != ltNil) CHECK("a scope of the wrong type raises :type-error", r.type == ltException && excKind(r) == lSymTypeError);
	else {
		CHECK("resolves? tells whether the lookup finds a binding", r.type == ltBool && r.vBool == has);
		CHECK("it asks about the given scope, or the scope at hand", n == 1 && asked == want && askeds == sym);
		REACH("resolved");
	}
	REACH("end");
}
