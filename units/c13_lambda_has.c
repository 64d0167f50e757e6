//@ prop: C13
//@ main: lib/type-system.c
//@ nf: HAS "ltLambda:has?" lnmLambdaHas
//@ stub: lPairAllocRaw lValString lValExceptionType lValExceptionArity lGetClosureSym
//@ unwind: 6
//@ unwindset: strlen.0:80
//@ cbmc: --bounds-check --pointer-check
//@ nofuzz: the lookup is a contract here
//@ noreplay: the lookup is a contract here
//@ funcs: lnmLambdaHas
/* has? of a closure asks the lookup about that closure. */
#include "nujel-private.h"
static lClosure other; static const lSymbol *sym; static bool has; static lVal val; static int n; static lClosure *asked; static const lSymbol *askeds;
#ifndef FW_NATIVE
lVal stub_lGetClosureSym(lClosure *c, const lSymbol *s){ n++; asked = c; askeds = s; return has ? val : lValException(lSymUnboundVariable, "", lValSymS(s)); }
#endif
#include FW_MAIN
#include "coll.h"
void harness(void){
	fw_init();
	sym = &lSymbolList[fw_range("sym", 0, SYM_MAX - 1)]; has = fw_u64("has") & 1; val = any_val("vt", "v"); ASSUME(val.type != ltException);
	lVal a = any_val("at", "a"), e; e.type = ltLambda; e.vClosure = &other;
	bool s = a.type == ltSymbol || a.type == ltKeyword; if(s) a.vSymbol = sym;
	lVal r = HAS(e, a);
	if(!s) CHECK("only symbols and keywords are bound", r.type == ltBool && !r.vBool);
	else {
		CHECK("has? tells whether the lookup finds a binding", r.type == ltBool && r.vBool == has);
		CHECK("it asks about that closure", n == 1 && asked == &other && askeds == sym);
		REACH("resolved");
	}
	REACH("end");
}
