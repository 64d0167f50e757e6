//@ prop: C14
//@ main: lib/vm.c
//@ cases: AC,KEY=0,0|1,0|2,0|3,0|4,0|5,0|6,0|7,0|8,0|9,0|16,0|17,0|2,1|5,1|17,1
//@ cases: VIA=1|2
//@ stub: lPairAllocRaw lValString lGarbageCollect lMethodLookup
//@ unwind: 12
//@ cbmc: --max-field-sensitivity-array-size 600
//@ timeout: 200
//@ funcs: lBytecodeEval
//@ assume: built-in procedures take a rest list or at most 4 parameters, as all that are registered do
/* Calling a built-in procedure with n arguments (VIA 1: from the stack, 2: from a list; KEY: by a method name): its
 * parameters are the arguments in order, nil where there is none; its value becomes the value of the call.
 * n is 0 up to two more than the procedure takes. */
#include "nujel-private.h"
#ifndef FW_NATIVE
static lVal lk_self, lk_fun; static const lSymbol *lk_sym; static int lk_n;
lVal stub_lMethodLookup(const lSymbol *s, lVal self){ lk_n++; lk_sym = s; lk_self = self; return lk_fun; }
#endif
#include FW_MAIN
#include "coll.h"
#include "vm.h"
#define NARG ((AC >> 1) & 7)
#define MAXN (NARG + 2)
static lVal got[5], result; static lClosure *gotC; static int called;
static lVal p0(){ called++; return result; }
static lVal pC(lClosure *c){ gotC = c; called++; return result; }
static lVal pV(lVal a){ got[0] = a; called++; return result; }
static lVal pCV(lClosure *c, lVal a){ gotC = c; got[0] = a; called++; return result; }
static lVal pVV(lVal a, lVal b){ got[0] = a; got[1] = b; called++; return result; }
static lVal pCVV(lClosure *c, lVal a, lVal b){ gotC = c; got[0] = a; got[1] = b; called++; return result; }
static lVal pVVV(lVal a, lVal b, lVal d){ got[0] = a; got[1] = b; got[2] = d; called++; return result; }
static lVal pCVVV(lClosure *c, lVal a, lVal b, lVal d){ gotC = c; got[0] = a; got[1] = b; got[2] = d; called++; return result; }
static lVal pVVVV(lVal a, lVal b, lVal d, lVal e){ got[0] = a; got[1] = b; got[2] = d; got[3] = e; called++; return result; }
static lVal pCVVVV(lClosure *c, lVal a, lVal b, lVal d, lVal e){ gotC = c; got[0] = a; got[1] = b; got[2] = d; got[3] = e; called++; return result; }
static void run(int n){
	lVal nil = {0}, args[MAXN + 1], marker = any_val("mt", "m"); ASSUME(marker.type != ltException);
	for(int i = 0; i < MAXN; i++){ args[i] = any_val("at", "a"); ASSUME(args[i].type != ltException && args[i].type != ltPair); }
	lNFunc *f = FW_ALLOC(sizeof(lNFunc)); memset(f, 0, sizeof *f); f->argCount = AC;
	switch(AC){ case 0: f->fp = p0; break; case 1: f->fpC = pC; break; case 2: f->fpV = pV; break; case 3: f->fpCV = pCV; break; case 4: f->fpVV = pVV; break; case 5: f->fpCVV = pCVV; break;
		case 6: f->fpVVV = pVVV; break; case 7: f->fpCVVV = pCVVV; break; case 8: f->fpVVVV = pVVVV; break; case 9: f->fpCVVVV = pCVVVV; break; case 16: f->fpR = pV; break; case 17: f->fpCR = pCV; break; }
	lVal fun; fun.type = ltNativeFunc; fun.vNFunc = f;
	lVal *lits = FW_ALLOC(sizeof(lVal) * (MAXN + 4)); int nl = 0; lits[nl++] = marker;
#if KEY
#ifdef FW_NATIVE
	ASSUME(n > 0); lTree *m = FW_ALLOC(sizeof(lTree)); memset(m, 0, sizeof *m); m->key = &lSymbolList[40]; m->value = fun; m->height = 1; lTreeRoot *o = FW_ALLOC(sizeof(lTreeRoot)); memset(o, 0, sizeof *o); o->root = m; args[0].type = ltTree; args[0].vTree = o;
	lits[nl].type = ltKeyword; lits[nl++].vSymbol = &lSymbolList[40];
#else
	static lSymbol method; lk_fun = fun; lk_n = 0; lits[nl].type = ltKeyword; lits[nl++].vSymbol = &method;
#endif
#else
	lits[nl++] = fun;
#endif
	lVal list = nil;
#if VIA == 2
	/* what follows the last argument may be anything that is no pair */
	list.type = fw_range("tail", 0, ltType); ASSUME(list.type != ltPair && list.type != ltException);
	lVal end = list;
#endif
	for(int i = MAXN - 1; i >= 0; i--) if(i < n){ lPair *p = FW_ALLOC(sizeof(lPair)); p->car = args[i]; p->cdr = list; list.type = ltPair; list.vList = p; }
	lBytecodeOp *ops = FW_ALLOC(2 * MAXN + 12); int k = 0;
	ops[k++] = lopPushVal; ops[k++] = 0; ops[k++] = lopPushVal; ops[k++] = 1;
	if(VIA == 1){ for(int i = 0; i < n; i++){ lits[nl] = args[i]; ops[k++] = lopPushVal; ops[k++] = nl++; } ops[k++] = lopApply; ops[k++] = n; }
	else { lits[nl] = list; ops[k++] = lopPushVal; ops[k++] = nl++; ops[k++] = lopApplyCollection; }
	ops[k++] = lopList; ops[k++] = 2; ops[k++] = lopRet;
	lClosure *c = FW_ALLOC(sizeof(lClosure)); memset(c, 0, sizeof *c); c->type = closureCall;
	result = any_val("rt", "r"); ASSUME(result.type != ltException); called = 0;
	lVal r = vm_run_in(c, ops, k, lits, nl);
	CHECK("the procedure is called once", called == 1);
	if(AC & 1) CHECK("with the scope at hand", gotC == c);
	for(int i = 0; i < NARG; i++) CHECK("a parameter gets its argument, or nil when there is none", raw_same(got[i], i < n ? args[i] : nil));
	if(AC >= 16){ lVal l = got[0];
		for(int i = 0; i < n; i++){ CHECK("the rest list has every argument", l.type == ltPair); lPair *p = l.vList; CHECK("in order", raw_same(p->car, args[i])); l = p->cdr; }
#if VIA == 2
		CHECK("and nothing else", raw_same(l, end));
#else
		CHECK("and nothing else", l.type == ltNil);
#endif
	}
#if KEY && !defined FW_NATIVE
	CHECK("the method is looked up in the class of the first argument", lk_n == 1 && lk_sym == lits[1].vSymbol && raw_same(lk_self, n ? args[0] : nil));
#endif
	CHECK("the call has a value", r.type == ltPair);
	lPair *p = r.vList; CHECK("what was on the stack before is still there", raw_same(p->car, marker));
	lVal d = p->cdr; CHECK("the value is pushed", d.type == ltPair); lPair *q = d.vList;
	CHECK("the value of the call is what the procedure returned", raw_same(q->car, result)); CHECK("and nothing else", q->cdr.type == ltNil);
}
void harness(void){
	fw_init();
#ifdef FW_NATIVE
	run(fw_range("n", KEY, MAXN));
#else
	for(int n = 0; n <= MAXN; n++) run(n);
#endif
	REACH("end");
}
