//@ prop: C14
//@ main: lib/vm.c
//@ cases: OP,TYPE=1,0|2,0|3,0|6,0|7,0|4,ltNil|5,ltNil|4,ltSymbol|5,ltSymbol|4,ltBool|5,ltBool|4,ltInt|5,ltInt|4,ltFloat|5,ltFloat|4,ltPair|5,ltPair|4,ltArray|5,ltArray|4,ltTree|5,ltTree|4,ltEnvironment|5,ltEnvironment|4,ltString|5,ltString|4,ltBuffer|5,ltBuffer|4,ltBufferView|5,ltBufferView|4,ltBytecodeArr|5,ltBytecodeArr|4,ltFileHandle|5,ltFileHandle|4,ltType|5,ltType
//@ stub: lPairAllocRaw lValString lGarbageCollect lMethodLookup lClosureNewFunCall
//@ unwind: 12
//@ cbmc: --max-field-sensitivity-array-size 600
//@ timeout: 200
//@ nofuzz: the method table is made up
//@ noreplay: the method table is made up
//@ funcs: lBytecodeEval
/* apply with a list: the scope of the call is made from the function and that list (OP 1 function, 2 macro, 3 method that
 * is a function).  What is no function raises :type-error (OP 4 call, 5 apply), as does an unknown method (OP 6, 7). */
#include "nujel-private.h"
static lBytecodeArray text; static lBytecodeOp code[2]; static lClosure self; static lArray noLits;
static lVal nf_args, nf_fun; static int nf_n; static lVal lk_self, lk_fun; static const lSymbol *lk_sym; static int lk_n; static lClosure call;
lClosure *stub_lClosureNewFunCall(lVal args, lVal fun){ nf_n++; nf_args = args; nf_fun = fun; call.parent = &self; call.type = closureCall; call.text = &text; call.ip = code; return &call; }
lVal stub_lMethodLookup(const lSymbol *s, lVal me){ lk_n++; lk_sym = s; lk_self = me; return lk_fun; }
#include FW_MAIN
#include "coll.h"
#include "vm.h"
static lSymbol method;
void harness(void){
	fw_init();
	lVal marker = any_val("mt", "m"), fun, list = {0}, a = any_val("at", "a");
	ASSUME(marker.type != ltException && a.type != ltException && a.type <= ltType);
	code[0] = lopClosurePush; code[1] = lopRet; text.data = code; text.dataEnd = code + 2; text.literals = &noLits; self.text = &text;
	list.type = ltPair; list.vList = FW_ALLOC(sizeof(lPair)); list.vList->car = a; list.vList->cdr = NIL;
	fun.type = OP == 2 ? ltMacro : ltLambda; fun.vClosure = &self;
	lk_fun = fun;
	if(OP == 3 || OP == 6 || OP == 7){ fun.type = ltKeyword; fun.vSymbol = &method; }
	if(OP == 4 || OP == 5){ fun.vInt = fw_i64("f"); fun.type = TYPE; }
	if(OP == 6 || OP == 7) lk_fun.type = ltException;
	static lVal lits[3]; lits[0] = marker; lits[1] = fun; lits[2] = list;
	static lBytecodeOp ops[12]; int k = 0;
	ops[k++] = lopPushVal; ops[k++] = 0; ops[k++] = lopPushVal; ops[k++] = 1;
	if(OP == 4 || OP == 6){ lits[2] = a; ops[k++] = lopPushVal; ops[k++] = 2; ops[k++] = lopApply; ops[k++] = 1; }
	else { ops[k++] = lopPushVal; ops[k++] = 2; ops[k++] = lopApplyCollection; }
	ops[k++] = lopList; ops[k++] = 2; ops[k++] = lopRet;
	lVal r = vm_run(ops, k, lits, 3);
	if(OP <= 3){
		CHECK("the scope of the call is made from the function and the arguments", nf_n == 1 && raw_same(nf_args, list) && nf_fun.vClosure == &self && nf_fun.type == (OP == 2 ? ltMacro : ltLambda));
		if(OP == 3) CHECK("the method is looked up in the class of the first argument", lk_n == 1 && lk_sym == &method && raw_same(lk_self, a));
		CHECK("the call has a value", r.type == ltPair);
		lPair *p = r.vList; CHECK("what was on the stack before is still there", raw_same(p->car, marker));
		lVal d = p->cdr; CHECK("the value is pushed", d.type == ltPair); lPair *q = d.vList;
		CHECK("the function ran in the scope of the call", q->car.type == ltEnvironment && q->car.vClosure == &call); CHECK("and nothing else", q->cdr.type == ltNil);
	} else CHECK("a call of what is no function raises :type-error", r.type == ltException && excKind(r) == lSymTypeError && nf_n == 0);
	REACH("end");
}
