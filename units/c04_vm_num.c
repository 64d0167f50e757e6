//@ prop: C04
//@ main: lib/vm.c
//@ stub: lPairAllocRaw lValString lGarbageCollect lValExceptionType lValExceptionArity
//@ cases: OP=lopLessPred|lopLessEqPred|lopEqualPred|lopGreaterEqPred|lopGreaterPred|lopUnequalPred
//@ unwind: 8
//@ cbmc: --max-field-sensitivity-array-size 600 --bounds-check --pointer-check
//@ timeout: 250
//@ funcs: lBytecodeEval lValGreater lValEqual
#include FW_MAIN
#include "vm.h"
#include "cmp.h"
#include "arith.h"
void harness(void){
	fw_init();
	lVal a = sym_kind("ka", "a", false), b = sym_kind("kb", "b", false);
	lVal r = vm_binop(OP, a, b);
	int c = isI(a) && isI(b) ? spec_cmp_int(a.vInt, b.vInt) : spec_cmp_dbl(asD(a), asD(b));
	CHECK("comparison of numbers", r.type == ltBool && r.vBool == pred_holds(OP, c));
	REACH("end");
	if(isI(a) && isF(b)) REACH("mixed");
}
