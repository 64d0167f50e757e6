//@ prop: C04
//@ main: lib/vm.c
//@ stub: lPairAllocRaw lValString lGarbageCollect lValExceptionType lValExceptionArity
//@ unwind: 8
//@ cbmc: --max-field-sensitivity-array-size 600 --bounds-check --pointer-check
//@ timeout: 250
//@ funcs: lBytecodeEval
#include FW_MAIN
#include "vm.h"
#include "arith.h"
void harness(void){
	fw_init();
	lVal a = sym_kind("ka", "a", true);
	lVal r = vm_unop(lopZeroPred, a);
	CHECK("zero? is exact", r.type == ltBool && r.vBool == (isI(a) ? a.vInt == 0 : isF(a) ? a.vFloat == 0.0 : false));
	REACH("end");
}
