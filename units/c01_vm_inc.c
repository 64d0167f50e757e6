//@ prop: C01
//@ main: lib/vm.c
//@ stub: lPairAllocRaw lValString lGarbageCollect lValExceptionType lValExceptionArity
//@ unwind: 8
//@ cbmc: --max-field-sensitivity-array-size 600 --bounds-check --pointer-check
//@ timeout: 250
//@ funcs: lBytecodeEval
#include FW_MAIN
#include "vm.h"
#include "arith.h"
void harness(void){
	fw_init();
	lVal a = sym_kind("ka", "a", true);
	lVal r = vm_unop(lopIncInt, a);
	if(isI(a)){
		CHECK("increment instruction: exact modulo 2^64", same_bits(r, spec_int((u64)a.vInt + 1)));
		REACH("int");
	} else {
		CHECK("increment instruction: non-int raises", r.type == ltException);
		REACH("other");
	}
}
