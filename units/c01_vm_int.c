//@ prop: C01
//@ main: lib/vm.c
//@ stub: lPairAllocRaw lValString lGarbageCollect lValExceptionType lValExceptionArity
//@ cases: OP,OPK=lopAdd,'+'|lopSub,'-'|lopMul,'*'|lopRem,'R'|lopIntAdd,'+'
//@ unwind: 8
//@ cbmc: --max-field-sensitivity-array-size 600 --div-by-zero-check --bounds-check --pointer-check
//@ abstract: yes
//@ timeout: 250
//@ funcs: lBytecodeEval lValException lValExceptionNonNumeric stackTrace lCons
#include FW_MAIN
#include "vm.h"
#include "arith.h"
void harness(void){
	fw_init();
	lVal a = fw_int("a"), b = fw_int("b");
	lVal r = vm_binop(OP, a, b);
	const lSymbol *exc; lVal want = spec_num(OPK, a, b, &exc);
	if(exc){
		CHECK("zero divisor raises division-by-zero", r.type == ltException && excKind(r) == exc);
#if OPK == 'R'
		REACH("zero divisor");
#endif
	} else {
		CHECK("int instruction: exact modulo 2^64, truncated remainder", same_bits(r, want));
		REACH("result");
	}
}
