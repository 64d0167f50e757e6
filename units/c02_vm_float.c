//@ prop: C02
//@ main: lib/vm.c
//@ stub: lPairAllocRaw lValString lGarbageCollect lValExceptionType lValExceptionArity
//@ cases: OP,OPK=lopAdd,'+'|lopSub,'-'|lopMul,'*'|lopDiv,'/'|lopRem,'R'
//@ unwind: 8
//@ cbmc: --max-field-sensitivity-array-size 600 --bounds-check --pointer-check
//@ abstract: yes
//@ timeout: 300
//@ funcs: lBytecodeEval lValFloat lValException
//@ assume: libm fmod/pow/sqrt/cbrt/sin/cos/tan/atan2 are uninterpreted functions of their arguments
#include FW_MAIN
#include "vm.h"
#include "arith.h"
void harness(void){
	fw_init();
	lVal a = sym_kind("ka", "a", false), b = sym_kind("kb", "b", false);
	ASSUME(isF(a) || isF(b) || OPK == '/');
	lVal r = vm_binop(OP, a, b);
	const lSymbol *exc; lVal want = spec_num(OPK, a, b, &exc);
	if(exc){
		CHECK("float instruction: NaN/infinity raises float-nan/float-inf", r.type == ltException && excKind(r) == exc);
		REACH("nan or inf");
	} else {
		CHECK("float instruction: IEEE double operation on the promoted operands", same_bits(r, want));
		REACH("result");
	}
}
