//@ prop: C02
//@ main: lib/arithmetic.c
//@ nf: ADD "+" lnfAdd
//@ nf: SUB "-" lnfSub
//@ nf: MUL "*" lnfMul
//@ nf: DIV "/" lnfDiv
//@ nf: REM "rem" lnfRem
//@ cases: OP,OPK=ADD,'+'|SUB,'-'|MUL,'*'|DIV,'/'|REM,'R'
//@ stub: lPairAllocRaw lValString lValExceptionType lValExceptionArity
//@ unwind: 4
//@ cbmc: --bounds-check --pointer-check
//@ abstract: yes
//@ funcs: lnfAdd lnfSub lnfMul lnfDiv lnfRem lTypecast requireFloat lValFloat lValException
#include FW_MAIN
#include "arith.h"
void harness(void){
	fw_init();
	lVal a = sym_kind("ka", "a", false), b = sym_kind("kb", "b", false);
	ASSUME(isF(a) || isF(b) || OPK == '/');
	lVal r = OP(a, b);
	const lSymbol *exc; lVal want = spec_num(OPK, a, b, &exc);
	if(exc){
		CHECK("float procedure: NaN/infinity raises float-nan/float-inf", r.type == ltException && excKind(r) == exc);
		REACH("nan or inf");
	} else {
		CHECK("float procedure: IEEE double operation on the promoted operands", same_bits(r, want));
		REACH("result");
	}
}
