//@ prop: C01
//@ main: lib/arithmetic.c
//@ nf: ADDI "add/int" lnfAddAstI
//@ nf: SUBI "sub/int" lnfSubAstI
//@ nf: MULI "mul/int" lnfMulAstI
//@ nf: DIVI "div/int" lnfDivAstI
//@ nf: MODI "mod/int" lnfModAstI
//@ nf: INCI "inc/int" lnfIncAstI
//@ stub: lPairAllocRaw lValString lValExceptionType lValExceptionArity
//@ unwind: 4
//@ cbmc: --div-by-zero-check --bounds-check --pointer-check
//@ abstract: yes
//@ funcs: lnfAddAstI lnfSubAstI lnfMulAstI lnfDivAstI lnfModAstI lnfIncAstI
#include FW_MAIN
#include "arith.h"
void harness(void){
	fw_init();
	lVal nil = {0};
	lVal a = sym_kind("ka", "a", true), b = sym_kind("kb", "b", true);
	if(fw_u64("anil") & 1) a = nil;
	if(fw_u64("bnil") & 1) b = nil;
	ASSUME(!isI(a) || !isI(b));
	CHECK("add/int raises on a non-int", ADDI(a, b).type == ltException);
	CHECK("sub/int raises on a non-int", SUBI(a, b).type == ltException);
	CHECK("mul/int raises on a non-int", MULI(a, b).type == ltException);
	CHECK("div/int raises on a non-int", DIVI(a, b).type == ltException);
	CHECK("mod/int raises on a non-int", MODI(a, b).type == ltException);
	if(!isI(a)) CHECK("inc/int raises on a non-int", INCI(a).type == ltException);
	REACH("end");
}
