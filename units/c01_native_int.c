//@ prop: C01
//@ main: lib/arithmetic.c
//@ nf: ADD "+" lnfAdd
//@ nf: SUB "-" lnfSub
//@ nf: MUL "*" lnfMul
//@ nf: REM "rem" lnfRem
//@ nf: ADDI "add/int" lnfAddAstI
//@ nf: SUBI "sub/int" lnfSubAstI
//@ nf: MULI "mul/int" lnfMulAstI
//@ nf: DIVI "div/int" lnfDivAstI
//@ nf: MODI "mod/int" lnfModAstI
//@ nf: INCI "inc/int" lnfIncAstI
//@ nf: ABS "abs" lnfAbs
//@ cases: OP,OPK=ADD,'+'|SUB,'-'|MUL,'*'|REM,'R'|ADDI,'+'|SUBI,'-'|MULI,'*'|DIVI,'Q'|MODI,'R'
//@ stub: lPairAllocRaw lValString lValExceptionType lValExceptionArity
//@ unwind: 4
//@ cbmc: --div-by-zero-check --bounds-check --pointer-check
//@ abstract: yes
//@ funcs: lnfAdd lnfSub lnfMul lnfRem lnfAddAstI lnfSubAstI lnfMulAstI lnfDivAstI lnfModAstI lnfIncAstI lnfAbs lTypecast requireFloat lValException
#include FW_MAIN
#include "arith.h"
void harness(void){
	fw_init();
	lVal a = fw_int("a"), b = fw_int("b");
	lVal r = OP(a, b);
	const lSymbol *exc; lVal want = spec_num(OPK, a, b, &exc);
	if(exc){
		CHECK("zero divisor raises division-by-zero", r.type == ltException && excKind(r) == exc);
#if OPK == 'R' || OPK == 'Q'
		REACH("zero divisor");
#endif
	} else {
		CHECK("int procedure: exact modulo 2^64, truncated quotient and remainder", same_bits(r, want));
		REACH("result");
	}
	/* the identities the two-argument forms share with one-argument calls (absent argument is nil) */
	lVal nil = {0};
#if OPK == '-'
	lVal n = SUB(a, nil);
	CHECK("negation is exact modulo 2^64", same_bits(n, spec_int(0 - (u64)a.vInt)));
	lVal ab = ABS(a);
	CHECK("absolute value is exact modulo 2^64", same_bits(ab, spec_int(a.vInt < 0 ? 0 - (u64)a.vInt : (u64)a.vInt)));
#endif
#if OPK == '+'
	lVal i = INCI(a);
	CHECK("increment is exact modulo 2^64", same_bits(i, spec_int((u64)a.vInt + 1)));
#endif
	(void)nil;
}
