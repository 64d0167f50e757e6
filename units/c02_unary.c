//@ prop: C02
//@ main: lib/arithmetic.c
//@ nf: SQRT "sqrt" lnfSqrt
//@ nf: CBRT "cbrt" lnfCbrt
//@ nf: SIN "sin" lnfSin
//@ nf: COS "cos" lnfCos
//@ nf: TAN "tan" lnfTan
//@ nf: ATAN "atan2" lnfAtanTwo
//@ nf: FLOOR "floor" lnfFloor
//@ nf: CEIL "ceil" lnfCeil
//@ nf: ROUND "round" lnfRound
//@ nf: ABS "abs" lnfAbs
//@ nf: POW "pow" lnfPow
//@ nf: SUB "-" lnfSub
//@ stub: lPairAllocRaw lValString lValExceptionType lValExceptionArity
//@ unwind: 4
//@ cbmc: --bounds-check --pointer-check
//@ timeout: 200
//@ funcs: lnfSqrt lnfCbrt lnfSin lnfCos lnfTan lnfAtanTwo lnfFloor lnfCeil lnfRound lnfAbs lnfPow lValFloat
#include FW_MAIN
#include "arith.h"
static void res(lVal r, double want){
	const lSymbol *exc; lVal w = spec_float(want, &exc);
	if(exc) CHECK("NaN/infinity raises float-nan/float-inf", r.type == ltException && excKind(r) == exc);
	else CHECK("the correctly promoted libm result", same_bits(r, w));
}
void harness(void){
	fw_init();
	lVal a = fw_float("a"), b = sym_kind("kb", "b", false);
	lVal i = fw_int("i"), nil = {0};
	res(SQRT(a), sqrt(a.vFloat)); res(SQRT(i), sqrt((double)i.vInt));
	res(CBRT(a), cbrt(a.vFloat)); res(CBRT(i), cbrt((double)i.vInt));
	res(SIN(a), sin(a.vFloat)); res(COS(a), cos(a.vFloat)); res(TAN(a), tan(a.vFloat));
	res(ATAN(a, b), atan2(a.vFloat, asD(b))); res(ATAN(b, a), atan2(asD(b), a.vFloat));
	res(POW(a, b), pow(a.vFloat, asD(b))); res(POW(b, a), pow(asD(b), a.vFloat));
	res(FLOOR(a), floor(a.vFloat)); res(CEIL(a), ceil(a.vFloat)); res(ROUND(a), round(a.vFloat));
	res(ABS(a), fabs(a.vFloat)); res(SUB(a, nil), -a.vFloat);
	REACH("end");
}
