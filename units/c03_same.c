//@ prop: C03
//@ main: lib/vm.c lib/arithmetic.c
//@ nf: ADD "+" lnfAdd
//@ nf: SUB "-" lnfSub
//@ nf: MUL "*" lnfMul
//@ nf: DIV "/" lnfDiv
//@ nf: REM "rem" lnfRem
//@ nf: ADDI "add/int" lnfAddAstI
//@ nf: AND "bit-and" lnfLogAnd
//@ nf: IOR "bit-or" lnfLogIor
//@ nf: XOR "bit-xor" lnfLogXor
//@ nf: SHL "bit-shift-left" lnfAsh
//@ nf: SHR "bit-shift-right" lnfBitShiftRight
//@ cases: OP,NF=lopAdd,ADD|lopSub,SUB|lopMul,MUL|lopDiv,DIV|lopRem,REM|lopIntAdd,ADDI|lopBitAnd,AND|lopBitOr,IOR|lopBitXor,XOR|lopBitShiftLeft,SHL|lopBitShiftRight,SHR
//@ stub: lPairAllocRaw lValString lGarbageCollect lValExceptionType lValExceptionArity
//@ unwind: 8
//@ cbmc: --max-field-sensitivity-array-size 600
//@ abstract: yes
//@ timeout: 300
//@ funcs: lBytecodeEval lnfAdd lnfSub lnfMul lnfDiv lnfRem lnfAddAstI lnfLogAnd lnfLogIor lnfLogXor lnfAsh lnfBitShiftRight
#include FW_MAIN
#include FW_MAIN2
#include "vm.h"
#include "arith.h"
void harness(void){
	fw_init();
	lVal a = sym_kind("ka", "a", true), b = sym_kind("kb", "b", true);
	lVal v = vm_binop(OP, a, b), n = NF(a, b);
	if(n.type == ltException || v.type == ltException){
		CHECK("instruction and procedure both raise or both return", n.type == v.type);
		if(isNum(a) && isNum(b)) CHECK("instruction and procedure raise the same kind", excKind(n) == excKind(v));
		REACH("raise");
	} else {
		CHECK("instruction and procedure return the same value", same_bits(v, n));
		REACH("result");
	}
}
