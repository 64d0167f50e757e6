//@ prop: C05
//@ main: lib/arithmetic.c
//@ nf: AND "bit-and" lnfLogAnd
//@ nf: IOR "bit-or" lnfLogIor
//@ nf: XOR "bit-xor" lnfLogXor
//@ nf: NOT "bit-not" lnfLogNot
//@ nf: SHL "bit-shift-left" lnfAsh
//@ nf: SHR "bit-shift-right" lnfBitShiftRight
//@ nf: POP "popcount" lnfPopCount
//@ stub: lPairAllocRaw lValString lValExceptionType lValExceptionArity
//@ unwind: 70
//@ cbmc: --undefined-shift-check --bounds-check --pointer-check
//@ funcs: lnfLogAnd lnfLogIor lnfLogXor lnfLogNot lnfAsh lnfBitShiftRight lnfPopCount
#include FW_MAIN
#include "bits.h"
void harness(void){
	fw_init();
	lVal a = sym_kind("ka", "a", true), b = sym_kind("kb", "b", true), nil = {0};
	if(fw_u64("anil") & 1) a = nil;
	if(fw_u64("bnil") & 1) b = nil;
	unsigned k = fw_range("bit", 0, 63);
	chk_bin("bit-and", AND(a, b), a, b, bit(a, k) && bit(b, k), k);
	chk_bin("bit-or", IOR(a, b), a, b, bit(a, k) || bit(b, k), k);
	chk_bin("bit-xor", XOR(a, b), a, b, bit(a, k) != bit(b, k), k);
	chk_bin("bit-shift-left", SHL(a, b), a, b, shl_bit(a, b, k), k);
	chk_bin("bit-shift-right", SHR(a, b), a, b, shr_bit(a, b, k), k);
	chk_bin("bit-not", NOT(a), a, a, !bit(a, k), k);
	lVal p = POP(a);
	if(isI(a)){
		i64 n = 0; for(int i = 0; i < 64; i++) n += bit(a, i);
		CHECK("popcount counts the set bits", isI(p) && p.vInt == n);
	} else CHECK("popcount raises on a non-int", p.type == ltException);
	if(isI(a) && isI(b)) REACH("ints"); else REACH("others");
}
