//@ prop: C05
//@ main: lib/vm.c
//@ stub: lPairAllocRaw lValString lGarbageCollect lValExceptionType lValExceptionArity
//@ cases: OP,W=lopBitAnd,ANDB|lopBitOr,ORB|lopBitXor,XORB|lopBitShiftLeft,SHLB|lopBitShiftRight,SHRB|lopBitNot,NOTB
//@ unwind: 8
//@ cbmc: --max-field-sensitivity-array-size 600 --undefined-shift-check --bounds-check --pointer-check
//@ timeout: 250
//@ funcs: lBytecodeEval lIntShiftLeft lIntShiftRight
#include FW_MAIN
#include "vm.h"
#include "bits.h"
#define ANDB (bit(a, k) && bit(b, k))
#define ORB (bit(a, k) || bit(b, k))
#define XORB (bit(a, k) != bit(b, k))
#define NOTB (!bit(a, k))
#define SHLB shl_bit(a, b, k)
#define SHRB shr_bit(a, b, k)
void harness(void){
	fw_init();
	lVal a = sym_kind("ka", "a", true), b = sym_kind("kb", "b", true);
	unsigned k = fw_range("bit", 0, 63);
	lVal r;
	if(OP == lopBitNot){ b = a; r = vm_unop(OP, a); } else r = vm_binop(OP, a, b);
	chk_bin("instruction", r, a, b, W, k);
	if(isI(a) && isI(b)) REACH("ints"); else REACH("others");
}
