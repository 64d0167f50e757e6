//@ prop: C04
//@ main: lib/vm.c
//@ stub: lPairAllocRaw lValString lGarbageCollect lValExceptionType lValExceptionArity
//@ cases: OP=lopEqualPred|lopUnequalPred
//@ unwind: 8
//@ cbmc: --max-field-sensitivity-array-size 600 --bounds-check --pointer-check
//@ timeout: 250
//@ funcs: lBytecodeEval lValEqual
#include FW_MAIN
#include "vm.h"
#include "cmp.h"
#include "arith.h"
static lVal any(const char *nt, const char *n){
	lVal v = {0}; uint64_t t = fw_u64(nt);
	switch(t){ case 0: v.type = ltBool; v.vBool = fw_u64(n) & 1; return v; case 1: return fw_int(n); case 2: return fw_float(n); case 3: return v;
	case 4: v.type = ltPair; break; case 5: v.type = ltArray; break; case 6: v.type = ltTree; break; case 7: v.type = ltLambda; break;
	case 8: v.type = ltNativeFunc; break; case 9: v.type = ltEnvironment; break; case 10: v.type = ltBuffer; break; case 11: v.type = ltBufferView; break;
	case 12: v.type = ltBytecodeArr; break; default: v.type = ltType; }
	v.vInt = 16 * fw_range(n, 1, 1000); return v; }
void harness(void){
	fw_init();
	lVal a = any("ta", "a"), b = any("tb", "b");
	ASSUME(!isNum(a) || !isNum(b));
	lVal r = vm_binop(OP, a, b);
	bool eq = a.type == b.type && (a.type == ltNil || (a.type == ltBool ? a.vBool == b.vBool : a.vInt == b.vInt));
	CHECK("values of different types are unequal, same type: identity", r.type == ltBool && r.vBool == (eq == (OP == lopEqualPred)));
	REACH("end");
}
