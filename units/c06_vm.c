//@ prop: C06
//@ main: lib/vm.c
//@ stub: lPairAllocRaw lValString lGarbageCollect lValExceptionType lValExceptionArity
//@ cases: WHICH=0|1
//@ unwind: 8
//@ cbmc: --max-field-sensitivity-array-size 600
//@ timeout: 250
//@ funcs: lBytecodeEval lGenericRef lGenericSet
#include FW_MAIN
#include "vm.h"
#include "coll.h"
void harness(void){
	fw_init();
	lVal el[3]; lArray *a = FW_ALLOC(sizeof *a); memset(a, 0, sizeof *a); a->data = el; a->length = 3;
	for(int i = 0; i < 3; i++) el[i] = any_val("et", "ev");
	lVal o[3] = { el[0], el[1], el[2] };
	lVal col = lValAlloc(ltArray, a), key = any_val("kt", "k"), v = any_val("vt", "v");
	bool in = key.type == ltInt && key.vInt >= 0 && key.vInt < 3;
	lVal *lits = FW_ALLOC(sizeof(lVal) * 3); lits[0] = col; lits[1] = key; lits[2] = v;
	lBytecodeOp *ops = FW_ALLOC(8);
	ops[0] = lopPushVal; ops[1] = 0; ops[2] = lopPushVal; ops[3] = 1;
	if(WHICH == 0){ ops[4] = lopRef; ops[5] = lopRet; }
	else { ops[4] = lopPushVal; ops[5] = 2; ops[6] = lopGenSet; ops[7] = lopRet; }
	lVal r = vm_run(ops, 8, lits, 3);
	if(!in) CHECK("an index outside raises from the instruction", r.type == ltException);
	else if(WHICH == 0) CHECK("ref instruction", raw_same(r, o[key.vInt]));
	else CHECK("set! instruction returns the collection", raw_same(r, col));
	unsigned w = fw_range("w", 0, 2);
	CHECK("set! instruction writes exactly one element", raw_same(el[w], WHICH == 1 && in && key.vInt == w ? v : o[w]));
	if(in) REACH("in"); else REACH("out");
}
