//@ prop: C15
//@ main: lib/vm.c
//@ cases: OP,VAL=0,0|1,0|2,0|2,1|2,2|2,3|2,4|2,5|3,0|3,1|3,2|3,3|3,4|3,5|4,0
//@ stub: lPairAllocRaw lValString lGarbageCollect lClosureAllocRaw
//@ unwind: 11
//@ cbmc: --max-field-sensitivity-array-size 600
//@ timeout: 200
//@ funcs: lBytecodeEval lBytecodeGetOffset16
/* Jumps: the offset is the signed 16-bit number that follows the instruction, counted from the instruction itself; a
 * conditional jump takes its operand off the stack.  OP 0: decoding of every offset; 1: jmp, 2: jt, 3: jf, 4: far. */
#include "nujel-private.h"
#include FW_MAIN
#include "coll.h"
#include "vm.h"
static lBytecodeOp ops[400]; static int k;
static void push(int i){ ops[k++] = lopPushVal; ops[k++] = i; }
static void jump(int op, int off){ ops[k++] = op; ops[k++] = (off >> 8) & 255; ops[k++] = off & 255; }
void harness(void){
	fw_init();
#if OP == 0
	lBytecodeOp b[2]; b[0] = fw_range("hi", 0, 255); b[1] = fw_range("lo", 0, 255);
	i64 x = b[0] * 256 + b[1];
	CHECK("a jump offset is a signed 16-bit number, high byte first", lBytecodeGetOffset16(b) == (x < 32768 ? x : x - 65536));
#elif OP == 4
	/* forward by more than a byte can say, and back over it */
	lVal l[3]; for(int i = 0; i < 3; i++){ l[i] = any_val("at", "a"); ASSUME(l[i].type != ltException); }
	k = 0; jump(lopJmp, 303); k = 3; push(0); push(1); ops[k++] = lopList; ops[k++] = 2; ops[k++] = lopRet;
	k = 303; push(2); jump(lopJmp, 3 - 305); ops[k++] = lopRet;
	lVal w[2] = { l[0], l[1] }, r = vm_run(ops, k, l, 3);
	vm_stack(r, 2, w);
#else
	lVal m = any_val("mt", "m"), a = any_val("at", "a"), b = any_val("bt", "b"), v; ASSUME(m.type != ltException && a.type != ltException && b.type != ltException);
	v.vInt = fw_i64("v"); v.type = VAL == 0 ? ltNil : VAL == 1 || VAL == 2 ? ltBool : VAL == 3 ? ltInt : VAL == 4 ? ltFloat : ltString; if(VAL == 1) v.vBool = true; if(VAL == 2) v.vBool = false;
	bool truth = VAL != 0 && VAL != 2, taken = OP == 1 || (OP == 2 ? truth : !truth);
	lVal l[4]; l[0] = m; l[1] = a; l[2] = b; l[3] = v;
	k = 0; push(0); if(OP >= 2) push(3);
	jump(OP == 1 ? lopJmp : OP == 2 ? lopJt : lopJf, 8);                  /* to the target */
	push(1); jump(lopJmp, 5);                                              /* not taken: a, then to the end */
	push(2);                                                               /* target: b */
	ops[k++] = lopList; ops[k++] = 2; ops[k++] = lopRet;
	lVal w[2] = { m, taken ? b : a }, r = vm_run(ops, k, l, 4);
	vm_stack(r, 2, w);
#endif
	REACH("end");
}
