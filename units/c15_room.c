//@ prop: C15
//@ main: lib/vm.c
//@ cases: ONE=1
//@ stub: lPairAllocRaw lValString lGarbageCollect
//@ nofuzz: internal
//@ unwind: 4
//@ cbmc: --bounds-check --pointer-check --signed-overflow-check
//@ funcs: lBytecodeEnsureSufficientStack
//@ noreplay: the sizes of the stacks are internal
//@ assume: stacks and code are below 2^24 entries; realloc keeps the contents
/* Before code is run, both stacks have room for everything it can push: one entry for every byte of it. */
#include "nujel-private.h"
static void *z_old[2], *z_new[2]; static size_t z_size[2];
static void *z_realloc(void *p, size_t n){
	int i = p == z_old[0] ? 0 : 1; CHECK("only the stacks are resized", p == z_old[i]); CHECK("a stack is resized once", z_new[i] == NULL);
	z_size[i] = n; z_new[i] = FW_ALLOC(8); return z_new[i]; }
#define realloc z_realloc
#include FW_MAIN
#undef realloc
void harness(void){
	fw_init();
	lThread t; memset(&t, 0, sizeof t); lBytecodeArray text; memset(&text, 0, sizeof text); static lBytecodeOp code[1 << 16];
	i64 len = fw_range("len", 0, 1 << 16);
	text.data = code; text.dataEnd = code + len; t.text = &text;
	int cs0 = t.closureStackSize = fw_range("cs", 1, 1 << 24), vs0 = t.valueStackSize = fw_range("vs", 1, 1 << 24);
	t.csp = fw_range("csp", 0, 1 << 24); t.sp = fw_range("sp", 0, 1 << 24); ASSUME(t.csp < cs0 && t.sp < vs0); int csp = t.csp, sp = t.sp;
	z_old[0] = t.closureStack = FW_ALLOC(8); z_old[1] = t.valueStack = FW_ALLOC(8); z_new[0] = z_new[1] = NULL;
	lBytecodeEnsureSufficientStack(&t);
	CHECK("the operands and scopes stay where they are", t.csp == csp && t.sp == sp);
	CHECK("there is room for one scope per byte of the code", (i64)t.closureStackSize - 1 - csp >= len);
	CHECK("there is room for one operand per byte of the code", (i64)t.valueStackSize - 1 - sp >= len);
	CHECK("the scopes have the memory that is claimed", z_new[0] ? (t.closureStack == z_new[0] && z_size[0] >= sizeof(lClosure *) * (size_t)t.closureStackSize) : (t.closureStack == z_old[0] && t.closureStackSize == cs0));
	CHECK("the operands have the memory that is claimed", z_new[1] ? (t.valueStack == z_new[1] && z_size[1] >= sizeof(lVal) * (size_t)t.valueStackSize) : (t.valueStack == z_old[1] && t.valueStackSize == vs0));
	REACH("end"); if(z_new[0]) REACH("more scopes"); if(z_new[1]) REACH("more operands");
}
