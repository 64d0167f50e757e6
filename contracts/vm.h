/* One VM instruction under contract: its operands are arbitrary literals pushed by real
 * push instructions, its result is what the real return instruction hands back. */
#ifndef C_VM_H
#define C_VM_H
#include "base.h"
static lVal vm_run_in(lClosure *c, lBytecodeOp *ops, int n, lVal *lits, int nlits){
	lArray *arr = FW_ALLOC(sizeof(lArray)); arr->data = lits; arr->length = nlits; arr->flags = ARRAY_IMMUTABLE;
	lBytecodeArray *bc = FW_ALLOC(sizeof(lBytecodeArray)); bc->data = ops; bc->literals = arr; bc->dataEnd = ops + n; bc->flags = 0;
	c->text = bc; c->ip = ops;
	return lBytecodeEval(c, bc);
}
static lVal vm_run(lBytecodeOp *ops, int n, lVal *lits, int nlits){
	lClosure *c = FW_ALLOC(sizeof(lClosure)); memset(c, 0, sizeof(*c)); c->type = closureCall;
	return vm_run_in(c, ops, n, lits, nlits);
}
static lVal vm_binop(lBytecodeOp op, lVal a, lVal b){
	lVal *lits = FW_ALLOC(sizeof(lVal) * 2); lits[0] = a; lits[1] = b;
	lBytecodeOp *ops = FW_ALLOC(6);
	ops[0] = lopPushVal; ops[1] = 0; ops[2] = lopPushVal; ops[3] = 1; ops[4] = op; ops[5] = lopRet;
	return vm_run(ops, 6, lits, 2);
}
static lVal vm_unop(lBytecodeOp op, lVal a){
	lVal *lits = FW_ALLOC(sizeof(lVal) * 1); lits[0] = a;
	lBytecodeOp *ops = FW_ALLOC(4);
	ops[0] = lopPushVal; ops[1] = 0; ops[2] = op; ops[3] = lopRet;
	return vm_run(ops, 4, lits, 1);
}
/* r has to be the list of exactly these n values: what a List n instruction made of the operand stack */
static inline bool vm_same(lVal a, lVal b){ return a.type == b.type && (a.type == ltNil || (a.type == ltBool ? a.vBool == b.vBool : a.vInt == b.vInt)); }
static void vm_stack(lVal r, int n, const lVal *want){
	for(int i = 0; i < n; i++){ CHECK("the operand stack has as many values as it should", r.type == ltPair); lPair *p = r.vList; lVal a = p->car; CHECK("the operand stack holds the right values", vm_same(a, want[i])); r = p->cdr; }
	CHECK("and no more", r.type == ltNil);
}
#endif
