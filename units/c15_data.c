//@ prop: C15
//@ main: lib/vm.c
//@ cases: OP=1|2|3|4|5|6|7|8|9|10|11|12|13|14|15|16|17|18|19
//@ stub: lPairAllocRaw lValString lGarbageCollect lClosureAllocRaw
//@ unwind: 11
//@ cbmc: --max-field-sensitivity-array-size 600
//@ timeout: 200
//@ funcs: lBytecodeEval lStackBuildList lLambdaNew
/* Instructions that move values: each takes its operands off the stack, pushes its result and leaves the rest. */
#include "nujel-private.h"
#include FW_MAIN
#include "coll.h"
#include "vm.h"
static lBytecodeOp ops[40]; static int k; static lVal *lits;
static lVal val(const char *nt, const char *n){ lVal v = any_val(nt, n); ASSUME(v.type != ltException && v.type != ltPair); return v; }
static void push(int i){ ops[k++] = lopPushVal; ops[k++] = i; }
void harness(void){
	fw_init();
	lVal m = val("mt", "m"), a = val("at", "a"), b = val("bt", "b"), want[6]; int n = 1; want[0] = m; lVal nil = {0};
	lVal l[8]; lits = l; l[0] = m; l[1] = a; l[2] = b; int nl = 3; k = 0;
	for(int i = 3; i < 8; i++) l[i] = nil;
	lClosure *c = FW_ALLOC(sizeof(lClosure)); memset(c, 0, sizeof *c); c->type = closureCall;
#if OP == 2 || OP == 3
	/* the literals: only the two used exist */
	lVal two[2]; uint i = OP == 2 ? fw_range("i", 0, 254) : fw_range("i", 0, 65534);
#ifdef FW_NATIVE
	lits = FW_ALLOC(65536 * sizeof(lVal)); nl = 65536;
#else
	lits = two - i; nl = 65536;
#endif
	lits[i] = m; lits[i + 1] = a; n = 2; want[1] = a;
	if(OP == 2){ push(i); push(i + 1); } else { ops[k++] = lopPushValExt; ops[k++] = i >> 8; ops[k++] = i; ops[k++] = lopPushValExt; ops[k++] = (i + 1) >> 8; ops[k++] = i + 1; }
#else
	push(0);
#endif
	if(OP == 1){ i64 x = fw_range("x", 0, 255); ops[k++] = lopIntByte; ops[k++] = x; want[n++] = lValInt(x < 128 ? x : x - 256); }
	if(OP == 4){ ops[k++] = lopPushNil; want[n++] = nil; }
	if(OP == 5){ ops[k++] = lopPushTrue; want[n++] = lValBool(true); }
	if(OP == 6){ ops[k++] = lopPushFalse; want[n++] = lValBool(false); }
	if(OP == 7){ push(1); ops[k++] = lopDup; want[n++] = a; want[n++] = a; }
	if(OP == 8){ push(1); push(2); ops[k++] = lopDrop; want[n++] = a; }
	if(OP >= 9 && OP <= 12){ lPair *p = FW_ALLOC(sizeof(lPair)), *q = FW_ALLOC(sizeof(lPair)); lVal w; w.type = ltPair; w.vList = p; p->car = a; p->cdr.type = ltPair; p->cdr.vList = q; q->car = b; q->cdr = nil; l[3] = w; nl = 4; push(3);
		if(OP == 9){ ops[k++] = lopCar; want[n++] = a; }
		if(OP == 10){ ops[k++] = lopCdr; want[n++] = p->cdr; }
		if(OP == 11){ ops[k++] = lopCadr; want[n++] = b; }
		if(OP == 12){ ops[k++] = lopCadr; ops[k++] = lopDrop; ops[k++] = lopNOP; push(2); want[n++] = b; } }
	if(OP == 13 || OP == 14 || OP == 19){ lVal at; at.type = OP == 13 ? ltNil : OP == 14 ? ltInt : ltString; at.vInt = OP == 13 ? 0 : fw_i64("at"); l[3] = at; nl = 4; push(3); ops[k++] = lopCar; push(3); ops[k++] = lopCdr; want[n++] = nil; want[n++] = nil; }
	if(OP == 15 || OP == 16){ push(1); push(2); ops[k++] = OP == 15 ? lopCons : lopList; if(OP == 16) ops[k++] = 2; }
	if(OP == 17 || OP == 18){ /* fn: parameters, documentation, body */
		lVal body, doc; lBytecodeArray *t = FW_ALLOC(sizeof(lBytecodeArray)); memset(t, 0, sizeof *t); t->data = ops; body.type = ltBytecodeArr; body.vBytecodeArr = t; doc = nil; l[3] = body; l[4] = doc; nl = 5; push(1); push(4); push(3); ops[k++] = OP == 17 ? lopFnDynamic : lopMacroDynamic; ops[k++] = lopClosurePush;
		ops[k++] = lopList; ops[k++] = 3; ops[k++] = lopRet;
		lVal r = vm_run_in(c, ops, k, lits, nl); CHECK("the operand stack has as many values as it should", r.type == ltPair); lPair *p = r.vList; CHECK("the operand stack holds the right values", raw_same(p->car, m)); lVal d = p->cdr; CHECK("and no less", d.type == ltPair);
		lPair *q = d.vList; lVal f = q->car; CHECK("a function is a function and a macro a macro", f.type == (OP == 17 ? ltLambda : ltMacro));
		lClosure *fc = f.vClosure; CHECK("it closes over the scope at hand", fc != c && fc->parent == c); CHECK("it has the parameters and the body given", raw_same(fc->args, a) && fc->text == t && fc->ip == ops); CHECK("it has no variables of its own", fc->data == NULL);
		d = q->cdr; CHECK("and no less", d.type == ltPair); q = d.vList; f = q->car; CHECK("the scope at hand stays the same", f.type == ltEnvironment && f.vClosure == c && q->cdr.type == ltNil);
		REACH("end"); return; }
	int nn = OP == 15 || OP == 16 ? 2 : n;
	ops[k++] = lopList; ops[k++] = nn; ops[k++] = lopRet;
	lVal r = vm_run_in(c, ops, k, lits, nl);
	if(OP == 15 || OP == 16){ CHECK("the operand stack has as many values as it should", r.type == ltPair); lPair *p = r.vList; CHECK("the operand stack holds the right values", raw_same(p->car, m)); lVal d = p->cdr; CHECK("and no less", d.type == ltPair); p = d.vList; CHECK("and no more", p->cdr.type == ltNil);
		d = p->car; CHECK("a pair is made", d.type == ltPair); p = d.vList; CHECK("of the operands in order", raw_same(p->car, a)); d = p->cdr;
		if(OP == 15) CHECK("cons keeps both values", raw_same(d, b)); else { CHECK("a list has its values in order", d.type == ltPair); p = d.vList; CHECK("a list has its values in order", raw_same(p->car, b) && p->cdr.type == ltNil); } }
	else vm_stack(r, n, want);
	REACH("end");
}
