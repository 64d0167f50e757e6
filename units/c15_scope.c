//@ prop: C15
//@ main: lib/vm.c
//@ cases: OP=1|2|3|4|5|6|7|8|9
//@ stub: lPairAllocRaw lValString lGarbageCollect lClosureAllocRaw
//@ unwind: 11
//@ cbmc: --max-field-sensitivity-array-size 600
//@ timeout: 200
//@ funcs: lBytecodeEval
/* Scopes and returning. OP 1: let and its end; 2: nested lets; 3: returning from within lets of a called function;
 * 4: returning from the outermost function within a let; 5: eval in an environment; 6, 7, 8: in the environment itself. */
#include "nujel-private.h"
#include FW_MAIN
#include "coll.h"
#include "vm.h"
static lBytecodeOp ops[60], code[30]; static int k;
static void push(int i){ ops[k++] = lopPushVal; ops[k++] = i; }
static lClosure *env(lVal v){ CHECK("a scope is an environment", v.type == ltEnvironment); return v.vClosure; }
static lVal nth(lVal r, int n){ for(int i = 0; i < n; i++){ CHECK("the operand stack has as many values as it should", r.type == ltPair); lPair *p = r.vList; r = p->cdr; } CHECK("the operand stack has as many values as it should", r.type == ltPair); lPair *p = r.vList; return p->car; }
void harness(void){
	fw_init();
	lVal m = any_val("mt", "m"), a = any_val("at", "a"), b = any_val("bt", "b"); ASSUME(m.type != ltException && a.type != ltException && b.type != ltException);
	lVal l[6]; l[0] = m; l[1] = a; l[2] = b; for(int i = 3; i < 6; i++) l[i] = NIL; int nl = 6; k = 0;
	lClosure *c = FW_ALLOC(sizeof(lClosure)); memset(c, 0, sizeof *c); c->type = closureCall;
	lArray *fl = FW_ALLOC(sizeof(lArray)); memset(fl, 0, sizeof *fl); fl->data = l; fl->length = 6;
	lBytecodeArray *t = FW_ALLOC(sizeof(lBytecodeArray)); memset(t, 0, sizeof *t); t->data = code; t->dataEnd = code + 30; t->literals = fl;
	lClosure *f = FW_ALLOC(sizeof(lClosure)); memset(f, 0, sizeof *f); f->text = t; f->ip = code;
	push(0);
#if OP == 1
	ops[k++] = lopLet; ops[k++] = lopClosurePush; ops[k++] = lopClosurePop; ops[k++] = lopClosurePush; ops[k++] = lopList; ops[k++] = 3; ops[k++] = lopRet;
	lVal r = vm_run_in(c, ops, k, l, nl);
	lClosure *x = env(nth(r, 1)), *y = env(nth(r, 2));
	CHECK("let opens an empty scope inside the scope at hand", x != c && x->parent == c && x->data == NULL && x->type == closureLet);
	CHECK("its end brings back the scope at hand", y == c); CHECK("the operands stay", raw_same(nth(r, 0), m));
#elif OP == 2
	ops[k++] = lopLet; ops[k++] = lopClosurePush; ops[k++] = lopLet; ops[k++] = lopClosurePush; ops[k++] = lopClosurePop; ops[k++] = lopClosurePush; ops[k++] = lopClosurePop; ops[k++] = lopClosurePush; ops[k++] = lopList; ops[k++] = 5; ops[k++] = lopRet;
	lVal r = vm_run_in(c, ops, k, l, nl);
	lClosure *x = env(nth(r, 1)), *y = env(nth(r, 2)), *z = env(nth(r, 3)), *u = env(nth(r, 4));
	CHECK("let opens an empty scope inside the scope at hand", x != c && x->parent == c && y != x && y != c && y->parent == x && y->data == NULL);
	CHECK("the end of the inner let brings back the outer one", z == x); CHECK("its end brings back the scope at hand", u == c);
#elif OP == 3
	/* the callee leaves operands and two scopes behind */
	int j = 0; code[j++] = lopPushVal; code[j++] = 1; code[j++] = lopLet; code[j++] = lopLet; code[j++] = lopPushVal; code[j++] = 1; code[j++] = lopPushVal; code[j++] = 2; code[j++] = lopRet;
	l[3].type = ltLambda; l[3].vClosure = f;
	ops[k++] = lopLet; push(1); push(3); ops[k++] = lopApply; ops[k++] = 0; ops[k++] = lopClosurePush; ops[k++] = lopClosurePop; ops[k++] = lopClosurePush; push(0); ops[k++] = lopList; ops[k++] = 6; ops[k++] = lopRet;
	lVal r = vm_run_in(c, ops, k, l, nl);
	CHECK("the operands of the caller stay", raw_same(nth(r, 0), m) && raw_same(nth(r, 1), a));
	CHECK("the value of the call is what was returned", raw_same(nth(r, 2), b));
	lClosure *x = env(nth(r, 3)), *y = env(nth(r, 4));
	CHECK("the caller continues in its scope", x != c && x->parent == c && x->type == closureLet && y == c);
	CHECK("the caller continues with its own literals, where it left off", raw_same(nth(r, 5), m));
#elif OP == 9
	/* from a let in a try in a let of a called function; what follows in the function is not run */
	int j = 0; code[j++] = lopLet; code[j++] = lopPushVal; code[j++] = 3; code[j++] = lopTry; code[j++] = 0; code[j++] = 9; code[j++] = lopLet; code[j++] = lopPushVal; code[j++] = 2; code[j++] = lopRet; code[j++] = lopClosurePop; code[j++] = lopClosurePop; code[j++] = lopPushVal; code[j++] = 1; code[j++] = lopRet;
	l[3].type = ltNativeFunc; l[3].vNFunc = FW_ALLOC(sizeof(lNFunc)); l[4].type = ltLambda; l[4].vClosure = f;
	push(1); push(4); ops[k++] = lopApply; ops[k++] = 0; ops[k++] = lopClosurePush; push(0); ops[k++] = lopList; ops[k++] = 5; ops[k++] = lopRet;
	lVal r = vm_run_in(c, ops, k, l, nl);
	CHECK("the operands of the caller stay", raw_same(nth(r, 0), m) && raw_same(nth(r, 1), a));
	CHECK("the value of the call is what was returned", raw_same(nth(r, 2), b));
	CHECK("the caller continues in its scope", env(nth(r, 3)) == c); CHECK("the caller continues with its own literals, where it left off", raw_same(nth(r, 4), m));
#elif OP == 4
	ops[k++] = lopLet; push(1); ops[k++] = lopLet; push(2); ops[k++] = lopRet;
	lVal r = vm_run_in(c, ops, k, l, nl);
	CHECK("the value is what was returned", raw_same(r, b));
#elif OP == 5 || OP == 8
	lClosure *e = FW_ALLOC(sizeof(lClosure)); memset(e, 0, sizeof *e); e->type = OP == 5 ? closureLet : closureCall; lClosure was = *e;
	int j = 0; code[j++] = lopPushVal; code[j++] = 1; code[j++] = lopClosurePush; code[j++] = lopRet;
	lVal bc, ev; bc.type = ltBytecodeArr; bc.vBytecodeArr = t; ev.type = ltEnvironment; ev.vClosure = e; l[3] = bc; l[4] = ev;
	push(3); push(4); ops[k++] = OP == 5 ? lopEval : lopMutableEval; ops[k++] = lopClosurePush; push(2); ops[k++] = lopList; ops[k++] = 4; ops[k++] = lopRet;
	lVal r = vm_run_in(c, ops, k, l, nl);
	CHECK("the operands of the caller stay", raw_same(nth(r, 0), m));
	lClosure *x = env(nth(r, 1));
#if OP == 8
	CHECK("code can be run in an environment itself", x == e);
	CHECK("the environment keeps its parent and its variables", e->parent == was.parent && e->data == was.data);
#else
	CHECK("eval runs the code in a new scope inside the environment", x != e && x->parent == e && x->data == NULL && x->type == closureCall);
	CHECK("the environment is what it was", e->parent == was.parent && e->data == was.data && e->text == was.text && e->type == was.type);
#endif
	CHECK("the caller continues in its scope", env(nth(r, 2)) == c); CHECK("the caller continues with its own literals, where it left off", raw_same(nth(r, 3), b));
#else
	/* a function runs code in the scope of its caller. 6: the scope of the call; 7: a let (here without the function) */
	int j = 0; code[j++] = lopPushVal; code[j++] = 3; code[j++] = lopPushVal; code[j++] = 4; code[j++] = lopMutableEval; code[j++] = lopRet;
	static lBytecodeOp inner[4]; inner[0] = lopPushVal; inner[1] = 1; inner[2] = lopRet; lBytecodeArray *t2 = FW_ALLOC(sizeof(lBytecodeArray)); memset(t2, 0, sizeof *t2); t2->data = inner; t2->dataEnd = inner + 3; t2->literals = fl;
	l[3].type = ltBytecodeArr; l[3].vBytecodeArr = t2; l[4].type = ltEnvironment; l[4].vClosure = c; l[5].type = ltLambda; l[5].vClosure = f;
#if OP == 7
	ops[k++] = lopLet; push(3); ops[k++] = lopClosurePush; ops[k++] = lopMutableEval; ops[k++] = lopClosurePop; push(2); ops[k++] = lopList; ops[k++] = 3; ops[k++] = lopRet;
#else
	push(5); ops[k++] = lopApply; ops[k++] = 0; push(2); ops[k++] = lopList; ops[k++] = 3; ops[k++] = lopRet;
#endif
	lVal r = vm_run_in(c, ops, k, l, nl);
	lPair *p = FW_ALLOC(sizeof(lPair)); memset(p, 0, sizeof *p); lPair *q = p, *u = p;
	if(r.type == ltPair){ p = r.vList; lVal d = p->cdr; if(d.type == ltPair){ q = d.vList; d = q->cdr; if(d.type == ltPair) u = d.vList; } }
	CHECK("after code was run in its scope a function goes on where it left off", r.type == ltPair && raw_same(p->car, m) && p->cdr.type == ltPair && raw_same(q->car, a) && q->cdr.type == ltPair && raw_same(u->car, b) && u->cdr.type == ltNil);
#endif
	CHECK("a scope is left as it was", c->parent == NULL && c->data == NULL && c->type == closureCall);
	REACH("end");
}
