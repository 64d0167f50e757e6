//@ prop: C15
//@ main: lib/vm.c
//@ cases: OP=1|2|3|4|5|6|7|8|9|10|11|12|13|14|15|16|17|18|19|20
//@ cases: LAMBDA=0|1
//@ stub: lPairAllocRaw lValString lGarbageCollect lClosureAllocRaw lClosureNewFunCall
//@ unwind: 11
//@ cbmc: --max-field-sensitivity-array-size 600
//@ timeout: 200
//@ funcs: lBytecodeEval exceptionWithStackTrace stackTrace
/* Exceptions. (try handler body...): the handler is a built-in procedure or (LAMBDA) a function. Every throw inside the
 * body hands the exception to the closest handler, whose value is the value of the try, with the operands and the scope
 * that were at hand when the try began; nothing that follows in the body is run. */
#include "nujel-private.h"
#ifndef FW_NATIVE
/* a call of a function (rest parameter only): proved in c14_newcall */
lClosure *stub_lClosureNewFunCall(lVal args, lVal fun){
	lClosure *c = __CPROVER_allocate(sizeof(lClosure), 1), *p = fun.vClosure; lTree *t = __CPROVER_allocate(sizeof(lTree), 1);
	t->value = args; c->data = t; c->parent = p; c->type = closureCall; lBytecodeArray *x = p->text; c->text = x; c->ip = x->data; return c; }
#endif
#include FW_MAIN
#include "coll.h"
#include "vm.h"
static lBytecodeOp ops[80], code[30], hcode[12]; static int k; static lClosure *base;
static lVal got[2], hres, failval, l[10]; static int called[2];
static lVal h1(lVal e){ got[0] = e; called[0]++; return hres; }
static lVal h2(lVal e){ got[1] = e; called[1]++; return hres; }
static lVal h3(lVal e){ got[0] = e; called[0]++; return failval; }
static lVal bad(void){ return failval; }
static void push(int i){ ops[k++] = lopPushVal; ops[k++] = i; }
static int try_(int i){ push(i); ops[k++] = lopTry; k += 2; return k; }
static void target(int at){ int off = k - (at - 3); ops[at - 2] = (off >> 8) & 255; ops[at - 1] = off & 255; }
static void apply(int i){ push(i); ops[k++] = lopApply; ops[k++] = 0; }
static lVal native(lVal (*f)(lVal)){ lNFunc *n = FW_ALLOC(sizeof(lNFunc)); memset(n, 0, sizeof *n); n->argCount = 2; n->fpV = f; lVal v; v.type = ltNativeFunc; v.vNFunc = n; return v; }
static lVal native0(lVal (*f)(void)){ lNFunc *n = FW_ALLOC(sizeof(lNFunc)); memset(n, 0, sizeof *n); n->argCount = 0; n->fp = f; lVal v; v.type = ltNativeFunc; v.vNFunc = n; return v; }
static lVal func(lBytecodeOp *d, int n){
	lArray *fl = FW_ALLOC(sizeof(lArray)); memset(fl, 0, sizeof *fl); fl->data = l; fl->length = 10;
	lBytecodeArray *t = FW_ALLOC(sizeof(lBytecodeArray)); memset(t, 0, sizeof *t); t->data = d; t->dataEnd = d + n; t->literals = fl;
	lClosure *f = FW_ALLOC(sizeof(lClosure)); memset(f, 0, sizeof *f); f->text = t; f->ip = d; f->type = closureCall;
#ifdef FW_NATIVE
	f->args.type = ltSymbol; f->args.vSymbol = &lSymbolList[40];
#endif
	lVal v; v.type = ltLambda; v.vClosure = f; return v; }
static lVal nth(lVal r, int n){ for(int i = 0; i < n; i++){ CHECK("the list has as many values as it should", r.type == ltPair); lPair *p = r.vList; r = p->cdr; } CHECK("the list has as many values as it should", r.type == ltPair); lPair *p = r.vList; return p->car; }
static lVal rest(lVal r, int n){ for(int i = 0; i < n; i++){ CHECK("the list has as many values as it should", r.type == ltPair); lPair *p = r.vList; r = p->cdr; } return r; }
/* the exception the first handler got, given the value of its try */
static lVal caught(lVal v){
#if LAMBDA
	CHECK("the value of the try is what its handler returned", v.type == ltEnvironment); lClosure *c = v.vClosure; lClosure *h = l[3].vClosure; CHECK("the handler runs in a call of its own", c->parent == h && c->type == closureCall);
	lTree *t = c->data; lVal args = t->value; lVal none = rest(args, 1); CHECK("the handler gets one argument", none.type == ltNil); return nth(args, 0);
#else
	CHECK("the handler is called once", called[0] == 1); CHECK("the value of the try is what its handler returned", raw_same(v, hres)); return got[0];
#endif
}
static void no_handler(void){ CHECK("no handler is called", called[0] == 0 && called[1] == 0); }
/* e is a list of a, b and the stack trace of n calls */
static void is_exc(lVal e, lVal a, lVal b, int n){
	CHECK("the exception is what was thrown", raw_same(nth(e, 0), a) && raw_same(nth(e, 1), b));
	lVal tr = nth(e, 2), end = rest(e, 3); CHECK("with nothing behind its stack trace", end.type == ltNil);
	for(int i = 0; i < n; i++){ lVal x = nth(tr, i); CHECK("the stack trace has the active calls", x.type == ltLambda); lClosure *xc = x.vClosure; CHECK("innermost first", xc->type == closureCall && (xc == base) == (i == n - 1)); }
	end = rest(tr, n); CHECK("and no more", end.type == ltNil);
}
static void is_raw(lVal e, lVal a){ CHECK("the exception is a list of the value", raw_same(nth(e, 0), a)); lVal end = rest(e, 1); CHECK("and nothing else", end.type == ltNil); }
static void is_kind(lVal e, const lSymbol *s){ lVal kd = nth(e, 0); CHECK("the exception is of the right kind", kd.type == ltKeyword && kd.vSymbol == s); }
void harness(void){
	fw_init(); k = 0; called[0] = called[1] = 0; got[0] = got[1] = NIL;
	lVal m = any_val("mt", "m"), a = any_val("at", "a"), b = any_val("bt", "b"), w = any_val("wt", "w"); hres = any_val("ht", "h"); ASSUME(m.type != ltException && a.type != ltException && b.type != ltException && w.type != ltException && hres.type != ltException);
#if OP == 11 || OP == 13 || OP == 17
	hres.type = ltInt;                             /* concrete, so that the paths on which a handler fails are seen to be none */
#endif
	lPair *tb = FW_ALLOC(sizeof(lPair)), *ta = FW_ALLOC(sizeof(lPair)); tb->car = b; tb->cdr = NIL; ta->car = a; ta->cdr.type = ltPair; ta->cdr.vList = tb;
	lVal exc; exc.type = ltPair; exc.vList = ta; failval = exc; failval.type = ltException;
	base = FW_ALLOC(sizeof(lClosure)); memset(base, 0, sizeof *base); base->type = closureCall;
	lVal raw; raw.vInt = fw_i64("raw"); raw.type = ltInt; int j = 0;
	for(int i = 0; i < 10; i++) l[i] = NIL;
	l[0] = m; l[1] = w; l[2] = exc; l[3] = native(h1); l[4] = native(h2); l[5] = raw;
#if LAMBDA
	/* (fn rest ...): hands back its scope, leaving operands and a scope behind */
	hcode[j++] = lopClosurePush; hcode[j++] = lopPushVal; hcode[j++] = 0; hcode[j++] = lopPushVal; hcode[j++] = 0; hcode[j++] = lopLet; hcode[j++] = lopList; hcode[j++] = 2; hcode[j++] = lopDrop; hcode[j++] = lopRet;
	l[3] = func(hcode, j); j = 0;
#endif
	lVal r; int t1, t2; lClosure *scope = NULL;
	push(0);                                       /* an operand of the surrounding code */
#if OP == 1
	/* nothing thrown */
	t1 = try_(3); push(1); ops[k++] = lopClosurePop; target(t1);
#define DONE no_handler(); CHECK("without an exception the value is that of the body", raw_same(v, w));
#elif OP == 2
	t1 = try_(3); push(0); push(0); push(5); ops[k++] = lopThrow; push(1); ops[k++] = lopClosurePop; target(t1);
#define DONE is_raw(caught(v), raw);
#elif OP == 3
	l[5] = NIL; t1 = try_(3); push(5); ops[k++] = lopThrow; push(1); ops[k++] = lopClosurePop; target(t1);
#define DONE is_raw(caught(v), NIL);
#elif OP == 4
	t1 = try_(3); push(0); push(0); push(2); ops[k++] = lopThrow; push(1); ops[k++] = lopClosurePop; target(t1);
#define DONE is_exc(caught(v), a, b, 1);
#elif OP == 5
	/* from within scopes of the body */
	t1 = try_(3); ops[k++] = lopLet; push(0); ops[k++] = lopLet; push(2); ops[k++] = lopThrow; ops[k++] = lopClosurePop; ops[k++] = lopClosurePop; ops[k++] = lopClosurePop; target(t1);
#define DONE is_exc(caught(v), a, b, 1);
#elif OP == 6
	/* the try is within a scope */
	ops[k++] = lopLet; t1 = try_(3); ops[k++] = lopLet; push(2); ops[k++] = lopThrow; ops[k++] = lopClosurePop; ops[k++] = lopClosurePop; target(t1);
#define INLET 1
#define DONE is_exc(caught(v), a, b, 1);
#elif OP == 7
	/* from within a function the body calls */
	code[j++] = lopPushVal; code[j++] = 1; code[j++] = lopLet; code[j++] = lopPushVal; code[j++] = 2; code[j++] = lopThrow; code[j++] = lopRet; l[6] = func(code, j);
	t1 = try_(3); push(0); apply(6); ops[k++] = lopClosurePop; target(t1);
#define DONE is_exc(caught(v), a, b, 2);
#elif OP == 8
	/* from within a function called by a function, in a scope of the body */
	code[j++] = lopPushVal; code[j++] = 7; code[j++] = lopApply; code[j++] = 0; code[j++] = lopRet; l[6] = func(code, j);
	code[j++] = lopLet; code[j++] = lopPushVal; code[j++] = 2; code[j++] = lopThrow; code[j++] = lopRet; l[7] = func(code + 5, j - 5);
	t1 = try_(3); ops[k++] = lopLet; apply(6); ops[k++] = lopClosurePop; ops[k++] = lopClosurePop; target(t1);
#define DONE is_exc(caught(v), a, b, 3);
#elif OP == 9
	/* a built-in procedure fails */
	l[6] = native0(bad); t1 = try_(3); push(0); apply(6); push(1); ops[k++] = lopClosurePop; target(t1);
#define DONE is_exc(caught(v), a, b, 1);
#elif OP == 10
	/* an instruction fails */
	l[6].type = ltString; t1 = try_(3); push(0); push(6); ops[k++] = lopBitNot; push(1); ops[k++] = lopClosurePop; target(t1);
#define DONE is_kind(caught(v), lSymTypeError);
#elif OP == 11
	/* the closest of two handlers */
	t1 = try_(4); push(0); t2 = try_(3); push(2); ops[k++] = lopThrow; ops[k++] = lopClosurePop; target(t2); ops[k++] = lopClosurePop; target(t1);
#define EXTRA 1
#define DONE CHECK("only the closest handler is called", called[1] == 0); is_exc(caught(v), a, b, 1);
#elif OP == 12
	/* after the inner try has ended, the outer one catches */
	t1 = try_(3); t2 = try_(4); push(0); ops[k++] = lopClosurePop; target(t2); push(2); ops[k++] = lopThrow; ops[k++] = lopClosurePop; target(t1);
#define DONE CHECK("a try that has ended catches nothing", called[1] == 0); is_exc(caught(v), a, b, 1);
#elif OP == 13
	/* so it is after the inner one has caught something */
	t1 = try_(3); push(0); t2 = try_(4); push(0); push(5); ops[k++] = lopThrow; ops[k++] = lopClosurePop; target(t2); push(2); ops[k++] = lopThrow; ops[k++] = lopClosurePop; target(t1);
#define DONE CHECK("a handler is called once", called[1] == 1); is_raw(got[1], raw); is_exc(caught(v), a, b, 1);
#elif OP == 14
	/* the inner handler fails: a built-in procedure */
	l[4] = native(h3); l[6] = native(h2); t1 = try_(6); push(0); t2 = try_(4); push(0); push(5); ops[k++] = lopThrow; ops[k++] = lopClosurePop; target(t2); push(1); ops[k++] = lopClosurePop; target(t1);
#define DONE CHECK("a failing handler is called once", called[0] == 1 && called[1] == 1); is_raw(got[0], raw); is_exc(got[1], a, b, 1); CHECK("the value of the try is what its handler returned", raw_same(v, hres));
#elif OP == 15
	/* the inner handler fails: a function */
	code[j++] = lopPushVal; code[j++] = 1; code[j++] = lopLet; code[j++] = lopPushVal; code[j++] = 2; code[j++] = lopThrow; code[j++] = lopRet; l[6] = func(code, j);
	t1 = try_(3); push(0); t2 = try_(6); push(0); push(5); ops[k++] = lopThrow; ops[k++] = lopClosurePop; target(t2); push(1); ops[k++] = lopClosurePop; target(t1);
#define DONE is_exc(caught(v), a, b, 2);
#elif OP == 16
	/* the inner handler is no procedure */
	t1 = try_(3); t2 = try_(5); push(0); push(2); ops[k++] = lopThrow; ops[k++] = lopClosurePop; target(t2); push(1); ops[k++] = lopClosurePop; target(t1);
#define DONE is_kind(caught(v), lSymTypeError);
#elif OP == 17
	/* a function with a try of its own is called from the body: it handles its own, the caller what comes after */
	code[j++] = lopPushVal; code[j++] = 4; code[j++] = lopTry; code[j++] = 0; code[j++] = 7; code[j++] = lopPushVal; code[j++] = 5; code[j++] = lopThrow; code[j++] = lopClosurePop; code[j++] = lopRet;
	l[6] = func(code, j); t1 = try_(3); push(0); apply(6); push(2); ops[k++] = lopThrow; ops[k++] = lopClosurePop; target(t1);
#define DONE CHECK("a handler is called once", called[1] == 1); is_raw(got[1], raw); is_exc(caught(v), a, b, 1);
#elif OP == 18 || OP == 19 || OP == 20
	/* nobody catches: 18 after the try has ended; 19 in a function, in a scope; 20 a bare value */
	code[j++] = lopLet; code[j++] = lopPushVal; code[j++] = 2; code[j++] = lopThrow; code[j++] = lopRet; l[6] = func(code, j);
	t1 = try_(3); push(1); ops[k++] = lopClosurePop; target(t1); ops[k++] = lopLet; push(0);
#if OP == 19
	apply(6); ops[k++] = lopRet;
#else
	push(OP == 18 ? 2 : 5); ops[k++] = lopThrow; push(1); ops[k++] = lopRet;
#endif
	r = vm_run_in(base, ops, k, l, 10); no_handler();
	CHECK("an exception nobody catches ends the evaluation", r.type == ltException); r.type = ltPair;
	if(OP == 20) is_raw(r, raw); else is_exc(r, a, b, OP == 19 ? 2 : 1);
#endif
#ifdef DONE
	ops[k++] = lopClosurePush; push(0); ops[k++] = lopList;
#ifdef EXTRA
	ops[k++] = 5;
#else
	ops[k++] = 4;
#endif
	ops[k++] = lopRet; r = vm_run_in(base, ops, k, l, 10); int n = 0;
	CHECK("the operands of the surrounding code stay", raw_same(nth(r, n++), m));
#ifdef EXTRA
	CHECK("the operands of the outer body stay", raw_same(nth(r, n++), m));
#endif
	lVal v = nth(r, n++), e = nth(r, n++); DONE
	CHECK("the surrounding code goes on in its scope", e.type == ltEnvironment); lClosure *ec = e.vClosure;
#ifdef INLET
	CHECK("the surrounding code goes on in its scope", ec != base && ec->type == closureLet && ec->parent == base);
#else
	CHECK("the surrounding code goes on in its scope", ec == base);
#endif
	CHECK("with its own literals", raw_same(nth(r, n), m)); lVal end = rest(r, n + 1); CHECK("and nothing else on the operand stack", end.type == ltNil);
#endif
	CHECK("what was thrown is left as it was", raw_same(ta->car, a) && ta->cdr.type == ltPair && ta->cdr.vList == tb && raw_same(tb->car, b) && tb->cdr.type == ltNil);
	CHECK("a scope is left as it was", base->parent == NULL && base->data == NULL && base->type == closureCall);
	REACH("end");
}
