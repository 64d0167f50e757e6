//@ prop: C08
//@ main: lib/array.c lib/core-operators.c
//@ nf: TOBC "ltArray:bytecode-array" lnmArrayToBytecodeArray
//@ nf: NEW "array/new" lnfArrNew
//@ nf: TOARR "ltBytecodeArr:array" lnmBytecodeArrayArray
//@ nf: BLEN "ltBytecodeArr:length" lnmBytecodeArrayLength
//@ nf: BLIT "ltBytecodeArr:literals" lnmBytecodeArrayLiterals
//@ cases: OP=0|1
//@ stub: lPairAllocRaw lArrayAllocRaw lBytecodeArrayAllocRaw lValExceptionType lValExceptionArity lValString
//@ unwind: 7
//@ cbmc: --bounds-check --pointer-check
//@ bounded: at most 5 elements
//@ funcs: lnfArrNew lListLength lnmArrayToBytecodeArray lValBytecodeArray lBytecodeArrayAlloc lnmBytecodeArrayArray lnmBytecodeArrayLength lnmBytecodeArrayLiterals
#include FW_MAIN
#include FW_MAIN2
#include "coll.h"
#ifndef FW_NATIVE
void exit(int c){ ASSUME(0); }
#endif
#define N 5
void harness(void){
	fw_init();
	unsigned n = fw_range("n", 0, N); lVal el[N + 1];
	for(int i = 0; i < N; i++) el[i] = any_val("et", "ev");
#if OP == 0
	lVal l = {0};
	for(int i = N - 1; i >= 0; i--) if(i < n) l = lCons(el[i], l);
	for(int i = 0; i < N; i++) ASSUME(el[i].type != ltNil);
	lVal r = NEW(l);
	CHECK("array/new has one element per argument", r.type == ltArray && r.vArray->length == n && !(r.vArray->flags & ARRAY_IMMUTABLE));
	unsigned i = fw_range("i", 0, N - 1); lVal *d = r.vArray->data;
	if(i < n) CHECK("array/new keeps every argument", raw_same(d[i], el[i]));
	REACH("new");
#else
	lArray *a = FW_ALLOC(sizeof *a); a->flags = 0; a->length = n; a->data = FW_ALLOC(sizeof el); for(int i = 0; i < N; i++) a->data[i] = el[i];
	lVal lit = any_val("lt", "l"); lArray *la = mk_array("ll", 0); if(lit.type == ltArray) lit.vArray = la;
	bool ints = true; for(int i = 0; i < N; i++) if(i < n && el[i].type != ltInt) ints = false;
	lVal r = TOBC(lValAlloc(ltArray, a), lit);
	if(!ints || lit.type != ltArray){ CHECK("bytecode-array raises on anything but ints", r.type == ltException); REACH("refused"); }
	else {
		CHECK("bytecode-array has one opcode per element", r.type == ltBytecodeArr && BLEN(r).type == ltInt && BLEN(r).vInt == n);
		CHECK("the literals are kept and become immutable", BLIT(r).type == ltArray && BLIT(r).vArray == la && (la->flags & ARRAY_IMMUTABLE));
		unsigned i = fw_range("i", 0, N - 1); lBytecodeOp *d = r.vBytecodeArr->data;
		if(i < n) CHECK("bytecode-array keeps the low byte of every element", d[i] == (u8)el[i].vInt);
		lVal b = TOARR(r);
		CHECK("array of a bytecode array has one element per opcode", b.type == ltArray && b.vArray->length == n);
		lVal *bd = b.vArray->data;
		if(i < n) CHECK("array of a bytecode array keeps every opcode", bd[i].type == ltInt && bd[i].vInt == (u8)el[i].vInt);
		REACH("converted");
	}
#endif
}
