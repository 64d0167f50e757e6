//@ prop: C04
//@ main: lib/vm.c
//@ stub: lPairAllocRaw lValString lGarbageCollect lValExceptionType lValExceptionArity
//@ cases: OP=lopLessPred|lopLessEqPred|lopEqualPred|lopGreaterEqPred|lopGreaterPred|lopUnequalPred
//@ cases: K=1|2
//@ unwind: 8
//@ cbmc: --max-field-sensitivity-array-size 600 --bounds-check --pointer-check
//@ timeout: 250
//@ cstub: lValGreater lValEqual
//@ fallback: strings of at most 4 bytes, symbol names of at most 4 bytes
//@ funcs: lBytecodeEval lValGreater lValEqual lStringGreater lSymbolGreater
#include FW_MAIN
#include "vm.h"
#include "cmp.h"
#include "arith.h"
#ifdef FW_LOOPS
/* contracts of lValGreater and lValEqual for texts, proved in c04_text: sign of the order, and equality iff it is 0 */
static lVal C_a, C_b; static i64 C_g;
static bool c_is(lVal a, lVal b){ return a.type == b.type && a.vPointer == b.vPointer; }
i64 stub_lValGreater(const lVal a, const lVal b){
	if(c_is(a, C_a) && c_is(b, C_b)) return C_g;
	CHECK("the two operands are compared", c_is(a, C_b) && c_is(b, C_a));
	i64 r; ASSUME((r < 0) == (C_g > 0) && (r == 0) == (C_g == 0)); return r; }
bool stub_lValEqual(const lVal a, const lVal b){ CHECK("the two operands are compared", (c_is(a, C_a) && c_is(b, C_b)) || (c_is(a, C_b) && c_is(b, C_a))); return C_g == 0; }
#endif
#define N 4
void harness(void){
	fw_init();
#ifdef FW_LOOPS
	lType ty = K == 1 ? ltString : fw_u64("kw") & 1 ? ltKeyword : ltSymbol;
	C_a = lValAlloc(ty, FW_ALLOC(8)); C_b = lValAlloc(ty, FW_ALLOC(8)); C_g = fw_i64("order");
	if(fw_u64("same") & 1){ C_b = C_a; ASSUME(C_g == 0); } else if(K == 2) ASSUME(C_g != 0); /* names are interned (C10) */
	lVal cr = vm_binop(OP, C_a, C_b);
	CHECK("text comparison instructions follow the order of texts", cr.type == ltBool && cr.vBool == pred_holds(OP, C_g < 0 ? -1 : C_g > 0));
	REACH("end");
	return;
#endif
	lVal a, b; const unsigned char *x, *y; unsigned xl, yl;
#if K == 1
	a = mk_string("alen", "abyte", N); b = mk_string("blen", "bbyte", N);
	x = (const void *)a.vString->data; y = (const void *)b.vString->data; xl = a.vString->length; yl = b.vString->length;
#else
	lSymbol *s = FW_ALLOC(sizeof(lSymbol)), *t = FW_ALLOC(sizeof(lSymbol));
	xl = fw_range("alen", 0, N); yl = fw_range("blen", 0, N);
	for(int i = 0; i <= N; i++){ s->c[i] = fw_u64("abyte"); t->c[i] = fw_u64("bbyte"); }
	for(int i = 0; i <= N; i++){ if(i < xl) ASSUME(s->c[i] != 0); else if(i == xl) ASSUME(s->c[i] == 0); if(i < yl) ASSUME(t->c[i] != 0); else if(i == yl) ASSUME(t->c[i] == 0); }
	bool kw = fw_u64("kw") & 1;
	a = lValAlloc(kw ? ltKeyword : ltSymbol, s); b = lValAlloc(kw ? ltKeyword : ltSymbol, t);
	/* names are interned (C10): equal names are the same object */
	if(fw_u64("same") & 1){ b = a; t = s; yl = xl; } else ASSUME(spec_cmp_bytes((void *)s->c, xl, (void *)t->c, yl) != 0);
	x = (const void *)s->c; y = (const void *)t->c;
#endif
	lVal r = vm_binop(OP, a, b);
	int c = spec_cmp_bytes(x, xl, y, yl);
	CHECK("text is compared bytewise, a proper prefix first", r.type == ltBool && r.vBool == pred_holds(OP, c));
	REACH("end");
}
