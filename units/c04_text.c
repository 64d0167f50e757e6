//@ prop: C04
//@ main: lib/val.c
//@ stub: lPairAllocRaw lValString lValExceptionType lValExceptionArity
//@ cases: K=1|2
//@ unwind: 8
//@ unwindset: strnlen.0:9
//@ cbmc: --bounds-check --pointer-check
//@ loop: lib/val.c lStringGreater 0 __CPROVER_assigns(i, ab, bb) __CPROVER_loop_invariant(i <= len && i <= T_w && ab == a->data + i && bb == b->data + i) __CPROVER_decreases(len - i)
//@ loop: lib/val.c lSymbolGreater 0 __CPROVER_assigns(i, ab, bb) __CPROVER_loop_invariant(i <= len && i <= T_w && ab == a->c + i && bb == b->c + i) __CPROVER_decreases(len - i)
//@ fallback: strings and names of at most 5 bytes
//@ funcs: lValGreater lValEqual lStringGreater lSymbolGreater
//@ assume: memcmp and strnlen behave as the C standard says
/* The two texts are equal up to T_w, where they differ or one of them ends. */
static unsigned T_w;
#include FW_MAIN
#include "coll.h"
#ifdef FW_LOOPS
static const char *X, *Y; static size_t XL, YL;
size_t strnlen(const char *s, size_t n){ CHECK("strnlen is asked about the names", (s == X || s == Y) && n == 94); return s == X ? XL : YL; }
int memcmp(const void *a, const void *b, size_t n){
	CHECK("memcmp compares the two texts within both", ((a == X && b == Y) || (a == Y && b == X)) && n <= XL && n <= YL);
	int r; if(T_w < n) ASSUME(r != 0); else ASSUME(r == 0); return r; }
#define CAP MAXLEN
#else
#ifdef FW_NATIVE
#define CAP 60
#else
#include "cmp.h"
#define CAP 5
#endif
#endif
void harness(void){
	fw_init();
	unsigned cap = K == 2 && CAP > 94 ? 94 : CAP;
	unsigned xl = fw_range("xl", 0, cap), yl = fw_range("yl", 0, cap), m = xl < yl ? xl : yl;
	unsigned w = fw_range("w", 0, m); T_w = w;
	lVal a, b; char *x, *y;
#if K == 1
	lBuffer *p = FW_ALLOC(sizeof *p), *q = FW_ALLOC(sizeof *q);
	x = FW_ALLOC(xl + 1); y = FW_ALLOC(yl + 1);
	p->data = x; p->length = xl; q->data = y; q->length = yl;
	a = lValAlloc(ltString, p); b = lValAlloc(ltString, q);
#else
	lSymbol *p = FW_ALLOC(sizeof *p), *q = FW_ALLOC(sizeof *q);
	x = p->c; y = q->c;
#ifndef FW_LOOPS
	for(unsigned i = 0; i < cap; i++){ if(i < xl && !x[i]) x[i] = 1; if(i < yl && !y[i]) y[i] = 1; }
#endif
	bool kw = fw_u64("kw") & 1;
	a = lValAlloc(kw ? ltKeyword : ltSymbol, p); b = lValAlloc(kw ? ltKeyword : ltSymbol, q);
#endif
#ifdef FW_LOOPS
	X = x; Y = y; XL = xl; YL = yl;
#endif
	/* equal up to w */
#ifdef FW_LOOPS
	memcpy(y, x, w);
#else
	for(unsigned i = 0; i < cap; i++) if(i < w) y[i] = x[i];
#endif
#if K == 2
	if(xl < 94) x[xl] = 0; if(yl < 94) y[yl] = 0;
#endif
	if(w < m){
#ifdef FW_NATIVE
		if(x[w] == y[w]) y[w] ^= 1;
#endif
		ASSUME(x[w] != y[w]); if(K == 2) ASSUME(x[w] && y[w]); }
	int want = w < m ? ((u8)x[w] < (u8)y[w] ? -1 : 1) : xl < yl ? -1 : xl > yl ? 1 : 0;
	i64 r = lValGreater(a, b);
	CHECK("texts are ordered bytewise, a proper prefix first", want < 0 ? r < 0 : want > 0 ? r > 0 : r == 0);
	CHECK("the order is antisymmetric", (r < 0) == (lValGreater(b, a) > 0) && (r == 0) == (lValGreater(b, a) == 0));
#if K == 1
	CHECK("strings are equal iff length and all bytes are", lValEqual(a, b) == (want == 0));
#endif
#ifdef FW_LOOPS
	T_w = xl; Y = X; YL = XL;
#endif
	CHECK("everything is equal to itself", lValGreater(a, a) == 0 && lValEqual(a, a));
	if(want < 0) REACH("less"); if(want > 0) REACH("greater"); if(want == 0) REACH("equal");
}
