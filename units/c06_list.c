//@ prop: C06
//@ main: lib/generic.c
//@ stub: lPairAllocRaw lValString lValExceptionType lValExceptionArity
//@ unwind: 6
//@ cbmc: --bounds-check --pointer-check
//@ bounded: lists of at most 4 pairs, every index
//@ funcs: lGenericRef
#include FW_MAIN
#include "coll.h"
#define N 4
void harness(void){
	fw_init();
	lVal el[N], l = any_val("tail", "tv"); ASSUME(l.type != ltPair);
	unsigned n = fw_range("n", 1, N);
	for(int i = 0; i < N; i++) el[i] = any_val("et", "ev");
	lVal nil = {0};
	for(int i = N - 1; i >= 0; i--) if(i < n) l = lCons(el[i], l);
	lVal key = any_val("kt", "k");
	lVal r = lGenericRef(l, key);
	if(key.type != ltInt || key.vInt < 0) CHECK("a list index that is not a natural number raises", r.type == ltException);
	else if(key.vInt < n) CHECK("ref returns the element of the list", raw_same(r, el[key.vInt]));
	else CHECK("ref past the end of a list is nil", raw_same(r, nil));
	REACH("end");
}
