//@ prop: C08
//@ main: lib/array.c
//@ nf: LEN "ltArray:length" lnmArrayLength
//@ nf: LENSET "ltArray:length!" lnmArrayLengthSet
//@ nf: HAS "ltArray:has?" lnmArrayHas
//@ nf: ALLOC "static ltArray:alloc" lnmArrayAllocate
//@ cases: OP=0|1
//@ stub: lPairAllocRaw lArrayAllocRaw lValExceptionType lValExceptionArity lValString
//@ unwind: 4
//@ cbmc: --bounds-check --pointer-check
//@ funcs: lnmArrayLength lnmArrayLengthSet lnmArrayHas lnmArrayAllocate lArrayAlloc
//@ assume: an allocation failing inside lArrayAlloc ends the process (documented behaviour)
#include FW_MAIN
#include "coll.h"
#include "mem.h"
#ifndef FW_NATIVE
void exit(int c){ ASSUME(0); }
#endif
void harness(void){
	fw_init();
	u8 fl = fw_range("flags", 0, 1);
	fw_w = fw_range("w", 0, LEN_CAP * 16ull);
	lArray *a = mk_array("len", fl); i64 n = a->length; u8 *d = (u8 *)a->data; lVal av = lValAlloc(ltArray, a);
	lVal x = any_val("xt", "x");
	u8 old = fw_w < n * 16 ? d[fw_w] : 0;
#define SAME ((u8 *)a->data == d && a->length == n && a->flags == fl && (fw_w >= n * 16 || d[fw_w] == old))
#if OP == 0
	lVal r = LENSET(av, x);
	if(r.type == ltException){ CHECK("a refused length! changes nothing", SAME);
		CHECK("length! is refused only for a reason", fl || x.type != ltInt || x.vInt < 0 || x.vInt > INT32_MAX || fw_oom); REACH("refused"); }
	else { CHECK("length! sets the length", raw_same(r, av) && x.type == ltInt && x.vInt >= 0 && a->length == x.vInt && !fl && a->flags == fl);
		u8 *nd = (u8 *)a->data; size_t nn = (size_t)x.vInt * 16;
		if(fw_w < nn){
			if(fw_w < n * 16) CHECK("length! keeps the elements", nd[fw_w] == old);
			else CHECK("length! fills with nil", nd[fw_w] == 0);
		}
		if(x.vInt > n) REACH("grown"); if(x.vInt < n) REACH("shrunk"); }
#else
	CHECK("length", LEN(av).type == ltInt && LEN(av).vInt == n);
	lVal h = HAS(av, x);
	if(x.type == ltInt) CHECK("has? tells whether the index exists", h.type == ltBool && h.vBool == (x.vInt >= 0 && x.vInt < n));
	else CHECK("has? needs an int", h.type == ltException);
	lVal r = ALLOC(av, x);
	CHECK("frame", SAME);
	if(x.type != ltInt || x.vInt < 0) CHECK("a bad size raises", r.type == ltException);
	else if(r.type == ltArray){ lArray *na = r.vArray; u8 *nd = (u8 *)na->data;
		CHECK("alloc: a mutable array of that size", na != a && nd != d && na->length == x.vInt && !(na->flags & ARRAY_IMMUTABLE));
		if(fw_w < (size_t)x.vInt * 16) CHECK("alloc: filled with nil", nd[fw_w] == 0);
		REACH("allocated"); }
	else CHECK("alloc raises only when memory runs out", r.type == ltException && (fw_oom || x.vInt > INT32_MAX));
#endif
}
