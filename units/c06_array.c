//@ prop: C06
//@ main: lib/generic.c
//@ stub: lPairAllocRaw lValString lValExceptionType lValExceptionArity
//@ unwind: 4
//@ cbmc: --bounds-check --pointer-check --pointer-overflow-check
//@ funcs: lGenericRef lGenericSet
#include FW_MAIN
#include "coll.h"
void harness(void){
	fw_init();
	lArray *a = mk_array("len", 0);
	lVal col = lValAlloc(ltArray, a), key = any_val("kt", "k"), v = any_val("vt", "v");
	lVal *data = a->data; i64 n = a->length;
	size_t w = fw_u64("w"); if(n) ASSUME(w < n); else w = 0;
	lVal old = data[w];
	lVal r = lGenericRef(col, key);
	bool in = key.type == ltInt && key.vInt >= 0 && key.vInt < n;
	if(in){
		if(key.vInt == (i64)w) CHECK("ref returns the element at the index", raw_same(r, old));
		REACH("in");
	} else {
		CHECK("ref outside an array raises", r.type == ltException);
		CHECK("ref outside an array: kind", excKind(r) == (key.type == ltInt && key.vInt >= 0 ? lSymOutOfBounds : lSymTypeError));
		REACH("out");
	}
	CHECK("ref changes nothing", raw_same(data[w], old) && a->length == n && a->data == data);
	lVal s = lGenericSet(col, key, v);
	CHECK("set! keeps the length", a->length == n && a->data == data);
	if(in){
		CHECK("set! returns the collection", raw_same(s, col));
		CHECK("set! writes exactly the element at the index", raw_same(data[w], key.vInt == (i64)w ? v : old));
	} else {
		CHECK("set! outside an array raises and changes nothing", s.type == ltException && raw_same(data[w], old));
	}
}
