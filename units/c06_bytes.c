//@ prop: C06
//@ main: lib/generic.c
//@ cases: T=ltBuffer|ltString|ltBytecodeArr
//@ stub: lPairAllocRaw lValString lValExceptionType lValExceptionArity
//@ unwind: 4
//@ cbmc: --bounds-check --pointer-check --pointer-overflow-check
//@ funcs: lGenericRef lGenericSet
#include FW_MAIN
#include "coll.h"
void harness(void){
	fw_init();
	lVal col, key = any_val("kt", "k"), v = any_val("vt", "v"); u8 *data; i64 n;
	lBuffer *b = mk_buffer("len", 0); data = b->buf; n = b->length;
	if(T == ltBytecodeArr){ lBytecodeArray *bc = FW_ALLOC(sizeof *bc); bc->data = data; bc->dataEnd = data + n; bc->literals = NULL; bc->flags = 0; col = lValAlloc(T, bc); }
	else col = lValAlloc(T, b);
	size_t w = fw_u64("w"); if(n) ASSUME(w < n); else w = 0;
	u8 old = data[w];
	lVal r = lGenericRef(col, key);
	bool in = key.type == ltInt && key.vInt >= 0 && key.vInt < n;
	if(in){
		CHECK("ref returns an int", r.type == ltInt);
		if(key.vInt == (i64)w) CHECK("ref returns the byte at the index", r.vInt == old);
		REACH("in");
	} else {
		CHECK("ref outside raises", r.type == ltException);
		CHECK("ref outside: kind", excKind(r) == (key.type == ltInt && key.vInt >= 0 ? lSymOutOfBounds : lSymTypeError));
		REACH("out");
	}
	CHECK("ref changes nothing", data[w] == old && b->length == n && b->buf == data);
	lVal s = lGenericSet(col, key, v);
	CHECK("set! keeps the length", b->length == n && b->buf == data);
	if(in && T != ltString && v.type == ltInt){
		CHECK("set! returns the collection", raw_same(s, col));
		CHECK("set! writes exactly the byte at the index", data[w] == (key.vInt == (i64)w ? (u8)v.vInt : old));
	} else {
		CHECK("a failing set! raises and changes nothing", s.type == ltException && data[w] == old);
	}
}
