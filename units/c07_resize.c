//@ prop: C07
//@ main: lib/array.c lib/buffer.c
//@ nf: ALEN "ltArray:length!" lnmArrayLengthSet
//@ nf: BLEN "ltBuffer:length!" lnmBufferLengthSet
//@ nf: COPY "buffer/copy" lnfBufferCopy
//@ stub: lPairAllocRaw lValString lValExceptionType lValExceptionArity
//@ unwind: 4
//@ cbmc: --bounds-check --pointer-check
//@ funcs: lnmArrayLengthSet lnmBufferLengthSet lnfBufferCopy
#include FW_MAIN
#include FW_MAIN2
#include "coll.h"
#ifndef FW_NATIVE
void *realloc(void *p, size_t n){ CHECK("no resize of an immutable collection", 0); ASSUME(0); return p; }
#endif
void harness(void){
	fw_init();
	lVal arg = any_val("kt", "k"), l = any_val("lt", "l"); u8 fl = fw_u64("flags");
	lArray *a = mk_array("alen", fl | ARRAY_IMMUTABLE); lVal *ad = a->data; i64 an = a->length;
	lVal r = ALEN(lValAlloc(ltArray, a), arg);
	CHECK("length! of an immutable array raises and keeps it", r.type == ltException && a->data == ad && a->length == an);
	lBuffer *b = mk_buffer("blen", fl | BUFFER_IMMUTABLE), *src = mk_buffer("slen", fl); u8 *d = b->buf; i64 n = b->length;
	size_t w = fw_u64("w"); if(n) ASSUME(w < n); else w = 0; u8 old = d[w];
	r = BLEN(lValAlloc(ltBuffer, b), arg);
	CHECK("length! of an immutable buffer raises and keeps it", r.type == ltException && b->buf == d && b->length == n && d[w] == old);
	r = COPY(lValAlloc(ltBuffer, b), lValAlloc(ltBuffer, src), arg, l);
	CHECK("buffer/copy into an immutable buffer raises and keeps it", r.type == ltException && b->buf == d && b->length == n && d[w] == old);
	r = COPY(lValAlloc(ltString, b), lValAlloc(ltBuffer, src), arg, l);
	CHECK("buffer/copy into a string raises and keeps it", r.type == ltException && b->buf == d && b->length == n && d[w] == old);
	REACH("end");
}
