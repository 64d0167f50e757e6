//@ prop: C07
//@ main: lib/generic.c
//@ stub: lPairAllocRaw lValString lValExceptionType lValExceptionArity
//@ cases: K=0|1|2|3
//@ unwind: 6
//@ cbmc: --bounds-check --pointer-check
//@ funcs: lGenericSet lBufferViewSet
#include FW_MAIN
#include "coll.h"
void harness(void){
	fw_init();
	lVal key = any_val("kt", "k"), v = any_val("vt", "v"), col;
	if(v.type == ltFloat) ASSUME(fin(v.vFloat));
	size_t w = fw_u64("w"); u8 fl = fw_u64("flags");
#if K == 0
	lArray *a = mk_array("len", fl | ARRAY_IMMUTABLE); col = lValAlloc(ltArray, a);
	if(a->length) ASSUME(w < a->length); else w = 0;
	lVal *d = a->data, old = d[w]; i64 n = a->length;
	lVal r = lGenericSet(col, key, v);
	CHECK("immutable array keeps its contents", raw_same(d[w], old) && a->data == d && a->length == n && (a->flags & ARRAY_IMMUTABLE));
#elif K == 1 || K == 2
	lBuffer *b = mk_buffer("len", fl | BUFFER_IMMUTABLE); col = lValAlloc(K == 1 ? ltBuffer : ltString, b);
	if(b->length) ASSUME(w < b->length); else w = 0;
	u8 *d = b->buf, old = d[w]; i64 n = b->length;
	lVal r = lGenericSet(col, key, v);
	CHECK("immutable buffer or string keeps its contents", d[w] == old && b->buf == d && b->length == n && (b->flags & BUFFER_IMMUTABLE));
#else
	lBuffer *b = mk_buffer("len", fl); lBufferView *vw = FW_ALLOC(sizeof *vw); memset(vw, 0, sizeof *vw);
	u8 t = fw_range("vt2", lbvtS8, lbvtF64); int sz = lBufferViewTypeSize(t);
	u64 off = fw_len("off"), vn = fw_len("vlen"); ASSUME((off + vn) * sz <= (u64)b->length);
	vw->buf = b; vw->offset = off; vw->length = vn; vw->type = t; vw->flags = BUFFER_VIEW_IMMUTABLE | fl;
	col = lValAlloc(ltBufferView, vw);
	if(b->length) ASSUME(w < b->length); else w = 0;
	u8 *d = b->buf, old = d[w]; i64 n = b->length;
	lVal r = lGenericSet(col, key, v);
	CHECK("immutable view keeps its buffer", d[w] == old && b->buf == d && b->length == n && (vw->flags & BUFFER_VIEW_IMMUTABLE));
#endif
	CHECK("set! on an immutable collection raises", r.type == ltException);
	REACH("end");
}
