//@ prop: C07
//@ main: lib/buffer.c
//@ nf: U8 "ltBuffer:u8" lnmBufferU8
//@ nf: S8 "ltBuffer:s8" lnmBufferS8
//@ nf: U16 "ltBuffer:u16" lnmBufferU16
//@ nf: S16 "ltBuffer:s16" lnmBufferS16
//@ nf: U32 "ltBuffer:u32" lnmBufferU32
//@ nf: S32 "ltBuffer:s32" lnmBufferS32
//@ nf: S64 "ltBuffer:s64" lnmBufferS64
//@ nf: F32 "ltBuffer:f32" lnmBufferF32
//@ nf: F64 "ltBuffer:f64" lnmBufferF64
//@ nf: IMM "ltBuffer:immutable?" lnmBufferImmutable
//@ nf: VIMM "ltBufferView:immutable?" lnmBufferViewImmutable
//@ nf: VBUF "ltBufferView:buffer" lnmBufferViewBuffer
//@ nf: VLEN "ltBufferView:length" lnmBufferViewLength
//@ cases: MK,VT,SZ=U8,lbvtU8,1|S8,lbvtS8,1|U16,lbvtU16,2|S16,lbvtS16,2|U32,lbvtU32,4|S32,lbvtS32,4|S64,lbvtS64,8|F32,lbvtF32,4|F64,lbvtF64,8
//@ stub: lPairAllocRaw lValString lBufferViewAllocRaw lValExceptionType lValExceptionArity
//@ unwind: 4
//@ cbmc: --bounds-check --pointer-check
//@ funcs: bufferView lBufferViewAlloc lBufferViewData lBufferViewDataMutable lBufferDataMutable lBufferViewTypeSize lnmBufferImmutable lnmBufferViewImmutable
#include FW_MAIN
#include "coll.h"
void harness(void){
	fw_init();
	u8 fl = fw_range("flags", 0, 1);
	lBuffer *b = mk_buffer("len", fl); lVal bv = lValAlloc(ltBuffer, b), imm = any_val("it", "i"); i64 n = b->length; void *d = b->buf;
	lVal r = MK(bv, imm);
	bool want = imm.type == ltBool ? imm.vBool : imm.type != ltNil;
	if((fl & BUFFER_IMMUTABLE) && imm.type == ltBool && !imm.vBool){
		CHECK("a mutable view of an immutable buffer is refused", r.type == ltException);
		REACH("refused");
	} else {
		CHECK("a view is returned", r.type == ltBufferView);
		lBufferView *v = r.vBufferView;
		CHECK("the view covers exactly the whole elements of its buffer", v->buf == b && v->offset == 0 && v->length == (size_t)n / SZ && v->type == VT);
		CHECK("a view is mutable only if asked for and its buffer is", !!(v->flags & BUFFER_VIEW_IMMUTABLE) == (want || (fl & BUFFER_IMMUTABLE)));
		CHECK("immutable? tells the truth", VIMM(r).vBool == !!(v->flags & BUFFER_VIEW_IMMUTABLE) && IMM(bv).vBool == !!(fl & BUFFER_IMMUTABLE) && VIMM(r).type == ltBool);
		CHECK("view accessors", VLEN(r).vInt == (i64)v->length && VBUF(r).type == ltBuffer && VBUF(r).vBuffer == b);
		CHECK("writable memory is handed out only for mutable views", lBufferViewDataMutable(v) == ((v->flags & BUFFER_VIEW_IMMUTABLE) ? NULL : d));
		CHECK("readable memory is handed out for every view", lBufferViewData(v) == d && lBufferViewLength(v) == v->length * SZ);
		if(v->flags & BUFFER_VIEW_IMMUTABLE) REACH("immutable"); else REACH("mutable");
	}
	CHECK("writable memory is handed out only for mutable buffers", lBufferDataMutable(b) == (fl & BUFFER_IMMUTABLE ? NULL : d) && lBufferData(b) == d && lBufferLength(b) == (size_t)n);
	CHECK("making a view keeps the buffer", b->length == n && b->buf == d && b->flags == fl);
	MK(lValAlloc(ltString, b), imm);
}
