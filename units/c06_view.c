//@ prop: C06
//@ main: lib/generic.c
//@ cases: VT,SZ,SG,FL=lbvtU8,1,0,0|lbvtS8,1,1,0|lbvtU16,2,0,0|lbvtS16,2,1,0|lbvtU32,4,0,0|lbvtS32,4,1,0|lbvtS64,8,1,0|lbvtF32,4,0,1|lbvtF64,8,0,1
//@ stub: lPairAllocRaw lValString lValExceptionType lValExceptionArity
//@ unwind: 9
//@ cbmc: --bounds-check --pointer-check --pointer-overflow-check
//@ funcs: lGenericRef lGenericSet lBufferViewRef lBufferViewSet lBufferViewTypeSize requireFloat
#include FW_MAIN
#include "coll.h"
static u64 get(u8 *d, size_t at){ u64 x = 0; for(int i = SZ - 1; i >= 0; i--) x = x << 8 | d[at + i]; return x; }
static double dec(u64 x){ 
#if SZ == 4
	union { u32 u; float f; } c; c.u = x; return c.f;
#else
	union { u64 u; double f; } c; c.u = x; return c.f;
#endif
}
static u64 enc(double d){
#if SZ == 4
	union { u32 u; float f; } c; c.f = d; return c.u;
#else
	union { u64 u; double f; } c; c.f = d; return c.u;
#endif
}
void harness(void){
	fw_init();
	lBuffer *b = mk_buffer("len", 0); u8 *d = b->buf; u64 bl = b->length;
	u64 off = fw_len("off"), n = fw_len("vlen"); ASSUME((off + n) * SZ <= bl);
	lBufferView *vw = FW_ALLOC(sizeof *vw); memset(vw, 0, sizeof *vw);
	vw->buf = b; vw->offset = off; vw->length = n; vw->type = VT; vw->flags = 0;
	lVal col = lValAlloc(ltBufferView, vw), key = any_val("kt", "k"), v = any_val("vt", "v");
	if(v.type == ltFloat) ASSUME(fin(v.vFloat));
	bool in = key.type == ltInt && key.vInt >= 0 && (u64)key.vInt < n;
	size_t w = fw_u64("w"); if(bl) ASSUME(w < bl); else w = 0;
	u8 oldw = d[w];
	u64 x = in ? get(d, (off + key.vInt) * SZ) : 0;
	lVal r = lGenericRef(col, key);
	CHECK("ref changes nothing", d[w] == oldw);
	if(in){
#if FL
		double f = dec(x);
		if(fin(f)) CHECK("view ref decodes the float", r.type == ltFloat && r.vFloat == f);
		else CHECK("view ref never returns NaN or infinity", r.type == ltException);
#else
		i64 want = SG && SZ < 8 && (x >> (SZ * 8 - 1)) ? (i64)(x - (SZ < 8 ? 1ull << (SZ * 8 % 64) : 0)) : (i64)x;
		CHECK("view ref decodes the integer", r.type == ltInt && r.vInt == want);
#endif
		REACH("in");
	} else {
		CHECK("view ref outside raises", r.type == ltException);
		REACH("out");
	}
	lVal s = lGenericSet(col, key, v);
	bool ok = in && (v.type == ltInt || (FL && v.type == ltFloat));
	size_t at = in ? (off + key.vInt) * SZ : 0;
	CHECK("view set! keeps everything else", b->length == bl && b->buf == d && vw->length == n && vw->offset == off && ((ok && w >= at && w < at + SZ) || d[w] == oldw));
	if(ok){
		CHECK("view set! returns the view", raw_same(s, col));
#if FL
		CHECK("view set! encodes the float", get(d, at) == enc(asD(v)));
#else
		CHECK("view set! stores the low bits", get(d, at) == (SZ < 8 ? (u64)v.vInt & ((1ull << (SZ * 8 % 64)) - 1) : (u64)v.vInt));
#endif
	} else CHECK("a failing view set! raises", s.type == ltException);
}
