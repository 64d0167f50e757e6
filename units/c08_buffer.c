//@ prop: C08
//@ main: lib/buffer.c
//@ nf: ALLOC "buffer/allocate" lnfBufferAllocate
//@ nf: COPY "buffer/copy" lnfBufferCopy
//@ nf: TOSTR "buffer->string" lnfBufferToString
//@ nf: LEN "ltBuffer:length" lnmBufferLength
//@ nf: LENSET "ltBuffer:length!" lnmBufferLengthSet
//@ nf: CLONE "ltBuffer:clone" lnmBufferClone
//@ nf: CUT "ltBuffer:cut" lnmBufferCut
//@ cases: OP=0|1|2|3|4|5
//@ stub: lPairAllocRaw lBufferAllocRaw lValExceptionType lValExceptionArity
//@ unwind: 4
//@ unwindset: strlen.0:80
//@ cbmc: --bounds-check --pointer-check
//@ funcs: lnfBufferAllocate lnfBufferCopy lnfBufferToString lnmBufferLength lnmBufferLengthSet lnmBufferClone lnmBufferCut bufferFromPointer lBufferAlloc lStringNew lValStringLen castToInt lFloatToInt
//@ assume: allocation may fail at any call; a failing allocation inside lStringNew ends the process (documented behaviour)
#include FW_MAIN
#include "coll.h"
#include "mem.h"
#ifndef FW_NATIVE
void exit(int c){ ASSUME(0); }
#endif
static i64 toI(lVal v, i64 d){ return v.type == ltInt ? v.vInt : v.type == ltFloat ? (v.vFloat >= 0x1p63 ? INT64_MAX : v.vFloat < -0x1p63 ? INT64_MIN : (i64)v.vFloat) : d; }
static i64 mx(i64 a, i64 b){ return a > b ? a : b; }
static i64 mn(i64 a, i64 b){ return a < b ? a : b; }
void harness(void){
	fw_init();
	u8 fl = fw_range("flags", 0, 1);
	fw_w = fw_range("w", 0, LEN_CAP);
	lBuffer *b = mk_buffer("len", fl); i64 n = b->length; u8 *d = b->buf; lVal bv = lValAlloc(ltBuffer, b);
	lVal x = any_val("xt", "x"), y = any_val("yt", "y"); if(x.type == ltFloat) ASSUME(fin(x.vFloat)); if(y.type == ltFloat) ASSUME(fin(y.vFloat));
	u8 old = fw_w < n ? d[fw_w] : 0;
#define SAME (b->buf == d && b->length == n && b->flags == fl && (fw_w >= n || d[fw_w] == old))
#if OP == 0
	lVal r = ALLOC(x);
	CHECK("length", LEN(bv).type == ltInt && LEN(bv).vInt == n);
	if(x.type != ltInt || x.vInt < 0) CHECK("a bad size raises", r.type == ltException);
	else if(r.type == ltBuffer){ CHECK("allocate: a mutable buffer of that size", r.vBuffer->length == x.vInt && !(r.vBuffer->flags & BUFFER_IMMUTABLE) && r.vBuffer != b);
		u8 *nd = r.vBuffer->buf; if(fw_w < x.vInt) CHECK("allocate: zero filled", nd[fw_w] == 0);
		REACH("allocated"); }
	else CHECK("allocate raises only when memory runs out", r.type == ltException && (fw_oom || x.vInt > INT32_MAX));
	CHECK("frame", SAME);
#elif OP == 1
	lVal r = LENSET(bv, x);
	if(r.type == ltException){ CHECK("a refused length! changes nothing", SAME);
		CHECK("length! is refused only for a reason", fl || x.type != ltInt || x.vInt < n || x.vInt > INT32_MAX || fw_oom); REACH("refused"); }
	else { CHECK("length! sets the length", raw_same(r, bv) && x.type == ltInt && b->length == x.vInt && x.vInt >= n && !fl && b->flags == fl);
		if(fw_w < n) CHECK("length! keeps the contents", ((u8 *)b->buf)[fw_w] == old);
		else if(fw_w < x.vInt) CHECK("length! zero fills", ((u8 *)b->buf)[fw_w] == 0);
		REACH("grown"); }
#elif OP == 2
	lVal r = CLONE(bv, x);
	CHECK("frame", SAME);
	if(r.type == ltBuffer){ lBuffer *c = r.vBuffer;
		CHECK("clone is a separate buffer of the same length", c != b && c->buf != d && c->length == n);
		CHECK("clone is immutable iff asked for", !!(c->flags & BUFFER_IMMUTABLE) == (x.type == ltBool ? x.vBool : x.type != ltNil));
		u8 *nd = c->buf; if(fw_w < n) CHECK("clone copies every byte", nd[fw_w] == old);
		REACH("cloned"); }
	else CHECK("clone raises only when memory runs out", r.type == ltException && fw_oom);
#elif OP == 3
#ifndef FW_NATIVE
	ASSUME(!fw_oom);
#endif
	lVal r = CUT(bv, x, y);
	CHECK("frame", SAME);
	if(x.type != ltInt) CHECK("cut: the start has to be an int", r.type == ltException);
	else { i64 a = mx(0, x.vInt), e = y.type == ltInt ? mn(n, mx(0, y.vInt)) : n; i64 len = a < e ? e - a : 0;
		if(r.type == ltBuffer){ CHECK("cut: a separate buffer of the selected length", r.vBuffer != b && r.vBuffer->length == len && !(r.vBuffer->flags & BUFFER_IMMUTABLE));
			u8 *nd = r.vBuffer->buf; if(fw_w < len) CHECK("cut: the selected bytes", nd[fw_w] == d[a + fw_w]);
			if(len) REACH("part"); else REACH("empty"); }
		else CHECK("cut raises only when memory runs out", r.type == ltException && fw_oom); }
#elif OP == 4
	lBuffer *s = fw_u64("self") & 1 ? b : mk_buffer("slen", 0); i64 sn = s->length; u8 *sd = s->buf;
	lVal sv = any_val("st", "s"); if(sv.type == ltBuffer || sv.type == ltString) sv.vBuffer = s;
	bool src = sv.type == ltBuffer || sv.type == ltString;
	i64 len = toI(y, sn); bool good = x.type == ltInt && x.vInt >= 0 && !fl && src && len >= 0 && len <= sn && x.vInt <= n - len;
	u8 from = good && fw_w >= x.vInt && fw_w - x.vInt < len ? sd[fw_w - x.vInt] : old;
	lVal r = COPY(bv, sv, x, y);
	CHECK("copy: it fits or it raises", good ? raw_same(r, bv) : r.type == ltException);
	CHECK("copy: frame", b->buf == d && b->length == n && s->length == sn && s->buf == sd);
	if(fw_w < n) CHECK("copy: exactly the selected bytes arrive, all others stay", d[fw_w] == from);
	if(good){ REACH("copied"); } else { REACH("refused"); }
#else
	lVal r = TOSTR(bv, x, y);
	CHECK("frame", SAME);
	i64 len = mn(n, toI(x, n)), off = y.type == ltInt ? y.vInt : 0;
	if(off < 0) CHECK("->string: negative offset raises", r.type == ltException);
	else if(len < 0 && off <= len) CHECK("->string: negative length raises", r.type == ltException);
	else if(r.type == ltString){ i64 want = off < len ? len - off : 0;
		CHECK("->string: a fresh immutable string of the selected length", r.vString != b && r.vString->length == want && (r.vString->flags & BUFFER_IMMUTABLE) && r.vString->buf != d);
		const u8 *rd = r.vString->buf; u8 z = rd[want], zz = rd[fw_w < want ? fw_w : want]; CHECK("->string: NUL terminated", z == 0);
		if(fw_w < want) CHECK("->string: the selected bytes", zz == d[off + fw_w]);
		REACH("string"); }
	else CHECK("->string returns a string", r.type == ltException && len < 0);
#endif
}
