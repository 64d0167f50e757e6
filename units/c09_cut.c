//@ prop: C09
//@ main: lib/string.c lib/core-operators.c
//@ nf: CUT "ltString:cut" lnmStringCut
//@ nf: BSTR "ltBuffer:lSymLTString" lnfBufferToString
//@ stub: lPairAllocRaw lBufferAllocRaw lValExceptionType lValExceptionArity
//@ unwind: 4
//@ unwindset: strlen.0:80
//@ cbmc: --bounds-check --pointer-check --signed-overflow-check
//@ funcs: lnmStringCut lValStringLen lStringNew lStringNewNoCopy lValStringNoCopy lBufferAlloc lnfBufferToString
//@ assume: an allocation failing inside lStringNew ends the process (documented behaviour)
#include FW_MAIN
#include FW_MAIN2
#include "coll.h"
#include "mem.h"
#ifndef FW_NATIVE
void exit(int c){ ASSUME(0); }
#endif
static i64 mx(i64 a, i64 b){ return a > b ? a : b; }
static i64 mn(i64 a, i64 b){ return a < b ? a : b; }
void harness(void){
	fw_init();
	fw_w = fw_range("w", 0, LEN_CAP);
	lBuffer *b = mk_buffer("len", BUFFER_IMMUTABLE); i64 n = b->length; u8 *d = b->buf; d[n] = 0; lVal bv = lValAlloc(ltString, b);
	lVal x = any_val("xt", "x"), y = any_val("yt", "y");
	lVal r = CUT(bv, x, y);
	if(x.type != ltInt) CHECK("cut: the start has to be an int", r.type == ltException);
	else {
		i64 a = mx(0, x.vInt), e = y.type == ltInt ? mn(n, mx(0, y.vInt)) : n, len = a < e ? e - a : 0;
		CHECK("cut returns a string", r.type == ltString && r.vString != NULL);
		lBuffer *s = r.vString; const u8 *sd = s->buf;
		CHECK("cut: a fresh immutable string of the selected length", s != b && s->length == len && (s->flags & BUFFER_IMMUTABLE) && sd != d);
		if(fw_w < len){ u8 z = sd[fw_w]; CHECK("cut: the selected bytes, NULs included", z == d[a + fw_w]); REACH("part"); }
		if(fw_w == len){ u8 z = sd[len]; CHECK("cut: terminated", z == 0); }
	}
	CHECK("the string cut from stays", b->length == n && b->buf == d);
	lVal c = BSTR(bv); lBuffer *cs = c.vString; const u8 *cd = cs->buf;
	CHECK("a string made from a buffer has its length", c.type == ltString && cs->length == n && (cs->flags & BUFFER_IMMUTABLE) && cd != d);
	if(fw_w < n){ u8 z = cd[fw_w]; CHECK("a string made from a buffer has its bytes", z == d[fw_w]); }
	REACH("end");
}
