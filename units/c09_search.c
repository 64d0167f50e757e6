//@ prop: C09
//@ main: lib/string.c
//@ nf: FIRST "ltString:index-of" lnmStringIndexOf
//@ nf: LAST "ltString:last-index-of" lnmStringLastIndexOf
//@ cases: OP=0|1
//@ stub: lPairAllocRaw lValExceptionType lValExceptionArity lValString
//@ unwind: 8
//@ cbmc: --bounds-check --pointer-check --signed-overflow-check
//@ loop: lib/string.c FIRST 0 __CPROVER_loop_invariant(pos <= i && i <= haystackLength - needleLength + 1 && (M_w < pos || M_w >= i || !M[M_w])) __CPROVER_decreases(haystackLength - i)
//@ loop: lib/string.c LAST 0 __CPROVER_loop_invariant(-1 <= i && i <= pos && (M_w > pos || M_w <= i || !M[M_w])) __CPROVER_decreases(i + 1)
//@ fallback: strings of at most 6 bytes
//@ funcs: lnmStringIndexOf lnmStringLastIndexOf castToInt lFloatToInt
//@ assume: memcmp compares the two ranges it is given
/* M[i]: the needle occurs at offset i.  memcmp is the only way to find out, and only with both ranges inside. */
#ifndef FW_NATIVE
#ifdef FW_LOOPS
_Bool M[__CPROVER_constant_infinity_uint];
#endif
static long long M_w; static const char *M_hay, *M_needle; static long long M_hl, M_nl;
#endif
#include FW_MAIN
#include "coll.h"
#ifdef FW_LOOPS
int memcmp(const void *a, const void *b, size_t n){
	i64 i = __CPROVER_same_object(a, M_hay) ? (const char *)a - M_hay : (const char *)b - M_hay;
	CHECK("compares the needle with a part of the string of the same length, inside it", ((a == M_hay + i && b == M_needle) || (b == M_hay + i && a == M_needle)) && n == M_nl && i >= 0 && i <= M_hl - M_nl);
	int r; ASSUME((r == 0) == M[i]); return r; }
#define AT(i) M[i]
#define CAP MAXLEN
#else
#ifdef FW_NATIVE
#define CAP 40
#else
#define CAP 6
#endif
static const char *hay, *needle; static i64 nl_;
static bool AT(i64 i){ for(i64 j = 0; j < nl_; j++) if(hay[i + j] != needle[j]) return false; return true; }
#endif
void harness(void){
	fw_init();
	i64 hl = fw_range("hl", 0, CAP), nl = fw_range("nl", 0, CAP);
	lBuffer *h = FW_ALLOC(sizeof *h), *s = FW_ALLOC(sizeof *s);
	char *hd = FW_ALLOC(hl + 1), *sd = FW_ALLOC(nl + 1);
#ifdef FW_NATIVE
	for(i64 i = 0; i < hl; i++) hd[i] = fw_range("hb", 0, 1); for(i64 i = 0; i < nl; i++) sd[i] = fw_range("nb", 0, 1);
#endif
	h->data = hd; h->length = hl; h->flags = BUFFER_IMMUTABLE; s->data = sd; s->length = nl; s->flags = BUFFER_IMMUTABLE;
	lVal start = any_val("kt", "k"), key = any_val("nt", "n"); if(start.type == ltFloat) ASSUME(fin(start.vFloat));
	if(key.type == ltString) key.vString = s;
	i64 w = fw_range("w", 0, CAP);
#ifdef FW_LOOPS
	M_w = w; M_hay = hd; M_needle = sd; M_hl = hl; M_nl = nl;
#else
	hay = hd; needle = sd; nl_ = nl;
#endif
	i64 st = start.type == ltInt ? start.vInt : start.type == ltFloat ? (start.vFloat >= 0x1p63 ? INT64_MAX : start.vFloat < -0x1p63 ? INT64_MIN : (i64)start.vFloat) : OP ? INT64_MAX : 0;
	lVal self = lValAlloc(ltString, h);
	lVal r = OP ? LAST(self, key, start) : FIRST(self, key, start);
	if(key.type != ltString){ CHECK("only strings can be searched for", r.type == ltException); REACH("type"); return; }
	CHECK("the result is an int", r.type == ltInt);
	if(nl == 0 || nl > hl){ CHECK("an empty or longer string is never found", r.vInt < 0); REACH("never"); return; }
	bool cand = w <= hl - nl && (OP ? w <= st : w >= st);
	if(r.vInt >= 0){
		CHECK("the position is inside and on the right side of the start", r.vInt <= hl - nl && (OP ? r.vInt <= st : r.vInt >= st));
		CHECK("the string occurs there", AT(r.vInt));
		if(cand && (OP ? w > r.vInt : w < r.vInt)) CHECK("it is the closest occurrence", !AT(w));
		REACH("found");
	} else { if(cand) CHECK("nothing is missed", !AT(w)); REACH("none"); }
}
