/* Ordering and equality, specified independently of lValGreater / lValEqual. */
#ifndef C_CMP_H
#define C_CMP_H
#include "base.h"
#ifndef FW_NATIVE
size_t strnlen(const char *s, size_t n){ size_t i = 0; while(i < n && s[i]) i++; return i; }
int memcmp(const void *a, const void *b, size_t n){ const unsigned char *x = a, *y = b; for(size_t i = 0; i < n; i++) if(x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
#endif
static int spec_cmp_bytes(const unsigned char *a, unsigned al, const unsigned char *b, unsigned bl){
	for(unsigned i = 0; i < al && i < bl; i++) if(a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
	return al < bl ? -1 : al > bl ? 1 : 0;
}
static int spec_cmp_int(i64 a, i64 b){ return a < b ? -1 : a > b ? 1 : 0; }
static int spec_cmp_dbl(double a, double b){ return a < b ? -1 : a > b ? 1 : 0; }
static bool pred_holds(int op, int c){
	switch(op){ case lopLessPred: return c < 0; case lopLessEqPred: return c <= 0; case lopEqualPred: return c == 0;
	case lopGreaterEqPred: return c >= 0; case lopGreaterPred: return c > 0; default: return c != 0; }
}
static lVal mk_string(const char *nlen, const char *nbyte, unsigned max){
	unsigned len = fw_range(nlen, 0, max);
	unsigned char *d = FW_ALLOC(max + 1);
	for(unsigned i = 0; i < max; i++) d[i] = fw_u64(nbyte);
	d[max] = 0;
	lBuffer *b = FW_ALLOC(sizeof(lBuffer)); b->buf = d; b->length = len; b->flags = 0;
	return lValAlloc(ltString, b);
}
#endif
