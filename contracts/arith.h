/* Specification of the numeric operations, independent of their implementation. */
#ifndef C_ARITH_H
#define C_ARITH_H
#include "base.h"
static inline lVal spec_float(double d, const lSymbol **exc){
	lVal v = {0}; v.type = ltFloat; v.vFloat = d; *exc = isnan(d) ? lSymFloatNaN : isinf(d) ? lSymFloatInf : NULL; return v; }
static inline lVal spec_int(u64 u){ lVal v = {0}; v.type = ltInt; v.vInt = (i64)u; return v; }
/* operands are numbers; *exc is the exception kind when the operation has to raise */
static lVal spec_num(int op, lVal a, lVal b, const lSymbol **exc){
	*exc = NULL;
	if(isI(a) && isI(b)){
		u64 x = a.vInt, y = b.vInt;
		switch(op){
		case '+': return spec_int(x + y);
		case '-': return spec_int(x - y);
		case '*': return spec_int(x * y);
		case 'R': if(y == 0){ *exc = lSymDivisionByZero; return spec_int(0); } return spec_int(b.vInt == -1 ? 0 : (u64)(a.vInt % b.vInt));
		case 'Q': if(y == 0){ *exc = lSymDivisionByZero; return spec_int(0); } return spec_int(b.vInt == -1 ? 0 - x : (u64)(a.vInt / b.vInt));
		}
	}
	double x = asD(a), y = asD(b), r = 0;
	switch(op){
	case '+': r = x + y; break;
	case '-': r = x - y; break;
	case '*': r = x * y; break;
	case '/': r = x / y; break;
	case 'R': r = fmod(x, y); break;
	}
	return spec_float(r, exc);
}
/* same result, bit for bit */
static inline bool same_bits(lVal a, lVal b){ return a.type == b.type && (a.type == ltNil || (a.type == ltBool ? a.vBool == b.vBool : a.vInt == b.vInt)); }
static inline lVal sym_kind(const char *nk, const char *n, bool others){
	uint64_t k = fw_u64(nk); ASSUME(k <= (others ? 2 : 1));
	return k == 0 ? fw_int(n) : k == 1 ? fw_float(n) : fw_other(n); }
#endif
