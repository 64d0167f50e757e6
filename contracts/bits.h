/* Bit operations specified one bit at a time. */
#ifndef C_BITS_H
#define C_BITS_H
#include "arith.h"
static inline bool bit(lVal a, unsigned k){ return ((u64)a.vInt >> k) & 1; }
static inline bool shl_bit(lVal a, lVal b, unsigned k){ unsigned n = b.vInt & 63; return k >= n && bit(a, k - n); }
static inline bool shr_bit(lVal a, lVal b, unsigned k){ unsigned n = b.vInt & 63; return bit(a, k + n > 63 ? 63 : k + n); }
#define chk_bin(id, R, a, b, want, k) do{ lVal r_ = (R); \
	if(isI(a) && isI(b)) CHECK(id " bit by bit", isI(r_) && bit(r_, k) == (want)); \
	else CHECK(id " raises on a non-int", r_.type == ltException); }while(0)
#endif
