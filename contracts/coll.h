/* Collections with symbolic sizes, and witnesses for "everything else unchanged". */
#ifndef C_COLL_H
#define C_COLL_H
#include "arith.h"
#define MAXLEN 0x7fffffffu
#ifdef FW_NATIVE
#define LEN_CAP 64   /* natively replayed objects stay small */
#else
#define LEN_CAP MAXLEN
#endif
static inline size_t fw_len(const char *n){ return fw_range(n, 0, LEN_CAP); }
static inline lVal any_val(const char *nt, const char *n){ lVal v = {0}; uint64_t t = fw_range(nt, 0, ltType); v.type = t; v.vInt = fw_i64(n); if(t == ltBool) v.vInt &= 1; return v; }
static inline lArray *mk_array(const char *nlen, u8 flags){
	size_t n = fw_len(nlen);
	lArray *a = FW_ALLOC(sizeof(lArray)); memset(a, 0, sizeof *a);
	a->data = FW_ALLOC((n + 1) * sizeof(lVal)); a->length = n; a->flags = flags; return a; }
static inline lBuffer *mk_buffer(const char *nlen, u8 flags){
	size_t n = fw_len(nlen);
	lBuffer *b = FW_ALLOC(sizeof(lBuffer)); memset(b, 0, sizeof *b);
	b->buf = FW_ALLOC(n + 1); b->length = n; b->flags = flags; return b; }
static inline bool raw_same(lVal a, lVal b){ return a.type == b.type && a.vInt == b.vInt; }
#endif
