/* Contracts of the libc memory functions: the object sizes may be symbolic, so contents are tracked at a
 * witness offset fw_w (symbolic, so "for every offset"): a block operation defines the byte at the witness and
 * leaves the others unconstrained.  Each contract also checks its own precondition (the ranges are inside). */
#ifndef C_MEM_H
#define C_MEM_H
#ifndef FW_NATIVE
static size_t fw_w;        /* witness offset from the start of the object that is resized / copied / filled */
static bool fw_oom;        /* some allocation failed */
static void *fw_fresh(size_t n){ _Bool f; if(f || n > ((size_t)1 << 48)){ fw_oom = true; return 0; } return __CPROVER_allocate(n, 0); }
void *malloc(size_t n){ return fw_fresh(n); }
void *calloc(size_t n, size_t s){ u8 *p = fw_fresh(n * s); if(p && fw_w < n * s) p[fw_w] = 0; return p; }
void *realloc(void *o, size_t n){
	CHECK("realloc is never asked for zero bytes, which would free the block", n != 0);
	u8 *p = fw_fresh(n); if(!p) return 0;
	if(o){ size_t ol = __CPROVER_OBJECT_SIZE(o); if(fw_w < ol && fw_w < n) p[fw_w] = ((u8 *)o)[fw_w]; __CPROVER_deallocate(o); }
	return p; }
void *memset(void *d, int c, size_t n){
	CHECK("memset stays inside its object", n == 0 || __CPROVER_w_ok(d, n));
	if(n == 0) return d;
	size_t o = __CPROVER_POINTER_OFFSET(d); u8 *b = (u8 *)d - o;
	/* precise at the witness; other offsets keep or change arbitrarily */
	if(fw_w >= o && fw_w - o < n) b[fw_w] = c;
	return d; }
static size_t fw_src_w;    /* set by the harness: the source offset whose byte must arrive at the witness */
static void fw_blk(void *d, const void *s, size_t n){
	CHECK("copy: destination range is inside its object", n == 0 || __CPROVER_w_ok(d, n));
	CHECK("copy: source range is inside its object", n == 0 || __CPROVER_r_ok(s, n));
	if(n == 0) return;
	size_t o = __CPROVER_POINTER_OFFSET(d); u8 *b = (u8 *)d - o;
	if(fw_w >= o && fw_w - o < n) b[fw_w] = ((const u8 *)s)[fw_w - o];
}
void *memcpy(void *d, const void *s, size_t n){
	CHECK("memcpy: ranges do not overlap", n == 0 || !__CPROVER_same_object(d, s) || (u8 *)d + n <= (u8 *)s || (u8 *)s + n <= (u8 *)d);
	fw_blk(d, s, n); return d; }
void *memmove(void *d, const void *s, size_t n){ fw_blk(d, s, n); return d; }
#else
static size_t fw_w; static bool fw_oom;
#endif
#endif
