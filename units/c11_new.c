//@ prop: C11
//@ main: lib/tree.c
//@ nf: PROC "tree/new" lnfTreeNew
//@ stub: lPairAllocRaw lTreeRootAllocRaw lTreeInsert lValString lValExceptionType lValExceptionArity
//@ inv: lib/tree.c lnfTreeNew 0 @assigns n t @havoc t->root = z_root(); n = z_list(); @inv z_done == 0 && raw_same(n, z_next) && t->root == z_tok && z_n == z_m @body z_cur = n;
//@ unwind: 6
//@ unwindset: strlen.0:80
//@ cbmc: --bounds-check --pointer-check
//@ fallback: at most 2 associations
//@ funcs: lnfTreeNew
/* tree/new inserts key and value of every pair of arguments, one after the other.  The argument list is unbounded: it
 * comes into being as the loop walks over it. */
#include "nujel-private.h"
lTree *stub_lTreeInsert(lTree *t, const lSymbol *s, lVal v);
#ifndef FW_NATIVE
static lVal z_next, z_cur; static lTree *z_tok; static int z_done, z_n, z_m; static lVal z_list(void); static lTree *z_root(void);
#endif
#include FW_MAIN
#include "coll.h"
static lVal symv(const char *nt, const char *n){ lVal v = any_val(nt, n); if(v.type == ltSymbol || v.type == ltKeyword) v.vSymbol = &lSymbolList[fw_range("sym", 0, SYM_MAX - 1)]; return v; }
#if defined FW_LOOPS && !defined FW_NATIVE
static lTree tokA, tokB;
/* the list from here on: ends, or has a key, and perhaps a value and more */
static lVal z_list(void){ lVal v = {0}; _Bool end, odd; if(end) return z_next = v;
	lPair *p = __CPROVER_allocate(sizeof(lPair), 0), *q = __CPROVER_allocate(sizeof(lPair), 0);
	p->car = symv("kt", "k"); v.type = ltPair; v.vList = p;
	q->car = any_val("vt", "v"); q->cdr.type = ltPair; q->cdr.vList = NULL; _Bool last; if(last){ q->cdr.type = ltNil; q->cdr.vInt = 0; }
	if(odd){ p->cdr.type = ltNil; p->cdr.vInt = 0; } else { p->cdr.type = ltPair; p->cdr.vList = q; }
	z_n = z_m; return z_next = v; }
static lTree *z_root(void){ _Bool e; return z_tok = e ? NULL : &tokA; }
lTree *stub_lTreeInsert(lTree *t, const lSymbol *s, lVal v){
	lVal nil = {0}; lPair *p = z_next.vList; lVal d = p->cdr, k = p->car;
	CHECK("the association goes into the tree built so far", t == z_tok);
	CHECK("the key is the next argument", k.vSymbol == s);
	if(d.type == ltPair){ lPair *q = d.vList; lVal w = q->car; CHECK("the value is the argument after it", raw_same(v, w)); z_next = q->cdr; }
	else { CHECK("a missing value is nil", raw_same(v, nil)); z_next = nil; }
	z_n++; z_m = z_n; z_tok = &tokB; return &tokB; }
#elif !defined FW_NATIVE
static lTree tok[3]; static int ni; static struct { const lSymbol *s; lVal v; } ins[3];
lTree *stub_lTreeInsert(lTree *t, const lSymbol *s, lVal v){
	CHECK("the association goes into the tree built so far", t == (ni ? &tok[ni - 1] : NULL)); CHECK("one insertion per pair", ni < 2);
	ins[ni].s = s; ins[ni].v = v; return &tok[ni++]; }
#endif
void harness(void){
	fw_init();
#if defined FW_LOOPS && !defined FW_NATIVE
	z_tok = NULL; lVal v = z_list();
	lVal r = PROC(v);
	if(r.type != ltException){
		CHECK("tree/new returns a tree", r.type == ltTree && r.vTree != NULL);
		lTreeRoot *root = r.vTree; CHECK("with everything that was inserted", root->root == z_tok);
		lVal e = {0}; if(z_next.type == ltPair){ lPair *p = z_next.vList; e = p->car; }
		CHECK("the arguments are used up", e.type == ltNil); }
	else { lVal e = {0}; if(z_next.type == ltPair){ lPair *p = z_next.vList; e = p->car; }
		CHECK("only a key that is no symbol is refused", e.type != ltSymbol && e.type != ltKeyword && e.type != ltNil); }
#else
	int n = fw_range("n", 0, 4); lVal l = {0}, a[4]; bool bad = false; int used = 0;
	for(int i = 0; i < 4; i++) a[i] = (i & 1) ? any_val("vt", "v") : symv("kt", "k");
	for(int i = 3; i >= 0; i--) if(i < n){ lPair *p = FW_ALLOC(sizeof(lPair)); p->car = a[i]; p->cdr = l; l.type = ltPair; l.vList = p; }
	for(int i = 0; i < n; i += 2){ if(a[i].type == ltNil) break; if(a[i].type != ltSymbol && a[i].type != ltKeyword){ bad = true; break; } used = i + 2; }
	lVal r = PROC(l);
	if(bad) CHECK("only a key that is no symbol is refused", r.type == ltException);
	else { CHECK("tree/new returns a tree", r.type == ltTree && r.vTree != NULL);
		lTreeRoot *root = r.vTree;
#ifndef FW_NATIVE
		CHECK("with everything that was inserted", ni * 2 == used && root->root == (ni ? &tok[ni - 1] : NULL));
		for(int i = 0; i < 4; i += 2) if(i < used){ lVal nil = {0}; CHECK("the associations are those given", ins[i / 2].s == a[i].vSymbol && raw_same(ins[i / 2].v, i + 1 < n ? a[i + 1] : nil)); }
#else
		const lSymbol *w = &lSymbolList[fw_range("w", 0, SYM_MAX - 1)]; lVal want = {0}; bool has = false;
		for(int i = 0; i < used; i += 2) if(a[i].vSymbol == w){ has = true; lVal nil = {0}; want = i + 1 < n ? a[i + 1] : nil; }
		lVal got = lTreeRef(root->root, w);
		CHECK("with everything that was inserted", has ? raw_same(got, want) : got.type == ltException);
#endif
	}
#endif
	REACH("end");
}
