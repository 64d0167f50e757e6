//@ prop: C10
//@ main: lib/symbol.c
//@ stub: lSymS
//@ unwind: 130
//@ cbmc: --bounds-check --pointer-check
//@ funcs: lSymSL
/* A symbol named by a part of a text: the name is that part (as far as symbols store it). */
#include "nujel-private.h"
lSymbol *stub_lSymS(const char *str);
#include FW_MAIN
#include "coll.h"
static const char *txt; static uint n, k; static int calls;
#ifndef FW_NATIVE
lSymbol *stub_lSymS(const char *s){
	calls++; size_t o = __CPROVER_OBJECT_SIZE(s) - __CPROVER_POINTER_OFFSET(s);
	uint e = n < 93 ? n : 93;
	CHECK("the name handed on is long enough", e < o);
	if(k < e) CHECK("its characters are those of the text", s[k] == txt[k]);
	if(n <= 93) CHECK("and end where the text ends", s[e] == 0);
	return &lSymbolList[7]; }
#endif
void harness(void){
	fw_init();
	n = fw_range("n", 0, 100000); k = fw_range("k", 0, 93);
#ifdef FW_NATIVE
	n %= 130;
#endif
	char *b = FW_ALLOC(n + 1); txt = b;
#ifdef FW_NATIVE
	for(uint i = 0; i < n; i++) b[i] = 'a' + fw_range("c", 0, 1);
	lSymbol *r = lSymSL(b, n); CHECK("its characters are those of the text", !strncmp(r->c, b, n < 93 ? n : 93) && (n >= 93 || r->c[n] == 0)); lSymbolFree(r);
#else
	if(k < n) ASSUME(b[k] != 0);
	lSymbol *r = lSymSL(b, n);
	CHECK("the symbol of that name is returned", r == &lSymbolList[7] && calls == 1);
#endif
	REACH("end");
}
