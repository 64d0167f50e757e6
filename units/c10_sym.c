//@ prop: C10
//@ main: lib/symbol.c
//@ cases: OP=1|2
//@ stub: fasthash32 lRootsSymbolPush
//@ inv: lib/symbol.c lSymbolIndexSlot 0 @assigns h firstTomb idx @havoc { uint a, b; h = a; firstTomb = b; } @inv h < SYM_MAX && hInitial == h0 && IMPLIES(present, dist(h0, h) <= dist(h0, sp)) && (firstTomb == 0xffffffff || (firstTomb < SYM_MAX && lSymbolIndex[firstTomb] < 0 && dist(h0, firstTomb) < dist(h0, h))) && IMPLIES(dist(h0, w) < dist(h0, h), lSymbolIndex[w] != 0 && IMPLIES(firstTomb == 0xffffffff, lSymbolIndex[w] > 0)) @body inst(h);
//@ fallback: probe sequences of at most 3 slots
//@ infinite: lib/symbol.c lSymbolList SYM_MAX
//@ infinite: lib/symbol.c lSymbolIndex SYM_MAX
//@ infinite: lib/symbol.c lSymbolBackIndex SYM_MAX
//@ unwind: 5
//@ cbmc: --no-pointer-check
//@ funcs: lSymS lSymbolIndexSlot lHashSymStr lSymbolFree
//@ assume: strlen, strncmp and strncpy behave as the C standard says; fasthash32 is a function of the bytes it is given
//@ assume: the first symbol ever created is a GC root and never freed
/* Interning.  The index is an open addressing hash table; what holds of every slot and every symbol is stated for
 * symbolic witnesses: slot w, symbol q, character wc.  match(i) says that the name of symbol i is the (stored part of the)
 * name looked up. */
#ifndef FW_NATIVE
#define lSymbolList fw_dummy_list
#define lSymbolMarkMap fw_dummy_map
#endif
#include "nujel-private.h"
#undef lSymbolList
#undef lSymbolMarkMap
#ifndef FW_NATIVE
static uint h0, sp, w, q, hq; static int p; static bool present; static uint N; static const char *str; static uint wc;
static uint dist(uint from, uint to){ return to >= from ? to - from : to + SYM_MAX - from; }
static void inst(uint h);
_Bool __CPROVER_uninterpreted_match(int);
#define INF __CPROVER_constant_infinity_uint
extern u8 lSymbolMarkMap[INF];
extern lSymbol lSymbolList[INF];
extern i16 lSymbolIndex[INF], lSymbolBackIndex[INF];
void exit(int c){ (void)c; CHECK("gives up only when every symbol or every slot is in use", (lSymbolMax >= SYM_MAX && lSymbolFFree == NULL) || lSymbolIndex[w] > 0); ASSUME(0); }
static char e(uint i){ return i < N && i < 93 ? str[i] : 0; }
size_t strlen(const char *s){ CHECK("the length of the name is asked for", s == str); return N; }
static int cmp(const char *a, const char *b, size_t n){
	const char *c = a == str ? b : a; CHECK("the name is compared", a == str || b == str);
	CHECK("with that of a symbol", __CPROVER_same_object(c, lSymbolList) && __CPROVER_POINTER_OFFSET(c) % sizeof(lSymbol) == 0);
	int i = __CPROVER_POINTER_OFFSET(c) / sizeof(lSymbol); bool m = __CPROVER_uninterpreted_match(i); int d; ASSUME(d != 0);
	if(m) return n <= 93 || N <= 93 ? 0 : d;
	if(n < 93){ _Bool z; if(z) return 0; }
	return d; }
int strncmp(const char *a, const char *b, size_t n){ return cmp(a, b, n); }
int strcmp(const char *a, const char *b){ return cmp(a, b, 1000); }
char *strncpy(char *d, const char *s, size_t n){ CHECK("the name is stored", s == str); 
	CHECK("in a symbol", __CPROVER_same_object(d, lSymbolList) && __CPROVER_POINTER_OFFSET(d) % sizeof(lSymbol) == 0 && __CPROVER_POINTER_OFFSET(d) / sizeof(lSymbol) < SYM_MAX && n <= sizeof(lSymbolList[0].c));
	int i = __CPROVER_POINTER_OFFSET(d) / sizeof(lSymbol); if(wc < n) lSymbolList[i].c[wc] = wc < N ? str[wc] : 0; return d; }
static u32 H;
u32 stub_fasthash32(const void *b, size_t n, u64 seed){ (void)seed; CHECK("the hash is that of the stored part of the name", b == str && n == (N < 93 ? N : 93)); return H; }
lSymbol *stub_lRootsSymbolPush(lSymbol *s){ return s; }
#endif
#include FW_MAIN
#include "coll.h"
#ifndef FW_NATIVE
static bool used(int i){ return lSymbolList[i].c[93] == 0; }
/* what the state invariant says about slot h */
static void inst(uint h){
	int idx = lSymbolIndex[h];
	ASSUME(idx > -SYM_MAX && idx <= SYM_MAX);
	if(idx > 0){ ASSUME((uint)idx <= lSymbolMax && used(idx - 1) && lSymbolBackIndex[idx - 1] == (int)h && __CPROVER_uninterpreted_match(idx - 1) == (present && idx - 1 == p)); }
	if(present){ ASSUME(IMPLIES(dist(h0, h) < dist(h0, sp), idx != 0)); }
	if(h == w) ASSUME(IMPLIES(dist(hq, w) < dist(hq, (uint)lSymbolBackIndex[q]), idx != 0));
}
static void isym(int i){ int b = lSymbolBackIndex[i]; ASSUME(i >= 0 && (uint)i < lSymbolMax && used(i) && b >= 0 && b < SYM_MAX && lSymbolIndex[b] == i + 1); }
static char qc, pc; static i16 ow, ob; static uint oActive, oMax; static lSymbol *oFree, *oNext;
static void setup(void){
	lSymbolActive = fw_range("active", 0, SYM_MAX); lSymbolMax = fw_range("max", 1, SYM_MAX);
	N = fw_range("N", 0, 1 << 20); str = FW_ALLOC(N + 1);
	w = fw_range("w", 0, SYM_MAX - 1); q = fw_range("q", 0, SYM_MAX - 1); hq = fw_range("hq", 0, SYM_MAX - 1); wc = fw_range("wc", 0, 93);
	u32 hh; H = hh; h0 = H % SYM_MAX; present = fw_u64("present") & 1;
	isym(q);
	if(present){ p = fw_range("p", 0, SYM_MAX - 1); isym(p); sp = lSymbolBackIndex[p]; ASSUME(__CPROVER_uninterpreted_match(p)); ASSUME(IMPLIES(q == (uint)p, hq == h0)); }
	ASSUME(__CPROVER_uninterpreted_match(q) == (present && q == (uint)p));
	inst(w);
	lSymbolFFree = NULL; oNext = NULL;
	if(fw_u64("free") & 1){ int f = fw_range("f", 0, SYM_MAX - 1); ASSUME((uint)f < lSymbolMax && !used(f) && lSymbolList[f].c[93] == (char)0xFF);
		int g = fw_range("g", 0, SYM_MAX - 1); ASSUME(g != f && (uint)g < lSymbolMax && !used(g));
		if(fw_u64("more") & 1) oNext = &lSymbolList[g];
		lSymbolList[f].nextFree = oNext; lSymbolFFree = &lSymbolList[f]; }
#ifndef FW_LOOPS
	for(int i = 0; i < 3; i++) inst((h0 + i) % SYM_MAX);
	ASSUME(lSymbolIndex[(h0 + 2) % SYM_MAX] == 0);
#endif
	qc = lSymbolList[q].c[wc]; ow = lSymbolIndex[w]; ob = lSymbolBackIndex[q]; oActive = lSymbolActive; oMax = lSymbolMax; oFree = lSymbolFFree; if(present) pc = lSymbolList[p].c[wc];
}
static void others(void){
	CHECK("every other symbol keeps its name", lSymbolList[q].c[wc] == qc && used(q));
	CHECK("every other symbol keeps its slot", lSymbolBackIndex[q] == ob && lSymbolIndex[ob] == (int)q + 1);
	CHECK("every other symbol can still be found", IMPLIES(dist(hq, w) < dist(hq, (uint)ob), lSymbolIndex[w] != 0));
}
#else
static const char *nm(int i){ static char t[24][120]; static bool done; static int n;
	if(!done){ done = true; for(int k = 0; n < 24; k++){ char b[120]; if(n % 8 == 7){ memset(b, 'x', 93); sprintf(b + 93, "%d", k); } else sprintf(b, "n%d", k);
		if((fasthash32(b, strlen(b) < 93 ? strlen(b) : 93, 0x5b0a159d9eac0381ULL) % SYM_MAX) / 4 == 777 || n % 8 == 7) strcpy(t[n++], b); } }
	return t[i]; }
#endif
void harness(void){
#ifdef FW_NATIVE
	fw_init();
	static lSymbol *live[24]; lSymbol *keep = lSymS("keep");
	for(int i = 0; i < 24; i++) if(live[i]){ bool two = false; for(int j = 0; j < i; j++) if(live[j] == live[i]) two = true; if(!two) lSymbolFree(live[i]); } 
	memset(live, 0, sizeof live);
	int ops = fw_range("ops", 1, 60);
	for(int k = 0; k < ops; k++){ int i = fw_range("i", 0, 23); const char *s = nm(i);
		if((fw_u64("free") & 1) && live[i]){ lSymbolFree(live[i]); lSymbol *x = live[i]; for(int j = 0; j < 24; j++) if(live[j] == x) live[j] = NULL; continue; }
		lSymbol *x = (fw_u64("sl") & 1) ? lSymSL(s, strlen(s)) : lSymS(s);
		lSymbol *want = live[i]; for(int j = 0; j < 24; j++) if(!want && live[j] && !strncmp(nm(j), s, 93)) want = live[j];
		if(want) CHECK("an existing symbol is found", x == want); else { for(int j = 0; j < 24; j++) CHECK("a new symbol takes the place of one that is not in use", x != live[j] && x != keep); }
		live[i] = x;
		CHECK("the name is stored", !strncmp(x->c, s, 93) && x->c[93] == 0); }
	for(int j = 0; j < 24; j++) if(live[j]) CHECK("every other symbol keeps its name", !strncmp(live[j]->c, nm(j), 93) && lSymS(nm(j)) == live[j]);
#else
	setup();
#if OP == 1
	lSymbol *r = lSymS(str);
	CHECK("the result is a symbol", r != NULL);
	int i = r - lSymbolList;
	if(present){
		CHECK("an existing symbol is found", i == p);
		CHECK("finding a symbol changes nothing", lSymbolIndex[w] == ow && lSymbolActive == oActive && lSymbolMax == oMax && lSymbolFFree == oFree && lSymbolList[p].c[wc] == pc);
		others();
	} else {
		CHECK("a new symbol takes the place of one that is not in use", i != (int)q && ((oFree && r == oFree && lSymbolMax == oMax && lSymbolFFree == oNext) || (!oFree && i == (int)oMax && lSymbolMax == oMax + 1 && lSymbolFFree == NULL)));
		CHECK("its place exists", i >= 0 && i < SYM_MAX && lSymbolMax <= SYM_MAX);
		CHECK("the name is stored", used(i) && lSymbolList[i].c[wc] == (wc == 93 ? 0 : e(wc)));
		CHECK("it is counted and will be marked", lSymbolActive == oActive + 1 && lSymbolMarkMap[i] == 0);
		int b = lSymbolBackIndex[i];
		CHECK("it has a slot", b >= 0 && b < SYM_MAX && lSymbolIndex[b] == i + 1);
		CHECK("which held no other symbol", IMPLIES(b == (int)w, ow <= 0));
		CHECK("and it will be found again", IMPLIES(dist(h0, w) < dist(h0, b), lSymbolIndex[w] != 0));
		CHECK("other slots keep their symbols", b == (int)w || lSymbolIndex[w] == ow);
		others();
		REACH("new");
	}
#elif OP == 2
	int s = fw_range("s", 1, SYM_MAX - 1); isym(s); ASSUME(s != (int)q);
	int b = lSymbolBackIndex[s];
	lSymbolFree(&lSymbolList[s]);
	CHECK("its slot is free but not empty", lSymbolIndex[b] < 0);
	CHECK("a freed symbol is the first to be used again", lSymbolFFree == &lSymbolList[s] && lSymbolList[s].nextFree == oFree && !used(s) && lSymbolMarkMap[s] == 2);
	CHECK("it is no longer counted", lSymbolActive == oActive - 1 && lSymbolMax == oMax);
	CHECK("other slots keep their symbols", b == (int)w || lSymbolIndex[w] == ow);
	others();
#endif
#endif
	REACH("end");
}
